// C04 / C05: Graph and Graph2D
#include "gen.hpp"
#include "fields2cover/types/Graph.h"
#include "fields2cover/types/Graph2D.h"
using namespace gen;
using f2c::types::Graph;
using f2c::types::Graph2D;
typedef std::map<size_t, std::map<size_t, int64_t>> Edges;
static const int64_t INF = int64_t(1e15);

static Edges edges(const Graph& g) {
  Edges e;
  for (auto& a : g.getEdges()) for (auto& b : a.second) e[a.first][b.first] = b.second;
  return e;
}
static std::set<size_t> nodes(const Edges& e) {
  std::set<size_t> s;
  for (auto& a : e) { if (a.second.size()) s.insert(a.first); for (auto& b : a.second) s.insert(b.first); }
  return s;
}
// Bellman-Ford from one node
static std::map<size_t, int64_t> costs_from(const Edges& e, size_t from) {
  std::map<size_t, int64_t> d;
  d[from] = 0;
  for (bool ch = true; ch;) {
    ch = false;
    for (auto& a : e) {
      if (!d.count(a.first)) continue;
      for (auto& b : a.second) {
        int64_t x = d[a.first] + b.second;
        if (!d.count(b.first) || d[b.first] > x) { d[b.first] = x; ch = true; }
      }
    }
  }
  return d;
}
static void all_simple(const Edges& e, size_t at, size_t to, std::vector<size_t>& cur, std::set<size_t>& vis, std::set<std::vector<size_t>>& out) {
  cur.push_back(at);
  if (at == to) out.insert(cur);
  else {
    vis.insert(at);
    auto it = e.find(at);
    if (it != e.end()) for (auto& b : it->second) if (!vis.count(b.first)) all_simple(e, b.first, to, cur, vis, out);
    vis.erase(at);
  }
  cur.pop_back();
}
static std::string show(const Edges& e) {
  std::ostringstream o;
  for (auto& a : e) for (auto& b : a.second) o << a.first << "->" << b.first << ":" << b.second << " ";
  return o.str();
}
static void check_path(const Edges& e, const std::vector<size_t>& p, size_t i, size_t j, int64_t cost, const char* what) {
  REQUIRE(!p.empty(), what, ": no path from ", i, " to ", j, " although one exists");
  REQUIRE(p.front() == i && p.back() == j, what, ": path from ", i, " to ", j, " has other ends");
  int64_t s = 0;
  for (size_t k = 1; k < p.size(); ++k) {
    auto a = e.find(p[k - 1]);
    REQUIRE(a != e.end() && a->second.count(p[k]), what, ": path from ", i, " to ", j, " uses the missing edge ", p[k - 1], "->", p[k]);
    s += a->second.at(p[k]);
  }
  REQUIRE(s == cost, what, ": path from ", i, " to ", j, " costs ", s, ", the cheapest costs ", cost);
}

static void judge(Graph& g, const Edges& e, Rng& r) {
  auto ns = nodes(e);
  if (ns.empty()) return;
  int what = r.in(0, 3);
  int64_t inf = INF;
  std::vector<size_t> nv(ns.begin(), ns.end());
  std::vector<std::vector<int64_t>> costs;
  std::vector<std::vector<std::vector<size_t>>> paths;
  if (what == 0) { costs = g.getCosts(); paths = g.getPaths(); }
  else if (what == 1) { paths = g.getPaths(); costs = g.getCosts(); }
  for (size_t i : nv) {
    auto d = costs_from(e, i);
    for (size_t j : nv) {
      bool reach = d.count(j);
      int64_t c = reach ? d[j] : inf;
      if (what <= 1) {
        REQUIRE(i < costs.size() && j < costs[i].size() && i < paths.size() && j < paths[i].size(), "matrices too small for the nodes ", i, ", ", j);
        REQUIRE(costs[i][j] == c, "getCosts: cost ", i, "->", j, " is ", costs[i][j], " instead of ", c);
        if (i != j && reach) check_path(e, paths[i][j], i, j, c, "getPaths");
        else REQUIRE(paths[i][j].empty(), "getPaths: path for ", i, "->", j);
      } else {
        int64_t got = g.shortestPathCost(i, j);
        REQUIRE(got == c, "shortestPathCost(", i, ", ", j, ") = ", got, " instead of ", c);
        auto p = g.shortestPath(i, j);
        if (i != j && reach) check_path(e, p, i, j, c, "shortestPath");
        else REQUIRE(p.empty(), "shortestPath(", i, ", ", j, ") is not empty");
      }
    }
  }
}

TEST(graph_shortest, "C04 Graph::addDirectedEdge addEdge removeDirectedEdge removeEdge shortestPath shortestPathCost getCosts getPaths numEdges getEdgesFrom getCostFromEdge", 4) {
  Rng& r = c.r;
  Graph g;
  Edges model;
  size_t n = r.in(2, c.size(2, 9, 10));
  std::vector<size_t> ids;
  bool sparse = r.coin(0.3);
  for (size_t i = 0; i < n; ++i) ids.push_back(sparse ? i * r.in(1, 2) + i : i);
  long rounds = r.in(1, 4);
  auto cost = [&]() -> int64_t { return r.coin(0.2) ? r.in(0, 1) : (r.coin(0.1) ? r.in(0, 1000000000000L) : r.in(0, 20)); };
  for (long k = 0; k < rounds; ++k) {
    long ops = r.in(1, 3 + 2 * n);
    for (long o = 0; o < ops; ++o) {
      size_t a = r.pick(ids), b = r.pick(ids);
      if (a == b && !r.coin(0.1)) continue;
      int kind = r.in(0, k ? 5 : 3);
      if (kind <= 1) { auto w = cost(); c.in("directed", str(a, "->", b, ":", w)); g.addDirectedEdge(a, b, w); model[a][b] = w; }
      else if (kind <= 3) { auto w = cost(); c.in("edge", str(a, "-", b, ":", w)); g.addEdge(a, b, w); model[a][b] = w; model[b][a] = w; }
      else if (kind == 4) { c.in("remove", str(a, "->", b)); g.removeDirectedEdge(a, b); if (model.count(a)) model[a].erase(b); }
      else { c.in("removeEdge", str(a, "-", b)); g.removeEdge(a, b); if (model.count(a)) model[a].erase(b); if (model.count(b)) model[b].erase(a); }
    }
    size_t ne = 0;
    for (auto& a : model) ne += a.second.size();
    REQUIRE(g.numEdges() == ne, "numEdges ", g.numEdges(), " instead of ", ne);
    Edges e0, e = edges(g);
    for (auto& a : model) for (auto& b : a.second) e0[a.first][b.first] = b.second;
    REQUIRE(e == e0, "getEdges: ", show(e), " instead of ", show(e0));
    for (size_t i : ids) {
      auto v = g.getEdgesFrom(i);
      std::set<size_t> s(v.begin(), v.end()), s0;
      if (model.count(i)) for (auto& b : model[i]) s0.insert(b.first);
      REQUIRE(s == s0 && v.size() == s0.size(), "getEdgesFrom(", i, ")");
      for (size_t j : ids) {
        bool has = model.count(i) && model[i].count(j);
        REQUIRE(g.getCostFromEdge(i, j) == (has ? model[i][j] : INF), "getCostFromEdge(", i, ", ", j, ")");
        REQUIRE(g.getCostFromEdge(i, j, 77) == (has ? model[i][j] : 77), "getCostFromEdge(", i, ", ", j, ", 77)");
      }
    }
    judge(g, e0, r);
    if (ne > 3) c.nontrivial = true;
  }
}

TEST(graph_allpaths, "C04 Graph::allPathsBetween DFS", 2) {
  Rng& r = c.r;
  Graph g;
  Edges e;
  size_t n = r.in(2, c.size(2, 6, 10));
  long m = r.in(1, n * 2 + 1);
  for (long k = 0; k < m; ++k) {
    size_t a = r.in(0, n - 1), b = r.in(0, n - 1);
    if (a == b && !r.coin(0.1)) continue;
    g.addDirectedEdge(a, b, r.in(0, 9));
    e[a][b] = 1;
  }
  c.in("edges", show(e));
  auto ns = nodes(e);
  for (size_t i : ns) for (size_t j : ns) {
    std::set<std::vector<size_t>> want, got;
    std::vector<size_t> cur;
    std::set<size_t> vis;
    all_simple(e, i, j, cur, vis, want);
    auto ps = g.allPathsBetween(i, j);
    for (auto& p : ps) REQUIRE(got.insert(p).second, "allPathsBetween(", i, ", ", j, ") returns a path twice");
    REQUIRE(got == want, "allPathsBetween(", i, ", ", j, ") returns ", got.size(), " paths, there are ", want.size(), " simple ones (or others)");
    if (want.size() > 1) c.nontrivial = true;
  }
}

TEST(graph2d, "C05 Graph2D::addDirectedEdge addEdge removeDirectedEdge removeEdge nodeToIndex indexToNode numNodes getNodes shortestPath shortestPathCost allPathsBetween", 4) {
  Rng& r = c.r;
  Graph2D g;
  Edges model;
  std::vector<F2CPoint> cand;
  size_t n = r.in(2, c.size(2, 8, 10));
  for (size_t i = 0; i < n; ++i) {
    F2CPoint p = pt(r, 40);
    bool dup = false;
    for (auto& q : cand) dup = dup || same(p, q);
    if (!dup) cand.push_back(p);
  }
  std::vector<int> order;   // order of first appearance
  auto use = [&](int i) { if (std::find(order.begin(), order.end(), i) == order.end()) order.push_back(i); return std::find(order.begin(), order.end(), i) - order.begin(); };
  long ops = r.in(1, 3 * n);
  auto ecost = [&](const F2CPoint& a, const F2CPoint& b) { return int64_t(1e3 * dist(a, b)); };
  for (long o = 0; o < ops; ++o) {
    int ia = r.in(0, cand.size() - 1), ib = r.in(0, cand.size() - 1);
    if (ia == ib) continue;
    F2CPoint a = cand[ia], b = cand[ib];
    int kind = r.in(0, o ? 6 : 3);
    int64_t w = r.in(0, 5000);
    std::string ab = str("(", X(a), ",", Y(a), ")-(", X(b), ",", Y(b), ")");
    if (kind == 0) { g.addDirectedEdge(a, b, w); size_t x = use(ia), y = use(ib); model[x][y] = w; c.in("directed", ab + str(":", w)); }
    else if (kind == 1) { g.addEdge(a, b, w); size_t x = use(ia), y = use(ib); model[x][y] = w; model[y][x] = w; c.in("edge", ab + str(":", w)); }
    else if (kind == 2) { g.addDirectedEdge(a, b); size_t x = use(ia), y = use(ib); model[x][y] = ecost(a, b); c.in("directed", ab); }
    else if (kind == 3 || kind == 4) { g.addEdge(a, b); size_t x = use(ia), y = use(ib); model[x][y] = ecost(a, b); model[y][x] = ecost(a, b); c.in("edge", ab); }
    else {
      auto ka = std::find(order.begin(), order.end(), ia), kb = std::find(order.begin(), order.end(), ib);
      if (ka == order.end() || kb == order.end()) {
        bool thrown = false;
        try { g.removeDirectedEdge(a, b); } catch (const std::out_of_range&) { thrown = true; }
        REQUIRE(thrown, "removeDirectedEdge of an unknown node does not throw out_of_range");
        continue;
      }
      size_t x = ka - order.begin(), y = kb - order.begin();
      if (kind == 5) { c.in("remove", ab); g.removeDirectedEdge(a, b); model[x].erase(y); }
      else { c.in("removeEdge", ab); g.removeEdge(a, b); model[x].erase(y); model[y].erase(x); }
    }
    if (r.coin(0.2) && order.size() > 1) {   // queries between the changes
      size_t x = r.in(0, order.size() - 1), y = r.in(0, order.size() - 1);
      auto d = costs_from(model, x);
      if (d.count(y)) REQUIRE(g.shortestPathCost(cand[order[x]], cand[order[y]]) == d[y], "shortestPathCost after changes");
    }
  }
  size_t N = order.size();
  REQUIRE(g.numNodes() == N, "numNodes ", g.numNodes(), " instead of ", N);
  auto ns = g.getNodes();
  REQUIRE(ns.size() == N, "getNodes: ", ns.size(), " nodes instead of ", N);
  for (size_t i = 0; i < N; ++i) {
    REQUIRE(g.nodeToIndex(cand[order[i]]) == i, "nodeToIndex of the node added in place ", i, " is ", g.nodeToIndex(cand[order[i]]));
    REQUIRE(same(g.indexToNode(i), cand[order[i]]), "indexToNode(", i, ") is another point");
    bool in = false;
    for (auto& q : ns) in = in || same(q, cand[order[i]]);
    REQUIRE(in, "getNodes misses a node");
  }
  bool thrown = false;
  try { g.indexToNode(N); } catch (const std::out_of_range&) { thrown = true; }
  REQUIRE(thrown, "indexToNode past the end does not throw out_of_range");
  thrown = false;
  try { g.nodeToIndex(F2CPoint(1e5, 1e5)); } catch (const std::out_of_range&) { thrown = true; }
  REQUIRE(thrown, "nodeToIndex of an unknown point does not throw out_of_range");
  Edges e = edges(g), e0;
  for (auto& a : model) for (auto& b : a.second) e0[a.first][b.first] = b.second;
  REQUIRE(e == e0, "edges ", show(e), " instead of ", show(e0));
  if (N == 0) return;
  for (size_t i = 0; i < N; ++i) {
    auto d = costs_from(e0, i);
    for (size_t j = 0; j < N; ++j) {
      F2CPoint a = cand[order[i]], b = cand[order[j]];
      int64_t cst = g.shortestPathCost(a, b, 1 << 30);
      auto p = g.shortestPath(a, b, 1 << 30);
      if (!d.count(j)) { REQUIRE(p.empty(), "a path between nodes that are not connected"); REQUIRE(cst >= (1 << 30), "finite cost between nodes that are not connected"); continue; }
      REQUIRE(cst == d[j], "shortestPathCost between node ", i, " and ", j, " is ", cst, " instead of ", d[j]);
      if (i == j) { REQUIRE(p.empty(), "path from a node to itself"); continue; }
      std::vector<size_t> ip;
      for (auto& q : p) {
        size_t k = 0;
        while (k < N && !same(q, cand[order[k]])) ++k;
        REQUIRE(k < N, "shortestPath visits a point that is no node");
        ip.push_back(k);
      }
      check_path(e0, ip, i, j, d[j], "Graph2D::shortestPath");
    }
  }
  if (N <= 5) {
    for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) {
      std::set<std::vector<size_t>> want;
      std::vector<size_t> cur;
      std::set<size_t> vis;
      all_simple(e0, i, j, cur, vis, want);
      auto ps = g.allPathsBetween(cand[order[i]], cand[order[j]]);
      REQUIRE(ps.size() == want.size(), "allPathsBetween: ", ps.size(), " instead of ", want.size());
      for (auto& p : ps) { REQUIRE(p.size() && same(p.front(), cand[order[i]]) && same(p.back(), cand[order[j]]), "allPathsBetween: wrong ends"); }
    }
  }
  c.nontrivial = N > 2;
}

TEST(graph2d_via, "C05 Graph2D::addEdge addDirectedEdge with the costs of another graph", 1) {
  Rng& r = c.r;
  Graph2D g, h;
  size_t n = r.in(3, 7);
  std::vector<F2CPoint> p;
  for (size_t i = 0; i < n; ++i) p.push_back(F2CPoint(i * 1.5 + r.in(0, 4) * 0.25, r.in(-20, 20) * 0.5));
  Edges e;
  for (size_t i = 1; i < n; ++i) {   // connected, different costs per direction
    size_t j = r.in(0, i - 1);
    int64_t a = r.in(1, 900), b = r.in(1, 900);
    g.addDirectedEdge(p[i], p[j], a);
    g.addDirectedEdge(p[j], p[i], b);
    e[i][j] = a; e[j][i] = b;
  }
  c.in("base", show(e));
  std::set<std::pair<size_t, size_t>> done;
  for (int k = 0; k < 5; ++k) {
    size_t i = r.in(0, n - 1), j = r.in(0, n - 1);
    if (i == j) continue;
    bool both = r.coin();
    c.in(both ? "edge" : "directed", str(i, "-", j));
    if (both) h.addEdge(p[i], p[j], g); else h.addDirectedEdge(p[i], p[j], g);
    auto cost = [&](size_t x, size_t y) { return costs_from(e, x)[y]; };
    REQUIRE(h.getCostFromEdge(h.nodeToIndex(p[i]), h.nodeToIndex(p[j])) == cost(i, j), "the edge does not cost the shortest path of the other graph");
    if (both) REQUIRE(h.getCostFromEdge(h.nodeToIndex(p[j]), h.nodeToIndex(p[i])) == cost(j, i), "the reverse edge does not cost the reverse shortest path of the other graph");
    c.nontrivial = true;
  }
}
DRV_MAIN
