// C14 / C15 / C17: routes, swath containers, robot settings (long histories against plain models)
#include "gen.hpp"
using namespace gen;
using PV = std::vector<F2CPoint>;

static PV mpts(const F2CMultiPoint& m) {
  PV v;
  auto* g = const_cast<F2CMultiPoint&>(m).get();
  for (int i = 0; i < g->getNumGeometries(); ++i) { auto* p = dynamic_cast<OGRPoint*>(g->getGeometryRef(i)); v.emplace_back(p->getX(), p->getY(), p->getZ()); }
  return v;
}
static F2CMultiPoint mp(const PV& v) { F2CMultiPoint m; for (auto& p : v) m.addPoint(X(p), Y(p), Z(p)); return m; }
static bool N(double a, double b, double t = 1e-9) { return std::fabs(a - b) <= t * (1 + std::fabs(a) + std::fabs(b)); }

TEST(robot, "C17 Robot::*", 2) {
  double w = c.r.in(-4, 40) * 0.25, cw = c.r.coin(0.3) ? 0.0 : c.r.in(-4, 40) * 0.25, k = c.r.in(0, 20) * 0.1, dk = c.r.in(0, 20) * 0.05;
  if (c.r.coin(0.15)) w = c.r.coin() ? 1e-9 : -1e-9;
  c.in("width", w).in("cov_width", cw).in("max_curv", k).in("max_diff_curv", dk);
  bool thrown = false;
  F2CRobot r;
  try { r = F2CRobot(w, cw, k, dk); } catch (const std::out_of_range&) { thrown = true; }
  REQUIRE(thrown == (w <= 0 || cw < 0), "the constructor ", thrown ? "rejects" : "accepts", " widths ", w, " and ", cw);
  c.nontrivial = !thrown;
  if (thrown) return;
  std::string name;
  double cov = cw == 0 ? w : cw, cr = 1.0, tv = 0, curv = k, dcurv = dk;
  bool own = false;
  F2CRobot keep = r;
  auto check = [&](const char* after) {
    REQUIRE(r.getName() == name && r.getWidth() == w && r.getCovWidth() == cov && r.getCruiseVel() == cr && r.getTurnVel() == (own ? tv : cr), "after ", after, ": name, widths or velocities: ",
            r.getWidth(), " ", r.getCovWidth(), " ", r.getCruiseVel(), " ", r.getTurnVel());
    REQUIRE(N(r.getMaxCurv(), curv, 1e-12) && N(r.getMaxDiffCurv(), dcurv, 1e-12), "after ", after, ": curvature ", r.getMaxCurv(), " or its change ", r.getMaxDiffCurv());
    double R = r.getMinTurningRadius();
    REQUIRE(R > 0 && R * curv <= 1 + 1e-12 && R * (curv + 1e-6) >= 1 - 1e-12, "after ", after, ": turning radius ", R, " for curvature ", curv);
  };
  check("construction");
  for (int i = 0, n = c.r.in(1, 12); i < n; ++i) {
    double v = c.r.coin(0.2) ? -c.r.in(1, 40) * 0.25 : c.r.in(0, 40) * 0.25;
    int op = c.r.in(0, 8);
    c.in("set", op).in("value", v);
    switch (op) {
      case 0: name = str("r", v); r.setName(name); check("setName"); break;
      case 1: w = v; r.setWidth(v); check("setWidth"); break;
      case 2: cov = v; r.setCovWidth(v); check("setCovWidth"); break;
      case 3: cr = v; r.setCruiseVel(v); check("setCruiseVel"); break;
      case 4: tv = v; own = true; r.setTurnVel(v); check("setTurnVel"); break;
      case 5: curv = std::fabs(v); r.setMaxCurv(v); check("setMaxCurv"); break;
      case 6: dcurv = std::fabs(v); r.setMaxDiffCurv(v); check("setMaxDiffCurv"); break;
      case 7: {
        r.setMinTurningRadius(v);
        double q = r.getMaxCurv(), a = std::fabs(v);
        REQUIRE(q > 0 && q * a <= 1 + 1e-12 && q * (a + 1e-6) >= 1 - 1e-12, "curvature ", q, " for turning radius ", v);
        curv = q;
        check("setMinTurningRadius");
        if (a > 0.1) REQUIRE(std::fabs(r.getMinTurningRadius() - a) < 1e-4 * (1 + a), "turning radius ", r.getMinTurningRadius(), " instead of ", v);
        break;
      }
      default: keep = r; { F2CRobot o = keep; o.setWidth(w + 1); o.setTurnVel(77); REQUIRE(r.getWidth() == w && keep.getWidth() == w, "a copy is not independent"); } check("a copy"); break;
    }
  }
}

TEST(groups, "C15 SwathsByCells::* Swaths::*", 3) {
  int g = c.r.in(0, 5);
  F2CSwathsByCells all;
  std::vector<std::vector<SwathRec>> m;
  std::vector<SwathRec> flat;
  std::vector<int> sizes;
  for (int i = 0; i < g; ++i) {
    F2CSwaths s;
    std::vector<SwathRec> v;
    for (int j = 0, n = c.r.coin(0.25) ? 0 : c.r.in(1, 6); j < n; ++j) {
      auto q = swath(c.r, c.r.in(-20, 20));
      if (c.r.coin()) s.push_back(q); else s.emplace_back(q);
      v.push_back(rec(q));
    }
    if (c.r.coin(0.3)) { s.reverse(); std::reverse(v.begin(), v.end()); }
    if (c.r.coin()) all.push_back(s); else all.emplace_back(s);
    m.push_back(v);
    sizes.push_back((int)v.size());
  }
  if (c.r.coin(0.3)) { all.reverse(); std::reverse(m.begin(), m.end()); std::reverse(sizes.begin(), sizes.end()); }
  c.in("sizes", sizes);
  for (auto& v : m) flat.insert(flat.end(), v.begin(), v.end());
  REQUIRE(all.size() == m.size() && all.sizeTotal() == flat.size(), "sizes ", all.size(), " and ", all.sizeTotal(), " instead of ", m.size(), " and ", flat.size());
  for (size_t i = 0; i < m.size(); ++i) {
    REQUIRE(all.at(i).size() == m[i].size() && equal(recs(all.at(i)), m[i]) && equal(recs(all[i]), m[i]), "swaths of group ", i);
  }
  const auto& call = all;
  for (size_t i = 0; i < flat.size(); ++i) {
    REQUIRE(equal(rec(all.getSwath(i)), flat[i]), "swath ", i, " over all cells");
    REQUIRE(equal(rec(call.getSwath(i)), flat[i]) && &call.getSwath(i) == &all.getSwath(i), "swath ", i, " over all cells (const)");
  }
  for (size_t i : {flat.size(), flat.size() + 1, flat.size() + 7, (size_t)1 << 40}) {
    for (int k = 0; k < 2; ++k) {
      bool t = false;
      try { if (k) call.getSwath(i); else all.getSwath(i); } catch (const std::out_of_range&) { t = true; }
      REQUIRE(t, "no std::out_of_range for swath ", i, " of ", flat.size());
    }
  }
  bool t = false;
  try { all.at(m.size()); } catch (const std::out_of_range&) { t = true; }
  REQUIRE(t, "no std::out_of_range for cell ", m.size());
  REQUIRE(equal(recs(all.flatten()), flat), "flattened swaths: ", show(all.flatten()));
  auto cp = all.clone();
  REQUIRE(cp.size() == m.size() && equal(recs(cp.flatten()), flat), "clone");
  for (size_t i = 0; i < flat.size(); ++i) cp.getSwath(i).getPath().addPoint(1e5, 1e5);
  if (flat.size()) { size_t k = c.r.in(0, flat.size() - 1); cp.getSwath(k).setId(12345); }
  REQUIRE(equal(recs(all.flatten()), flat), "changing a clone changes the original");
  if (flat.size()) {
    size_t k = c.r.in(0, flat.size() - 1);
    all.getSwath(k).setId(777);
    flat[k].id = 777;
    REQUIRE(equal(recs(all.flatten()), flat), "a swath changed through its reference");
  }
  if (m.size() >= 2) {
    F2CSwaths a = all.at(0);
    a.append(all.at(1));
    auto w = recs(all.at(0)), x = recs(all.at(1));
    w.insert(w.end(), x.begin(), x.end());
    REQUIRE(equal(recs(a), w), "appended swaths");
  }
  c.nontrivial = g > 1;
}

// a route as a plain model: groups and connections
struct Model {
  std::vector<std::vector<SwathRec>> g;
  std::vector<PV> n;
  bool opens() const { return std::max<size_t>(n.size(), 1) > g.size(); }
  void first() { if (n.empty()) n.emplace_back(); }
  void conn() { if (n.size() <= g.size()) n.emplace_back(); }
  PV line() const {
    PV v;
    if (!n.empty()) v = n[0];
    for (size_t i = 0; i < g.size(); ++i) {
      for (auto& s : g[i]) v.insert(v.end(), s.p.begin(), s.p.end());
      if (n.size() > i + 1) v.insert(v.end(), n[i + 1].begin(), n[i + 1].end());
    }
    return v;
  }
};

static void judge(const F2CRoute& r, const Model& m, const std::string& after) {
  REQUIRE(r.sizeVectorSwaths() == m.g.size() && r.sizeConnections() == m.n.size(), "after ", after, ": ", r.sizeVectorSwaths(), " groups and ", r.sizeConnections(), " connections instead of ", m.g.size(), " and ", m.n.size());
  REQUIRE(r.getVectorSwaths().size() == m.g.size() && r.getConnections().size() == m.n.size(), "after ", after, ": vectors");
  for (size_t i = 0; i < m.g.size(); ++i) REQUIRE(equal(recs(r.getSwaths(i)), m.g[i]), "after ", after, ": group ", i);
  for (size_t i = 0; i < m.n.size(); ++i) REQUIRE(same(mpts(r.getConnection(i)), m.n[i]), "after ", after, ": connection ", i, " ", show(mpts(r.getConnection(i))), " instead of ", show(m.n[i]));
  if (m.g.size()) REQUIRE(equal(recs(r.getLastSwaths()), m.g.back()), "after ", after, ": last swaths");
  if (m.n.size()) REQUIRE(same(mpts(r.getLastConnection()), m.n.back()), "after ", after, ": last connection");
  REQUIRE(r.isEmpty() == (m.g.empty() && m.n.empty()), "after ", after, ": isEmpty");
  auto l = pts(r.asLineString());
  auto want = m.line();
  REQUIRE(same(l, want), "after ", after, ": as a line ", show(l), " instead of ", show(want));
  double d = 0;
  for (size_t i = 1; i < want.size(); ++i) d += dist2d(want[i - 1], want[i]);
  REQUIRE(N(r.length(), d, 1e-6), "after ", after, ": length ", r.length(), " instead of ", d);
  F2CPoint s, e;
  if (m.n.size() && m.n[0].size()) s = m.n[0][0]; else if (m.g.size() && m.g[0].size()) s = m.g[0][0].p[0];
  if (m.n.size() > m.g.size() && m.n.back().size()) e = m.n.back().back(); else if (m.g.size() && m.g.back().size()) e = m.g.back().back().p.back();
  REQUIRE(same(r.startPoint(), s), "after ", after, ": start point");
  REQUIRE(same(r.endPoint(), e), "after ", after, ": end point");
}

TEST(route, "C14 Route::*", 4) {
  F2CRoute r;
  Model m;
  std::vector<int> hist;
  judge(r, m, "construction");
  int n = c.r.in(1, 10);
  for (int i = 0; i < n; ++i) {
    auto some = [&](int lo, int hi) { PV v; for (int k = c.r.in(lo, hi); k > 0; --k) v.push_back(c.r.coin(0.2) ? pt3(c.r) : pt(c.r)); return v; };
    auto sw = [&](int lo, int hi, std::vector<SwathRec>& o) { F2CSwaths s; for (int k = c.r.in(lo, hi); k > 0; --k) { auto q = swath(c.r, c.r.in(0, 30)); s.push_back(q); o.push_back(rec(q)); } return s; };
    auto join = [&](const std::vector<SwathRec>& v) { if (m.opens()) { m.first(); m.g.push_back(v); } else m.g.back().insert(m.g.back().end(), v.begin(), v.end()); };
    int op = c.r.in(0, 9);
    hist.push_back(op);
    std::vector<SwathRec> v;
    std::string what = str("step ", i, " (operation ", op, ")");
    switch (op) {
      case 0: case 1: { auto s = sw(0, 3, v); r.addSwaths(s); join(v); break; }
      case 2: { auto s = sw(1, 1, v); r.addSwath(s.at(0)); join(v); break; }
      case 3: r.addConnection(); m.conn(); break;
      case 4: { auto p = pt(c.r); r.addConnection(p); m.conn(); m.n.back().push_back(p); break; }
      case 5: { auto p = some(0, 3); r.addConnection(mp(p)); m.conn(); m.n.back().insert(m.n.back().end(), p.begin(), p.end()); break; }
      case 6: { auto p = some(0, 3); r.addConnection(p); m.conn(); m.n.back().insert(m.n.back().end(), p.begin(), p.end()); break; }
      case 7: { auto p = some(0, 3); auto s = sw(0, 3, v); r.addConnectedSwaths(mp(p), s); m.conn(); m.n.back().insert(m.n.back().end(), p.begin(), p.end()); join(v); break; }
      case 8: {
        // through a graph in which the end of the route and the start of the swath are two of the nodes of a chain
        auto s = sw(1, 1, v);
        F2CGraph2D g;
        PV chain = {r.endPoint()};
        auto mid = some(0, 3);
        chain.insert(chain.end(), mid.begin(), mid.end());
        chain.push_back(s.at(0).startPoint());
        bool ok = true;
        for (size_t a = 0; a < chain.size(); ++a) for (size_t b = 0; b < a; ++b) if (same(chain[a], chain[b], 1e-3)) ok = false;
        if (m.g.empty() && m.n.empty()) { r.addSwath(s.at(0), g); join(v); break; }
        if (!ok || (m.g.empty() || m.g.back().empty())) { hist.back() = -1; break; }
        for (size_t a = 1; a < chain.size(); ++a) g.addEdge(chain[a - 1], chain[a], 1);
        r.addSwath(s.at(0), g);
        m.conn();
        m.n.back().insert(m.n.back().end(), chain.begin(), chain.end());
        join(v);
        break;
      }
      default:
        if (m.g.size() && c.r.coin()) { size_t k = c.r.in(0, m.g.size() - 1); auto s = sw(1, 2, v); r.setSwaths(k, s); m.g[k] = v; }
        else if (m.n.size()) { size_t k = c.r.in(0, m.n.size() - 1); auto p = some(1, 3); r.setConnection(k, mp(p)); m.n[k] = p; }
    }
    c.in("operation", op);
    judge(r, m, what);
  }
  auto k = r.clone();
  judge(k, m, "clone");
  if (k.sizeConnections()) k.getConnection(0).addPoint(9e4, 9e4);
  k.addConnection(F2CPoint(8e4, 1));
  for (size_t i = 0; i < k.sizeVectorSwaths(); ++i) for (auto& s : k.getSwaths(i)) s.getPath().addPoint(7e4, 1);
  judge(r, m, "changing a clone");
  c.nontrivial = m.g.size() > 1;
}
DRV_MAIN
