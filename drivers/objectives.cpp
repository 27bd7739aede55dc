// C08 / C13: objectives over cells, swaths, headlands and routes
#include "gen.hpp"
#include "fields2cover/objectives/sg_obj/sg_objective.h"
#include "fields2cover/objectives/sg_obj/n_swath.h"
#include "fields2cover/objectives/sg_obj/n_swath_modified.h"
#include "fields2cover/objectives/sg_obj/swath_length.h"
#include "fields2cover/objectives/sg_obj/overlaps.h"
#include "fields2cover/objectives/sg_obj/field_coverage.h"
#include "fields2cover/objectives/hg_obj/hg_objective.h"
#include "fields2cover/objectives/hg_obj/rem_area.h"
#include "fields2cover/objectives/rp_obj/rp_objective.h"
#include "fields2cover/objectives/rp_obj/direct_dist_path_obj.h"
#include "fields2cover/objectives/decomp_obj/decomp_objective.h"
using namespace gen;
namespace ob = f2c::obj;

// an objective of its own: costs of one swath and of one cell
struct Own : ob::SGObjective {
  using SGObjective::computeCost;
  bool mx = false;
  bool isMinimizing() const override { return !mx; }
  double computeCost(const F2CSwath& s) override { return s.getId() * 3 + s.getWidth(); }
  double computeCost(double a, double w, const F2CCell& k) override { return a * 5 + w * 7 + k.area(); }
};

TEST(sums, "C08 SGObjective::computeCost BaseObjective::computeCostWithMinimizingSign", 3) {
  Own o;
  o.mx = c.r.coin();
  F2CSwathsByCells all;
  std::vector<std::vector<double>> cs;
  int g = c.r.in(0, 4);
  for (int i = 0; i < g; ++i) {
    F2CSwaths s;
    std::vector<double> v;
    for (int j = 0, n = c.r.in(0, 5); j < n; ++j) { auto q = swath(c.r, c.r.in(-30, 30)); s.push_back(q); v.push_back(q.getId() * 3 + q.getWidth()); }
    all.push_back(s);
    cs.push_back(v);
  }
  std::vector<CellSpec> ks;
  F2CCells cells;
  double area_ = 0;
  for (int i = 0, n = c.r.in(0, 4); i < n; ++i) { ks.push_back(cellspec(c.r, 8, true, i * 40, 0)); cells.addGeometry(cell(ks.back())); area_ += area(ks.back()); c.in("cell", show(ks.back())); }
  for (auto& v : cs) c.in("costs", v);
  double tot = 0;
  size_t m = 0;
  auto N = [](double a, double b) { return std::fabs(a - b) < 1e-6 * (1 + std::fabs(a) + std::fabs(b)); };
  double sg = o.mx ? -1 : 1;
  REQUIRE(o.isMaximizing() == o.mx && o.isMinimizing() == !o.mx, "isMinimizing/isMaximizing");
  for (int i = 0; i < g; ++i) {
    double one = 0;
    for (size_t j = 0; j < cs[i].size(); ++j) {
      one += cs[i][j];
      auto& s = all.at(i).at(j);
      REQUIRE(N(o.computeCostWithMinimizingSign(s), sg * cs[i][j]), "sign, one swath");
      if (ks.size()) { REQUIRE(N(o.computeCost(cells.getGeometry(0), s), area(ks[0]) + cs[i][j]), "cost of a cell and a swath"); }
      REQUIRE(N(o.computeCost(cells, s), area_ + cs[i][j]), "cost of cells and a swath");
    }
    REQUIRE(N(o.computeCost(all.at(i)), one), "cost of the swaths of cell ", i, " is ", o.computeCost(all.at(i)), " instead of ", one);
    if (ks.size()) {
      double w = one + cs[i].size() * area(ks[0]);
      REQUIRE(N(o.computeCost(cells.getGeometry(0), all.at(i)), w), "cost of a cell and swaths is ", o.computeCost(cells.getGeometry(0), all.at(i)), " instead of ", w);
      REQUIRE(N(o.computeCostWithMinimizingSign(cells.getGeometry(0), all.at(i)), sg * w), "sign, a cell and swaths");
    }
    REQUIRE(N(o.computeCost(cells, all.at(i)), one + cs[i].size() * area_), "cost of cells and swaths");
    tot += one;
    m += cs[i].size();
  }
  REQUIRE(N(o.computeCost(all), tot), "cost of all swaths is ", o.computeCost(all), " instead of ", tot);
  REQUIRE(N(o.computeCostWithMinimizingSign(all), sg * tot), "sign, all swaths");
  if (ks.size()) REQUIRE(N(o.computeCost(cells.getGeometry(0), all), tot + m * area(ks[0])), "cost of a cell and all swaths");
  REQUIRE(N(o.computeCost(cells, all), tot + m * area_), "cost of cells and all swaths");
  REQUIRE(N(o.computeCost(cells), area_), "cost of cells is ", o.computeCost(cells), " instead of ", area_);
  for (size_t i = 0; i < ks.size(); ++i) {
    REQUIRE(N(o.computeCost(cells.getGeometry(i)), area(ks[i])), "cost of cell ", i);
    double a = c.r.real(-5, 5), w = c.r.real(0.5, 5);
    REQUIRE(N(o.computeCostWithMinimizingSign(a, w, cells.getGeometry(i)), sg * (a * 5 + w * 7 + area(ks[i]))), "sign, angle");
  }
  // objectives of the library
  ob::NSwath n;
  ob::SwathLength l;
  ob::SGObjective base;
  REQUIRE(n.computeCost(all) == m && n.computeCost(cells, all) == m, "number of swaths is ", n.computeCost(all), " instead of ", m);
  double len = 0;
  for (int i = 0; i < g; ++i) {
    double one = 0;
    for (size_t j = 0; j < all.at(i).size(); ++j) { auto p = pts(all.at(i).at(j).getPath()); double d = 0; for (size_t k = 1; k < p.size(); ++k) d += dist2d(p[k], p[k - 1]); REQUIRE(N(l.computeCost(all.at(i).at(j)), d), "length of a swath"); REQUIRE(n.computeCost(all.at(i).at(j)) == 1, "one swath"); one += d; }
    REQUIRE(n.computeCost(all.at(i)) == cs[i].size(), "number of swaths of a cell");
    REQUIRE(N(l.computeCost(all.at(i)), one), "length of swaths");
    len += one;
    REQUIRE(base.computeCost(all.at(i)) == 0, "base objective");
  }
  REQUIRE(N(l.computeCost(all), len), "length of all swaths");
  REQUIRE(base.computeCost(all) == 0 && base.computeCost(cells) == 0 && base.computeCost(cells, all) == 0, "base objective");
  REQUIRE(n.isMinimizing() && l.isMinimizing() && !n.isMaximizing() && !l.isFastCompAvailable() && !n.isFastCompAvailable() && !base.isFastCompAvailable(), "kind of objective");
  REQUIRE(ob::DecompObjective().computeCost(cells) == 0 && ob::DecompObjective().isMinimizing(), "decomposition objective");
  c.nontrivial = m > 1;
}

TEST(turns, "C08 NSwathModified::computeCost", 2) {
  CellSpec cs = cellspec(c.r, c.r.in(3, 20), true);
  double a = c.r.coin(0.2) ? c.r.in(-8, 8) * 0.7853981633974483 : c.r.real(-9, 9), w = c.r.in(1, 30) * 0.25;
  c.in("cell", show(cs)).in("angle", a).in("width", w);
  ob::NSwathModified o;
  double want = 0;
  for (auto& p : cs.rings) for (size_t i = 0; i < p.size(); ++i) {
    auto u = p[i], v = p[(i + 1) % p.size()];
    // extent of the edge across the swaths
    want += std::fabs((v.second - u.second) * std::cos(a) - (v.first - u.first) * std::sin(a));
  }
  want /= 2 * w;
  double got = o.computeCost(a, w, cell(cs));
  REQUIRE(std::fabs(got - want) < 1e-6 * (1 + want), "cost is ", got, " instead of ", want);
  REQUIRE(o.isMinimizing() && o.isFastCompAvailable(), "kind of objective");
  REQUIRE(o.computeCost(a, 0.0, cell(cs)) == 0 && o.computeCost(a, -w, cell(cs)) == 0 && o.computeCost(a, w, F2CCell()) == 0, "cost without width or cell");
  c.nontrivial = true;
}

TEST(coverage, "C08 FieldCoverage::computeCost Overlaps::computeCost", 3) {
  // rectangles side by side; swaths run far beyond them
  int nc = c.r.in(1, 3);
  double w0 = c.r.in(4, 60) * 0.25, h = c.r.in(4, 60) * 0.25;
  F2CCells cells;
  double tot = 0, span = 0;
  for (int i = 0; i < nc; ++i) { double x = i * 20; cells.addGeometry(cell(CellSpec{{rect(x, 0, x + w0, h)}})); tot += w0 * h; span += w0; }
  double w = c.r.in(1, 12) * 0.5;
  F2CSwaths s;
  std::vector<std::pair<double, double>> iv;
  std::vector<double> ys;
  for (int i = 0, n = c.r.in(0, 6); i < n; ++i) {
    double y = c.r.in(-8, (long)(4 * h) + 8) * 0.25;
    F2CLineString l = c.r.coin() ? F2CLineString({F2CPoint(-100, y), F2CPoint(200, y)}) : F2CLineString({F2CPoint(200, y), F2CPoint(-100, y)});
    s.emplace_back(l, w, i);
    iv.push_back({std::max(0.0, y - w / 2), std::min(h, y + w / 2)});
    ys.push_back(y);
  }
  c.in("cells", nc).in("width of a cell", w0).in("height", h).in("swath width", w).in("y", ys);
  // union, pairs
  auto q = iv;
  std::sort(q.begin(), q.end());
  double uni = 0, end = 0, pairs = 0;
  for (auto& p : q) { if (p.second > std::max(end, p.first)) { uni += p.second - std::max(end, p.first); end = p.second; } }
  for (size_t i = 0; i < iv.size(); ++i) for (size_t j = 0; j < i; ++j) pairs += std::max(0.0, std::min(iv[i].second, iv[j].second) - std::max(iv[i].first, iv[j].first));
  ob::FieldCoverage fc;
  ob::Overlaps ov;
  REQUIRE(!fc.isMinimizing() && fc.isMaximizing() && ov.isMinimizing(), "kind of objective");
  double got = fc.computeCost(cells, s), want = uni * span / tot;
  REQUIRE(std::fabs(got - want) < 1e-6, "coverage is ", got, " instead of ", want);
  REQUIRE(std::fabs(fc.computeCostWithMinimizingSign(cells, s) + want) < 1e-6, "coverage with sign");
  REQUIRE(std::fabs(fc.computeCost(cells.getGeometry(0), s) - want) < 1e-6, "coverage of one cell");
  got = ov.computeCost(cells, s);
  want = pairs * span / tot;
  REQUIRE(std::fabs(got - want) < 1e-6, "overlap is ", got, " instead of ", want);
  REQUIRE(std::fabs(ov.computeCost(cells.getGeometry(0), s) - want) < 1e-6, "overlap in one cell");
  c.nontrivial = iv.size() > 1;
}

TEST(headland, "C08 HGObjective::computeCost RemArea", 1) {
  F2CCells total, rem;
  double a = 0, b = 0;
  int n = c.r.in(1, 3);
  for (int i = 0; i < n; ++i) {
    double w = c.r.in(4, 60) * 0.25, h = c.r.in(4, 60) * 0.25, d = c.r.in(0, 8) * 0.25;
    total.addGeometry(cell(CellSpec{{rect(i * 30, 0, i * 30 + w, h)}}));
    a += w * h;
    if (2 * d < w && 2 * d < h) { rem.addGeometry(cell(CellSpec{{rect(i * 30 + d, d, i * 30 + w - d, h - d)}})); b += (w - 2 * d) * (h - 2 * d); }
  }
  c.in("total", a).in("remaining", b);
  ob::HGObjective o;
  ob::RemArea r;
  REQUIRE(!r.isMinimizing() && r.isMaximizing() && o.isMinimizing() && !o.isMaximizing(), "kind of objective");
  double want = b / a;
  auto ok = [&](double x, double y) { return std::fabs(x - y) < 1e-9; };
  REQUIRE(ok(o.computeCost(total, rem), want) && ok(r.computeCost(total, rem), want), "remaining share is ", o.computeCost(total, rem), " instead of ", want);
  REQUIRE(ok(r.computeCostWithMinimizingSign(total, rem), -want) && ok(o.computeCostWithMinimizingSign(total, rem), want), "sign");
  if (n == 1) {
    F2CCell t = total.getGeometry(0);
    REQUIRE(ok(o.computeCost(t, rem), want), "one cell");
    if (rem.size()) { REQUIRE(ok(o.computeCost(t, rem.getGeometry(0)), want) && ok(o.computeCost(total, rem.getGeometry(0)), want), "one cell and one remaining"); }
  }
  c.nontrivial = b > 0 && b < a;
}

// ---------------------------------------------------------------- routes
struct Rp : ob::RPObjective {
  using RPObjective::computeCost;
  static double f(const F2CPoint& p, const F2CPoint& q, double s) { return s * (X(p) * 3 + Y(p) * 5 - X(q) * 2 + Y(q) * 7 + Z(p) * 11 - Z(q) * 13); }
  double computeCost(const F2CPoint& p, const F2CPoint& q) override { return f(p, q, 1); }
  double computeCost(const F2CPoint& p, double a, const F2CPoint& q) override { return f(p, q, 2) + 100 * a; }
  double computeCost(const F2CPoint& p, const F2CPoint& q, double b) override { return f(p, q, 3) + 1000 * b; }
  double computeCost(const F2CPoint& p, double a, const F2CPoint& q, double b) override { return f(p, q, 4) + 10000 * a + 100000 * b; }
};

static double ang(const F2CPoint& p, const F2CPoint& q) { double a = std::atan2(Y(q) - Y(p), X(q) - X(p)); return a < 0 ? a + 6.283185307179586476925 : a; }
using PV = std::vector<F2CPoint>;
static double out(const PV& p) { return ang(p[p.size() - 2], p.back()); }
static double in_(const PV& p) { return ang(p[0], p[1]); }

TEST(route_cost, "C13 RPObjective::computeCost DirectDistPathObj::computeCost", 4) {
  F2CRoute r;
  // structure: connection 0, group 0, connection 1, group 1, ...
  std::vector<std::vector<PV>> gs;
  std::vector<PV> cn;
  int ng = c.r.in(0, 4);
  auto mk = [&](int n) { PV v; for (int i = 0; i < n; ++i) v.push_back(c.r.coin(0.3) ? pt3(c.r) : pt(c.r)); return v; };
  auto mp = [](const PV& v) { F2CMultiPoint m; for (auto& p : v) m.addPoint(X(p), Y(p), Z(p)); return m; };
  for (int g = 0; g < ng; ++g) {
    PV v = mk(c.r.in(g ? 1 : 0, 3));
    F2CSwaths s;
    std::vector<PV> ps;
    for (int j = 0, n = c.r.in(g + 1 < ng ? 1 : 0, 4); j < n; ++j) { auto q = swath(c.r, j); s.push_back(q); ps.push_back(pts(q.getPath())); }
    r.addConnectedSwaths(mp(v), s);
    cn.push_back(v);
    gs.push_back(ps);
    c.in("connection", show(v));
    for (auto& p : ps) c.in("swath", show(p));
  }
  if (c.r.coin()) { PV v = mk(c.r.in(1, 3)); r.addConnection(mp(v)); cn.push_back(v); c.in("connection", show(v)); }
  REQUIRE(r.sizeConnections() == cn.size() && r.sizeVectorSwaths() == gs.size(), "structure of the route");
  Rp o;
  ob::RPObjective base;
  ob::DirectDistPathObj dd;
  auto N = [](double a, double b) { return std::fabs(a - b) < 1e-6 * (1 + std::fabs(a) + std::fabs(b)) * 10; };
  double want = 0, dist_ = 0;
  auto run = [&](const PV& v, double* d) { double s = 0; for (size_t i = 1; i < v.size(); ++i) { s += Rp::f(v[i - 1], v[i], 1); *d += dist2d(v[i - 1], v[i]); } return s; };
  for (size_t i = 0; i < cn.size(); ++i) {
    double d = 0, x = run(cn[i], &d);
    REQUIRE(N(o.computeCost(mp(cn[i])), x) && N(o.computeCost(cn[i]), x), "cost of connection ", i, " is ", o.computeCost(mp(cn[i])), " instead of ", x);
    REQUIRE(N(base.computeCost(mp(cn[i])), d) && N(dd.computeCost(cn[i]), d), "distance along connection ", i);
    want += x; dist_ += d;
  }
  auto j4 = [&](const PV& a, const PV& b) { return Rp::f(a.back(), b[0], 4) + 10000 * out(a) + 100000 * in_(b); };
  for (size_t g = 0; g < gs.size(); ++g) {
    double one = 0, d = 0;
    for (size_t j = 0; j < gs[g].size(); ++j) {
      double x = run(gs[g][j], &d);
      auto& s = r.getSwaths(g).at(j);
      REQUIRE(N(o.computeCost(s), x), "cost of a swath is ", o.computeCost(s), " instead of ", x);
      one += x;
      if (j) {
        auto& t = r.getSwaths(g).at(j - 1);
        double y = j4(gs[g][j - 1], gs[g][j]);
        REQUIRE(N(o.computeCost(t, s), y), "cost between swaths is ", o.computeCost(t, s), " instead of ", y);
        one += y;
        d += dist2d(gs[g][j - 1].back(), gs[g][j][0]);
        REQUIRE(N(base.computeCost(t, s), dist2d(gs[g][j - 1].back(), gs[g][j][0])), "distance between swaths");
      }
      F2CPoint p = pt(c.r);
      double a = c.r.real(-3, 7);
      auto& v = gs[g][j];
      REQUIRE(N(o.computeCost(s, p), Rp::f(v.back(), p, 2) + 100 * out(v)), "from a swath to a point");
      REQUIRE(N(o.computeCost(s, p, a), Rp::f(v.back(), p, 4) + 10000 * out(v) + 100000 * a), "from a swath to a point with an angle");
      REQUIRE(N(o.computeCost(p, s), Rp::f(p, v[0], 3) + 1000 * in_(v)), "from a point to a swath");
      REQUIRE(N(o.computeCost(p, a, s), Rp::f(p, v[0], 4) + 10000 * a + 100000 * in_(v)), "from a point with an angle to a swath");
      double l = dist2d(v.back(), p), f0 = dist2d(p, v[0]);
      REQUIRE(N(base.computeCost(s, p), l) && N(base.computeCost(s, p, a), l) && N(base.computeCost(p, s), f0) && N(base.computeCost(p, a, s), f0), "distances between a point and a swath");
    }
    REQUIRE(N(o.computeCost(r.getSwaths(g)), one), "cost of group ", g, " is ", o.computeCost(r.getSwaths(g)), " instead of ", one);
    want += one; dist_ += d;
  }
  for (size_t g = 0; g < gs.size(); ++g) {
    double x = 0, y = 0;
    if (!gs[g].empty() && !cn[g].empty()) { x = Rp::f(cn[g].back(), gs[g][0][0], 3) + 1000 * in_(gs[g][0]); dist_ += dist2d(cn[g].back(), gs[g][0][0]); }
    REQUIRE(N(o.computeCost(mp(cn[g]), r.getSwaths(g)), x), "from connection ", g, " to its swaths");
    if (g + 1 < cn.size()) {
      if (!gs[g].empty() && !cn[g + 1].empty()) { y = Rp::f(gs[g].back().back(), cn[g + 1][0], 2) + 100 * out(gs[g].back()); dist_ += dist2d(gs[g].back().back(), cn[g + 1][0]); }
      REQUIRE(N(o.computeCost(r.getSwaths(g), mp(cn[g + 1])), y), "from the swaths ", g, " to the next connection");
    }
    want += x + y;
  }
  REQUIRE(N(o.computeCost(r), want), "cost of the route is ", o.computeCost(r), " instead of ", want);
  REQUIRE(N(base.computeCost(r), dist_) && N(dd.computeCost(r), dist_), "distance along the route is ", dd.computeCost(r), " instead of ", dist_);
  REQUIRE(o.isMinimizing() && !o.isMaximizing(), "kind of objective");
  c.nontrivial = ng > 1;
}
DRV_MAIN
