// C06 / C07: swaths of a cell at a given angle; search for the best angle
#include "gen.hpp"
#include "fields2cover/swath_generator/swath_generator_base.h"
#include "fields2cover/swath_generator/brute_force.h"
#include "fields2cover/objectives/sg_obj/n_swath.h"
#include "fields2cover/objectives/sg_obj/n_swath_modified.h"
#include "fields2cover/objectives/sg_obj/swath_length.h"
#include "fields2cover/objectives/sg_obj/field_coverage.h"
using namespace gen;

struct Gen : f2c::sg::SwathGeneratorBase {
  double computeBestAngle(f2c::obj::SGObjective&, double, const F2CCell&) override { return 0.5; }
};

// the swaths are the parts inside the cell of the lines at (k + 1/2) w above the lowest point, seen along the angle
static void judge(Ctx& c, const CellSpec& cs, double ang, double w, bool exact, const F2CSwaths& s, int id0 = 0) {
  CellSpec rc = exact ? cs : rotated(cs, -ang);
  double x0, y0, x1, y1;
  extent(rc.rings[0], x0, y0, x1, y1);
  long N = (long)std::ceil((y1 - y0) / w) + 2;
  std::map<long, std::vector<std::pair<double,double>>> got;
  double total = 0;
  for (size_t i = 0; i < s.size(); ++i) {
    auto r = rec(s.at(i));
    REQUIRE(r.id == id0 + (int)i, "swath ", i, " has id ", r.id);
    REQUIRE(r.width == w, "swath ", i, " has width ", r.width);
    REQUIRE(r.type == (int)f2c::types::SwathType::MAINLAND, "swath ", i, " is not of type MAINLAND");
    REQUIRE(r.dir, "swath ", i, " is created as reversed");
    REQUIRE(r.p.size() >= 2, "swath ", i, " has ", r.p.size(), " points");
    Poly q;
    for (auto& p : r.p) q.push_back({X(p), Y(p)});
    if (!exact) q = rotated(q, -ang);
    double k = (q[0].second - y0) / w - 0.5;
    long kk = std::lround(k);
    REQUIRE(std::fabs(k - kk) * w < 1e-5, "swath ", i, " lies ", q[0].second - y0, " above the lowest point, not at an odd multiple of half the width ", w);
    for (auto& p : q) REQUIRE(std::fabs(p.second - q[0].second) < 1e-5, "swath ", i, " is not parallel to the angle");
    double a = 1e300, b = -1e300;
    for (auto& p : q) { a = std::min(a, p.first); b = std::max(b, p.first); }
    got[kk].push_back({a, b});
    total += b - a;
  }
  for (long k = 0; k < N; ++k) {
    double gap;
    double y = y0 + (k + 0.5) * w;
    auto want = chords(rc, y, &gap);
    auto& g = got[k];
    // rounding may leave a touched vertex as a part of no length
    if (gap < 1e-6) g.erase(std::remove_if(g.begin(), g.end(), [](const std::pair<double,double>& q) { return q.second - q.first < 1e-6; }), g.end());
    std::sort(g.begin(), g.end());
    if (!exact && gap < 1e-6) continue;
    // a line along an edge of the border: rounding decides whether it is inside
    bool along = false;
    if (gap < 1e-6) for (auto& p : rc.rings) for (size_t i = 0; i < p.size(); ++i) along = along || (std::fabs(p[i].second - y) < 1e-6 && std::fabs(p[(i + 1) % p.size()].second - y) < 1e-6);
    if (along) continue;
    // same union, no overlap
    double wl = 0, gl = 0;
    for (auto& p : want) wl += p.second - p.first;
    for (size_t i = 0; i < g.size(); ++i) {
      gl += g[i].second - g[i].first;
      if (i) REQUIRE(g[i].first > g[i - 1].second - 1e-5, "two swaths overlap on line ", k);
      bool in = false;
      for (auto& p : want) in = in || (g[i].first > p.first - 1e-5 && g[i].second < p.second + 1e-5);
      REQUIRE(in, "swath from ", g[i].first, " to ", g[i].second, " on line ", k, " is not inside the cell");
    }
    REQUIRE(std::fabs(wl - gl) < 1e-5 * (1 + wl), "line ", k, ": swaths cover ", gl, " of the ", wl, " inside the cell");
    if (gap > 1e-6) REQUIRE(g.size() == want.size(), "line ", k, ": ", g.size(), " swaths instead of ", want.size());
  }
  for (auto& p : got) REQUIRE(p.first >= 0 && p.first < N, "swath on line ", p.first, " outside the cell");
}

static CellSpec pick_cell(Ctx& c, double rad) {
  // thin cells, cells far from the origin
  double off = c.r.coin(0.4) ? c.r.in(-400, 400) * 0.25 : 0;
  return cellspec(c.r, rad, true, off, -off / 2);
}

TEST(swaths_of_cell, "C06 SwathGeneratorBase::generateSwaths Cell::createStraightLongLine Point::rotateFromPoint Swaths::append Cell::getLinesInside", 4) {
  double rad = c.r.in(4, c.size(8, 40, 10));
  CellSpec cs = pick_cell(c, rad);
  bool exact = c.r.coin(0.3);
  double ang = exact ? 0 : c.r.coin(0.3) ? c.r.in(-40, 40) * 0.7853981633974483 : c.r.real(-12, 12);
  double w = c.r.coin(0.5) ? c.r.in(1, 40) * 0.25 : c.r.real(0.4, 9);
  if (c.r.coin(0.1)) w = rad * 3;
  Gen g;
  bool ov = c.r.coin();
  g.setAllowOverlap(ov);
  REQUIRE(g.getAllowOverlap() == ov, "getAllowOverlap");
  c.in("cell", show(cs)).in("angle", ang).in("width", w).in("overlap", ov);
  F2CCell k = cell(cs);
  std::string before = k.exportToWkt();
  F2CSwaths s = g.generateSwaths(ang, w, k);
  REQUIRE(k.exportToWkt() == before, "the cell was modified");
  judge(c, cs, ang, w, exact, s);
  c.nontrivial = s.size() > 2;
}

TEST(swaths_of_cells, "C06 SwathGeneratorBase::generateSwaths generateBestSwaths on several cells", 2) {
  int n = c.r.in(0, 4);
  F2CCells ks;
  std::vector<CellSpec> cs;
  for (int i = 0; i < n; ++i) { cs.push_back(cellspec(c.r, 12, true, i * 60.0, c.r.in(-20, 20))); ks.addGeometry(cell(cs.back())); c.in("cell", show(cs.back())); }
  double ang = c.r.real(-7, 7), w = c.r.in(2, 20) * 0.25;
  c.in("angle", ang).in("width", w);
  Gen g;
  auto all = g.generateSwaths(ang, w, ks);
  REQUIRE((int)all.size() == n, "swaths for ", all.size(), " cells instead of ", n);
  for (int i = 0; i < n; ++i) judge(c, cs[i], ang, w, false, all.at(i));
  f2c::obj::NSwath o;
  auto best = g.generateBestSwaths(o, w, ks);
  REQUIRE((int)best.size() == n, "best swaths for ", best.size(), " cells instead of ", n);
  for (int i = 0; i < n; ++i) judge(c, cs[i], 0.5, w, false, best.at(i));
  c.nontrivial = n > 1;
}

TEST(lines_inside, "C06 Cell::getLinesInside Cells::getLinesInside Swaths::append", 3) {
  CellSpec cs = cellspec(c.r, 12, true);
  c.in("cell", show(cs));
  double x0, y0, x1, y1;
  extent(cs.rings[0], x0, y0, x1, y1);
  F2CMultiLineString ls;
  std::vector<double> ys;
  int n = c.r.in(1, 5);
  for (int i = 0; i < n; ++i) {
    double y = c.r.coin(0.6) ? cs.rings[c.r.in(0, cs.rings.size() - 1)][0].second + (c.r.coin() ? 0 : 0.25) : snap(c.r.real(y0 - 1, y1 + 1));
    bool dup = false;
    for (double z : ys) dup = dup || z == y;
    if (dup) continue;
    ys.push_back(y);
    F2CLineString l({F2CPoint(x0 - 3, y), F2CPoint(x1 + 3, y)});
    ls.addGeometry(l);
  }
  c.in("y", ys);
  F2CCell k = cell(cs);
  bool many = c.r.coin();
  F2CMultiLineString in = c.r.coin() ? k.getLinesInside(ls) : F2CCells(k).getLinesInside(ls);
  std::map<double, double> got;
  for (size_t i = 0; i < in.size(); ++i) {
    auto p = pts(in.getGeometry(i));
    REQUIRE(p.size() >= 2, "part with ", p.size(), " points");
    for (size_t j = 0; j < p.size(); ++j) REQUIRE(Y(p[j]) == Y(p[0]), "part leaves its line");
    double l = 0;
    for (size_t j = 1; j < p.size(); ++j) { l += dist2d(p[j], p[j - 1]); double mx = 0.5 * (X(p[j]) + X(p[j-1])); REQUIRE(inside(cs, mx, Y(p[0])) || border_dist(cs, mx, Y(p[0])) < 1e-9, "part outside of the cell"); }
    got[Y(p[0])] += l;
  }
  for (double y : ys) {
    double want = 0;
    for (auto& q : chords(cs, y)) want += q.second - q.first;
    REQUIRE(std::fabs(got[y] - want) < 1e-6, "line at ", y, ": ", got[y], " of the ", want, " inside the cell");
  }
  // one line at a time
  for (double y : ys) {
    F2CLineString l({F2CPoint(x0 - 3, y), F2CPoint(x1 + 3, y)});
    double want = 0;
    for (auto& q : chords(cs, y)) want += q.second - q.first;
    REQUIRE(std::fabs(k.getLinesInside(l).length() - want) < 1e-6, "line at ", y, " alone: ", k.getLinesInside(l).length(), " of ", want);
    REQUIRE(std::fabs(F2CCells(k).getLinesInside(l).length() - want) < 1e-6, "line at ", y, " alone (Cells)");
  }
  // appended swaths carry on with the ids
  double w = c.r.in(1, 9) * 0.5;
  F2CSwaths s;
  if (ys.size() >= 1) s.append(F2CLineString({F2CPoint(0, 0), F2CPoint(1, 0)}), w, f2c::types::SwathType::HEADLAND);
  size_t n0 = s.size();
  if (many) s.append(ls, F2CCells(k), w); else s.append(ls, k, w);
  REQUIRE(s.size() == n0 + in.size(), "append added ", s.size() - n0, " swaths instead of ", in.size());
  for (size_t i = 0; i < s.size(); ++i) { REQUIRE(s.at(i).getId() == (int)i, "id ", s.at(i).getId(), " at position ", i); REQUIRE(s.at(i).getWidth() == w, "width"); if (i >= n0) REQUIRE(same(pts(s.at(i).getPath()), pts(in.getGeometry(i - n0))), "points of appended swath ", i); }
  c.nontrivial = in.size() > 0;
}

// ---------------------------------------------------------------- best angle
struct Fake : f2c::obj::SGObjective {
  std::vector<double> cost; double step; bool mx = false, fast = false; std::vector<double>* asked = nullptr;
  bool isMinimizing() const override { return !mx; }
  bool isFastCompAvailable() const override { return fast; }
  double computeCost(double ang, double, const F2CCell&) override { long i = std::lround(ang / step); if (i < 0 || i >= (long)cost.size()) throw drv::Fail(str("cost asked for angle ", ang, " outside [0, 2 pi)")); return cost[i]; }
  double computeCost(const F2CSwaths& s) override { double v = 0; for (size_t i = 0; i < s.size(); ++i) v += s.at(i).length() * (1 + 0.37 * i); return v; }
  double computeCost(const F2CCell&, const F2CSwaths& s) override { return computeCost(s); }
};

TEST(best_angle, "C07 BruteForce::computeBestAngle SwathGeneratorBase::computeCostOfAngle generateBestSwaths", 4) {
  static const double steps[] = {0.05, 0.1, 0.2, 0.31, 0.5, 1.0, 1.7, 3.0, 3.5, 6.2, 0.7853981633974483, 1.5707963267948966, 3.141592653589793, 0.017453292519943295};
  double step = c.r.coin(0.7) ? steps[c.r.in(0, 13)] : c.r.real(0.02, 6.28);
  long n = (long)(2 * 3.14159265358979323846 / step);
  if (n < 1) return;
  Fake f;
  f.step = step; f.fast = true; f.mx = c.r.coin();
  int range = c.r.coin(0.5) ? 3 : 1000;
  for (long i = 0; i < n; ++i) f.cost.push_back(c.r.in(-range, range));
  f2c::sg::BruteForce bf;
  bf.setStepAngle(step);
  REQUIRE(bf.getStepAngle() == step, "getStepAngle");
  c.in("step", step).in("costs", f.cost).in("maximize", f.mx);
  F2CCell k = cell(cellspec(c.r, 8, false));
  double best = bf.computeBestAngle(f, 2.0, k);
  long bi = std::lround(best / step);
  REQUIRE(bi >= 0 && bi < n && std::fabs(bi * step - best) < 1e-12, "angle ", best, " is no candidate");
  for (long i = 0; i < n; ++i) REQUIRE(f.mx ? f.cost[bi] >= f.cost[i] : f.cost[bi] <= f.cost[i], "candidate ", i, " is better than the chosen ", bi);
  for (long i = 0; i < bi; ++i) REQUIRE(f.cost[bi] != f.cost[i], "candidate ", i, " is as good as the chosen ", bi, " and comes first");
  auto s = bf.generateBestSwaths(f, 2.0, k);
  auto t = bf.generateSwaths(best, 2.0, k);
  REQUIRE(equal(recs(s), recs(t)), "generateBestSwaths does not use the best angle");
  F2CCells ks;
  for (int i = 0, m = c.r.in(0, 3); i < m; ++i) ks.addGeometry(cell(cellspec(c.r, 8, false, 40 * i, 0)));
  auto sb = bf.generateBestSwaths(f, 2.0, ks);
  REQUIRE(sb.size() == ks.size(), "generateBestSwaths: ", sb.size(), " results for ", ks.size(), " cells");
  for (size_t i = 0; i < ks.size(); ++i) REQUIRE(equal(recs(sb.at(i)), recs(bf.generateSwaths(best, 2.0, ks.getGeometry(i)))), "generateBestSwaths of cell ", i);
  c.nontrivial = n > 3;
}

TEST(best_angle_real, "C07 BruteForce::computeBestAngle with the real objectives", 3) {
  CellSpec cs = cellspec(c.r, c.r.in(4, 12), true);
  double w = c.r.in(3, 12) * 0.5;
  double step = c.r.real(0.25, 1.5);
  c.in("cell", show(cs)).in("width", w).in("step", step);
  F2CCell k = cell(cs);
  f2c::sg::BruteForce bf;
  bf.setStepAngle(step);
  long n = (long)(2 * 3.14159265358979323846 / step);
  f2c::obj::NSwath o1; f2c::obj::SwathLength o2; f2c::obj::NSwathModified o3; Fake o4; o4.step = step; o4.mx = c.r.coin();
  std::vector<std::pair<const char*, f2c::obj::SGObjective*>> os = {{"NSwath", &o1}, {"SwathLength", &o2}, {"NSwathModified", &o3}, {"Fake", &o4}};
  for (auto& q : os) {
    auto cost = [&](double a) { double v = q.second == &o3 ? o3.computeCost(a, w, k) : q.second->computeCost(k, bf.generateSwaths(a, w, k)); return q.second->isMaximizing() ? -v : v; };
    double b = bf.computeBestAngle(*q.second, w, k);
    long bi = std::lround(b / step);
    REQUIRE(bi >= 0 && bi < n && std::fabs(bi * step - b) < 1e-12, q.first, ": angle ", b, " is no candidate");
    for (long i = 0; i < n; ++i) REQUIRE(cost(bi * step) <= cost(i * step), q.first, ": angle ", i * step, " costs ", cost(i * step), ", less than ", cost(bi * step), " of the chosen ", b);
  }
  c.nontrivial = n > 4;
}
DRV_MAIN
