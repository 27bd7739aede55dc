// C09: headlands of constant width
#include "gen.hpp"
#include "fields2cover/headland_generator/constant_headland.h"
using namespace gen;

namespace {
// fields with right angles only: shrinking by d with mitred joins keeps exactly the points whose square of half side d lies inside
struct Box { double x0, y0, x1, y1; };
struct Rectil {
  std::vector<Box> fields, holes, notch;
  bool in(double x, double y) const {
    bool ok = false;
    for (size_t i = 0; i < fields.size(); ++i) {
      auto& b = fields[i];
      if (x > b.x0 && x < b.x1 && y > b.y0 && y < b.y1) ok = true;
    }
    for (auto* v : {&holes, &notch}) for (auto& b : *v) if (x > b.x0 && x < b.x1 && y > b.y0 && y < b.y1) ok = false;
    return ok;
  }
  // is the square around (x, y) with half side d inside (d >= 0); fields are far apart
  bool fits(double x, double y, double d) const {
    bool ok = false;
    for (auto& b : fields) if (x - d >= b.x0 && x + d <= b.x1 && y - d >= b.y0 && y + d <= b.y1) ok = true;
    for (auto* v : {&holes, &notch}) for (auto& b : *v) if (x + d > b.x0 && x - d < b.x1 && y + d > b.y0 && y - d < b.y1) ok = false;
    return ok;
  }
};
Rectil make(drv::Rng& r, F2CCells& cells) {
  Rectil f;
  for (int i = 0, n = r.in(1, 3); i < n; ++i) {
    double x = i * 200, y = r.in(-40, 40) * 0.25, w = r.in(20, 200) * 0.25, h = r.in(20, 200) * 0.25;
    CellSpec c;
    f.fields.push_back({x, y, x + w, y + h});
    if (r.coin(0.4)) {
      double a = snap(w * r.real(0.3, 0.8)), b = snap(h * r.real(0.3, 0.8));
      c.rings.push_back({{x, y}, {x + w, y}, {x + w, y + b}, {x + a, y + b}, {x + a, y + h}, {x, y + h}});
      f.notch.push_back({x + a, y + b, x + w + 100, y + h + 100});
    } else {
      c.rings.push_back(rect(x, y, x + w, y + h));
    }
    if (r.coin(0.4)) {
      double hx = snap(x + w * r.real(0.1, 0.25)), hy = snap(y + h * r.real(0.1, 0.25)), hw = std::max(0.25, snap(w * 0.1)), hh = std::max(0.25, snap(h * 0.1));
      if (hx > x && hy > y && hx + hw < x + w * 0.3 && hy + hh < y + h * 0.3) {
        c.rings.push_back(rect(hx, hy, hx + hw, hy + hh));
        f.holes.push_back({hx, hy, hx + hw, hy + hh});
      }
    }
    if (r.coin(0.3)) std::reverse(c.rings[0].begin(), c.rings[0].end());
    cells.addGeometry(cell(c));
  }
  return f;
}
// is the point in the cells (even-odd over all rings)
bool in(const F2CCells& cs, double x, double y, double* dist) {
  bool k = false;
  *dist = 1e300;
  auto* g = const_cast<F2CCells&>(cs).get();
  for (int i = 0; i < g->getNumGeometries(); ++i) {
    auto* p = static_cast<const OGRPolygon*>(g->getGeometryRef(i));
    auto ring_ = [&](const OGRLinearRing* q) {
      if (!q) return;
      Poly o;
      for (int j = 0; j + 1 < q->getNumPoints(); ++j) o.push_back({q->getX(j), q->getY(j)});
      if (o.size() < 3) return;
      if (inside(o, x, y)) k = !k;
      for (size_t j = 0; j < o.size(); ++j) *dist = std::min(*dist, seg_dist(o[j], o[(j + 1) % o.size()], x, y));
    };
    ring_(p->getExteriorRing());
    for (int j = 0; j < p->getNumInteriorRings(); ++j) ring_(p->getInteriorRing(j));
  }
  return k;
}
std::string wkt(const F2CCells& c) { return const_cast<F2CCells&>(c).exportToWkt(); }
}

TEST(rings, "C09 ConstHL::generateHeadlands ConstHL::generateHeadlandArea ConstHL::generateHeadlandSwaths Cells::buffer", 4) {
  F2CCells cells;
  Rectil f = make(c.r, cells);
  double w = c.r.in(1, 24) * 0.125;
  int n = c.r.coin(0.8) ? c.r.in(-1, 6) : c.r.in(7, 20);
  std::string before = wkt(cells);
  c.in("cells", before).in("width", w).in("n", n);
  f2c::hg::ConstHL hl;
  auto is = [&](const F2CCells& got, double d, const char* what, int k) {
    for (int t = 0; t < 60; ++t) {
      auto& b = c.r.pick(f.fields);
      double x = c.r.real(b.x0 - 1, b.x1 + 1), y = c.r.real(b.y0 - 1, b.y1 + 1), e;
      bool g = in(got, x, y, &e);
      if (e < 1e-6) continue;
      bool a1 = f.fits(x, y, d - 1e-6), a2 = f.fits(x, y, d + 1e-6);
      if (a1 != a2) continue;
      REQUIRE(g == a1, what, " ", k, ": the point ", x, ",", y, " is ", (g ? "" : "not "), "in it, distance ", d);
    }
  };
  if (n > 0) is(hl.generateHeadlands(cells, w * n), w * n, "headlands", n);
  is(hl.generateHeadlands(cells, w), w, "headlands", 0);
  if (n >= 0) is(hl.generateHeadlandArea(cells, w, n), w * n, "headland area", n);
  auto o = hl.generateHeadlandSwaths(cells, w, n, true), i = hl.generateHeadlandSwaths(cells, w, n, false);
  REQUIRE((int)o.size() == std::max(n, 0), "number of rings from outside ", o.size());
  REQUIRE((int)i.size() == std::max(n, 0), "number of rings from inside ", i.size());
  for (int k = 0; k < (int)o.size(); ++k) is(o[k], w * (k + 0.5), "ring from outside", k);
  if (n > 0) is(i[0], w * (n - 0.5), "innermost ring", 0);
  // growing a ring back: the next one outwards
  for (int k = 1; k < (int)i.size(); ++k) {
    F2CCells want = i[k - 1].buffer(w);
    for (int t = 0; t < 30; ++t) {
      auto& b = c.r.pick(f.fields);
      double x = c.r.real(b.x0 - 1, b.x1 + 1), y = c.r.real(b.y0 - 1, b.y1 + 1), e1, e2;
      bool p = in(i[k], x, y, &e1), q = in(want, x, y, &e2);
      if (e1 > 1e-6 && e2 > 1e-6) REQUIRE(p == q, "ring ", k, " from inside is not the grown ring before it at ", x, ",", y);
      // it stays within the ring of the same line from outside, and reaches it where the field is a plain rectangle
      double e3;
      bool r = in(o[n - 1 - k], x, y, &e3);
      if (e1 > 1e-6 && e3 > 1e-6 && p) REQUIRE(r, "ring ", k, " from inside leaves its line at ", x, ",", y);
      if (e1 > 1e-6 && e3 > 1e-6 && f.holes.empty() && f.notch.empty() && f.fields.size() == 1 && i[0].size() == 1) REQUIRE(p == r, "ring ", k, " of a rectangle at ", x, ",", y);
    }
  }
  REQUIRE(wkt(cells) == before, "the field was changed");
  c.nontrivial = o.size() > 1;
}

// shrunk fields of any shape: inside the field, and no further from the border than the width
TEST(shapes, "C09 ConstHL::generateHeadlands ConstHL::generateHeadlandSwaths", 2) {
  CellSpec s = cellspec(c.r, 20, true);
  F2CCells cells;
  cells.addGeometry(cell(s));
  double d = c.r.in(1, 16) * 0.25;
  c.in("cell", show(s)).in("width", d);
  f2c::hg::ConstHL hl;
  F2CCells k = hl.generateHeadlands(cells, d);
  auto rings = hl.generateHeadlandSwaths(cells, d, 3, true);
  REQUIRE(rings.size() == 3, "number of rings");
  for (int t = 0; t < 80; ++t) {
    double x = c.r.real(-21, 42), y = c.r.real(-21, 42), e, b = border_dist(s, x, y);
    bool f = inside(s, x, y);
    auto one = [&](const F2CCells& g, double dd) {
      bool p = in(g, x, y, &e);
      if (e < 1e-6) return;
      REQUIRE(!p || f, "kept a point outside of the field: ", x, ",", y);
      if (p) REQUIRE(b > dd - 1e-6, "kept a point ", b, " from the border: ", x, ",", y);
      // a mitred corner reaches at most five widths
      if (!p && f) REQUIRE(b < 5 * dd + 1e-6, "lost a point ", b, " from the border: ", x, ",", y);
    };
    one(k, d);
    for (int i = 0; i < 3; ++i) one(rings[i], d * (i + 0.5));
  }
  c.nontrivial = k.size() > 0;
}
DRV_MAIN
