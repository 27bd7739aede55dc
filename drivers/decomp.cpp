// C10: decomposition of cells
#include "gen.hpp"
#include "fields2cover/decomposition/trapezoidal_decomp.h"
#include "fields2cover/decomposition/boustrophedon_decomp.h"
using namespace gen;

namespace {
// even-odd over the rings of one polygon
bool in1(const OGRPolygon* p, double x, double y, double* dist) {
  bool k = false;
  auto ring_ = [&](const OGRLinearRing* q) {
    if (!q) return;
    Poly o;
    for (int j = 0; j + 1 < q->getNumPoints(); ++j) o.push_back({q->getX(j), q->getY(j)});
    if (o.size() < 3) return;
    if (inside(o, x, y)) k = !k;
    for (size_t j = 0; j < o.size(); ++j) *dist = std::min(*dist, seg_dist(o[j], o[(j + 1) % o.size()], x, y));
  };
  ring_(p->getExteriorRing());
  for (int j = 0; j < p->getNumInteriorRings(); ++j) ring_(p->getInteriorRing(j));
  return k;
}
int count_in(const F2CCells& cs, double x, double y, double* dist) {
  int k = 0;
  *dist = 1e300;
  auto* g = const_cast<F2CCells&>(cs).get();
  for (int i = 0; i < g->getNumGeometries(); ++i) k += in1(static_cast<const OGRPolygon*>(g->getGeometryRef(i)), x, y, dist);
  return k;
}
std::string wkt(const F2CCells& c) { return const_cast<F2CCells&>(c).exportToWkt(); }
double area(const F2CCells& c) { return const_cast<F2CCells&>(c).get()->get_Area(); }

struct Field { std::vector<CellSpec> s; F2CCells c; };
Field field(drv::Rng& r) {
  Field f;
  for (int i = 0, n = r.coin(0.3) ? 2 : 1; i < n; ++i) {
    CellSpec s = cellspec(r, 20, true);
    for (auto& q : s.rings) for (auto& p : q) p.first += 100 * i;
    f.s.push_back(s);
    f.c.addGeometry(cell(s));
  }
  return f;
}
bool in(const Field& f, double x, double y, double* d) {
  *d = 1e300;
  bool k = false;
  for (auto& s : f.s) { k = k || inside(s, x, y); *d = std::min(*d, border_dist(s, x, y)); }
  return k;
}
// the parts are a partition of the field
void partition(drv::Ctx& c, const Field& f, const F2CCells& parts, const char* what) {
  REQUIRE(drv::near(area(parts), area(f.c), 1e-4 * (1 + area(f.c))), what, ": area ", area(parts), " instead of ", area(f.c));
  for (int t = 0; t < 60; ++t) {
    double x = c.r.real(-21, 42) + (f.s.size() > 1 && c.r.coin() ? 100 : 0), y = c.r.real(-21, 42), d, e;
    bool want = in(f, x, y, &d);
    int got = count_in(parts, x, y, &e);
    if (d < 1e-5 || e < 1e-5) continue;
    REQUIRE(got == (want ? 1 : 0), what, ": point ", x, ",", y, " is in ", got, " parts, ", (want ? "" : "not "), "in the field");
  }
}
// GEOS itself loses a piece of the polygon in rare differences with thin strips (a known finding): does it on these lines?
bool geos_fails(drv::Ctx& c, const Field& f, const F2CMultiLineString& lines) {
  static long total = 0, lost = 0;
  F2CCells g = f.c;
  auto* ls = const_cast<F2CMultiLineString&>(lines).get();
  double len = 0;
  for (int i = 0; i < ls->getNumGeometries(); ++i) {
    F2CLineString l(static_cast<const OGRLineString*>(ls->getGeometryRef(i)));
    len += static_cast<const OGRLineString*>(ls->getGeometryRef(i))->get_Length();
    g = g.difference(F2CCells::buffer(l, 1e-8));
  }
  ++total;
  bool k = std::fabs(area(g) - area(f.c)) > 1e-6 * (1 + area(f.c) + len);
  lost += k;
  REQUIRE(lost < 10 || lost < 0.1 * total, "differences with thin strips lose area in ", lost, " of ", total, " cases");
  return k;
}
double angle(drv::Rng& r) {
  double a = r.coin(0.3) ? 0 : r.coin(0.3) ? M_PI / 2 : r.coin(0.3) ? M_PI / 4 : r.real(0, M_PI);
  return r.coin(0.2) ? a + M_PI * r.in(-2, 2) : a;
}
}

TEST(trapezoidal, "C10 DecompositionBase::decompose DecompositionBase::split DecompositionBase::merge TrapezoidalDecomp::genSplitLines TrapezoidalDecomp::setSplitAngle Cells::splitByLine Cells::createLineUntilBorder Cell::createLineUntilBorder Cells::getCellWherePoint Cell::createSemiLongLine MultiLineString::intersection", 4) {
  Field f = field(c.r);
  double a = angle(c.r);
  for (auto& s : f.s) c.in("cell", show(s));
  c.in("angle", a);
  std::string before = wkt(f.c);
  f2c::decomp::TrapezoidalDecomp d;
  f2c::obj::DecompObjective obj;
  d.setSplitAngle(a);
  REQUIRE(d.getSplitAngle() == a, "angle not kept");
  F2CCells parts = d.split(f.c, obj);
  if (geos_fails(c, f, d.genSplitLines(f.c, obj))) return;
  partition(c, f, parts, "split");
  F2CCells merged = d.merge(parts, obj), dec = d.decompose(f.c);
  REQUIRE(wkt(merged) == wkt(parts), "merge changes the cells");
  REQUIRE(dec.size() == parts.size() && drv::near(area(dec), area(parts), 1e-9 * (1 + area(parts))), "decompose is not split and merged: ", dec.size(), " and ", parts.size(), " parts");
  REQUIRE(wkt(f.c) == before, "the field was changed");
  // every vertex is cut along the angle, both ways, up to the next border
  for (auto& s : f.s) for (auto& q : s.rings) for (auto& v : q) for (int way = 0; way < 2; ++way) {
    double ux = std::cos(a + way * M_PI), uy = std::sin(a + way * M_PI), t1 = 1e300;
    for (auto& w : s.rings) for (size_t j = 0; j < w.size(); ++j) {
      auto &p = w[j], &o = w[(j + 1) % w.size()];
      double ex = o.first - p.first, ey = o.second - p.second, den = ux * ey - uy * ex;
      if (std::fabs(den) < 1e-9) {
        for (auto* z : {&p, &o}) if (std::fabs((z->first - v.first) * uy - (z->second - v.second) * ux) < 1e-9) { double t = (z->first - v.first) * ux + (z->second - v.second) * uy; if (t > 1e-4) t1 = std::min(t1, t); }
        continue;
      }
      double t = ((p.first - v.first) * ey - (p.second - v.second) * ex) / den, k = ((p.first - v.first) * uy - (p.second - v.second) * ux) / den;
      if (k > -1e-9 && k < 1 + 1e-9 && t > 1e-4) t1 = std::min(t1, t);
    }
    if (t1 > 1e6) continue;
    for (double k : {0.15, 0.5, 0.85}) {
      double x = v.first + k * t1 * ux, y = v.second + k * t1 * uy, e;
      if (!inside(s, x, y) || border_dist(s, x, y) < 1e-3) continue;
      count_in(parts, x, y, &e);
      REQUIRE(e < 1e-6, "not cut from the vertex ", v.first, ",", v.second, " at ", x, ",", y);
      c.nontrivial = true;
    }
  }
}

TEST(lines, "C10 Cells::splitByLine DecompositionBase::split", 2) {
  Field f = field(c.r);
  for (auto& s : f.s) c.in("cell", show(s));
  F2CMultiLineString ls;
  struct L { double a, b, x, y; };
  std::vector<L> v;
  for (int i = 0, n = c.r.in(0, 4); i < n; ++i) {
    L l{grid(c.r, 80), grid(c.r, 80), grid(c.r, 80), grid(c.r, 80)};
    if (std::hypot(l.a - l.x, l.b - l.y) < 1) l.x += 3;
    v.push_back(l);
    F2CLineString q;
    q.addPoint(l.a, l.b);
    q.addPoint(l.x, l.y);
    ls.addGeometry(q);
    c.in("line", str(l.a, ",", l.b, " ", l.x, ",", l.y));
  }
  std::string before = wkt(f.c);
  F2CCells parts = f.c.splitByLine(ls);
  if (geos_fails(c, f, ls)) return;
  partition(c, f, parts, "splitByLine");
  for (auto& l : v) for (double k : {0.1, 0.3, 0.5, 0.7, 0.9}) {
    double x = l.a + k * (l.x - l.a), y = l.b + k * (l.y - l.b), d, e;
    if (!in(f, x, y, &d) || d < 1e-5) continue;
    count_in(parts, x, y, &e);
    REQUIRE(e < 1e-6, "not cut at ", x, ",", y);
    c.nontrivial = true;
  }
  REQUIRE(wkt(f.c) == before, "the field was changed");
}

TEST(boustrophedon, "C10 BoustrophedonDecomp::genSplitLines BoustrophedonDecomp::isLinePartOfLinearRing DecompositionBase::split", 1) {
  Field f = field(c.r);
  double a = angle(c.r);
  for (auto& s : f.s) c.in("cell", show(s));
  c.in("angle", a);
  f2c::decomp::BoustrophedonDecomp d;
  f2c::obj::DecompObjective obj;
  d.setSplitAngle(a);
  F2CCells parts = d.decompose(f.c);
  if (geos_fails(c, f, d.genSplitLines(f.c, f2c::obj::DecompObjective()))) return;
  partition(c, f, parts, "decompose");
  c.nontrivial = parts.size() > 1;
}
DRV_MAIN
