// C12: angles and planar point arithmetic
#include "gen.hpp"
using namespace gen;

namespace {
const double PI2 = 6.283185307179586;
// angles: whole and half turns and their neighbourhood, quarter turns, many turns, random
double ang(drv::Rng& r, long turns = 6) {
  double k = r.in(-turns, turns);
  switch (r.in(0, 4)) {
    case 0: return k * PI2 / 8;
    case 1: return k * PI2 / 2 + r.real(-1e-3, 1e-3);
    case 2: return k * PI2 + r.real(0, PI2);
    case 3: return r.real(-7, 7);
    default: return k;
  }
}
bool n9(double a, double b, double s = 1) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b) + s); }
// same direction
bool samedir(double a, double b) { return std::fabs(std::remainder(a - b, PI2)) < 1e-9 * (2 + std::fabs(a) + std::fabs(b)); }
bool turn(double a) { return a >= -1e-12 && a <= PI2 + 1e-12; }
}

TEST(numbers, "C12 Geometry::mod Geometry::mod_2pi Geometry::getAngleDiffAbs Geometry::getAngleAvg Geometry::getAngContinuity", 4) {
  double a = ang(c.r, 40), b = ang(c.r, 40);
  c.in("a", a).in("b", b);
  double m = F2CPoint::mod_2pi(a);
  REQUIRE(turn(m) && samedir(m, a), "mod_2pi gives ", m);
  double q = c.r.real(0.1, 9);
  c.in("modulus", q);
  double mq = F2CPoint::mod(a, q);
  REQUIRE(mq >= -1e-12 && mq <= q + 1e-12 && std::fabs(std::remainder(mq - a, q)) < 1e-9 * (1 + std::fabs(a)), "mod gives ", mq);
  double d = F2CPoint::getAngleDiffAbs(a, b), want = std::fabs(std::remainder(a - b, PI2));
  REQUIRE(d >= 0 && std::fabs(d - want) < 1e-9 * (2 + std::fabs(a) + std::fabs(b)), "difference ", d, " instead of ", want);
  double e = F2CPoint::getAngleDiffAbs(b, a);
  REQUIRE(std::fabs(d - e) < 1e-9 * (2 + std::fabs(a) + std::fabs(b)), "difference depends on the order: ", d, " and ", e);
  double g = F2CPoint::getAngleAvg(a, b);
  if (std::fabs(want - PI2 / 2) > 1e-6) {
    double x = std::fabs(std::remainder(g - a, PI2)), y = std::fabs(std::remainder(g - b, PI2));
    REQUIRE(std::fabs(x - want / 2) < 1e-7 && std::fabs(y - want / 2) < 1e-7, "average ", g, " is ", x, " and ", y, " away, difference ", want);
  }
  double k = F2CPoint::getAngContinuity(a, b);
  REQUIRE(samedir(k, b) && std::fabs(k - a) <= PI2 / 2 + 1e-7, "continuity gives ", k);
  c.nontrivial = a < 0 || a > PI2;
}

TEST(sequence, "C12 Geometry::getAngContinuity", 2) {
  std::vector<double> v;
  for (int i = 0, n = c.r.in(1, 12); i < n; ++i) v.push_back(ang(c.r));
  if (std::fabs(v[0]) > 8) v[0] = std::fmod(v[0], 8);
  c.in("angles", v);
  auto o = F2CPoint::getAngContinuity(v);
  REQUIRE(o.size() == v.size(), "size");
  REQUIRE(n9(o[0], v[0]), "the first angle changed");
  for (size_t i = 1; i < o.size(); ++i)
    REQUIRE(samedir(o[i], v[i]) && std::fabs(o[i] - o[i - 1]) <= PI2 / 2 + 1e-7, "angle ", i, " becomes ", o[i], " after ", o[i - 1]);
  c.nontrivial = v.size() > 2;
}

TEST(arithmetic, "C12 Point::operator+ Point::operator- Point::operator* Point::operator/ Point::operator*= Point::det Point::operator== Point::operator!= Point::operator<", 2) {
  F2CPoint p = pt3(c.r), q = pt3(c.r);
  double s = c.r.in(1, 40) * 0.25 * (c.r.coin() ? 1 : -1);
  c.in("p", str(p)).in("q", str(q)).in("s", s);
  auto is = [](const F2CPoint& a, double x, double y, double z) { return n9(X(a), x) && n9(Y(a), y) && n9(Z(a), z); };
  double x = X(p), y = Y(p), z = Z(p), u = X(q), v = Y(q), w = Z(q);
  REQUIRE(is(p + q, x + u, y + v, z + w), "sum");
  REQUIRE(is(p - q, x - u, y - v, z - w), "difference");
  REQUIRE(is(p * s, x * s, y * s, z * s), "scaled");
  REQUIRE(is(p / s, x / s, y / s, z / s), "divided");
  REQUIRE(n9(p * q, x * u + y * v + z * w), "scalar product");
  REQUIRE(n9(F2CPoint::det(p, q), x * v - y * u), "cross product");
  REQUIRE((p < q) == (x < u || (x == u && y < v)), "order");
  F2CPoint same_(x, y, z), off(x, y, z);
  double d = c.r.coin() ? 0.25 : 1e-5;
  int k = c.r.in(0, 2);
  if (k == 0) off.setX(x + d); else if (k == 1) off.setY(y - d); else off.setZ(z + d);
  REQUIRE(p == same_ && !(p != same_), "a point differs from its copy");
  REQUIRE(p != off && !(p == off), "points that differ in coordinate ", k, " by ", d, " are equal");
  F2CPoint t(x, y, z);
  t *= s;
  REQUIRE(is(t, x * s, y * s, z * s), "scaled in place");
  REQUIRE(is(p, x, y, z) && is(q, u, v, w), "operands changed");
  c.nontrivial = true;
}

TEST(turning, "C12 Point::rotateFromPoint Point::getPointFromAngle Point::getAngleFromPoint Point::getAngleFromPoints", 3) {
  F2CPoint o = pt(c.r), p = pt(c.r), q = pt(c.r);
  double a = ang(c.r);
  c.in("o", str(o)).in("p", str(p)).in("q", str(q)).in("a", a);
  F2CPoint r = o.rotateFromPoint(a, p);
  double dx = X(p) - X(o), dy = Y(p) - Y(o);
  REQUIRE(std::fabs(X(r) - (X(o) + dx * std::cos(a) - dy * std::sin(a))) < 1e-7 && std::fabs(Y(r) - (Y(o) + dx * std::sin(a) + dy * std::cos(a))) < 1e-7, "turned to ", str(r));
  std::vector<F2CPoint> many {p, q, o};
  auto rm = o.rotateFromPoint(a, many);
  REQUIRE(rm.size() == 3, "size of the turned vector");
  for (int i = 0; i < 3; ++i) REQUIRE(dist(rm[i], o.rotateFromPoint(a, many[i])) < 1e-9, "turned element ", i);
  double d = c.r.in(1, 100) * 0.25;
  F2CPoint g = o.getPointFromAngle(a, d);
  REQUIRE(std::fabs(X(g) - X(o) - d * std::cos(a)) < 1e-9 * (1 + std::fabs(X(g))) * 100 && std::fabs(Y(g) - Y(o) - d * std::sin(a)) < 1e-9 * (1 + std::fabs(Y(g))) * 100, "point at angle and distance ", str(g));
  double back = (g - o).getAngleFromPoint();
  REQUIRE(turn(back) && std::fabs(std::remainder(back - a, PI2)) < 1e-7, "angle of the point at angle a is ", back);
  if (dist2d(p, F2CPoint(0, 0)) > 0.1 && dist2d(q, F2CPoint(0, 0)) > 0.1) {
    double t = p.getAngleFromPoints(q), want = std::atan2(Y(q), X(q)) - std::atan2(Y(p), X(p));
    REQUIRE(turn(t) && std::fabs(std::remainder(t - want, PI2)) < 1e-7, "angle between vectors ", t);
  }
  if (dist2d(o, p) > 0.1 && dist2d(p, q) > 0.1) {
    double t = F2CPoint::getAngleFromPoints(o, p, q), want = std::atan2(Y(q) - Y(p), X(q) - X(p)) - std::atan2(Y(p) - Y(o), X(p) - X(o));
    REQUIRE(turn(t) && std::fabs(std::remainder(t - want, PI2)) < 1e-7, "turn between legs ", t);
  }
  c.nontrivial = std::fabs(a) > 1e-9;
}

TEST(segments, "C12 Point::closestPointInSegment Point::signedDistance2Segment Point::intersectionOfLines", 3) {
  F2CPoint p = pt(c.r, 40), s = pt(c.r, 40), e = pt(c.r, 40), s2 = pt(c.r, 40), e2 = pt(c.r, 40);
  if (dist2d(s, e) < 0.2) e = F2CPoint(X(s) + 1, Y(s));
  if (dist2d(s2, e2) < 0.2) e2 = F2CPoint(X(s2), Y(s2) + 1);
  c.in("p", str(p)).in("s", str(s)).in("e", str(e)).in("s2", str(s2)).in("e2", str(e2));
  double vx = X(e) - X(s), vy = Y(e) - Y(s), wx = X(e2) - X(s2), wy = Y(e2) - Y(s2);
  double t = ((X(p) - X(s)) * vx + (Y(p) - Y(s)) * vy) / (vx * vx + vy * vy);
  t = std::min(1.0, std::max(0.0, t));
  F2CPoint k = p.closestPointInSegment(s, e);
  REQUIRE(std::fabs(X(k) - X(s) - t * vx) < 1e-8 && std::fabs(Y(k) - Y(s) - t * vy) < 1e-8, "closest point ", str(k));
  double d = p.signedDistance2Segment(s, e), want = (vx * (Y(p) - Y(s)) - vy * (X(p) - X(s))) / std::hypot(vx, vy);
  REQUIRE(std::fabs(d - want) < 1e-8, "signed distance ", d, " instead of ", want);
  F2CPoint x = F2CPoint::intersectionOfLines(s, e, s2, e2);
  double den = vx * wy - vy * wx;
  if (den == 0) {
    REQUIRE(same(x, s), "parallel lines: ", str(x));
  } else if (std::fabs(den) > 0.5) {
    double a = (vx * (Y(x) - Y(s)) - vy * (X(x) - X(s))) / std::hypot(vx, vy), b = (wx * (Y(x) - Y(s2)) - wy * (X(x) - X(s2))) / std::hypot(wx, wy);
    REQUIRE(std::fabs(a) < 1e-5 && std::fabs(b) < 1e-5, "intersection ", str(x), " is ", a, " and ", b, " off the lines");
  }
  c.nontrivial = t > 0 && t < 1;
}

TEST(legs, "C12 Swath::getInAngle Swath::getOutAngle Swath::startPoint Swath::endPoint LineString::startAngle LineString::endAngle MultiPoint::getInAngle MultiPoint::getOutAngle", 2) {
  int n = c.r.in(2, 6);
  F2CLineString l = line(c.r, n);
  auto P = pts(l);
  std::string d;
  for (auto& p : P) d += str(p) + " ";
  c.in("line", d);
  auto leg = [&](int i) { return std::atan2(Y(P[i + 1]) - Y(P[i]), X(P[i + 1]) - X(P[i])); };
  auto ok = [&](double a, int i) { return turn(a) && std::fabs(std::remainder(a - leg(i), PI2)) < 1e-7; };
  F2CSwath s(l, 2.0);
  REQUIRE(ok(s.getInAngle(), 0), "in angle ", s.getInAngle());
  REQUIRE(ok(s.getOutAngle(), n - 2), "out angle ", s.getOutAngle());
  REQUIRE(same(s.startPoint(), P[0]) && same(s.endPoint(), P[n - 1]), "ends");
  REQUIRE(ok(l.startAngle(), 0) && ok(l.endAngle(), n - 2), "angles of the line");
  F2CMultiPoint m;
  for (auto& p : P) m.addPoint(p);
  for (int i = 1; i < n; ++i) REQUIRE(ok(m.getInAngle(i), i - 1), "in angle of point ", i);
  for (int i = 0; i + 1 < n; ++i) REQUIRE(ok(m.getOutAngle(i), i), "out angle of point ", i);
  auto thr = [&](auto f) { try { f(); return 0; } catch (const std::invalid_argument&) { return 1; } catch (const std::out_of_range&) { return 2; } };
  REQUIRE(thr([&] { m.getInAngle(0); }) == 1, "no in angle at the first point");
  REQUIRE(thr([&] { m.getInAngle(n + c.r.in(0, 3)); }) == 2, "in angle out of range");
  REQUIRE(thr([&] { m.getOutAngle(n - 1 + c.r.in(0, 3)); }) == 1, "out angle out of range");
  c.nontrivial = n > 2;
}
DRV_MAIN
