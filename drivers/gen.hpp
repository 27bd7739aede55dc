// input generators and small oracles shared by the drivers (none of them calls the code they judge, apart from constructors and getters)
#pragma once
#include "common.hpp"
#include "fields2cover/types.h"

namespace gen {
using drv::Ctx;
using drv::Rng;
using drv::str;

inline double grid(Rng& r, long lim, double step = 0.25) { return r.in(-lim, lim) * step; }
inline F2CPoint pt(Rng& r, long lim = 400) { return F2CPoint(grid(r, lim), grid(r, lim)); }
inline F2CPoint pt3(Rng& r, long lim = 400) { return F2CPoint(grid(r, lim), grid(r, lim), grid(r, lim)); }

inline std::vector<F2CPoint> pts(const F2CLineString& l) {
  std::vector<F2CPoint> v;
  auto* g = const_cast<F2CLineString&>(l).get();
  for (int i = 0; i < g->getNumPoints(); ++i) v.emplace_back(g->getX(i), g->getY(i), g->getZ(i));
  return v;
}
inline std::vector<F2CPoint> rpts(const F2CLinearRing& l) {
  std::vector<F2CPoint> v;
  auto* g = const_cast<F2CLinearRing&>(l).get();
  for (int i = 0; i < g->getNumPoints(); ++i) v.emplace_back(g->getX(i), g->getY(i), g->getZ(i));
  return v;
}
inline double X(const F2CPoint& p) { return const_cast<F2CPoint&>(p).get()->getX(); }
inline double Y(const F2CPoint& p) { return const_cast<F2CPoint&>(p).get()->getY(); }
inline double Z(const F2CPoint& p) { return const_cast<F2CPoint&>(p).get()->getZ(); }
inline bool same(const F2CPoint& a, const F2CPoint& b, double tol = 1e-9) {
  auto n = [&](double x, double y) { return drv::near(x, y, tol); };
  return n(X(a), X(b)) && n(Y(a), Y(b)) && n(Z(a), Z(b));
}
inline bool same(const std::vector<F2CPoint>& a, const std::vector<F2CPoint>& b, double tol = 1e-9) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i], tol)) return false;
  return true;
}
inline std::vector<F2CPoint> rev(const std::vector<F2CPoint>& v) { std::vector<F2CPoint> o; for (size_t i = v.size(); i-- > 0;) o.push_back(v[i]); return o; }
inline double dist(const F2CPoint& a, const F2CPoint& b) { return std::sqrt((X(a)-X(b))*(X(a)-X(b)) + (Y(a)-Y(b))*(Y(a)-Y(b)) + (Z(a)-Z(b))*(Z(a)-Z(b))); }
inline double dist2d(const F2CPoint& a, const F2CPoint& b) { return std::hypot(X(a)-X(b), Y(a)-Y(b)); }

// line of n points, consecutive ones distinct
inline F2CLineString line(Rng& r, int n, bool z = false) {
  F2CLineString l;
  F2CPoint last;
  for (int i = 0; i < n; ++i) {
    F2CPoint p = z ? pt3(r) : pt(r);
    while (i && same(p, last)) p = z ? pt3(r) : pt(r);
    l.addPoint(X(p), Y(p), Z(p));
    last = p;
  }
  return l;
}

struct SwathRec { int id; double width; bool dir; int type; std::vector<F2CPoint> p; };
inline SwathRec rec(const F2CSwath& s) { return {s.getId(), s.getWidth(), s.getCreationDir(), (int)s.getType(), pts(s.getPath())}; }
inline std::vector<SwathRec> recs(const F2CSwaths& s) { std::vector<SwathRec> v; for (size_t i = 0; i < s.size(); ++i) v.push_back(rec(s.at(i))); return v; }
inline bool equal(const SwathRec& a, const SwathRec& b) { return a.id == b.id && a.width == b.width && a.dir == b.dir && a.type == b.type && same(a.p, b.p); }
inline bool equal(const std::vector<SwathRec>& a, const std::vector<SwathRec>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!equal(a[i], b[i])) return false;
  return true;
}
// equal up to driving direction: points reversed exactly when the flag differs
inline bool upto_dir(const SwathRec& a, const SwathRec& b) {
  return a.id == b.id && a.width == b.width && a.type == b.type && same(a.dir == b.dir ? a.p : rev(a.p), b.p);
}
inline F2CSwath swath(Rng& r, int id, bool manypts = true) {
  F2CSwath s(line(r, manypts && r.coin(0.4) ? r.in(2, 6) : 2, r.coin(0.2)), r.in(1, 40) * 0.25, id, r.coin() ? f2c::types::SwathType::MAINLAND : f2c::types::SwathType::HEADLAND);
  if (r.coin(0.3)) s.setCreationDir(false);
  return s;
}
// one or more swaths; ids distinct but shuffled
inline F2CSwaths swaths(Rng& r, int n, bool ordered = false, std::vector<int>* ids_out = nullptr) {
  std::vector<int> ids;
  int base = r.coin(0.3) ? r.in(-50, 50) : 0;
  for (int i = 0; i < n; ++i) ids.push_back(base + i * (r.coin(0.5) ? 1 : 3));
  std::sort(ids.begin(), ids.end());
  for (int i = 1; i < n; ++i) if (ids[i] <= ids[i - 1]) ids[i] = ids[i - 1] + 1;
  if (!ordered && r.coin(0.6)) r.shuffle(ids);
  F2CSwaths s;
  for (int i = 0; i < n; ++i) s.push_back(swath(r, ids[i]));
  if (ids_out) *ids_out = ids;
  return s;
}
inline std::string show(const F2CSwaths& s) {
  std::ostringstream o;
  for (size_t i = 0; i < s.size(); ++i) { auto r = rec(s.at(i)); o << (i ? " " : "") << "#" << r.id << (r.dir ? "+" : "-"); }
  return o.str();
}
inline std::string show(const std::vector<F2CPoint>& v) {
  std::ostringstream o; o.precision(17);
  for (auto& p : v) { o << "(" << X(p) << "," << Y(p); if (Z(p) != 0) o << "," << Z(p); o << ")"; }
  return o.str();
}

// ------------------------------------------------------------------ cells
using Poly = std::vector<std::pair<double, double>>;   // open ring
struct CellSpec { std::vector<Poly> rings; };          // outer border, holes
inline double poly_area(const Poly& p) { double a = 0; for (size_t i = 0; i < p.size(); ++i) { auto& u = p[i]; auto& v = p[(i + 1) % p.size()]; a += u.first * v.second - v.first * u.second; } return a / 2; }
inline double area(const CellSpec& c) { double a = std::fabs(poly_area(c.rings[0])); for (size_t i = 1; i < c.rings.size(); ++i) a -= std::fabs(poly_area(c.rings[i])); return a; }
inline F2CLinearRing ring(const Poly& p) { F2CLinearRing r; for (auto& q : p) r.addPoint(q.first, q.second); r.addPoint(p[0].first, p[0].second); return r; }
inline F2CCell cell(const CellSpec& c) { F2CCell o; for (auto& p : c.rings) o.addRing(ring(p)); return o; }
inline double snap(double x, double g = 0.25) { return std::round(x / g) * g; }
inline double seg_cross(const std::pair<double,double>& a, const std::pair<double,double>& b, const std::pair<double,double>& c) { return (b.first-a.first)*(c.second-a.second) - (b.second-a.second)*(c.first-a.first); }
inline bool on_seg(const std::pair<double,double>& a, const std::pair<double,double>& b, const std::pair<double,double>& p) {
  return seg_cross(a, b, p) == 0 && std::min(a.first,b.first) <= p.first && p.first <= std::max(a.first,b.first) && std::min(a.second,b.second) <= p.second && p.second <= std::max(a.second,b.second);
}
inline bool seg_meet(const std::pair<double,double>& a, const std::pair<double,double>& b, const std::pair<double,double>& c, const std::pair<double,double>& d) {
  double x = seg_cross(a,b,c), y = seg_cross(a,b,d), z = seg_cross(c,d,a), w = seg_cross(c,d,b);
  if (((x > 0 && y < 0) || (x < 0 && y > 0)) && ((z > 0 && w < 0) || (z < 0 && w > 0))) return true;
  return on_seg(a,b,c) || on_seg(a,b,d) || on_seg(c,d,a) || on_seg(c,d,b);
}
inline bool simple(const Poly& p) {
  size_t n = p.size();
  if (n < 3 || poly_area(p) == 0) return false;
  for (size_t i = 0; i < n; ++i) {
    if (p[i] == p[(i + 1) % n]) return false;
    for (size_t j = i + 1; j < n; ++j) {
      if (j == i + 1) { if (on_seg(p[i], p[(i+1)%n], p[(j+1)%n]) || on_seg(p[j], p[(j+1)%n], p[i])) return false; continue; }
      if ((j + 1) % n == i) { if (on_seg(p[j], p[i], p[(i+1)%n]) || on_seg(p[i], p[(i+1)%n], p[j])) return false; continue; }
      if (seg_meet(p[i], p[(i + 1) % n], p[j], p[(j + 1) % n])) return false;
    }
  }
  return true;
}
// even-odd, point not on the border
inline bool inside(const Poly& p, double x, double y) {
  bool in = false;
  for (size_t i = 0, j = p.size() - 1; i < p.size(); j = i++)
    if ((p[i].second > y) != (p[j].second > y) && x < (p[j].first - p[i].first) * (y - p[i].second) / (p[j].second - p[i].second) + p[i].first) in = !in;
  return in;
}
inline double seg_dist(const std::pair<double,double>& a, const std::pair<double,double>& b, double x, double y) {
  double dx = b.first - a.first, dy = b.second - a.second, l = dx*dx + dy*dy;
  double t = l > 0 ? std::max(0.0, std::min(1.0, ((x - a.first)*dx + (y - a.second)*dy) / l)) : 0;
  return std::hypot(a.first + t*dx - x, a.second + t*dy - y);
}
inline double border_dist(const CellSpec& c, double x, double y) {
  double d = 1e300;
  for (auto& p : c.rings) for (size_t i = 0; i < p.size(); ++i) d = std::min(d, seg_dist(p[i], p[(i + 1) % p.size()], x, y));
  return d;
}
inline bool inside(const CellSpec& c, double x, double y) {
  if (!inside(c.rings[0], x, y)) return false;
  for (size_t i = 1; i < c.rings.size(); ++i) if (inside(c.rings[i], x, y)) return false;
  return true;
}
inline Poly rect(double x0, double y0, double x1, double y1) { return {{x0, y0}, {x1, y0}, {x1, y1}, {x0, y1}}; }
// star-shaped polygon on the grid around (cx, cy)
inline Poly star(Rng& r, double cx, double cy, double rad, int n, bool convex) {
  for (int t = 0; t < 50; ++t) {
    Poly p;
    std::vector<double> as;
    for (int i = 0; i < n; ++i) as.push_back(convex ? r.u() * 6.283185307179586 : (i + 0.8 * r.u()) * 6.283185307179586 / n);
    std::sort(as.begin(), as.end());
    for (double a : as) { double q = convex ? rad : rad * r.real(0.35, 1.0); p.push_back({snap(cx + q * std::cos(a)), snap(cy + q * std::sin(a))}); }
    if (simple(p) && poly_area(p) > rad) return p;
  }
  return rect(snap(cx - rad), snap(cy - rad), snap(cx + rad), snap(cy + rad));
}
inline CellSpec cellspec(Rng& r, double rad = 20, bool holes = true, double cx = 0, double cy = 0) {
  CellSpec c;
  int k = r.in(0, 5);
  if (k == 0) { double w = r.in(4, (long)(rad * 8)) * 0.25, h = r.in(4, (long)(rad * 8)) * 0.25; c.rings.push_back(rect(snap(cx), snap(cy), snap(cx) + w, snap(cy) + h)); }
  else if (k == 1) {   // L shape
    double w = r.in(8, (long)(rad * 8)) * 0.25, h = r.in(8, (long)(rad * 8)) * 0.25, a = snap(w * r.real(0.3, 0.7)), b = snap(h * r.real(0.3, 0.7));
    double x = snap(cx), y = snap(cy);
    c.rings.push_back({{x, y}, {x + w, y}, {x + w, y + b}, {x + a, y + b}, {x + a, y + h}, {x, y + h}});
  } else if (k == 2) c.rings.push_back(star(r, cx, cy, rad, r.in(3, 8), true));
  else c.rings.push_back(star(r, cx, cy, rad, r.in(4, 9), false));
  if (r.coin(0.3)) std::reverse(c.rings[0].begin(), c.rings[0].end());
  if (holes && r.coin(0.35)) {
    for (int t = 0, want = r.in(1, 2); t < 30 && (int)c.rings.size() <= want; ++t) {
      double x = snap(cx + r.real(-rad, rad)), y = snap(cy + r.real(-rad, rad)), w = r.in(2, 10) * 0.25, h = r.in(2, 10) * 0.25;
      bool ok = true;
      for (auto& q : {std::make_pair(x, y), std::make_pair(x + w, y), std::make_pair(x, y + h), std::make_pair(x + w, y + h), std::make_pair(x + w/2, y + h/2)})
        ok = ok && inside(c, q.first, q.second) && border_dist(c, q.first, q.second) > 0.3;
      Poly hp = rect(x, y, x + w, y + h);
      if (ok) for (auto& p : c.rings) for (size_t i = 0; i < p.size(); ++i) { for (int j = 0; j < 4; ++j) ok = ok && !seg_meet(p[i], p[(i+1)%p.size()], hp[j], hp[(j+1)%4]); ok = ok && !inside(hp, p[i].first, p[i].second); }
      if (ok) { if (r.coin()) std::reverse(hp.begin(), hp.end()); c.rings.push_back(hp); }
    }
  }
  return c;
}
inline std::string show(const CellSpec& c) {
  std::ostringstream o; o.precision(17);
  o << "POLYGON(";
  for (size_t k = 0; k < c.rings.size(); ++k) { o << (k ? ",(" : "("); for (auto& q : c.rings[k]) o << q.first << " " << q.second << ","; o << c.rings[k][0].first << " " << c.rings[k][0].second << ")"; }
  o << ")";
  return o.str();
}
inline Poly rotated(const Poly& p, double a) { Poly o; double s = std::sin(a), c = std::cos(a); for (auto& q : p) o.push_back({q.first*c - q.second*s, q.first*s + q.second*c}); return o; }
inline CellSpec rotated(const CellSpec& p, double a) { CellSpec o; for (auto& q : p.rings) o.rings.push_back(rotated(q, a)); return o; }
inline void extent(const Poly& p, double& x0, double& y0, double& x1, double& y1) { x0 = y0 = 1e300; x1 = y1 = -1e300; for (auto& q : p) { x0 = std::min(x0, q.first); x1 = std::max(x1, q.first); y0 = std::min(y0, q.second); y1 = std::max(y1, q.second); } }
// parts (maximal intervals of x) of the line y inside the closed cell; gap: distance of the line to the nearest vertex
inline std::vector<std::pair<double,double>> chords(const CellSpec& c, double y, double* gap = nullptr) {
  std::vector<double> xs;
  double g = 1e300;
  for (auto& p : c.rings) for (size_t i = 0; i < p.size(); ++i) {
    auto a = p[i], b = p[(i + 1) % p.size()];
    g = std::min(g, std::fabs(a.second - y));
    if ((a.second <= y && y <= b.second) || (b.second <= y && y <= a.second)) {
      if (a.second == b.second) { xs.push_back(a.first); xs.push_back(b.first); }
      else xs.push_back(a.first + (y - a.second) * (b.first - a.first) / (b.second - a.second));
    }
  }
  if (gap) *gap = g;
  std::sort(xs.begin(), xs.end());
  std::vector<std::pair<double,double>> o;
  for (size_t i = 0; i + 1 < xs.size(); ++i) {
    if (xs[i + 1] - xs[i] < 1e-9) continue;
    double m = 0.5 * (xs[i] + xs[i + 1]);
    if (!(border_dist(c, m, y) < 1e-9 || inside(c, m, y))) continue;
    if (!o.empty() && xs[i] - o.back().second < 1e-9) o.back().second = xs[i + 1];
    else o.push_back({xs[i], xs[i + 1]});
  }
  return o;
}
}  // namespace gen
