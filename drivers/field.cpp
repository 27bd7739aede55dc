// C11: fields, their reference point and coordinate systems, transformations
#include "gen.hpp"
#include "fields2cover/utils/transformation.h"
using namespace gen;
using PV = std::vector<F2CPoint>;
using PPV = std::vector<std::vector<PV>>;      // cells, rings, points

static PPV all(const F2CCells& c) {
  PPV o;
  auto* g = const_cast<F2CCells&>(c).get();
  for (int i = 0; i < g->getNumGeometries(); ++i) {
    auto* p = dynamic_cast<OGRPolygon*>(g->getGeometryRef(i));
    std::vector<PV> rs;
    auto add = [&](OGRLinearRing* r) { PV v; for (int k = 0; k < r->getNumPoints(); ++k) v.emplace_back(r->getX(k), r->getY(k), r->getZ(k)); rs.push_back(v); };
    if (p->getExteriorRing()) add(p->getExteriorRing());
    for (int k = 0; k < p->getNumInteriorRings(); ++k) add(p->getInteriorRing(k));
    o.push_back(rs);
  }
  return o;
}
static bool same3(const PPV& a, const PPV& b, double tol) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) {
    if (a[i].size() != b[i].size()) return false;
    for (size_t j = 0; j < a[i].size(); ++j) {
      if (a[i][j].size() != b[i][j].size()) return false;
      for (size_t k = 0; k < a[i][j].size(); ++k)
        if (!(std::fabs(X(a[i][j][k]) - X(b[i][j][k])) <= tol && std::fabs(Y(a[i][j][k]) - Y(b[i][j][k])) <= tol && std::fabs(Z(a[i][j][k]) - Z(b[i][j][k])) <= tol)) return false;
    }
  }
  return true;
}
static PPV moved(PPV a, double x, double y, double z) {
  for (auto& r : a) for (auto& v : r) for (auto& p : v) p = F2CPoint(X(p) + x, Y(p) + y, Z(p) + z);
  return a;
}
static std::string show3(const PPV& a) { std::string s; for (auto& r : a) { s += "("; for (auto& v : r) s += show(v); s += ")"; } return s; }
static F2CCells cells_of(const PPV& a) {
  F2CCells cs;
  for (auto& r : a) { F2CCell c; for (auto& v : r) { F2CLinearRing l; for (auto& p : v) l.addPoint(X(p), Y(p), Z(p)); c.addRing(l); } cs.addGeometry(c); }
  return cs;
}
// cells with holes, 0 to 3 of them, three-dimensional now and then
static PPV random_cells(Rng& r, double scale, double x0, double y0) {
  PPV o;
  bool z = r.coin(0.3);
  for (int i = 0, n = r.coin(0.12) ? 0 : r.in(1, 3); i < n; ++i) {
    auto s = cellspec(r, 20, true, 60.0 * i, 0);
    std::vector<PV> rs;
    for (auto& q : s.rings) {
      PV v;
      for (auto& p : q) v.emplace_back(x0 + scale * p.first, y0 + scale * p.second, z ? r.in(-8, 8) * 0.5 : 0.0);
      v.push_back(v[0]);
      rs.push_back(v);
    }
    o.push_back(rs);
  }
  return o;
}
static PPV absolute(const F2CField& f) { return all(f.getCellsAbsPosition()); }

TEST(field, "C11 Field::*", 3) {
  double far = c.r.coin(0.4) ? 1e5 : 0;
  PPV a = random_cells(c.r, 1, far, -far / 2);
  double tol = far ? 1e-8 : 1e-9;
  std::string id = str("id", c.r.in(0, 9)), crs, prev;
  c.in("cells", show3(a));
  c.nontrivial = !a.empty();
  F2CCells given = cells_of(a);
  F2CField f(given, id);
  F2CPoint ref = a.empty() ? F2CPoint(0, 0, 0) : a[0][0][0];
  PPV rel = moved(a, -X(ref), -Y(ref), -Z(ref));
  auto check = [&](const F2CField& f, const char* after) {
    REQUIRE(f.getId() == id && f.getCRS() == crs && f.getPrevCRS() == prev, "after ", after, ": identifier or coordinate systems: ", f.getId(), " ", f.getCRS(), " ", f.getPrevCRS());
    REQUIRE(same(f.getRefPoint(), ref, tol), "after ", after, ": reference point ", show(PV{f.getRefPoint()}));
    REQUIRE(same3(all(f.getField()), rel, tol), "after ", after, ": cells ", show3(all(f.getField())));
    REQUIRE(same3(absolute(f), moved(rel, X(ref), Y(ref), Z(ref)), 2 * tol), "after ", after, ": absolute cells ", show3(absolute(f)));
    REQUIRE(f.isEmpty() == rel.empty() && std::fabs(f.area() - given.area()) <= 1e-4 * (1 + given.area()), "after ", after, ": area ", f.area(), " or emptiness");
  };
  check(f, "construction");
  REQUIRE(same3(all(given), a, 0), "construction changed the given cells");
  auto normal = [&] {           // what a clone has: relative to its first point again
    if (rel.empty()) return;
    F2CPoint d = rel[0][0][0];
    rel = moved(rel, -X(d), -Y(d), -Z(d));
    ref = F2CPoint(X(ref) + X(d), Y(ref) + Y(d), Z(ref) + Z(d));
  };
  std::vector<F2CField> others;
  for (int i = 0, n = c.r.in(1, 8); i < n; ++i) {
    int op = c.r.in(0, 9);
    c.in("operation", op);
    switch (op) {
      case 0: id = str("name", c.r.in(0, 99)); f.setId(id); check(f, "setId"); break;
      case 1: crs = str("EPSG:", c.r.in(1000, 40000)); f.setCRS(crs); check(f, "setCRS"); break;
      case 2: prev = str("EPSG:", c.r.in(1000, 40000)); f.setPrevCRS(prev); check(f, "setPrevCRS"); break;
      case 3: ref = pt3(c.r); f.setRefPoint(ref); check(f, "setRefPoint"); break;
      case 4: { rel = random_cells(c.r, 1, c.r.in(-3, 3), 0); given = cells_of(rel); f.setField(given); check(f, "setField"); break; }
      case 5: {
        F2CField g = f.clone();
        normal();
        check(g, "clone");
        g.getField().addGeometry(F2CCell(ring(rect(500, 500, 510, 510)))); g.setRefPoint(F2CPoint(7, 7, 7)); g.setId("other"); g.setCRS("x"); g.setPrevCRS("y");
        f = f.clone();
        check(f, "changes to a clone");
        break;
      }
      case 6: {
        int e = c.r.in(1, 60000); f.setEPSGCoordSystem(e); crs = str("EPSG:", e);
        REQUIRE(f.getEPSGCoordSystem() == e && f.isCoordSystemEPSG() && !f.isCoordSystemUTM(), "EPSG code ", f.getEPSGCoordSystem(), " instead of ", e);
        check(f, "setEPSGCoordSystem");
        break;
      }
      case 7: {
        int zn = c.r.in(1, 60); bool n = c.r.coin(); const char* dt[] = {"WGS84", "etrs89", "NAD27"}; std::string d = dt[c.r.in(0, 2)];
        std::string zone = zn < 10 && c.r.coin() ? str("0", zn) : str(zn), z = zone + (n ? "N" : "S");
        int how = c.r.in(0, 2);
        if (how == 0) f.setUTMCoordSystem(z, d); else if (how == 1) f.setUTMCoordSystem("UTM:" + z + " datum:" + d); else f.setUTMCoordSystem("UTM " + z, "datum: " + d);
        if (c.r.coin(0.3)) {        // lower case hemisphere
          z.back() = std::tolower(z.back());
          if (how == 0) f.setUTMCoordSystem(z, d); else if (how == 1) f.setUTMCoordSystem("UTM:" + z + " datum:" + d); else f.setUTMCoordSystem("UTM " + z, "datum: " + d);
        }
        crs = "UTM:" + z + " datum:" + d;
        REQUIRE(f.isCoordSystemUTM() && !f.isCoordSystemEPSG() && f.getEPSGCoordSystem() == -1, "kind of the coordinate system ", f.getCRS());
        REQUIRE(f.getUTMCoordSystem() == z && f.getUTMDatum() == d && f.getUTMZone() == zone && f.getUTMHemisphere() == (n ? "+north" : "+south"),
                "UTM ", f.getUTMCoordSystem(), " datum ", f.getUTMDatum(), " zone ", f.getUTMZone(), " ", f.getUTMHemisphere(), " instead of ", z, " ", d);
        check(f, "setUTMCoordSystem");
        break;
      }
      case 8: {
        F2CField g(cells_of({}), "g");
        g = f; check(g, "assignment");
        F2CField h(g); check(h, "copy");
        F2CField m(std::move(h)); check(m, "move");
        h = g; check(h, "assignment to a moved field");
        std::swap(g, m); check(g, "exchange"); check(m, "exchange");
        g.setId("q"); g.setRefPoint(F2CPoint(1e3, 1, 1));
        check(f, "changes to a copy");
        break;
      }
      default: {
        PPV before = all(f.getField());
        auto plus = f.getField() + F2CPoint(3, -2, 1), minus = f.getField() - F2CPoint(3, -2, 1);
        REQUIRE(same3(all(plus), moved(before, 3, -2, 1), tol) && same3(all(minus), moved(before, -3, 2, -1), tol), "cells moved by a point: ", show3(all(plus)), " and ", show3(all(minus)));
        check(f, "moving its cells");
      }
    }
  }
}

// ---- transformations, against the projection library applied point by point
struct Ref { OGRSpatialReference s; };
static OGRSpatialReference sref(const std::string& n) {
  OGRSpatialReference s;
  if (n.rfind("EPSG:", 0) == 0) s.importFromEPSG(std::stoi(n.substr(5)));
  else {       // UTM:32N datum:...
    size_t k = 4;
    while (k < n.size() && std::isdigit(n[k])) ++k;
    bool north = n[k] == 'N';
    bool etrs = n.find("ETRS89") != std::string::npos || n.find("etrs89") != std::string::npos;
    s.importFromProj4(str("+proj=utm +zone=", n.substr(4, k - 4), north ? "" : " +south", etrs ? " +ellps=GRS80 +towgs84=0,0,0,0,0,0,0" : " +datum=WGS84", " +units=m +no_defs").c_str());
  }
  s.SetAxisMappingStrategy(OAMS_TRADITIONAL_GIS_ORDER);
  return s;
}
static PV trans(const PV& v, const std::string& from, const std::string& to) {
  auto a = sref(from), b = sref(to);
  OGRCoordinateTransformation* t = OGRCreateCoordinateTransformation(&a, &b);
  PV o;
  for (auto& p : v) { double x = X(p), y = Y(p), z = Z(p); t->Transform(1, &x, &y, &z); o.emplace_back(x, y, z); }
  OGRCoordinateTransformation::DestroyCT(t);
  return o;
}
static PPV trans(const PPV& a, const std::string& from, const std::string& to) {
  PV flat;
  for (auto& r : a) for (auto& v : r) for (auto& p : v) flat.push_back(p);
  flat = trans(flat, from, to);
  PPV o = a;
  size_t k = 0;
  for (auto& r : o) for (auto& v : r) for (auto& p : v) p = flat[k++];
  return o;
}
static double tol_of(const std::string& crs) { return crs == "EPSG:4326" || crs == "EPSG:4258" ? 1e-7 : 5e-3; }
static bool samev(const PV& a, const PV& b, double tol) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!(std::fabs(X(a[i]) - X(b[i])) <= tol && std::fabs(Y(a[i]) - Y(b[i])) <= tol && std::fabs(Z(a[i]) - Z(b[i])) <= 5e-3)) return false;
  return true;
}
static PV mpts(const F2CMultiPoint& m) {
  PV v;
  auto* g = const_cast<F2CMultiPoint&>(m).get();
  for (int i = 0; i < g->getNumGeometries(); ++i) { auto* p = dynamic_cast<OGRPoint*>(g->getGeometryRef(i)); v.emplace_back(p->getX(), p->getY(), p->getZ()); }
  return v;
}

TEST(transform, "C11 Transform::*", 3) {
  // a place in degrees and systems that are good there
  double lon, lat;
  std::vector<std::string> sys = {"EPSG:4326", "EPSG:4258", "EPSG:3857"};
  int place = c.r.in(0, 5);
  if (place == 0) { lon = 6.06; lat = 51.51; sys.insert(sys.end(), {"EPSG:28992", "UTM:32N datum:WGS84", "UTM:31N datum:etrs89"}); sys.erase(sys.begin() + 1); }
  else if (place == 1) { lon = -2.5; lat = 47.2; sys.insert(sys.end(), {"UTM:30N datum:ETRS89", "EPSG:25830"}); }
  else if (place == 2) { lon = -58.4; lat = -34.6; sys.insert(sys.end(), {"UTM:21S datum:WGS84", "EPSG:32721"}); sys.erase(sys.begin() + 1); }
  else if (place >= 4) {
    if (c.r.coin()) { lon = c.r.in(-178, 177) + 0.4; lat = c.r.in(-70, 70) + 0.3; }
    else { double xs[] = {-16.2, -16.0, 32.8, 32.95, 10.3}, ys[] = {40.1, 40.3, 60.5, 0.3, -0.3, 83.0}; lon = xs[c.r.in(0, 4)]; lat = ys[c.r.in(0, 5)]; }
    int z = (int)std::floor((lon + 180) / 6) + 1;
    std::string zs = (z < 10 ? str("0", z) : str(z)) + (lat > 0 ? "N" : "S");
    sys = {"EPSG:4326", "EPSG:3857", "UTM:" + zs + " datum:WGS84", str("EPSG:", (lat > 0 ? 32600 : 32700) + z)};
  }
  else { lon = 12.4; lat = 55.7; sys.insert(sys.end(), {"UTM:33N datum:WGS84", "EPSG:32632", "EPSG:25832"}); }
  PPV deg = random_cells(c.r, 1e-5, lon, lat);
  if (deg.empty()) deg = {{{F2CPoint(lon, lat), F2CPoint(lon + 1e-3, lat), F2CPoint(lon, lat + 1e-3), F2CPoint(lon, lat)}}};
  for (auto& r : deg) for (auto& v : r) for (auto& p : v) p = F2CPoint(X(p), Y(p), 0);
  std::string from = sys[c.r.in(0, sys.size() - 1)], to = sys[c.r.in(0, sys.size() - 1)];
  c.in("cells", show3(deg)).in("from", from).in("to", to);
  c.nontrivial = from != to;
  PPV a = from == "EPSG:4326" ? deg : trans(deg, "EPSG:4326", from);
  double tf = tol_of(from), tt = tol_of(to);
  F2CField f(cells_of(a), "id"), keep = f;
  f.setCRS(from);
  F2CField orig = f;
  int what = c.r.in(0, 4);
  c.in("what", what);
  if (what <= 1) {
    f2c::Transform::transform(f, to);
    PPV b = trans(a, from, to);
    REQUIRE(same3(absolute(f), b, tt), "transformed field lies at ", show3(absolute(f)), " instead of ", show3(b));
    REQUIRE(f.getCRS() == to && f.getPrevCRS() == from && f.getId() == "id", "coordinate systems ", f.getCRS(), " and before ", f.getPrevCRS());
    REQUIRE(same(f.getRefPoint(), b[0][0][0], tt), "the reference point is not the first point");
    REQUIRE(same3(absolute(orig), a, tf) && orig.getCRS() == from && same3(absolute(keep), a, tf), "transforming a copy changed the original field");
    f2c::Transform::transformToPrevCRS(f);
    REQUIRE(same3(absolute(f), a, tf) && f.getCRS() == from && f.getPrevCRS() == to, "there and back again: ", show3(absolute(f)), " in ", f.getCRS());
    F2CField bad = orig;
    bool thrown = false;
    try { f2c::Transform::transform(bad, c.r.coin() ? "" : "NONE"); } catch (const std::invalid_argument&) { thrown = true; }
    REQUIRE(thrown, "a coordinate system that is none is accepted");
    REQUIRE(same3(absolute(bad), a, tf) && bad.getCRS() == from, "a transformation that fails changes the field: ", show3(absolute(bad)));
    F2CField none;
    none.setId("none"); none.setCRS(from); none.setRefPoint(a[0][0][0]);
    f2c::Transform::transform(none, to);
    REQUIRE(same(none.getRefPoint(), b[0][0][0], tt) && none.isEmpty() && none.getCRS() == to && none.getPrevCRS() == from && none.getId() == "none",
            "field without cells transformed: ", show(PV{none.getRefPoint()}), " in ", none.getCRS());
    bad.setPrevCRS("");
    thrown = false;
    try { f2c::Transform::transformToPrevCRS(bad); } catch (const std::invalid_argument&) { thrown = true; }
    REQUIRE(thrown, "a field without coordinate system before is transformed back");
  } else if (what == 2) {
    // things relative to the field
    F2CPoint r = f.getRefPoint();
    F2CSwaths ss;
    std::vector<PV> want;
    F2CMultiPoint con;
    PV cw;
    double s = from == "EPSG:4326" || from == "EPSG:4258" ? 1e-5 : 1.0;
    for (int i = 0, n = c.r.in(0, 4); i < n; ++i) {
      F2CLineString l;
      PV v;
      for (int k = 0, m = c.r.in(2, 4); k < m; ++k) { double x = grid(c.r, 80) * s, y = grid(c.r, 80) * s; l.addPoint(x, y); v.emplace_back(X(r) + x, Y(r) + y, 0); }
      F2CSwath q(l, 1.5 + i, 10 * i - 3, c.r.coin() ? f2c::types::SwathType::HEADLAND : f2c::types::SwathType::MAINLAND);
      q.setCreationDir(c.r.coin());
      ss.push_back(q);
      want.push_back(trans(v, from, to));
    }
    for (int k = 0, m = c.r.in(1, 3); k < m; ++k) { double x = grid(c.r, 80) * s, y = grid(c.r, 80) * s; con.addPoint(x, y); cw.emplace_back(X(r) + x, Y(r) + y, 0); }
    cw = trans(cw, from, to);
    auto was = recs(ss);
    auto t = f2c::Transform::transformSwathsWithFieldRef(ss, f, to);
    auto judge = [&](const F2CSwaths& t, const char* w) {
      REQUIRE(t.size() == was.size(), w, ": ", t.size(), " swaths");
      for (size_t i = 0; i < t.size(); ++i) {
        auto g = rec(t.at(i));
        REQUIRE(g.id == was[i].id && g.width == was[i].width && g.type == was[i].type && g.dir == was[i].dir, w, ": identifier, width, type or direction of swath ", i);
        REQUIRE(samev(g.p, want[i], tt), w, ": swath ", i, " lies at ", show(g.p), " instead of ", show(want[i]));
      }
    };
    judge(t, "transformSwathsWithFieldRef");
    REQUIRE(equal(recs(ss), was), "the given swaths changed");
    f.setPrevCRS(to);
    judge(f2c::Transform::transformToPrevCRS(ss, f), "transformToPrevCRS");
    if (ss.size()) { F2CSwaths one; one.push_back(f2c::Transform::transformToPrevCRS(ss.at(0), f)); auto w2 = was; was.resize(1); judge(one, "transformToPrevCRS of a swath"); was = w2; }
    auto m = f2c::Transform::transformMultiPointWithFieldRef(con, f, to);
    REQUIRE(samev(mpts(m), cw, tt), "points lie at ", show(mpts(m)), " instead of ", show(cw));
    // a route of several groups, each swath its own group, with connections between, before and now and then behind them
    F2CRoute rt;
    size_t groups = ss.size() ? c.r.in(0, 2) : 0, cons = groups + (c.r.coin() || !groups);
    for (size_t g = 0; g < groups; ++g) rt.addConnectedSwaths(con, ss);
    if (cons > groups) rt.addConnection(con);
    REQUIRE(rt.sizeConnections() == cons && rt.sizeVectorSwaths() == groups, "the route of the test");
    f.setPrevCRS(to);
    auto nr = c.r.coin() ? f2c::Transform::transformRouteWithFieldRef(rt, f, to) : f2c::Transform::transformToPrevCRS(rt, f);
    REQUIRE(nr.sizeConnections() == cons && nr.sizeVectorSwaths() == groups, "parts of the transformed route");
    for (size_t k = 0; k < cons; ++k) REQUIRE(samev(mpts(nr.getConnection(k)), cw, tt), "connection ", k, " of the transformed route");
    for (size_t g = 0; g < groups; ++g) judge(nr.getSwaths(g), "transformRouteWithFieldRef");
    REQUIRE(equal(recs(ss), was), "the swaths of the given route changed");
  } else if (what == 3) {
    F2CSwaths ss;
    std::vector<PV> want;
    for (auto& r : a) for (auto& v : r) {
      F2CLineString l;
      for (auto& p : v) l.addPoint(X(p), Y(p));
      F2CSwath q(l, 2.5, (int)ss.size() * 7, c.r.coin() ? f2c::types::SwathType::HEADLAND : f2c::types::SwathType::MAINLAND);
      q.setCreationDir(c.r.coin());
      ss.push_back(q);
      want.push_back(trans(v, from, to));
    }
    auto was = recs(ss);
    auto t = f2c::Transform::transformSwaths(ss, from, to);
    REQUIRE(t.size() == ss.size(), t.size(), " swaths");
    for (size_t i = 0; i < t.size(); ++i) {
      auto g = rec(t.at(i));
      REQUIRE(g.id == was[i].id && g.width == was[i].width && g.type == was[i].type && g.dir == was[i].dir, "transformSwaths: identifier, width, type or direction of swath ", i);
      REQUIRE(samev(g.p, want[i], tt), "transformSwaths: swath ", i, " lies at ", show(g.p), " instead of ", show(want[i]));
    }
    REQUIRE(equal(recs(ss), was), "the given swaths changed");
    PPV b = trans(a, from, to);
    auto cs = cells_of(a);
    PPV given = all(cs);
    auto tc = f2c::Transform::transform(cs, from, to);
    REQUIRE(same3(all(cs), given, 0), "the given cells changed");
    REQUIRE(same3(all(tc), b, tt), "transformed cells ", show3(all(tc)), " instead of ", show3(b));
    F2CStrips st;
    for (size_t i = 0; i < cs.size(); ++i) { F2CStrip s; s.setName(str("s", i)); s.setCell(cs.getGeometry(i)); st.push_back(s); }
    auto ts = f2c::Transform::transformStrips(st, from, to);
    REQUIRE(ts.size() == st.size(), "number of strips");
    for (size_t i = 0; i < ts.size(); ++i) REQUIRE(ts[i].getName() == str("s", i) && same3(all(F2CCells(ts[i].getCell())), PPV{b[i]}, tt), "strip ", i);
    REQUIRE(same3(all(cs), given, 0), "the given cells changed");
  } else {
    auto g = f2c::Transform::getRefPointInGPS(f);
    REQUIRE(samev(PV{g}, PV{deg[0][0][0]}, 1e-6) && same3(absolute(f), a, tf), "reference point in degrees ", show(PV{g}));
    int how = c.r.in(0, 2);
    c.in("how", how);
    if (how == 0 && from == "EPSG:4326") {
      f.setCRS("");
    }
    bool opt = how != 1;
    bool europe = lon < 32.88 && lon > -16.1 && lat < 84.73 && lat > 40.18;
    f2c::Transform::transformToUTM(f, opt);
    std::string zone = str((int)std::floor((lon + 180) / 6) + 1) + (lat > 0 ? "N" : "S");
    REQUIRE(f.getUTMCoordSystem() == zone, "UTM zone ", f.getUTMCoordSystem(), " instead of ", zone);
    bool etrs = from == "EPSG:4258" || (from != "EPSG:4326" && europe && opt) || (how == 0 && from == "EPSG:4326" && europe);
    REQUIRE(f.getUTMDatum() == (etrs ? "ETRS89" : "WGS84"), "datum ", f.getUTMDatum());
    PPV b = trans(deg, "EPSG:4326", str("UTM:", zone, " datum:", etrs ? "ETRS89" : "WGS84"));
    REQUIRE(same3(absolute(f), b, 5e-3), "field in UTM lies at ", show3(absolute(f)), " instead of ", show3(b));
    std::string back = f.getPrevCRS();
    REQUIRE(back == (how == 0 && from == "EPSG:4326" ? std::string(etrs ? "EPSG:4258" : "EPSG:4326") : from), "coordinate system before: ", back);
    f2c::Transform::transformToPrevCRS(f);
    REQUIRE(same3(absolute(f), a, 2 * tf) && f.getCRS() == back, "there and back again: ", show3(absolute(f)));
  }
}
TEST(no_system, "C11 Transform::transformToUTM", 1) {
  // fields without a coordinate system: degrees are recognised, whether the reference point holds them or the cells
  double lon = c.r.in(-170, 170) + 0.4, lat = c.r.in(-70, 70) + 0.3;
  PPV a = random_cells(c.r, 1e-5, lon, lat);
  if (a.empty()) a = {{{F2CPoint(lon, lat), F2CPoint(lon + 1e-3, lat), F2CPoint(lon, lat + 1e-3), F2CPoint(lon, lat)}}};
  for (auto& r : a) for (auto& v : r) for (auto& p : v) p = F2CPoint(X(p), Y(p), 0);
  bool late = c.r.coin(), prev = c.r.coin(), opt = c.r.coin(0.7);
  c.in("cells", show3(a)).in("cells given late", late).in("with a previous system", prev).in("ETRS89 allowed", opt);
  c.nontrivial = true;
  F2CField f(cells_of(a), "f");
  if (late) { f = F2CField(F2CCells(), "f"); f.setField(cells_of(a)); }
  if (prev) f.setPrevCRS("EPSG:3857");
  bool etrs = opt && X(a[0][0][0]) < 32.88 && X(a[0][0][0]) > -16.1 && Y(a[0][0][0]) < 84.73 && Y(a[0][0][0]) > 40.18;
  f2c::Transform::transformToUTM(f, opt);
  std::string zone = str((int)std::floor((X(a[0][0][0]) + 180) / 6) + 1) + (Y(a[0][0][0]) > 0 ? "N" : "S"), datum = etrs ? "ETRS89" : "WGS84";
  REQUIRE(f.getUTMCoordSystem() == zone && f.getUTMDatum() == datum, "in ", f.getCRS(), " instead of ", zone, " ", datum);
  REQUIRE(f.getPrevCRS() == (etrs ? "EPSG:4258" : "EPSG:4326") && f.getId() == "f", "coordinate system before ", f.getPrevCRS());
  REQUIRE(same3(absolute(f), trans(a, "EPSG:4326", "UTM:" + zone + " datum:" + datum), 5e-3), "field in UTM lies at ", show3(absolute(f)));
  F2CField local(cells_of(moved(a, -X(a[0][0][0]), -Y(a[0][0][0]), 0)), "local"), far(cells_of(moved(a, 1e4, 0, 0)), "far");
  bool refused = false, unknown = false;
  try { f2c::Transform::transformToUTM(local, opt); } catch (const std::out_of_range&) { refused = true; }
  try { f2c::Transform::transformToUTM(far, opt); } catch (const std::invalid_argument&) { unknown = true; }
  REQUIRE(refused && unknown, "local coordinates without coordinate system are taken for degrees");
  REQUIRE(same3(absolute(far), moved(a, 1e4, 0, 0), 1e-6) && far.getCRS().empty(), "a refused field changed");
}
DRV_MAIN
