// C01 / C02 / C03: swath ordering inside one cell
#include "gen.hpp"
#include "fields2cover/route_planning/boustrophedon_order.h"
#include "fields2cover/route_planning/snake_order.h"
#include "fields2cover/route_planning/spiral_order.h"
#include "fields2cover/route_planning/custom_order.h"
using namespace gen;

// position, in the id-sorted (or reversed) sequence, of the k-th visited swath
static std::vector<size_t> snake(size_t n) {
  std::vector<size_t> v;
  for (size_t i = 0; i < n; i += 2) v.push_back(i);
  for (size_t i = n; i-- > 0;) if (i % 2 == 1) v.push_back(i);
  return v;
}
// group by group; inside a group alternately from its two ends, starting at the low end for groups at an even offset, at the high end otherwise
static std::vector<size_t> spiral(size_t n, size_t S) {
  std::vector<size_t> v;
  for (size_t off = 0; off < n; off += S) {
    size_t lo = off, hi = std::min(n, off + S);
    bool low = off % 2 == 0;
    while (lo < hi) { v.push_back(low ? lo++ : --hi); low = !low; }
  }
  return v;
}

static bool lt(const F2CPoint& a, const F2CPoint& b) { return X(a) < X(b) || (X(a) == X(b) && Y(a) < Y(b)); }

static void judge(Ctx& c, const char* what, const f2c::rp::SingleCellSwathsOrderBase& ord, const std::vector<size_t>& pat, F2CSwaths in, uint32_t variant) {
  auto before = recs(in);
  F2CSwaths out = ord.genSortedSwaths(in, variant);
  auto after = recs(in);
  REQUIRE(equal(before, after), what, ": the swaths passed in were modified");
  auto o = recs(out);
  size_t n = before.size();
  REQUIRE(o.size() == n, what, ": ", o.size(), " swaths instead of ", n);
  std::vector<SwathRec> s = before;
  std::stable_sort(s.begin(), s.end(), [](const SwathRec& a, const SwathRec& b) { return a.id < b.id; });
  std::set<int> ids;
  bool distinct = true;
  for (auto& x : s) distinct = distinct && ids.insert(x.id).second;
  // permutation, up to direction
  std::vector<bool> used(n, false);
  for (auto& x : o) {
    bool found = false;
    for (size_t i = 0; i < n && !found; ++i) if (!used[i] && upto_dir(s[i], x)) { used[i] = true; found = true; }
    REQUIRE(found, what, ": output swath with id ", x.id, " is not one of the input swaths (each once)");
  }
  if (variant & 1) std::reverse(s.begin(), s.end());
  for (size_t k = 0; k < n; ++k) {
    REQUIRE(o[k].id == s[pat[k]].id, what, ": position ", k, " holds swath ", o[k].id, " instead of ", s[pat[k]].id);
    if (k) REQUIRE(o[k].dir != o[k - 1].dir, what, ": swaths at ", k - 1, " and ", k, " have the same direction");
  }
  if (n && distinct) {
    // direction of the first visited swath: from its lower end to its upper one, the other way round for variants 2 and 3 when it is the first of the sorted sequence
    auto& f = o[0];
    bool up = !lt(f.p.back(), f.p.front()), down = !lt(f.p.front(), f.p.back());
    bool flipped = (variant & 2) && pat[0] == 0;
    REQUIRE(flipped ? down : up, what, ": wrong direction of the first swath for variant ", variant);
  }
}

TEST(patterns, "C01 C02 C03 genSortedSwaths BoustrophedonOrder SnakeOrder SpiralOrder CustomOrder Swaths::sort Swaths::reverseDirOddSwaths changeStartPoint", 3) {
  long cap = c.size(2, 40, 10);
  int n = c.r.in(0, cap);
  F2CSwaths in = swaths(c.r, n);
  uint32_t v = c.r.coin(0.9) ? c.r.in(0, 3) : c.r.in(4, 1000);
  c.in("n", n).in("swaths", show(in)).in("variant", v);
  c.nontrivial = n > 2;
  std::vector<size_t> id(n);
  for (int i = 0; i < n; ++i) id[i] = i;
  judge(c, "BoustrophedonOrder", f2c::rp::BoustrophedonOrder(), id, in, v);
  judge(c, "SnakeOrder", f2c::rp::SnakeOrder(), snake(n), in, v);
  size_t S = c.r.in(2, std::max<long>(3, cap));
  c.in("spiral_size", S);
  f2c::rp::SpiralOrder sp(S);
  judge(c, "SpiralOrder", sp, spiral(n, S), in, v);
  size_t S2 = c.r.in(1, std::max<long>(3, cap + 2));
  c.in("setSpiralSize", S2);
  sp.setSpiralSize(S2);
  judge(c, "SpiralOrder::setSpiralSize", sp, spiral(n, S2), in, v);
  if (n > 0) {
    c.r.shuffle(id);
    c.in("custom", id);
    judge(c, "CustomOrder", f2c::rp::CustomOrder(id), id, in, v);
    f2c::rp::CustomOrder co(std::vector<size_t>{0});
    co.setCustomOrder(id);
    judge(c, "CustomOrder::setCustomOrder", co, id, in, v);
  }
}

// exhaustive: every size up to 33 (iteration number), every spiral size, every variant
TEST(patterns_small, "C01 C02 SnakeOrder SpiralOrder", 1) {
  int n = c.iter % 34;
  F2CSwaths in = swaths(c.r, n);
  uint32_t v = (c.iter / 34) % 4;
  c.in("n", n).in("variant", v).in("swaths", show(in));
  c.nontrivial = n > 2;
  judge(c, "SnakeOrder", f2c::rp::SnakeOrder(), snake(n), in, v);
  for (size_t S = 1; S <= (size_t)n + 1; S += 1 + S / 8) {
    c.in("spiral_size", S);
    f2c::rp::SpiralOrder sp(7);
    sp.setSpiralSize(S);
    judge(c, "SpiralOrder", sp, spiral(n, S), in, v);
  }
}

TEST(custom_rejects, "C01 CustomOrder::check", 1) {
  int n = c.r.in(1, c.size(2, 20, 10));
  F2CSwaths in = swaths(c.r, n);
  std::vector<size_t> o;
  int m = c.r.coin(0.5) ? n : c.r.in(0, n + 2);
  for (int i = 0; i < m; ++i) o.push_back(i);
  c.r.shuffle(o);
  int muts = c.r.in(0, 2);
  for (int i = 0; i < muts && m; ++i) o[c.r.in(0, m - 1)] = c.r.coin(0.1) ? (size_t)-1 : c.r.in(0, n + 1);
  c.in("n", n).in("order", o);
  std::set<size_t> u(o.begin(), o.end());
  bool dup = u.size() != o.size(), len = o.size() != (size_t)n, large = !o.empty() && *u.rbegin() >= (size_t)n;
  c.nontrivial = dup || len || large;
  auto before = recs(in);
  std::string got = "none";
  try {
    f2c::rp::CustomOrder(o).genSortedSwaths(in);
  } catch (const std::invalid_argument&) { got = "invalid_argument"; } catch (const std::length_error&) { got = "length_error"; } catch (const std::exception& e) { got = std::string("other: ") + e.what(); }
  bool bad = dup || len || large;
  REQUIRE((got != "none") == bad, "order accepted=", got == "none", " but it is ", bad ? "not " : "", "a permutation of the swath positions");
  if (bad) REQUIRE(got == (dup ? "invalid_argument" : len ? "length_error" : "invalid_argument"), "rejected with ", got);
  REQUIRE(equal(before, recs(in)), "input modified");
}

TEST(in_place, "C01 C02 Swaths::sort Swaths::reverseDirOddSwaths Swaths::reverse", 1) {
  int n = c.r.in(0, c.size(2, 40, 10));
  F2CSwaths s = swaths(c.r, n);
  if (n > 2 && c.r.coin(0.3)) s[c.r.in(0, n - 1)].setId(s[c.r.in(0, n - 1)].getId());
  c.in("swaths", show(s));
  c.nontrivial = n > 2;
  auto b = recs(s);
  {
    F2CSwaths t = s.clone();
    t.reverseDirOddSwaths();
    auto a = recs(t);
    REQUIRE(a.size() == b.size(), "size");
    for (size_t i = 0; i < a.size(); ++i) {
      REQUIRE(upto_dir(a[i], b[i]), "reverseDirOddSwaths changed swath ", i);
      if (i) REQUIRE(a[i].dir != a[i - 1].dir, "directions do not alternate at ", i);
    }
    if (n) REQUIRE(a[0].dir == b[0].dir, "reverseDirOddSwaths changed the first swath");
  }
  {
    F2CSwaths t = s.clone();
    t.reverse();
    auto a = recs(t);
    std::reverse(a.begin(), a.end());
    REQUIRE(equal(a, b), "Swaths::reverse");
  }
  s.sort();
  auto a = recs(s);
  REQUIRE(a.size() == b.size(), "size");
  std::vector<bool> used(n, false);
  for (size_t i = 0; i < a.size(); ++i) {
    if (i) REQUIRE(a[i - 1].id <= a[i].id, "ids not sorted");
    REQUIRE(!lt(a[i].p.back(), a[i].p.front()), "swath ", i, " ends before it starts");
    bool f = false;
    for (int j = 0; j < n && !f; ++j) if (!used[j] && upto_dir(b[j], a[i])) { used[j] = true; f = true; }
    REQUIRE(f, "sorted swath ", i, " is not one of the input");
  }
}

TEST(pairs, "C02 Swath::reverse Swath::targetSameDirAs Swath::targetOppositeDirAs Swath::hasSameDir", 1) {
  F2CSwath a = swath(c.r, 1), b = swath(c.r, 2);
  auto ra = rec(a), rb = rec(b);
  c.in("dirs", str(ra.dir, rb.dir));
  c.nontrivial = true;
  REQUIRE(a.hasSameDir(b) == (ra.dir == rb.dir), "hasSameDir");
  F2CSwath x = a.clone();
  x.targetSameDirAs(b);
  REQUIRE(upto_dir(ra, rec(x)) && rec(x).dir == rb.dir, "targetSameDirAs");
  x.targetOppositeDirAs(b);
  REQUIRE(upto_dir(ra, rec(x)) && rec(x).dir != rb.dir, "targetOppositeDirAs");
  x = a.clone();
  x.reverse();
  REQUIRE(rec(x).dir != ra.dir && upto_dir(ra, rec(x)), "reverse");
  x.reverse();
  REQUIRE(equal(rec(x), ra), "reverse twice");
}
DRV_MAIN
