// Replay / cross-check harness: runs the contracts of a property as runtime oracles on the real code.
// Deterministic in (VERIF_SEED, test, iteration); a failing input is named by these three and printed by its trace.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdint>
#include <string>
#include <vector>
#include <functional>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <stdexcept>
#include <set>
#include <map>
#include <fcntl.h>
#include <unistd.h>
#include <sys/time.h>
#include <signal.h>
#include <time.h>

namespace drv {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
  uint64_t next() {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  // integer in [a, b]
  long in(long a, long b) { return a + (long)(next() % (uint64_t)(b - a + 1)); }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double real(double a, double b) { return a + (b - a) * u(); }
  bool coin(double p = 0.5) { return u() < p; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
  template <class T> void shuffle(std::vector<T>& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[next() % i]); }
};

struct Fail : std::runtime_error { using std::runtime_error::runtime_error; };

struct Ctx {
  Rng r;
  long iter;
  bool eager = false;
  std::ostringstream trace;
  bool nontrivial = false;
  explicit Ctx(uint64_t seed, long it) : r(seed), iter(it) {}
  // description of the input, printed with a failure
  template <class T> Ctx& in(const char* name, const T& v) {
    std::ostringstream o;
    o.precision(17);
    o << name << "=" << v << "; ";
    trace << o.str();
    if (eager) { std::cerr << o.str() << std::flush; }
    return *this;
  }
  template <class T> Ctx& in(const char* name, const std::vector<T>& v) {
    std::ostringstream o;
    o.precision(17);
    o << "[";
    for (size_t i = 0; i < v.size(); ++i) o << (i ? ", " : "") << v[i];
    o << "]";
    return in(name, o.str());
  }
  // size bound that grows with the iteration number
  long size(long lo, long hi, long step = 20) { return std::min(hi, lo + iter / step); }
};

using Fn = std::function<void(Ctx&)>;
struct Test { std::string name; Fn fn; int weight; std::string covers; };
inline std::vector<Test>& tests() { static std::vector<Test> t; return t; }
struct Reg { Reg(const char* n, const char* covers, int w, Fn f) { tests().push_back({n, f, w, covers}); } };

inline std::string& status_path() { static std::string s; return s; }
inline void status(const std::string& test, long iter) {
  if (status_path().empty()) return;
  static int fd = ::open(status_path().c_str(), O_RDWR | O_CREAT, 0600);
  char b[200];
  int n = snprintf(b, sizeof b, "%s %ld\n", test.c_str(), iter);
  if (pwrite(fd, b, n, 0) < 0) {}
  if (ftruncate(fd, n) < 0) {}
}

inline uint64_t hash(const std::string& s) { uint64_t h = 1469598103934665603ull; for (char c : s) { h ^= (unsigned char)c; h *= 1099511628211ull; } return h; }
inline std::string esc(const std::string& s) {
  std::string o;
  for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; }
  return o;
}

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

inline void on_timer(int) {
  const char* m = "\nDRV-TIMEOUT: one input used more than its CPU time\n";
  if (write(2, m, strlen(m)) < 0) {}
  _exit(4);
}

inline int run_one(const Test& t, uint64_t seed, long iter, bool eager, std::string* sample, bool* nontrivial) {
  Ctx c(seed * 1000003ull + hash(t.name) + (uint64_t)iter * 7919ull, iter);
  c.eager = eager;
  itimerval tv{{0, 0}, {40, 0}};
  setitimer(ITIMER_VIRTUAL, &tv, nullptr);
  std::string err;
  try {
    t.fn(c);
  } catch (const Fail& f) {
    err = f.what();
  } catch (const std::exception& e) {
    err = std::string("unexpected exception: ") + e.what();
  } catch (...) {
    err = "unexpected exception of unknown type";
  }
  *nontrivial = c.nontrivial;
  if (sample) *sample = c.trace.str();
  if (!err.empty()) {
    printf("{\"failed\": true, \"test\": \"%s\", \"covers\": \"%s\", \"iter\": %ld, \"seed\": %llu, \"what\": \"%s\", \"input\": \"%s\"}\n", t.name.c_str(), esc(t.covers).c_str(), iter,
           (unsigned long long)seed, esc(err).c_str(), esc(c.trace.str()).c_str());
    fflush(stdout);
    return 3;
  }
  return 0;
}

// --seed S --seconds T --part K/N --status FILE [--only TEST [--iter I]] [--eager] [--max N]
inline int main_(int argc, char** argv) {
  uint64_t seed = 1;
  double secs = 5;
  long part = 0, parts = 1, iter1 = -1, maxit = 1L << 60;
  std::string only, prop;
  bool eager = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&] { return std::string(argv[++i]); };
    if (a == "--seed") seed = std::stoull(val());
    else if (a == "--seconds") secs = std::stod(val());
    else if (a == "--part") { std::string v = val(); part = std::stol(v); parts = std::stol(v.substr(v.find('/') + 1)); }
    else if (a == "--status") status_path() = val();
    else if (a == "--only") only = val();
    else if (a == "--prop") prop = val();
    else if (a == "--iter") iter1 = std::stol(val());
    else if (a == "--max") maxit = std::stol(val());
    else if (a == "--eager") eager = true;
    else if (a == "--list") { for (auto& t : tests()) printf("%s\t%s\n", t.name.c_str(), t.covers.c_str()); return 0; }
  }
  if (!prop.empty()) {
    std::vector<Test> keep;
    for (auto& t : tests()) { std::istringstream w(t.covers); std::string x; bool ok = false; while (w >> x) ok = ok || x == prop; if (ok) keep.push_back(t); }
    tests() = keep;
  }
  signal(SIGVTALRM, on_timer);
  std::map<std::string, long> count, nontriv;
  std::vector<std::string> samples;
  double t0 = now();
  std::map<std::string, long> next;
  std::map<std::string, double> used;
  for (auto& t : tests()) next[t.name] = part;
  bool any = true;
  // round robin, by time: each test gets a share proportional to its weight
  while (any) {
    any = false;
    Test* best = nullptr;
    double bu = 1e300;
    for (auto& t : tests()) {
      if (!only.empty() && t.name != only) continue;
      if (next[t.name] >= maxit) continue;
      double u = used[t.name] / t.weight;
      if (u < bu) { bu = u; best = &t; }
    }
    if (!best) break;
    if (iter1 < 0 && now() - t0 > secs && count.size() >= (only.empty() ? tests().size() : 1)) break;
    long it = iter1 >= 0 ? iter1 : next[best->name];
    next[best->name] += parts;
    status(best->name, it);
    std::string sample;
    bool nt = false;
    double a = now();
    int rc = run_one(*best, seed, it, eager, &sample, &nt);
    used[best->name] += now() - a + 1e-6;
    if (rc) return rc;
    ++count[best->name];
    if (nt) ++nontriv[best->name];
    if (it >= 30 && it < 30 + parts) samples.push_back(best->name + ": " + sample.substr(0, 400));
    any = iter1 < 0;
  }
  printf("{\"failed\": false, \"counts\": {");
  bool f = true;
  for (auto& p : count) { printf("%s\"%s\": [%ld, %ld]", f ? "" : ", ", p.first.c_str(), p.second, nontriv[p.first]); f = false; }
  printf("}, \"samples\": [");
  f = true;
  for (auto& s : samples) { printf("%s\"%s\"", f ? "" : ", ", esc(s).c_str()); f = false; }
  printf("]}\n");
  return 0;
}

inline std::string str() { return ""; }
template <class A, class... B> std::string str(const A& a, const B&... b) { std::ostringstream o; o.precision(17); o << a; return o.str() + str(b...); }
inline bool near(double a, double b, double tol = 1e-6) { return std::fabs(a - b) <= tol * std::max({1.0, std::fabs(a), std::fabs(b)}); }

}  // namespace drv

#define DRV_CAT2(a, b) a##b
#define DRV_CAT(a, b) DRV_CAT2(a, b)
// TEST(name, "functions it covers", weight) { ... uses c ... }
#define TEST(name, covers, weight) \
  static void name(drv::Ctx& c); \
  static drv::Reg DRV_CAT(reg_, name)(#name, covers, weight, name); \
  static void name(drv::Ctx& c)
#define REQUIRE(cond, ...) do { if (!(cond)) throw drv::Fail(drv::str("[" #cond "] ", __VA_ARGS__)); } while (0)
#define DRV_MAIN int main(int argc, char** argv) { return drv::main_(argc, argv); }
