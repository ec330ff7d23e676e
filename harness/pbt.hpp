// Property-based testing engine (choice-sequence style, after Hypothesis).
//
//  * Every generated value comes from Case::choice(max): a recorded integer,
//    0 being the simplest. A run is determined by its choice sequence, so any
//    failure can be shrunk (delete, zero, lower choices) and replayed.
//  * Cases run in forked workers; a crash, sanitizer report or hang is a
//    failure of the case being run and not of the engine.
//  * No dependency besides libc/libstdc++.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
namespace pbt {
typedef long double LD;
struct Fail { std::string key, msg; };
struct Discard {};
// choices and description are also written to shared memory, when set, so that
// they survive a crash of the case
extern uint64_t *g_pub_out, *g_pub_n;
extern char *g_pub_desc;
extern size_t g_pub_desc_size;
inline uint64_t splitmix(uint64_t &s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
class Case {
  std::vector<uint64_t> in;
  size_t pos = 0;
  bool replaying;
  uint64_t rng;

public:
  std::vector<uint64_t> out;  // choices made
  std::ostringstream desc;    // human readable description of the input
  std::set<std::string> labels;
  bool nontriv = false;
  explicit Case(uint64_t seed) : replaying(false), rng(seed) { desc.precision(17); }
  explicit Case(const std::vector<uint64_t> &choices) : in(choices), replaying(true), rng(0) { desc.precision(17); }
  //! integer in [0,max]
  uint64_t choice(uint64_t max) {
    uint64_t v;
    if (replaying) {
      v = pos < in.size() ? in[pos] : 0;
      ++pos;
      if (v > max) v = max;
    } else {
      v = max == ~0ull ? splitmix(rng) : splitmix(rng) % (max + 1);
    }
    if (out.size() > 200000) throw Discard();
    out.push_back(v);
    if (g_pub_out && *g_pub_n < (1 << 18)) g_pub_out[(*g_pub_n)++] = v;
    return v;
  }
  int range(int lo, int hi) { return lo + (int)choice((uint64_t)(hi - lo)); }
  bool coin() { return choice(1) == 1; }
  // a number of unknowns: seldom (1 time in one_in) a large one
  int size(int lo, int hi, int blo, int bhi, int one_in = 30) {
    if (getenv("PBT_BIG")) return range(blo, bhi);
    return chance(1, one_in) ? range(blo, bhi) : range(lo, hi);
  }
  bool chance(int num, int den) { return (int)choice(den - 1) >= den - num; }  // 0 -> false
  //! the input is complete: publish its description
  void ready() {
    if (!g_pub_desc) return;
    std::string d = desc.str().substr(0, g_pub_desc_size - 1);
    std::memcpy(g_pub_desc, d.c_str(), d.size() + 1);
  }
  double unit() { return (double)choice(1u << 20) / (double)(1u << 20); }
  double uniform(double lo, double hi) { return lo + (hi - lo) * unit(); }
  double logu(double lo, double hi) { return std::exp(std::log(lo) + (std::log(hi) - std::log(lo)) * unit()); }
  //! in [-1,1], 0 being the simplest
  double sym() {
    bool neg = coin();
    double u = unit();
    return neg ? -u : u;
  }
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + choice(l.size() - 1)); }
  template <class T> T pick(const std::vector<T> &l) { return l[choice(l.size() - 1)]; }
  void label(const std::string &s) { labels.insert(s); }
  void nontrivial(bool b = true) { nontriv = nontriv || b; }
  [[noreturn]] void discard() { throw Discard(); }
  [[noreturn]] void fail(const std::string &key, const std::string &msg) { throw Fail{key, msg}; }
  template <class... A> void check(bool ok, const char *key, const A &...a) {
    if (ok) return;
    std::ostringstream o;
    o.precision(17);
    int dummy[] = {0, ((o << a), 0)...};
    (void)dummy;
    throw Fail{key, o.str()};
  }
};
struct Arm {
  std::string name;
  int weight;
  std::function<void(Case &)> fn;
};
struct Property {
  std::string id;
  std::string rule;  // what counts as non-trivial
  int quick_cases, thorough_cases;
  std::vector<Arm> arms;
  std::vector<std::string> assumptions;
  double case_cpu_s = 60;  // CPU time limit of one case
  int workers = 0;         // 0: number of cores
};
int run(int argc, char **argv, const Property &p);

//-------------------------------------------------------------- helpers
inline double ulp1(double x) { return std::fabs(std::nextafter(x, INFINITY) - x); }
inline bool finite_all(const double *y, int n) {
  for (int i = 0; i < n; i++)
    if (!std::isfinite(y[i])) return false;
  return true;
}
template <class V> std::string show(const V &v, int n) {
  std::ostringstream o;
  o.precision(17);
  o << "[";
  for (int i = 0; i < n; i++) o << (i ? ", " : "") << v[i];
  o << "]";
  return o.str();
}
}  // namespace pbt
