// K03: Rock4 gives the same results whatever the number of threads.
#include "pbt.hpp"
#include <dlfcn.h>
using namespace pbt;
struct Desc {
  int n, threads;
  double k, a, b, v, t0, tend, h, atol, rtol, over;
  double *y;
  int rc, steps, acc, rej, rhs, stages;
  long calls;
  double hlast;
};
typedef void (*Solve)(Desc *);
static Solve load(const char *nm) {
  void *h = dlopen(getenv(nm), RTLD_NOW | RTLD_LOCAL);
  if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(3); }
  return (Solve)dlsym(h, "solve");
}
static void compare(Case &c, bool stiff) {
  static Solve seq = nullptr, omp = nullptr;
  if (!seq) {
    seq = load("PLUGIN_seq");
    omp = load("PLUGIN_omp");
  }
  Desc d;
  d.n = c.chance(1, 3) ? c.range(1, 7) : c.range(2, 300);
  // rounding errors are amplified a lot by stiff problems
  d.k = stiff ? c.logu(1e-4, 0.1) * d.n * d.n : c.logu(1e-3, 3);
  d.a = c.uniform(0, 3);
  d.b = c.uniform(0, 2);
  d.v = c.sym();
  d.t0 = c.pick({0.0, 1.0, -2.0});
  d.tend = d.t0 + c.logu(0.01, 1);
  d.h = c.logu(1e-5, 0.1);
  d.atol = c.logu(1e-7, 1e-3);
  d.rtol = c.coin() ? 0 : c.logu(1e-7, 1e-3);
  d.over = c.pick({1.0, 1.3});
  int nt = c.chance(1, 5) ? c.range(5, 8) : c.range(2, 4), rep = c.range(1, 2);
  std::vector<double> y0(d.n);
  uint64_t s = c.choice(1u << 30);
  for (auto &v : y0) v = 2 * ((splitmix(s) >> 11) * (1.0 / 9007199254740992.0)) - 1;
  c.desc << "reaction-diffusion n=" << d.n << " k=" << d.k << " a=" << d.a << " b=" << d.b << " v=" << d.v << " t0=" << d.t0 << " tend=" << d.tend << " h=" << d.h << " atol=" << d.atol << " rtol=" << d.rtol << " rho*" << d.over << " threads=" << nt << " y0=" << show(y0, std::min(d.n, 10));
  c.ready();
  Desc ds = d;
  std::vector<double> ys = y0;
  ds.y = ys.data();
  ds.threads = 1;
  seq(&ds);
  double m = 0;
  for (double v : ys) m = std::max(m, std::fabs(v));
  for (int k = 0; k < rep; k++)
    for (int t : {1, nt}) {
      Desc dp = d;
      std::vector<double> yp = y0;
      dp.y = yp.data();
      dp.threads = t;
      omp(&dp);
      c.check(dp.rc == ds.rc, "outcome", "sequential: ", ds.rc, ", with ", t, " threads: ", dp.rc);
      if (ds.rc) continue;
      int ds1 = std::abs(dp.acc - ds.acc), ds2 = std::abs(dp.rej - ds.rej);
      c.check(stiff ? ds1 <= 2 + ds.acc / 3 && ds2 <= 2 + ds.acc / 3 : ds1 + ds2 == 0, "steps", "sequential: ", ds.acc, "+", ds.rej, " steps, with ", t, " threads: ", dp.acc, "+", dp.rej);
      c.check(dp.calls == dp.rhs, "counter", dp.calls, " evaluations, NbRhsComputed()=", dp.rhs);
      if (!stiff) {
        c.check(dp.calls == ds.calls && dp.rhs == ds.rhs && dp.stages == ds.stages, "evaluations", "sequential: ", ds.calls, " evaluations, with ", t, " threads: ", dp.calls);
        c.check(std::fabs(dp.hlast - ds.hlast) <= 1e-6 * ds.hlast, "hlast", "sequential: last step ", ds.hlast, ", with ", t, " threads: ", dp.hlast);
      }
      double e = 0;
      for (int i = 0; i < d.n; i++) e = std::max(e, std::fabs(yp[i] - ys[i]));
      c.check(e <= (stiff ? 20 * (d.atol + d.rtol * m) : 1e-10) * (m + 1), "result", "the results differ by ", e, " with ", t, " threads");
    }
  c.label(ds.rc == 0 ? "reached" : "not reached");
  c.label(ds.stages < 20 ? "stages<20" : ds.stages < 100 ? "stages<100" : "stages>=100");
  if (ds.rej) c.label("with rejections");
  c.nontrivial(ds.rc == 0 && ds.steps >= 2 && d.n >= nt);
}
static void smooth(Case &c) { compare(c, false); }
static void stiff(Case &c) { compare(c, true); }
int main(int argc, char **argv) {
  Property p;
  p.id = "K03";
  p.quick_cases = 1600;
  p.thorough_cases = 2000000;
  p.rule = "reaction-diffusion problems with up to 300 unknowns and random data, sequential build against OpenMP build with 1 and 2 to 8 threads; non-trivial: at least two steps and one unknown per thread";
  p.arms = {{"smooth", 3, smooth}, {"stiff", 1, stiff}};
  p.workers = 2;
  return run(argc, argv, p);
}
