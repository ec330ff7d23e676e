// L03: Rock4L's time loop: equal steps, exact end, counters, refusal of what it cannot do.
#include "rock4l.hpp"
using namespace pbt;
static int stages_needed(double hr) {
  double s = std::sqrt((3 + hr) / 0.353) + 1;
  return s > 1e6 ? 1000000 : (int)s;
}
static const int MSTAB[50] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 22, 24, 26, 28, 30, 32, 34, 36, 38, 41, 44, 47, 50, 53, 56, 59, 63, 67, 71, 76, 81, 86, 92, 98, 105, 112, 120, 129, 138, 148};
static void loop(Case &c) {
  bool affine = c.coin();
  double len = c.logu(1e-3, 100), t0 = c.pick({0.0, 1.0, -7.0, 1e3}), tend = t0 + len;
  if (c.coin()) tend = len * c.logu(1e-4, 1), t0 = tend - len;  // rounded: t0+(tend-t0) may differ from tend
  double h = len * (c.coin() ? c.logu(0.005, 3) : 1.0 / c.range(1, 60));
  if (c.chance(1, 10)) h = len * (1 - 0.02 * c.unit());
  if (c.chance(1, 20)) h = len / c.uniform(100, 3000);  // many steps
  double rho = c.chance(1, 8) ? c.logu(7000, 20000) / h : c.logu(0.1, 7000) / h;
  if (c.chance(1, 10)) rho = 0;
  R4LF F;
  F.n = 3;
  F.r = rho;
  // y0'=1 (affine) or y0'=y1, y1'=0 (linear): the time; y2'=-y2
  F.A = {0, affine ? 0. : 1., 0, 0, 0, 0, 0, 0, -std::min(rho, 1 / h)};
  std::vector<double> b = {affine ? 1. : 0., 0, 0}, y0 = {t0, 1, 1}, y = y0;
  c.desc << (affine ? "affine" : "linear") << " h=" << h << " rho=" << rho << " t0=" << t0 << " tend=" << tend;
  c.ready();
  R4LStat st;
  int rc = r4lrun(F, affine, y, b, t0, tend, h, &st);
  double H = tend - t0, eps = 1e-9;
  // number of steps: k full ones then the rest (nothing shorter than 1% of a step)
  double q = H / h;
  bool refuse = stages_needed(std::min(H, h) * rho * (1 + eps)) > 152, must = stages_needed(std::min(H, h) * rho * (1 - eps)) > 152;
  // a last step can be 1% longer
  bool maylast = stages_needed(std::min(H, 1.01 * h) * rho * (1 + eps)) > 152;
  if (must) {
    c.check(rc == 1, "degree-limit", "more than 152 stages are needed, no exception");
    if (1.01 * h < H * (1 - eps))
      for (int i = 0; i < 3; i++) c.check(y[i] == y0[i], "degree-limit", "y changed although nothing can be done");
    c.label("too many stages");
    c.nontrivial();
    return;
  }
  if (refuse || maylast) c.discard();
  c.check(rc == 0, "not-reached", rc == 1 ? "exception" : "no end");
  c.check(st.time == tend, "time", "Time()=", st.time, " tend=", tend);
  c.check(st.n == 3, "size", "nbUnkn()=", st.n);
  c.check(st.rhs == F.calls, "rhs-counter", "NbRhsComputed()=", st.rhs, ", evaluations: ", F.calls);
  c.check((F.affine > 0) == affine, "form", "the form with a source was called ", F.affine, " times");
  c.check(!F.alias, "alias", "an output vector is also an input");
  int nmin = std::max(1., std::ceil(q * (1 - 1e-9) - 0.0101)), nmax = std::max(1., std::ceil(q * (1 + 1e-9) - 0.0099));
  c.check(st.steps >= nmin && st.steps <= nmax, "steps", st.steps, " steps, interval/h = ", q);
  c.check(std::fabs(y[0] - tend) <= 1e-11 * (1 + st.steps / 100.) * (1 + std::fabs(t0) + std::fabs(tend)), "sum-of-steps", "y'=1 gives ", y[0] - t0, " instead of ", H);
  c.check(std::fabs(y[1] - 1) <= 1e-12 * st.steps, "constant", "y'=0: 1 becomes ", y[1]);
  // largest number of stages
  double hm = st.steps > 1 && q < st.steps ? h : std::min(H, std::max(h, H - (st.steps - 1) * h));
  int s1 = std::max(5, stages_needed(hm * rho * (1 - 1e-9))), s2 = std::max(5, stages_needed(hm * rho * (1 + 1e-9)));
  auto up = [](int s) { int k = 0; while (MSTAB[k] < s - 4) k++; return MSTAB[k] + 4; };
  c.check(st.stages == up(s1) || st.stages == up(s2), "stages", "NbStages()=", st.stages, " instead of ", up(s1));
  c.check(F.calls <= (long)st.steps * st.stages, "work", F.calls, " evaluations for ", st.steps, " steps of at most ", st.stages, " stages");
  c.label(st.steps == 1 ? "one step" : "several steps");
  c.nontrivial(st.steps > 1);
}
// objects are reused; the wrong form is refused
static void reuse(Case &c) {
  int n = c.size(1, 5, 20, 50), k = c.range(1, 4);
  R4LF F;
  F.n = n;
  F.A.assign(n * n, 0);
  odes::Rock4L<R4LF, false> L(F);
  odes::Rock4L<R4LF, true> B(F);
  c.desc << "n=" << n;
  double h = 1, len = 1, rho = 1, t0 = 0, tend = 0;
  std::vector<double> y0(n), b(n, 0);
  // the runs share these vectors, or have their own
  R4LVec ys(y0), bs(b);
  bool cont = false;
  for (int q = 0; q <= k; q++) {
    bool affine = c.coin();
    // some things change from one run to the next one, others do not
    int what = q ? c.choice(15) : 0;
    if (what == 0 || what & 1) h = c.logu(1e-3, 1), rho = c.logu(0.1, 9000) / h;
    if (what == 0 || what & 2) for (auto &v : F.A) v = std::min(1 / h, rho) * c.sym() / n;
    if (what == 0 || what & 4) len = h * c.uniform(0.5, 5);
    if (what == 0 || what & 8) for (auto &v : b) v = c.sym();
    if (what != 15 && len / h > 50) len = 50 * h;
    F.r = rho;
    bool shared = c.coin();
    cont = cont && c.coin();
    int fault = q < k && c.chance(1, 3) ? c.range(1, 60) : 0;
    bool wrong = c.chance(1, 4);
    if (cont) {
      y0 = std::vector<double>(ys.p, ys.p + n);
      t0 = tend;
      shared = true;
    } else {
      for (auto &v : y0) v = c.sym();
      t0 = c.pick({0.0, 1.0, -7.0});
    }
    c.desc << "\n " << (cont ? "going on, " : "") << (shared ? "shared vectors, " : "") << "t0=" << t0 << " " << (affine ? "affine" : "linear") << " h=" << h << " length=" << len << " rho=" << rho << " A=" << show(F.A, n * n) << " y0=" << show(y0, n) << " b=" << show(b, n);
    if (fault) c.desc << " exception at call " << fault;
    if (q == k) c.ready();
    if (wrong) {
      R4LVec y(y0), bb(b);
      bool th = false;
      F.calls = 0;
      try {
        if (affine) B(y.p, t0, t0 + len, h);
        else L(y.p, bb.p, t0, t0 + len, h);
      } catch (odes::OdesException &) { th = true; }
      c.check(th, "wrong-form", affine ? "the affine object accepts a problem without source" : "the linear object accepts a source");
      for (int i = 0; i < n; i++) c.check(y.p[i] == y0[i], "wrong-form", "y changed");
      c.label("wrong form");
    }
    R4LVec yo(y0), bo(b);
    for (int i = 0; i < n; i++) ys.p[i] = y0[i], bs.p[i] = b[i];
    R4LVec &y = shared ? ys : yo, &bb = shared ? bs : bo;
    F.calls = 0;
    F.maxcalls = fault ? fault : 1000000;
    int rc = 0;
    try {
      if (affine) B(y.p, bb.p, t0, t0 + len, h);
      else L(y.p, t0, t0 + len, h);
    } catch (odes::OdesException &) { rc = 1; } catch (R4LBudget &) { rc = 2; }
    R4LStat s1 = affine ? R4LStat{B.NbStages(), B.NbSteps(), B.NbRhsComputed(), B.nbUnkn(), B.Time()} : R4LStat{L.NbStages(), L.NbSteps(), L.NbRhsComputed(), L.nbUnkn(), L.Time()}, s2;
    for (int i = 0; i < n; i++) c.check(bb.p[i] == b[i], "source-changed", "the source is modified");
    cont = shared && !rc;
    tend = t0 + len;
    for (int i = 0; i < n; i++) if (!(std::fabs(y.p[i]) < 1e100)) cont = false;
    if (rc) { c.label(rc == 1 ? "refused" : "interrupted"); continue; }
    F.maxcalls = 1000000;
    F.calls = 0;
    std::vector<double> u = y0;
    int rc2 = r4lrun(F, affine, u, b, t0, t0 + len, h, &s2);
    c.check(rc2 == 0, "outcome", "a fresh object fails, the other one does not");
    for (int i = 0; i < n; i++) c.check(y.p[i] == u[i], "result", "component ", i, ": ", y.p[i], " with a history, ", u[i], " without");
    c.check(s1.stages == s2.stages && s1.steps == s2.steps && s1.rhs == s2.rhs && s1.time == s2.time, "counters", "counters differ from those of a fresh object");
    c.nontrivial(q > 0);
  }
}
int main(int argc, char **argv) {
  Property p;
  p.id = "L03";
  p.quick_cases = 60000;
  p.thorough_cases = 20000000;
  p.rule = "loop: random intervals, steps and spectral radii, the time being a component; non-trivial: several steps, or a refusal. reuse: sequences of up to 5 runs (some interrupted; other data, the same ones, or the continuation of the preceding run) and wrong calls on the same objects, compared with fresh ones; non-trivial: not the first run";
  p.arms = {{"loop", 2, loop}, {"reuse", 1, reuse}};
  return run(argc, argv, p);
}
