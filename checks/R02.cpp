// R02: every accepted step of Radau5cc is a step of the 3 stages Radau IIA method.
#include "radau.hpp"
using namespace pbt;
static const std::vector<RCfg> CF = {RFULL(1, false), RFULL(1, true), RFULL(2, false), RFULL(3, true), RCFG(4, 1, 1, false, false), RCFG(4, 2, 1, false, true), RHESS(3, false), RHESS(4, true),
    // seldom
    RFULL(10, false), RCFG(13, 2, 1, false, true), RHESS(9, true)};
static const RadauTab TAB;
// distance between y1 and the Radau IIA step from y0, in the norm of the tolerances
static bool dist(const Prob &p, double x, double h, const std::vector<double> &y0, const double *y1, const Tol &tol, double &d, double &dabs) {
  std::vector<LD> y(y0.begin(), y0.end()), z;
  if (!irkLD(p, x, h, y, TAB.A, TAB.c, 3, z)) return false;
  int n = p.n;
  double s = 0;
  dabs = 0;
  double ymax = 0;
  for (int i = 0; i < n; i++) ymax = std::max({ymax, std::fabs(y0[i]), std::fabs((double)(y[i] + z[2 * n + i]))});
  for (int i = 0; i < n; i++) {
    double a, r;
    radau_inner_tol(tol, i, a, r);
    double e = (double)std::fabs((LD)y1[i] - (y[i] + z[2 * n + i]));
    s += std::pow(e / (a + r * std::fabs(y0[i])), 2);
    dabs = std::max(dabs, e / (ymax + std::fabs(x) * 1e-3));
  }
  d = std::sqrt(s / n);
  return true;
}
static void step(Case &c, bool whole) {
  const RCfg &cf = pick_cf(c, CF);
  ProbOpt o;
  o.n = cf.n;
  o.ml = cf.nsub;
  o.mu = cf.nsup;
  o.linear = c.chance(1, 4);
  o.autonomous = c.chance(1, 4);
  o.maxstiff = c.coin() ? 1e5 : 50;
  bool lng = whole && (getenv("PBT_LONG") || c.chance(1, 60));  // a run of hundreds of steps
  if (lng) o.wmax = 60, o.quads = false;
  Prob p = gen_prob(c, o);
  p.t0 = c.pick({0.0, 1.0, -3.0});
  p.dir = c.coin() ? -1 : 1;
  Tol tol = gen_tol(c, cf.n, 1e-6, 1e-1);
  if (c.coin()) for (auto &a : tol.a) a *= 10;
  double len = whole ? c.logu(0.05, 5) : c.logu(1e-3, 1);
  if (lng) {
    len = c.uniform(5, 40);
    for (auto &v : tol.a) v = c.logu(1e-8, 1e-5);
    for (auto &v : tol.r) v = c.logu(1e-7, 1e-5);
  }
  double h0 = whole ? c.logu(1e-4, 1) : len;
  bool tight = !c.chance(1, 4);
  double rt, ain, f = 0;
  radau_inner_tol(tol, 0, ain, rt);
  if (tight) f = std::max(c.logu(1e-8, 1e-4), 1e-12 / rt);
  std::vector<double> y0(cf.n);
  for (auto &v : y0) v = 2 * c.sym();
  c.desc << cf.name() << " " << p.show() << " y0=" << show(y0, cf.n) << " h=" << h0 << " length=" << len << " " << tol.show() << " fnewt=" << f;
  int nit = c.pick({7, 10, 15, 5});
  c.desc << " nit=" << nit;
  c.ready();
  new_hook(&p);
  hook().rec = hook().recy = true;
  hook().maxf = 60000;
  RadauP r(cf.make(tol.same, tol.a.data(), tol.r.data()));
  if (tight && !r->fnewt(f)) c.discard();
  r->nit(nit);
  if (!whole) r->one(true);
  double x0 = p.t0, xend = x0 + p.dir * len * (whole ? 1 : 4), x = x0;
  std::vector<double> y = y0;
  int rc = r->run(h0, x, xend, y.data());
  if (rc == 2) c.discard();  // R06
  if (rc == 1) { c.label("exception"); c.discard(); }
  double fn = tight ? f : std::max(1e-15 / rt, std::min(0.03, std::sqrt(rt)));
  c.label(tight ? "tight" : "default fnewt");
  std::vector<Attempt> at;
  c.check(parse_radau(hook().calls, x0, x, at), "calls-of-a-step", "the calls of the right-hand side, from x=", x0, " to x=", x, ", are not those of a sequence of three-stage steps");
  auto judge = [&](const Attempt &a, const double *yb) {
    double d, dabs;
    const std::vector<double> &ya = hook().calls[a.base].y;
    if (!dist(p, a.x, a.h, ya, yb, tol, d, dabs)) { c.label("reference failed"); return; }
    // With one iteration, convergence is judged from the rate of the preceding steps (as in
    // Hairer's code): nothing tight can be said, unless the problem is linear and the
    // Jacobian exact, where one iteration is enough.
    bool lin = o.linear && !cf.num;
    // Measured: at most 13 and 3 with one and two iterations, default criterion; 0.4 and 0.2 else.
    double lim = lin ? 20 * fn : a.newt >= 3 ? 1000 * fn : tight ? 50 : 300;
    c.label(lin ? "linear" : a.newt == 1 ? "1 iteration" : "several iterations");
    if (!lin && !tight && a.newt == 1) return;  // the rate of another step decides: anything can be accepted
    double my = 0;  // h is known up to the rounding of x
    for (int i = 0; i < p.n; i++) my = std::max({my, std::fabs(ya[i]), std::fabs(yb[i])});
    double noise = 1e-12 + 1e-15 * my * (std::fabs(a.x) + std::fabs(a.h)) / std::fabs(a.h);
    c.check(d <= lim || dabs < noise, "not-a-radau-step", "step from x=", a.x, " h=", a.h, " after ", a.newt, " iterations: distance to the Radau IIA step ", d, " in the norm of the tolerances, Newton is stopped at ", fn, " y0=", show(ya, p.n), " y1=", show(yb, p.n), " dabs=", dabs);
    c.nontrivial(lim < 0.3);
    if (lim < 0.3) c.label("decisive step");
  };
  if (!whole) {
    c.check(std::fabs(x - x0) <= len * (1 + 1e-9) && (x - x0) * p.dir > 0, "one-step-length", "x=", x, " after one step from ", x0, " with h=", h0);
    int na = 0;
    for (auto &a : at) na += a.accepted;
    c.check(na == 1 && at.back().accepted, "one-step-only", na, " steps accepted");
  }
  const Attempt *prev = nullptr;
  int k = 0;
  for (auto &a : at) {
    if (prev) judge(*prev, hook().calls[a.base].y.data()), ++k;
    prev = a.accepted ? &a : nullptr;
    if (k > (lng ? 500 : 30)) return;
  }
  if (prev) judge(*prev, y.data());
}
int main(int argc, char **argv) {
  Property p;
  p.id = "R02";
  p.quick_cases = 150000;
  p.thorough_cases = 20000000;
  p.rule = "random problems, structures, tolerances and Newton stopping criteria; every accepted step is compared with the Radau IIA step computed in long double (Newton on the stage equations); non-trivial: at least one step for which the comparison is tight (linear problem with exact Jacobian, or three Newton iterations or more)";
  p.arms = {{"one-step", 2, [](Case &c) { step(c, false); }}, {"whole", 1, [](Case &c) { step(c, true); }}};
  return run(argc, argv, p);
}
