// D02: every accepted step of Rodascc is a step of the Rosenbrock method chosen.
#include "rodas.hpp"
using namespace pbt;
static const std::vector<DCfg> CF = {DFULL(1, false, true, false, 1), DFULL(1, false, false, true, 2), DFULL(1, false, false, true, 3), DFULL(2, false, false, true, 1), DFULL(2, false, true, false, 2), DFULL(3, false, true, true, 3),
                                     DFULL(3, false, false, true, 2), DFULL(3, true, false, false, 3), DFULL(2, true, true, false, 1), DCFG(4, 1, 1, false, false, false, true, 1), DCFG(4, 2, 1, false, true, false, false, 2), DHESS(3, false, false, true, 3), DHESS(4, false, true, false, 1), DFULL(2, false, false, false, 1),
    // seldom
    DFULL(10, false, false, true, 2), DCFG(13, 2, 1, false, true, false, false, 1), DHESS(11, false, false, true, 3)};
static void step(Case &c, bool whole) {
  const DCfg &cf = pick_cf(c, CF);
  ProbOpt o;
  o.n = cf.n;
  o.ml = cf.nsub;
  o.mu = cf.nsup;
  o.linear = c.chance(1, 4);
  o.autonomous = cf.autonomous || c.chance(1, 6);
  o.maxstiff = c.coin() ? 1e5 : 50;
  Prob p = gen_prob(c, o);
  p.t0 = c.pick({0.0, 1.0, -3.0});
  p.dir = c.coin() ? -1 : 1;
  Tol tol = gen_tol(c, cf.n, 1e-8, 1e-1);
  if (c.coin()) for (auto &a : tol.a) a *= 10;
  double len = whole ? c.logu(0.05, 5) : c.logu(1e-3, 1);
  double h0 = whole ? c.logu(1e-4, 1) : len;
  std::vector<double> y0(cf.n);
  for (auto &v : y0) v = 2 * c.sym();
  c.desc << cf.name() << " " << p.show() << " y0=" << show(y0, cf.n) << " h=" << h0 << " length=" << len << " " << tol.show();
  c.ready();
  new_hook(&p);
  hook().rec = hook().recy = true;
  hook().maxf = 60000;
  RodasP r(cf.make(tol.same, tol.a.data(), tol.r.data()));
  if (!whole) r->one(true);
  double x0 = p.t0, xend = x0 + p.dir * len * (whole ? 1 : 4), x = x0;
  std::vector<double> y = y0;
  int rc = r->run(h0, x, xend, y.data());
  if (rc) c.discard();
  std::vector<DAttempt> at;
  if (!parse_rodas(hook().calls, x0, x, cf.meth, at)) { c.label("calls not understood"); c.discard(); }
  bool numeric = cf.num || (!cf.autonomous && !cf.dft);
  auto judge = [&](const DAttempt &a, const double *yb) {
    const std::vector<double> &ya = hook().calls[a.base].y;
    std::vector<LD> y(ya.begin(), ya.end()), y1, err, f(p.n);
    if (!rosLD(p, rostab(cf.meth), a.x, a.h, y, y1, err, cf.autonomous)) { c.label("reference failed"); return; }
    p.rhs<LD>(a.x, y.data(), f.data());
    double ymax = 0, d = 0, hf = 0, em = 0;
    for (int i = 0; i < p.n; i++) {
      ymax = std::max({ymax, std::fabs(ya[i]), (double)std::fabs(y1[i])});
      hf = std::max(hf, (double)std::fabs(a.h * f[i]));
      em = std::max(em, (double)std::fabs(err[i]));
      d = std::max(d, (double)std::fabs(yb[i] - y1[i]));
    }
    // rounding: the right-hand side is computed with an error of eps*|f|, which is not damped more than 1/(gamma h lambda)
    double lim = numeric ? 1e-5 * (std::min(hf, 100 * ymax) + ymax) : 3e-11 * (ymax + std::min(hf, 100 * ymax)) + 1e-13;
    lim += 4e-15 * std::fabs(a.x) * hf / std::fabs(a.h);
    c.label(d < 1e-3 * lim ? "d<1e-3 lim" : d < 0.1 * lim ? "d<0.1 lim" : "d>0.1 lim");
    c.label(cf.name());
    c.check(d <= lim, "not-a-rosenbrock-step", "step from x=", a.x, " h=", a.h, ": differs by ", d, " (admitted ", lim, ") from the step of method ", cf.meth, ": y0=", show(ya, p.n), " y1=", show(yb, p.n), " reference ", show(std::vector<double>(y1.begin(), y1.end()), p.n));
    c.nontrivial(hf > 1e-6 * ymax);
  };
  if (!whole) {
    c.check(std::fabs(x - x0) <= len * (1 + 1e-9) && (x - x0) * p.dir > 0, "one-step-length", "x=", x, " after one step from ", x0, " with h=", h0);
    int na = 0;
    for (auto &a : at) na += a.accepted;
    c.check(na == 1 && at.back().accepted, "one-step-only", na, " steps accepted");
  }
  const DAttempt *prev = nullptr;
  int k = 0;
  for (auto &a : at) {
    if (prev) judge(*prev, hook().calls[a.base].y.data()), ++k;
    prev = a.accepted ? &a : nullptr;
    if (k > 30) return;
  }
  if (prev) judge(*prev, y.data());
}
int main(int argc, char **argv) {
  Property p;
  p.id = "D02";
  p.quick_cases = 100000;
  p.thorough_cases = 20000000;
  p.rule = "random problems, structures, methods 1 to 3, autonomous or not, analytic or numerical derivatives; every accepted step is compared with the step of the published method computed in long double; non-trivial: the solution moves";
  p.arms = {{"one-step", 2, [](Case &c) { step(c, false); }}, {"whole", 1, [](Case &c) { step(c, true); }}};
  return run(argc, argv, p);
}
