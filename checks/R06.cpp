// R06: Radau5cc terminates, and reports success only when it has one.
#include "radau.hpp"
using namespace pbt;
static const std::vector<RCfg> CF = {RFULL(1, false), RFULL(1, true), RFULL(2, false), RFULL(2, true), RFULL(3, false), RHESS(3, true), RCFG(4, 1, 1, false, false), RCFG(4, 1, 1, false, true),
    // seldom
    RFULL(11, true), RCFG(17, 1, 2, false, false)};
static void term(Case &c) {
  const RCfg &cf = pick_cf(c, CF);
  int n = cf.n;
  ProbOpt o;
  o.n = n;
  o.ml = cf.nsub;
  o.mu = cf.nsup;
  o.maxstiff = c.coin() ? 1e6 : 50;
  o.linear = c.chance(1, 4);
  Prob p = gen_prob(c, o);
  p.dir = c.coin() ? -1 : 1;
  Tol tol = gen_tol(c, n, 1e-10, 1e-2);
  int fault = c.range(0, 7);
  static const char *nm[] = {"none", "NaN from a call on", "NaN outside a domain", "blow-up", "wrong Jacobian", "discontinuity", "growth", "huge"};
  std::vector<double> y0(n);
  for (auto &v : y0) v = 2 * c.sym();
  double x0 = c.pick({0.0, 1.0, -2.5, 1e6});
  double len = c.logu(1e-6, 100);
  if (fault == 7) len = c.logu(100, 1e8);
  double xend = x0 + p.dir * len;
  // an end near 0: x0+(xend-x0) may differ from xend by rounding
  if (c.chance(1, 3)) xend = p.dir * len * c.logu(1e-13, 1) * (c.coin() ? -1 : 1), x0 = xend - p.dir * len;
  double h0 = c.pick({1e-3, 0.0, 1e-300, 1e-18, 1.0, 1e10, -1e-3, -1.0});
  int nmax = c.pick({50, 1, 3, 10, 200, 1000});
  int nit = c.pick({7, 1, 2, 3, 5, 12});
  p.t0 = x0;
  c.desc << "fault: " << nm[fault] << " " << cf.name() << " " << p.show() << " y0=" << show(y0, n) << " h=" << h0 << " x=" << x0 << " xend=" << xend << " " << tol.show() << " nmax=" << nmax << " nit=" << nit;
  new_hook(&p);
  Hook &H = hook();
  double dir = p.dir;
  if (fault == 1) { H.nanfrom = c.range(1, 60); c.desc << " from call " << H.nanfrom; }
  if (fault == 2) {
    double m = 0;
    for (double v : y0) m = std::max(m, std::fabs(v));
    H.nan_above = m + c.logu(1e-6, 1);
    c.desc << " |y|>" << H.nan_above;
  }
  if (fault == 3) {
    double k = c.logu(0.1, 10);
    c.desc << " y_i'=y_i^2*" << k;
    H.f = [=](double, const double *y, double *r) { for (int i = 0; i < n; i++) r[i] = dir * k * y[i] * y[i]; };
    H.j = [=](double, const double *y, double *J) { for (int i = 0; i < n * n; i++) J[i] = 0; for (int i = 0; i < n; i++) J[i * n + i] = dir * 2 * k * y[i]; };
  }
  if (fault == 4) {
    H.jacnoise = c.pick({-1.0, -2.0, 1.0, -0.5, 1e3, 1e12, -1e6});
    c.desc << " times " << 1 + H.jacnoise;
  }
  if (fault == 5) {
    double a = c.uniform(-1, 1), b = c.logu(1, 1e8);
    c.desc << " at y=" << a << " slope " << b;
    H.f = [=](double, const double *y, double *r) { for (int i = 0; i < n; i++) r[i] = dir * (y[i] > a ? -b : b); };
    H.j = [=](double, const double *, double *J) { for (int i = 0; i < n * n; i++) J[i] = 0; };
  }
  if (fault == 6) {
    double k = c.logu(1, 1e4);
    c.desc << " y_i'=" << k << "*y_i";
    H.f = [=](double, const double *y, double *r) { for (int i = 0; i < n; i++) r[i] = dir * k * y[i]; };
    H.j = [=](double, const double *, double *J) { for (int i = 0; i < n * n; i++) J[i] = 0; for (int i = 0; i < n; i++) J[i * n + i] = dir * k; };
  }
  bool same = c.chance(1, 30);
  if (same) xend = x0, c.desc << " xend=x";
  c.ready();
  H.rec = true;
  // calls of the right-hand side in one attempt: Newton, estimator, numerical Jacobian, and the first one of the next step
  long per = 3L * nit + 1 + 2 * n + 1, bound = (nmax + 2L) * per + 2 * n + 10;
  H.maxf = bound;
  RadauP r(cf.make(tol.same, tol.a.data(), tol.r.data()));
  r->nmax(nmax);
  r->nit(nit);
  double x = x0;
  std::vector<double> y = y0;
  int rc = r->run(h0, x, xend, y.data());
  c.label(std::string(nm[fault]) + (rc == 0 ? ": returned" : rc == 1 ? ": exception" : ": stuck"));
  c.check(rc != 2, "no-end", "still running after ", bound, " evaluations, more than nmax=", nmax, " steps can do");
  auto st = r->stat();
  c.check(st.nstep <= nmax + 1, "nmax", st.nstep, " steps, nmax=", nmax);
  if (rc == 1) {
    c.check(!same, "exception", "exception although xend==x");
    // the only reasons: too many steps (or a singular matrix, with a wrong Jacobian or NaN)
    if (fault == 0) c.check(st.nstep >= nmax, "early-exception", "exception after ", st.nstep, " steps, nmax=", nmax);
    // x and y are those of the last accepted step: finite
    c.check(std::isfinite(x) && finite_all(y.data(), n), "state-after-exception", "x=", x, " y=", show(y, n));
  } else {
    c.check(std::fabs(x - xend) <= 1.1e-15 * (std::fabs(xend) + std::fabs(x0)), "returned-early", "returned at x=", x, " instead of ", xend);
    c.check(finite_all(y.data(), n), "not-finite", "returned y=", show(y, n));
    if (same) c.check(y == y0, "same-point", "y changed although xend==x");
  }
  c.nontrivial(fault != 0 || rc == 1);
}
int main(int argc, char **argv) {
  Property p;
  p.id = "R06";
  p.quick_cases = 200000;
  p.thorough_cases = 30000000;
  p.rule = "random problems with an injected fault (NaN from a call on or outside a domain, blow-up, wrong Jacobian, discontinuity, exponential growth, very long interval), limits and initial steps; non-trivial: a fault is present or the limit on steps was reached";
  p.arms = {{"term", 1, term}};
  return run(argc, argv, p);
}
