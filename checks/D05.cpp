// D05: Rodascc terminates, and reports success only when it has one.
#include "rodas.hpp"
using namespace pbt;
static const std::vector<DCfg> CF = {DFULL(1, false, false, true, 1), DFULL(1, true, false, false, 2), DFULL(2, false, true, true, 3), DFULL(2, true, false, true, 1), DFULL(3, false, false, false, 3),
                                     DHESS(3, true, true, true, 1), DCFG(4, 1, 1, false, false, false, true, 1), DCFG(4, 1, 1, false, true, false, false, 2),
    // seldom
    DFULL(11, true, false, false, 3), DCFG(17, 1, 2, false, false, false, true, 2)};
static void term(Case &c) {
  const DCfg &cf = pick_cf(c, CF);
  int n = cf.n;
  ProbOpt o;
  o.n = n;
  o.ml = cf.nsub;
  o.mu = cf.nsup;
  o.maxstiff = c.coin() ? 1e6 : 50;
  o.linear = c.chance(1, 4);
  o.autonomous = cf.autonomous;
  Prob p = gen_prob(c, o);
  p.dir = c.coin() ? -1 : 1;
  Tol tol = gen_tol(c, n, 1e-10, 1e-2);
  int fault = c.range(0, 7);
  static const char *nm[] = {"none", "NaN from a call on", "blow-up", "wrong Jacobian", "discontinuity", "growth", "huge", "NaN outside a domain"};
  std::vector<double> y0(n);
  for (auto &v : y0) v = 2 * c.sym();
  double x0 = c.pick({0.0, 1.0, -2.5, 1e6});
  double len = c.logu(1e-6, 100);
  if (fault == 6) len = c.logu(100, 1e8);
  double xend = x0 + p.dir * len;
  // an end near 0: x0+(xend-x0) may differ from xend by rounding
  if (c.chance(1, 3)) xend = p.dir * len * c.logu(1e-13, 1) * (c.coin() ? -1 : 1), x0 = xend - p.dir * len;
  double h0 = c.pick({1e-3, 1e-300, 1e-18, 1.0, 1e10, -1e-3, -1.0, 0.0});
  int nmax = c.pick({50, 1, 3, 10, 200, 1000});
  p.t0 = x0;
  c.desc << "fault: " << nm[fault] << " " << cf.name() << " " << p.show() << " y0=" << show(y0, n) << " h=" << h0 << " x=" << x0 << " xend=" << xend << " " << tol.show() << " nmax=" << nmax;
  new_hook(&p);
  Hook &H = hook();
  double dir = p.dir;
  if (fault == 1) { H.nanfrom = c.range(1, 60); c.desc << " from call " << H.nanfrom; }
  if (fault == 2) {
    double k = c.logu(0.1, 10);
    c.desc << " y_i'=y_i^2*" << k;
    H.f = [=](double, const double *y, double *r) { for (int i = 0; i < n; i++) r[i] = dir * k * y[i] * y[i]; };
    H.j = [=](double, const double *y, double *J) { for (int i = 0; i < n * n; i++) J[i] = 0; for (int i = 0; i < n; i++) J[i * n + i] = dir * 2 * k * y[i]; };
  }
  if (fault == 3) {
    H.jacnoise = c.pick({-1.0, -2.0, 1.0, -0.5, 1e3, 1e12, -1e6});
    c.desc << " times " << 1 + H.jacnoise;
  }
  if (fault == 4) {
    double a = c.uniform(-1, 1), b = c.logu(1, 1e8);
    c.desc << " at y=" << a << " slope " << b;
    H.f = [=](double, const double *y, double *r) { for (int i = 0; i < n; i++) r[i] = dir * (y[i] > a ? -b : b); };
    H.j = [=](double, const double *, double *J) { for (int i = 0; i < n * n; i++) J[i] = 0; };
  }
  if (fault == 5) {
    double k = c.logu(1, 1e4);
    c.desc << " y_i'=" << k << "*y_i";
    H.f = [=](double, const double *y, double *r) { for (int i = 0; i < n; i++) r[i] = dir * k * y[i]; };
    H.j = [=](double, const double *, double *J) { for (int i = 0; i < n * n; i++) J[i] = 0; for (int i = 0; i < n; i++) J[i * n + i] = dir * k; };
  }
  if (fault == 7) {
    double m = 0;
    for (double v : y0) m = std::max(m, std::fabs(v));
    H.nan_above = m + c.logu(1e-6, 1);
    c.desc << " |y|>" << H.nan_above;
  }
  bool same = c.chance(1, 30);
  if (same) xend = x0, c.desc << " xend=x";
  c.ready();
  H.rec = true;
  // calls of the right-hand side in one attempt: 5 stages, numerical derivatives, and the first one of the next step
  long per = 5 + n + 2, bound = (nmax + 2L) * per;
  H.maxf = bound;
  RodasP r(cf.make(tol.same, tol.a.data(), tol.r.data()));
  r->nmax(nmax);
  double x = x0;
  std::vector<double> y = y0;
  int rc = r->run(h0, x, xend, y.data());
  c.label(std::string(nm[fault]) + (rc == 0 ? ": returned" : rc == 1 ? ": exception" : ": stuck"));
  c.check(rc != 2, "no-end", "still running after ", bound, " evaluations, more than nmax=", nmax, " steps can do");
  auto st = r->stat();
  c.check(st.nstep <= nmax + 1, "nmax", st.nstep, " steps, nmax=", nmax);
  for (auto &k : H.calls) {
    double d = 2e-8 * (1 + std::sqrt(std::fabs(k.t)));
    c.check(std::isfinite(k.t), "call-at-nan", "right-hand side evaluated at t=", k.t);
    c.check((k.t - x0) * dir >= -d - 1e-9 * len && (k.t - xend) * dir <= d + 1e-9 * len, "outside", "right-hand side evaluated at t=", k.t);
  }
  if (rc == 1) {
    c.check(!same, "exception", "exception although xend==x");
    // the reasons: too many steps, or a step that cannot be distinguished from zero
    bool tiny = 0.1 * std::fabs(h0) <= 1e-16 * std::fabs(x0) || std::fabs(st.hlast) <= 4e-15 * std::fabs(x0 + 1e-3 * dir) || std::fabs(st.hlast) <= 1e-14 * std::fabs(x);
    c.label(tiny ? "exception: step too small" : "exception: too many steps");
    if (fault == 0) c.check(st.nstep >= nmax || tiny, "early-exception", "exception after ", st.nstep, " steps, nmax=", nmax, " h=", st.hlast, " x=", x);
    c.check(y == y0 || finite_all(y.data(), n), "state-after-exception", "x=", x, " y=", show(y, n));
  } else {
    c.check(std::fabs(x - xend) <= 4e-16 * (std::fabs(xend) + std::fabs(x0)), "returned-early", "returned at x=", x, " instead of ", xend);
    c.check(finite_all(y.data(), n), "not-finite", "returned y=", show(y, n));
    if (same) c.check(y == y0, "same-point", "y changed although xend==x");
  }
  c.nontrivial(fault != 0 || rc == 1);
}
int main(int argc, char **argv) {
  Property p;
  p.id = "D05";
  p.quick_cases = 200000;
  p.thorough_cases = 30000000;
  p.rule = "random problems with an injected fault (NaN from a call on or outside of a domain, blow-up, wrong Jacobian, discontinuity, exponential growth, very long interval), limits and initial steps; non-trivial: a fault is present or the limit on steps was reached";
  p.arms = {{"term", 1, term}};
  return run(argc, argv, p);
}
