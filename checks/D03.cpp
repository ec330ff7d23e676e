// D03: structure of the matrix, Jacobian mode, and treatment of time do not change the results of Rodascc.
#include "rodas.hpp"
using namespace pbt;
static const std::vector<DCfg> N1 = {DFULL(1, false, false, true, 1), DFULL(1, true, false, false, 1), DFULL(1, false, true, true, 1), DFULL(1, true, true, false, 1)};
static const std::vector<DCfg> N3 = {DFULL(3, false, false, true, 1), DFULL(3, false, false, false, 1), DFULL(3, false, true, true, 1), DFULL(3, true, false, true, 1), DHESS(3, false, false, true, 1), DHESS(3, true, true, true, 1), DCFG(3, 1, 1, false, false, false, true, 1), DCFG(3, 1, 1, false, true, false, false, 1)};
static const std::vector<DCfg> N3b = {DFULL(3, false, false, true, 3), DFULL(3, false, false, false, 3), DHESS(3, false, true, true, 3), DCFG(3, 1, 1, false, false, false, true, 3)};
static const std::vector<DCfg> N4 = {DFULL(4, false, false, true, 2), DFULL(4, false, true, false, 2), DFULL(4, true, true, false, 2), DHESS(4, false, false, true, 2), DHESS(4, true, false, false, 2), DCFG(4, 1, 1, false, false, false, true, 2), DCFG(4, 2, 1, false, true, true, false, 2), DCFG(4, 1, 2, false, false, true, false, 2), DCFG(4, 3, 1, false, false, false, false, 2), DCFG(4, 0, 0, false, false, false, true, 2)};
static const std::vector<DCfg> NB = {DFULL(14, false, false, true, 2), DHESS(14, true, false, false, 2), DCFG(14, 2, 3, false, true, false, false, 2), DCFG(14, 9, 1, false, false, true, false, 2)};  // seldom
struct Res {
  int rc;
  RodasStat s;
  double x;
  std::vector<double> y;
};
static void agree(Case &c) {
  const std::vector<DCfg> &cf = *(getenv("PBT_BIG") || c.chance(1, 30) ? &NB : c.pick({&N1, &N3, &N4, &N3b}));
  const DCfg &a = pick_cf(c, cf);
  const DCfg &ref = cf[0];
  int n = a.n;
  ProbOpt o;
  o.n = n;
  o.ml = a.nsub;
  o.mu = a.nsup;
  o.linear = c.coin();
  o.autonomous = a.autonomous || c.chance(1, 4);
  o.maxstiff = c.coin() ? 1e5 : 50;
  o.couple = c.pick({2.0, 20.0});
  Prob p = gen_prob(c, o);
  Tol tol = gen_tol(c, n, 1e-8, 1e-2);
  double len = c.logu(0.05, 5), h0 = c.logu(1e-5, 0.1);
  int dir = c.coin() ? -1 : 1;
  p.dir = dir;
  double x0 = c.pick({0.0, 0.0, 0.0, 1.0, -7.0, 1e3, -1e5, 1e6});
  p.t0 = x0;
  if (h0 < 1e-14 * std::fabs(x0)) h0 = 1e-14 * std::fabs(x0);
  std::vector<double> y0(n);
  for (auto &v : y0) v = 2 * c.sym();
  c.desc << a.name() << " " << p.show() << " y0=" << show(y0, n) << " h=" << h0 << " x=" << x0 << " xend=" << x0 + dir * len << " " << tol.show();
  c.ready();
  auto go = [&](const DCfg &k) {
    Res r;
    new_hook(&p);
    hook().maxf = 60000;
    RodasP q(k.make(tol.same, tol.a.data(), tol.r.data()));
    r.x = x0;
    r.y = y0;
    r.rc = q->run(h0, r.x, x0 + dir * len, r.y.data());
    r.s = q->stat();
    return r;
  };
  Res A = go(a), B = go(ref);
  c.label(a.name());
  if ((A.rc == 0) != (B.rc == 0)) {
    // near a blow-up the outcome may depend on details
    double m = 0;
    for (double v : A.rc ? B.y : A.y) m = std::max(m, std::fabs(v));
    if (!(m < 50)) c.discard();
  }
  c.check((A.rc == 0) == (B.rc == 0), "status", "status ", A.rc, ", with a full matrix ", B.rc);
  if (A.rc) c.discard();
  double sc = 0, d = 0;
  for (int i = 0; i < n; i++) {
    int k = tol.same ? 0 : i;
    sc = std::max(sc, tol.a[k] + tol.r[k] * std::fabs(B.y[i]));
    d = std::max(d, std::fabs(A.y[i] - B.y[i]));
  }
  c.nontrivial(A.s.naccpt >= 3);
  // without numerical derivatives only rounding differs
  bool numeric = a.num || (!a.autonomous && !a.dft);
  bool same = A.s.nstep == B.s.nstep && A.s.naccpt == B.s.naccpt;
  c.label(std::string(numeric ? "numeric" : "exact") + (same ? ", same steps" : ", different steps"));
  // x is rounded at each step
  std::vector<double> f0(n), f1(n);
  p.rhs(x0, y0.data(), f0.data());
  p.rhs(B.x, B.y.data(), f1.data());
  double fm = 0;
  for (int i = 0; i < n; i++) fm = std::max({fm, std::fabs(f0[i]), std::fabs(f1[i])});
  double xr = 2.2e-16 * std::fabs(x0) * fm * (A.s.nstep + 2);
  double e = std::max(0., d - xr) / sc;
  c.label(e < 1e-9 ? "difference<1e-9 tol" : e < 1e-6 ? "difference<1e-6 tol" : e < 1e-3 ? "difference<1e-3 tol" : e < 1 ? "difference<tol" : "difference>tol");
  // (at large times the rounding of x is felt by the error estimate, and the steps are not quite the same)
  c.check(e <= (numeric ? 10 : std::fabs(x0) >= 1e5 ? 0.3 : 0.01), "different-solution", "solutions differ by ", e, " times the tolerance: ", show(A.y, n), " and, for ", ref.name(), ", ", show(B.y, n));
  int dn = std::abs(A.s.nstep - B.s.nstep);
  if (numeric && dn) c.label(dn <= 2 ? "steps +-2" : dn <= 5 ? "steps +-5" : dn <= 20 ? "steps +-20" : dn <= 20 + 0.1 * B.s.nstep ? "steps +-20+10%" : "steps more different");
  c.check(dn <= (numeric ? 20 + 0.5 * B.s.nstep : 3 + 0.02 * B.s.nstep), "different-work", A.s.nstep, " steps, ", B.s.nstep, " for ", ref.name());
}
// the Jacobian computed by finite differences is the derivative of the right-hand side, entry by entry
static void fdjac(Case &c) {
  static const std::vector<DCfg> NJ = {DFULL(1, true, false, false, 1), DFULL(2, true, true, true, 1), DFULL(4, true, true, false, 2), DCFG(4, 1, 1, false, true, true, false, 2), DCFG(4, 2, 1, false, true, true, false, 2), DCFG(4, 0, 2, false, true, false, false, 1), DCFG(6, 1, 3, false, true, false, false, 1), DCFG(6, 4, 1, false, true, true, true, 3), DCFG(6, 0, 0, false, true, false, true, 3),
    DFULL(11, true, false, false, 1), DCFG(15, 2, 3, false, true, true, false, 2), DCFG(12, 0, 9, false, true, false, true, 3)};  // (the last three seldom)
  const DCfg &a = pick_cf(c, NJ);
  int n = a.n;
  ProbOpt o;
  o.n = n;
  o.ml = a.nsub;
  o.mu = a.nsup;
  o.maxstiff = c.coin() ? 1e4 : 50;
  o.couple = c.pick({2.0, 20.0});
  Prob p = gen_prob(c, o);
  p.cub.assign(n, 0);  // unknowns of very different sizes
  p.quad.clear();
  std::vector<double> y0(n);
  for (auto &v : y0) { double m = c.pick({1.0, 1.0, 1e-8, 1e-4, 1e3, 1e6}); v = m * c.sym(); }
  bool one = c.coin();
  double m = 0;
  for (double v : y0) m = std::max(m, std::fabs(v));
  if (m <= 5 && c.coin())
    for (auto &v : p.cub) v = c.unit();
  Tol tol = gen_tol(c, n, 1e-4, 1e-2);
  c.desc << a.name() << " " << p.show() << " y0=" << show(y0, n) << (one ? " one step" : " up to the end") << " " << tol.show();
  c.ready();
  new_hook(&p);
  hook().maxf = 20000;
  RodasP q(a.make(tol.same, tol.a.data(), tol.r.data()));
  q->one(one);
  // with one step only, the Jacobian is the one of the first point
  double x = 0, h0 = one ? 1e-3 : 1e-9, xe = one ? 0.1 : 1e-9;
  std::vector<double> y = y0;
  if (q->run(h0, x, xe, y.data())) c.discard();
  if (!one) {
    for (int i = 0; i < n; i++) if (std::fabs(y[i] - y0[i]) > 1e-3 * (1 + std::fabs(y0[i]))) c.discard();
  }
  std::vector<double> J(n * n), J1(n * n), J2(n * n), f(n), yd = y0;
  p.jac(0, y0.data(), J.data(), nullptr);
  p.rhs(0., y0.data(), f.data());
  int seen = 0;
  for (int j = 0; j < n; j++) {
    double D = 1e-7 * std::max(1.0, std::fabs(y0[j])), delt = std::sqrt(1e-16 * std::max(1e-5, std::fabs(y0[j])));
    yd[j] = y0[j] + D;
    p.jac(0, yd.data(), J1.data(), nullptr);
    yd[j] = y0[j] - D;
    p.jac(0, yd.data(), J2.data(), nullptr);
    yd[j] = y0[j];
    for (int i = 0; i < n; i++) {
      if (i - j > a.nsub || j - i > a.nsup) continue;
      double mag = std::fabs(f[i]) + 3;
      for (int k = 0; k < n; k++) mag += std::fabs(J[i * n + k] * y0[k]) * (1 + std::fabs(p.cub[i]));
      double bound = 2 * std::max(std::fabs(J1[i * n + j] - J[i * n + j]), std::fabs(J2[i * n + j] - J[i * n + j])) + 3e-16 * (mag / delt + 4 * std::fabs(J[i * n + j] * y0[j]) / delt) + 1e-9 * std::fabs(J[i * n + j]);
      double got = q->J(i + 1, j + 1);
      c.check(std::fabs(got - J[i * n + j]) <= 3 * bound, "wrong-derivative", "entry (", i + 1, ",", j + 1, ") of the Jacobian computed by finite differences: ", got, ", exact ", J[i * n + j], " +- ", bound);
      if (std::fabs(J[i * n + j]) > 100 * bound) ++seen;
    }
  }
  c.label(seen ? "entries well above the error" : "all entries below the error");
  c.nontrivial(seen >= n);
}
int main(int argc, char **argv) {
  Property p;
  p.id = "D03";
  p.quick_cases = 150000;
  p.thorough_cases = 20000000;
  p.rule = "the same random problem solved with the structure drawn (banded, Hessenberg, full; analytic or numerical Jacobian and time derivative; declared autonomous or not) and with a full matrix and analytic derivatives; solutions and work are compared; fdjac: the Jacobian stored after numerical differentiation is compared to the exact one entry by entry; non-trivial: 3 accepted steps or more";
  p.arms = {{"agree", 3, agree}, {"fdjac", 1, fdjac}};
  return run(argc, argv, p);
}
