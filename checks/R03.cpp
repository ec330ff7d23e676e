// R03: the matrix structure declared and the way the Jacobian is obtained do not change the results.
#include "radau.hpp"
using namespace pbt;
// grouped by n
static const std::vector<RCfg> N4 = {RFULL(4, false), RFULL(4, true), RHESS(4, false), RHESS(4, true), RCFG(4, 1, 1, false, false), RCFG(4, 1, 1, false, true), RCFG(4, 2, 1, false, false), RCFG(4, 1, 2, false, true), RCFG(4, 3, 1, false, true), RCFG(4, 0, 2, false, false)};
static const std::vector<RCfg> N6 = {RFULL(6, false), RFULL(6, true), RHESS(6, false), RHESS(6, true), RCFG(6, 1, 1, false, true), RCFG(6, 2, 3, false, false), RCFG(6, 4, 1, false, true), RCFG(6, 1, 0, false, false), RCFG(6, 0, 0, false, true)};
static const std::vector<RCfg> N2 = {RFULL(2, false), RFULL(2, true), RHESS(2, false), RHESS(2, true)};
static const std::vector<RCfg> N1 = {RFULL(1, false), RFULL(1, true)};
static const std::vector<RCfg> N3 = {RFULL(3, false), RFULL(3, true), RHESS(3, false), RHESS(3, true), RCFG(3, 1, 1, false, false), RCFG(3, 1, 1, false, true)};
static const std::vector<RCfg> NB = {RFULL(14, false), RFULL(14, true), RHESS(14, false), RCFG(14, 2, 3, false, true), RCFG(14, 9, 1, false, false)};  // seldom
struct Res {
  int rc;
  RadauStat s;
  double x;
  std::vector<double> y;
  int maxnewt, attempts;
  bool parsed;
};
static void agree(Case &c) {
  const std::vector<RCfg> &cf = *(getenv("PBT_BIG") || c.chance(1, 30) ? &NB : c.pick({&N4, &N6, &N3, &N2, &N1}));
  const RCfg &a = pick_cf(c, cf);
  bool mixed = a.num && c.chance(1, 3);
  const RCfg &ref = cf[a.num && !mixed ? 1 : 0];  // full matrix, same kind of Jacobian (or the analytic one)
  int n = a.n;
  ProbOpt o;
  o.n = n;
  o.ml = a.nsub;
  o.mu = a.nsup;
  o.linear = c.coin();
  o.autonomous = c.chance(1, 4);
  o.maxstiff = c.coin() ? 1e5 : 50;
  o.couple = c.pick({2.0, 20.0});
  Prob p = gen_prob(c, o);
  Tol tol = gen_tol(c, n, 1e-8, 1e-2);
  double len = c.logu(0.05, 5), h0 = c.logu(1e-5, 0.1);
  int dir = c.coin() ? -1 : 1;
  p.dir = dir;
  int nit = c.chance(1, 3) ? c.range(3, 12) : 0;
  std::vector<double> y0(n);
  for (auto &v : y0) v = 2 * c.sym();
  if (nit) c.desc << "nit=" << nit << " ";
  c.desc << a.name() << (mixed ? " against analytic" : "") << " " << p.show() << " y0=" << show(y0, n) << " h=" << h0 << " xend=" << dir * len << " " << tol.show();
  c.ready();
  auto go = [&](const RCfg &k) {
    Res r;
    new_hook(&p);
    hook().rec = true;
    hook().maxf = 60000;
    RadauP q(k.make(tol.same, tol.a.data(), tol.r.data()));
    if (nit) q->nit(nit);
    r.x = 0;
    r.y = y0;
    r.rc = q->run(h0, r.x, dir * len, r.y.data());
    r.s = q->stat();
    std::vector<Attempt> at;
    r.parsed = r.rc == 0 && parse_radau(hook().calls, 0, r.x, at);
    r.maxnewt = 0;
    r.attempts = at.size();
    for (auto &t : at) r.maxnewt = std::max(r.maxnewt, t.newt);
    return r;
  };
  Res A = go(a), B = go(ref);
  c.label(a.name());
  c.check((A.rc == 0) == (B.rc == 0), "status", "status ", A.rc, ", with a full matrix ", B.rc);
  if (A.rc) c.discard();
  double sc = 0, d = 0;
  for (int i = 0; i < n; i++) {
    double ai, ri;
    radau_inner_tol(tol, i, ai, ri);
    sc = std::max(sc, ai + ri * std::fabs(B.y[i]));
    d = std::max(d, std::fabs(A.y[i] - B.y[i]));
  }
  c.nontrivial(A.s.naccpt >= 3);
  bool same = A.s.nstep == B.s.nstep && A.s.naccpt == B.s.naccpt && A.s.nf == B.s.nf;
  c.label(same ? "same steps" : "different steps");
  double e = d / sc;
  c.label(e < 1e-9 ? "difference<1e-9 tol" : e < 1e-6 ? "difference<1e-6 tol" : e < 1e-3 ? "difference<1e-3 tol" : e < 1 ? "difference<tol" : "difference>tol");
  // (nonlinear problems: a step can rely on one Newton iteration only, see R02)
  c.check(e <= (o.linear ? 10 : 60), "different-solution", "solutions differ by ", e, " times the tolerance: ", show(A.y, n), " and, with a full matrix", mixed ? " and an analytic Jacobian, " : ", ", show(B.y, n));
  int dn = std::abs(A.s.nstep - B.s.nstep), dj = std::abs(A.s.njac - B.s.njac);
  c.check(dn <= 20 + 0.5 * B.s.nstep, "different-work", A.s.nstep, " steps, ", B.s.nstep, " with a full matrix");
  // for a linear problem simplified Newton iterations are exact
  if (o.linear && A.parsed) {
    c.label("iterations on linear problems, at most " + std::to_string(A.maxnewt));
    c.check(A.maxnewt <= 3, "newton-slow", A.maxnewt, " Newton iterations in one step on a linear problem");
  }
}
// the Jacobian computed by finite differences is the derivative of the right-hand side, entry by entry
static void fdjac(Case &c) {
  static const std::vector<RCfg> NJ = {RFULL(1, true), RFULL(2, true), RFULL(4, true), RCFG(4, 1, 1, false, true), RCFG(4, 2, 1, false, true), RCFG(4, 0, 2, false, true), RCFG(6, 1, 3, false, true), RCFG(6, 4, 1, false, true), RCFG(6, 0, 0, false, true), RFULL(14, true), RCFG(17, 2, 3, false, true), RCFG(12, 1, 8, false, true)};
  const RCfg &a = pick_cf(c, NJ);
  int n = a.n;
  ProbOpt o;
  o.n = n;
  o.ml = a.nsub;
  o.mu = a.nsup;
  o.maxstiff = c.coin() ? 1e4 : 50;
  o.couple = c.pick({2.0, 20.0});
  Prob p = gen_prob(c, o);
  p.cub.assign(n, 0);  // unknowns of very different sizes
  p.quad.clear();
  std::vector<double> y0(n);
  for (auto &v : y0) { double m = c.pick({1.0, 1.0, 1e-8, 1e-4, 1e3, 1e6}); v = m * c.sym(); }
  bool one = c.coin();
  double m = 0;
  for (double v : y0) m = std::max(m, std::fabs(v));
  if (m <= 5 && c.coin())
    for (auto &v : p.cub) v = c.unit();
  Tol tol = gen_tol(c, n, 1e-4, 1e-2);
  c.desc << a.name() << " " << p.show() << " y0=" << show(y0, n) << (one ? " one step" : " up to the end") << " " << tol.show();
  c.ready();
  new_hook(&p);
  hook().maxf = 20000;
  RadauP q(a.make(tol.same, tol.a.data(), tol.r.data()));
  q->one(one);
  // with one step only, the Jacobian is the one of the first point
  double x = 0, h0 = one ? 1e-3 : 1e-9, xe = one ? 0.1 : 1e-9;
  std::vector<double> y = y0;
  if (q->run(h0, x, xe, y.data())) c.discard();
  if (!one) {
    for (int i = 0; i < n; i++) if (std::fabs(y[i] - y0[i]) > 1e-3 * (1 + std::fabs(y0[i]))) c.discard();
  }
  std::vector<double> J(n * n), J1(n * n), J2(n * n), f(n), yd = y0;
  p.jac(0, y0.data(), J.data(), nullptr);
  p.rhs(0., y0.data(), f.data());
  int seen = 0;
  for (int j = 0; j < n; j++) {
    double D = 1e-7 * std::max(1.0, std::fabs(y0[j])), delt = std::sqrt(1e-16 * std::max(1e-5, std::fabs(y0[j])));
    yd[j] = y0[j] + D;
    p.jac(0, yd.data(), J1.data(), nullptr);
    yd[j] = y0[j] - D;
    p.jac(0, yd.data(), J2.data(), nullptr);
    yd[j] = y0[j];
    for (int i = 0; i < n; i++) {
      if (i - j > a.nsub || j - i > a.nsup) continue;
      double mag = std::fabs(f[i]) + 3;
      for (int k = 0; k < n; k++) mag += std::fabs(J[i * n + k] * y0[k]) * (1 + std::fabs(p.cub[i]));
      double bound = 2 * std::max(std::fabs(J1[i * n + j] - J[i * n + j]), std::fabs(J2[i * n + j] - J[i * n + j])) + 3e-16 * (mag / delt + 4 * std::fabs(J[i * n + j] * y0[j]) / delt) + 1e-9 * std::fabs(J[i * n + j]);
      double got = q->J(i + 1, j + 1);
      c.check(std::fabs(got - J[i * n + j]) <= 3 * bound, "wrong-derivative", "entry (", i + 1, ",", j + 1, ") of the Jacobian computed by finite differences: ", got, ", exact ", J[i * n + j], " +- ", bound);
      if (std::fabs(J[i * n + j]) > 100 * bound) ++seen;
    }
  }
  c.label(seen ? "entries well above the error" : "all entries below the error");
  c.nontrivial(seen >= n);
}
int main(int argc, char **argv) {
  Property p;
  p.id = "R03";
  p.quick_cases = 150000;
  p.thorough_cases = 20000000;
  p.rule = "the same random problem solved with the structure drawn (banded, Hessenberg, full; analytic or numerical Jacobian) and with a full matrix; solutions, work and Newton iterations are compared; fdjac: the Jacobian stored after numerical differentiation is compared to the exact one entry by entry; non-trivial: 3 accepted steps or more";
  p.arms = {{"agree", 3, agree}, {"fdjac", 1, fdjac}};
  return run(argc, argv, p);
}
