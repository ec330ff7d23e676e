// R05: integration commutes with the symmetries of the problem.
#include "radau.hpp"
using namespace pbt;
static const std::vector<RCfg> CF = {RFULL(1, false), RFULL(2, true), RFULL(3, false), RFULL(4, true), RHESS(3, false), RHESS(4, true), RCFG(4, 1, 1, false, false), RCFG(5, 1, 2, false, true),
    // seldom
    RFULL(12, false), RCFG(17, 2, 1, false, true), RHESS(10, false)};
struct Res {
  int rc;
  RadauStat s;
  double x;
  std::vector<double> y;
};
static Res go(const RCfg &cf, const Prob &p, Tol tol, double x0, double xend, double h, std::vector<double> y, bool gus, double fn = 0) {
  new_hook(&p);
  hook().maxf = 60000;
  RadauP q(cf.make(tol.same, tol.a.data(), tol.r.data()));
  q->gus(gus);
  if (fn > 0 && !q->fnewt(fn)) { fprintf(stderr, "fnewt refused\n"); abort(); }
  Res r;
  r.x = x0;
  r.y = y;
  r.rc = q->run(h, r.x, xend, r.y.data());
  r.s = q->stat();
  return r;
}
static void sym(Case &c, int kind, int *ndiff = nullptr) {
  std::vector<const RCfg *> ok;
  for (auto &k : CF)
    if (!(kind == 3 && (k.nsub < k.n - 1 || k.nsup < k.n - 1 || k.n == 1)) && !(kind == 2 && k.num)) ok.push_back(&k);
  const RCfg &cf = *pick_cf(c, ok);
  int n = cf.n;
  ProbOpt o;
  o.n = n;
  o.ml = cf.nsub;
  o.mu = cf.nsup;
  o.linear = c.chance(1, 4);
  o.autonomous = kind == 1 || c.chance(1, 4);
  o.maxstiff = c.coin() ? 1e5 : 50;
  Prob p = gen_prob(c, o);
  p.dir = c.coin() ? -1 : 1;
  if (kind == 2) p.sn.clear();
  Tol tol = gen_tol(c, n, 1e-8, 1e-2);
  double len = c.logu(0.05, 5), h0 = c.chance(1, 5) ? c.logu(1e-12, 1e-5) : c.logu(1e-5, 1);
  bool gus = !c.chance(1, 4);
  std::vector<double> y0(n);
  for (auto &v : y0) v = 2 * c.sym();
  static const char *nm[] = {"time reversal", "time translation", "change of units", "permutation", "unit of time"};
  c.desc << nm[kind] << " " << cf.name() << " " << p.show() << " y0=" << show(y0, n) << " h=" << h0 << " xend=" << p.dir * len << " " << tol.show() << (gus ? "" : " no Gustafsson");
  Prob p2 = p;
  Tol t2 = tol;
  std::vector<double> yy = y0;
  double x2 = 0, fn = 0, u = 1;  // u: the unit of time
  std::vector<double> s(n, 1);
  bool common = true;
  std::vector<int> perm(n);
  for (int i = 0; i < n; i++) perm[i] = i;
  if (kind == 0) p2.dir = -p.dir;
  else if (kind == 1) {
    x2 = c.pick({1.0, -2.0, 64.0, -0.5 * len * p.dir, -len * p.dir});
    c.desc << " by " << x2;
  } else if (kind == 2) {
    common = c.coin();
    if (common) s.assign(n, std::ldexp(1.0, c.range(0, 40) - 20));
    else {
      for (auto &v : s) v = std::ldexp(1.0, cf.hess ? c.range(0, 8) - 4 : c.range(0, 24) - 12);  // (rounding in the Hessenberg reduction is not scaled)
      t2.same = false;
    }
    c.desc << " by " << show(s, n);
    for (int i = 0; i < n; i++) {
      auto &g = p2.g[i];
      g.p0 *= s[i], g.p1 *= s[i], g.p2 *= s[i], yy[i] *= s[i], t2.a[i] *= s[i], p2.cub[i] /= s[i] * s[i];
      for (int j = 0; j < n; j++) p2.A[i * n + j] *= s[i] / s[j];
    }
    for (auto &q : p2.quad) q.c *= s[q.i] / (s[q.a] * s[q.b]);
  } else if (kind == 4) {
    u = std::ldexp(1.0, std::min(c.range(0, 110) - 80, (int)std::floor(std::log2(std::min(h0, 1e-7) * 1e13))));
    p2.dir = p.dir * u;
    c.desc << " " << u;
  } else {
    // the default limit of the Newton iterations depends on the first component
    double a, rt;
    radau_inner_tol(tol, 0, a, rt);
    fn = std::max(1e-15 / rt, std::min(0.03, std::sqrt(rt)));
    for (int i = 0; i < n; i++) {
      radau_inner_tol(tol, i, a, rt);
      fn = std::max(fn, 2e-16 / rt);
    }
    for (int i = n - 1; i > 0; i--) std::swap(perm[i], perm[c.choice(i)]);
    c.desc << " " << show(perm, n);
    for (int i = 0; i < n; i++) {
      for (int j = 0; j < n; j++) p2.A[perm[i] * n + perm[j]] = p.A[i * n + j];
      p2.cub[perm[i]] = p.cub[i];
      p2.g[perm[i]] = p.g[i];
      yy[perm[i]] = y0[i];
      if (!tol.same) { t2.a[perm[i]] = tol.a[i]; t2.r[perm[i]] = tol.r[i]; }
    }
    for (auto *v : {&p2.quad, &p2.sn})
      for (auto &t : *v) { t.i = perm[t.i]; t.a = perm[t.a]; t.b = perm[t.b]; }
  }
  if (!ndiff) c.ready();
  Res A = go(cf, p, tol, 0, p.dir * len, h0, y0, gus, fn), B = go(cf, p2, t2, x2, x2 + (kind == 0 ? -1 : 1) * p.dir * len / u, h0 / u, yy, gus, fn);
  if (ndiff) {
    *ndiff += A.rc != B.rc || A.s.nstep != B.s.nstep || A.s.naccpt != B.s.naccpt || A.s.nf != B.s.nf;
    c.desc << "\n";
    return;
  }
  c.check((A.rc == 0) == (B.rc == 0), "status", "status ", A.rc, " and ", B.rc, " for the transformed problem");
  if (A.rc) c.discard();
  double e = 0;
  double sc = 0;
  for (int i = 0; i < n; i++) {
    double a, r;
    radau_inner_tol(tol, i, a, r);
    sc = std::max(sc, a + r * std::fabs(A.y[i]));
  }
  for (int i = 0; i < n; i++) e = std::max(e, std::fabs(A.y[i] - B.y[perm[i]] / s[i]));
  e /= sc;
  bool same = A.s.nstep == B.s.nstep && A.s.naccpt == B.s.naccpt && A.s.nf == B.s.nf;
  c.label(std::string(nm[kind]) + (common ? "" : " (different)") + (same ? ", same steps" : ", different steps"));
  c.label(std::string(nm[kind]) + (common ? "" : " (different)") + (e == 0 ? ", no difference" : e < 1e-6 ? ", difference<1e-6 tol" : e < 1 ? ", difference<tol" : ", difference>tol"));
  // changes of signs and of powers of 2 are exact
  bool exact = kind == 0 || kind == 4 || (kind == 2 && common);
  int dn = std::abs(A.s.nstep - B.s.nstep);
  c.check(dn <= (exact ? 2 + 0.02 * A.s.nstep : 20 + 0.5 * A.s.nstep), "different-work", nm[kind], ": ", A.s.nstep, " steps and ", B.s.nstep);
  c.check(e <= (exact ? 0.01 : kind == 1 ? 10 : 100), "different-solution", nm[kind], ": solutions differ by ", e, " times the tolerance: ", show(A.y, n), " and (transformed) ", show(B.y, n));
  if (exact) c.check(std::fabs(A.s.hlast - (kind == 0 ? -u : u) * B.s.hlast) <= 1e-3 * std::fabs(A.s.hlast), "last-step", nm[kind], ": last steps reported: ", A.s.hlast, " and ", u * B.s.hlast);
  c.check(std::fabs(u * (B.x - x2) - (kind == 0 ? -1 : 1) * p.dir * len) <= 1e-15 * (len + u * std::fabs(x2)), "x", "x=", B.x);
  c.nontrivial(A.s.naccpt >= 3);
}
// rounding seldom changes the number of steps and evaluations: 1 or 2 times in 100
static void similar(Case &c) {
  int nd = 0, kind = c.range(1, 3);
  for (int k = 0; k < 10; k++) sym(c, kind, &nd);
  c.ready();
  c.nontrivial();
  c.label("of ten problems, " + std::to_string(nd) + " with other numbers of steps or evaluations");
  c.check(nd <= 5, "work-differs", nd, " of ten transformed problems take another number of steps or evaluations");
}
int main(int argc, char **argv) {
  Property p;
  p.id = "R05";
  p.quick_cases = 120000;
  p.thorough_cases = 20000000;
  p.rule = "a random problem and its image under a symmetry; non-trivial: 3 accepted steps or more; similar: ten problems";
  p.arms = {{"reversal", 1, [](Case &c) { sym(c, 0); }}, {"translation", 1, [](Case &c) { sym(c, 1); }}, {"units", 1, [](Case &c) { sym(c, 2); }}, {"permutation", 1, [](Case &c) { sym(c, 3); }}, {"time-unit", 1, [](Case &c) { sym(c, 4); }}, {"similar", 1, similar}};
  return run(argc, argv, p);
}
