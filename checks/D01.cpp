// D01: Rodascc reaches xend with an error of the order of the tolerance.
#include "rodas.hpp"
using namespace pbt;
// non autonomous problems (the exact solution is a function of t)
static const std::vector<DCfg> CF = {DFULL(1, false, false, true, 1), DFULL(2, false, false, false, 1), DFULL(2, true, false, true, 2), DFULL(3, false, false, true, 3),
                                     DFULL(3, true, false, false, 3), DCFG(5, 1, 1, false, false, false, true, 1), DCFG(5, 1, 2, false, true, false, false, 2), DCFG(4, 2, 1, false, false, false, true, 2),
                                     DHESS(3, false, false, true, 1), DHESS(5, true, false, false, 3),
    // seldom
    DFULL(12, false, false, true, 1), DCFG(17, 2, 1, false, true, false, false, 3), DHESS(11, true, false, true, 2)};
static const double K = 100, KD = 300, KM = 10;
// y' = -lambda y - c y^3, from y=s at t=0
static double bernoulli(double lam, double cub, double s, double t) {
  double E = std::exp(-lam * t);
  return s * E / std::sqrt(1 + cub / lam * s * s * (-std::expm1(-2 * lam * t)));
}
static double emax(const Prob &p, double x, const double *y, const Tol &tol, const std::vector<double> *scale, bool own) {
  std::vector<double> e(p.n);
  p.exact(x, e.data());
  double m = 0, sc = 0;
  // the components are coupled: one scale, the largest of the tolerances
  for (int i = 0; i < p.n; i++) {
    int k = tol.same ? 0 : i;
    sc = std::max(sc, tol.a[k] + tol.r[k] * std::max(std::fabs(e[i]), (*scale)[i]));
  }
  for (int i = 0; i < p.n; i++) {
    int k = tol.same ? 0 : i;
    m = std::max(m, std::fabs(y[i] - e[i]) / (own ? tol.a[k] + tol.r[k] * std::max(std::fabs(e[i]), (*scale)[i]) : sc));
    if (!std::isfinite(y[i])) m = INFINITY;
  }
  return m;
}
struct In {
  const DCfg *cf;
  Prob p;
  Tol tol;
  double len, h0, x0, xend;
  bool decay = false, flame = false, memory = false;
  bool gus, own, minus = false;  // minus: the step is given with the sign -
  std::vector<double> y0, sc;
};
// own: the components are independent, and each must be accurate to its own tolerance
static In gen(Case &c, bool own = false) {
  In in;
  in.own = own;
  in.cf = &pick_cf(c, CF);
  const DCfg &cf = *in.cf;
  ProbOpt o;
  o.n = cf.n;
  o.ml = cf.nsub;
  o.mu = cf.nsup;
  if (own) o.ml = o.mu = 0;
  o.manuf = true;
  o.linear = c.chance(1, 4);
  o.quads = false;
  in.p = gen_prob(c, o);
  Prob &p = in.p;
  p.t0 = c.pick({0.0, 1.0, -3.0, 100.0});
  p.dir = c.coin() ? -1 : 1;
  in.len = c.logu(0.05, 8);
  // differences limit the accuracy which can be reached
  // (and the order is reduced on stiff problems, mostly for method 2: many steps)
  in.tol = gen_tol(c, cf.n, cf.meth == 2 ? 1e-5 : cf.num || !cf.dft ? 1e-6 : 1e-7, 1e-3);
  if (own) {
    in.tol.same = false;
    double lo = in.tol.r[0];
    for (int i = 0; i < cf.n; i++) {
      in.tol.r[i] = c.logu(lo, 1e-2);
      in.tol.a[i] = in.tol.r[i] * c.pick({1.0, 0.1, 10.0});
    }
  }
  in.h0 = c.logu(1e-6, 1);
  in.gus = !c.chance(1, 6);
  in.minus = c.chance(1, 5);
  in.x0 = p.t0;
  in.xend = in.x0 + p.dir * in.len;
  // an end near 0: x0+(xend-x0) may differ from xend by rounding
  if (c.chance(1, 5)) in.xend = p.dir * in.len * c.logu(1e-13, 1), in.x0 = p.t0 = in.xend - p.dir * in.len;
  in.y0.resize(cf.n);
  in.sc.assign(cf.n, 0);
  p.exact(in.x0, in.y0.data());
  for (int k = 0; k <= 40; k++) {
    std::vector<double> e(cf.n);
    p.exact(in.x0 + (in.xend - in.x0) * k / 40, e.data());
    for (int i = 0; i < cf.n; i++) in.sc[i] = std::max(in.sc[i], std::fabs(e[i]));
  }
  c.desc << cf.name() << " " << p.show() << " x0=" << in.x0 << " xend=" << in.xend << " h=" << (in.minus ? "-" : "") << in.h0 << " " << in.tol.show() << (in.gus ? "" : " no Gustafsson");
  return in;
}
// error, in units of the tolerance
static double integrate(Case &c, const In &in, double h, double ft, RodasStat &st, std::vector<double> &y) {
  Tol tk = in.tol;
  for (auto &v : tk.a) v *= ft;
  for (auto &v : tk.r) v *= ft;
  double x = in.x0;
  y = in.y0;
  new_hook(&in.p);
  RodasP r(in.cf->make(tk.same, tk.a.data(), tk.r.data()));
  if (!in.gus) r->gus(false);
  int rc = r->run(in.minus ? -h : h, x, in.xend, y.data());
  c.check(rc == 0, "not-reached", rc == 1 ? "exception" : "more than 2e6 evaluations", " after x=", x);
  c.check(std::fabs(x - in.xend) <= 1.1e-15 * (std::fabs(in.xend) + std::fabs(in.x0)), "wrong-xend", "x=", x, " xend=", in.xend);
  st = r->stat();
  if (in.memory) {
    double m = 0;
    for (int i = 0; i < in.p.n; i++) {
      double l = -in.p.A[(i & ~1) * in.p.n + (i & ~1)], y0 = in.y0[i & ~1];
      double e = i % 2 ? in.y0[i] + in.p.quad[i / 2].c / (2 * l) * y0 * y0 * -std::expm1(-2 * l * in.len) : y0 * std::exp(-l * in.len);
      m = std::max(m, std::fabs(y[i] - e) / (in.tol.a[in.tol.same ? 0 : i] + in.tol.r[in.tol.same ? 0 : i] * (std::fabs(in.y0[i]) + std::fabs(e))));
      if (!std::isfinite(y[i])) m = INFINITY;
    }
    return m;
  }
  if (in.decay) {
    double m = 0;
    for (int i = 0; i < in.p.n; i++) {
      double e = in.flame ? 1 : bernoulli(-in.p.A[i * in.p.n + i], in.p.cub[i], in.y0[i], in.len);
      m = std::max(m, std::fabs(y[i] - e) / (in.tol.a[i] + in.tol.r[i] * std::fabs(e)));
      if (!std::isfinite(y[i])) m = INFINITY;
    }
    return m;
  }
  return emax(in.p, in.xend, y.data(), in.tol, &in.sc, in.own);
}
// independent components which decrease by many orders of magnitude: the relative
// tolerance decides to the end
static In gendecay(Case &c) {
  In in = gen(c, true);
  Prob &p = in.p;
  int n = p.n;
  p.manuf = false;
  p.autonomous = true;
  p.sn.clear();
  double l0 = c.logu(0.1, 100), top = 0;
  for (int i = 0; i < n; i++) {
    p.A[i * n + i] = -l0 * c.uniform(0.2, 3);
    top = std::max(top, -p.A[i * n + i]);
    p.g[i] = {0, 0, 0, 0, 0};
    in.y0[i] = c.logu(0.1, 10) * (c.coin() ? -1 : 1);
    p.cub[i] = c.coin() ? 0 : c.uniform(0, 2) * l0 / (in.y0[i] * in.y0[i]);
  }
  in.len = c.uniform(1, 40) / top;
  in.xend = in.x0 + p.dir * in.len;
  in.h0 = c.logu(1e-6, 1) * in.len;
  double at = c.pick({1e-30, 1e-25, 1e-20});
  double r = c.logu(in.cf->meth == 2 ? 1e-5 : 1e-6, 1e-3);
  for (int i = 0; i < n; i++) {
    in.tol.a[i] = at;
    in.tol.r[i] = r * c.logu(1, 10);
    in.sc[i] = 0;
  }
  in.decay = true;
  if (c.chance(1, 4)) {
    // ignitions: y' = c (y^2 - y^3); nearly nothing happens until 1/y0, then everything at once
    in.flame = true;
    double dmin = 1;
    for (int i = 0; i < n; i++) {
      p.A[i * n + i] = 0;
      p.cub[i] = l0;
      p.quad.push_back({i, i, i, l0});
      in.y0[i] = c.logu(1e-4, 0.1);
      dmin = std::min(dmin, in.y0[i]);
      in.tol.a[i] = in.tol.r[i] * in.y0[i];
    }
    in.len = ((1 / dmin + std::log(1 / dmin)) * c.uniform(1.1, 1.5) + 40) / l0;
    in.xend = in.x0 + p.dir * in.len;
    in.h0 = c.logu(1e-6, 0.01) * in.len;
  }
  c.desc << "\ndecay: " << p.show() << " y0=" << show(in.y0, n) << " xend=" << in.xend << " h=" << in.h0 << " " << in.tol.show();
  return in;
}
// unknowns which decrease fast, and the integrals of their squares, which keep every error
static In genmemory(Case &c) {
  In in = gen(c, true);
  Prob &p = in.p;
  int n = p.n;
  if (n < 2 || in.cf->nsub < 1) c.discard();
  p.manuf = false;
  p.autonomous = true;
  p.sn.clear();
  double lo = 1;
  for (auto &v : in.tol.r) lo = std::min(lo, v);
  if (c.coin()) in.tol.same = true;
  for (int i = 0; i < n; i++) {
    for (int j = 0; j < n; j++) p.A[i * n + j] = 0;
    p.g[i] = {0, 0, 0, 0, 0};
    p.cub[i] = 0;
    in.y0[i] = i % 2 ? c.sym() : c.logu(0.1, 3) * (c.coin() ? -1 : 1);
    double l = c.logu(0.3, 1e6) / in.len;
    if (i % 2) p.quad.push_back({i, i - 1, i - 1, -p.A[(i - 1) * n + i - 1] * c.uniform(-2, 2)});
    else p.A[i * n + i] = -l;
    in.tol.r[i] = in.tol.same ? lo : lo * c.logu(1, 10);
    in.tol.a[i] = in.tol.r[i];
  }
  in.h0 = c.logu(1e-6, 1) * in.len;
  in.memory = true;
  c.desc << "\nmemory: " << p.show() << " y0=" << show(in.y0, n) << " xend=" << in.xend << " h=" << in.h0 << " " << in.tol.show();
  return in;
}
static void accuracy(Case &c, int kind) {
  In in = kind == 2 ? gendecay(c) : kind == 3 ? genmemory(c) : gen(c, kind == 1);
  c.ready();
  std::vector<double> y;
  double worst = INFINITY;
  // An embedded error estimator can vanish by accident for one particular step: an
  // error is a failure if it persists when the first step and the tolerance change a bit.
  static const double fh[5] = {1, 0.61, 0.37, 0.23, 0.14}, ft[5] = {1, 0.83, 0.7, 0.9, 0.77};
  for (int k = 0; k < 5; k++) {
    RodasStat st;
    double e = integrate(c, in, k ? std::min(in.h0, in.len) * fh[k] : in.h0, ft[k], st, y);
    if (k == 0) {
      c.nontrivial(st.naccpt >= 4);
      c.label(in.cf->name());
      c.label(in.p.dir < 0 ? "backward" : "forward");
      if (st.nrejct) c.label("with rejections");
      c.label(e < 1 ? "error<tol" : e < 10 ? "error<10tol" : e < 100 ? "error<100tol" : e < 1000 ? "error<1000tol" : "error>1000 tol");
    }
    worst = std::min(worst, e);
    if (worst <= (kind == 2 ? KD : kind == 3 ? KM : K)) return;
  }
  c.fail("error", "error " + std::to_string(worst) + " times the tolerance at xend; y=" + show(y, in.cf->n));
}
static void exact(Case &c) { accuracy(c, 0); }
static void own(Case &c) { accuracy(c, 1); }
static void decaying(Case &c) { accuracy(c, 2); }
static void memory(Case &c) { accuracy(c, 3); }
// the typical error is below the tolerance: median of 15 problems
static void typical(Case &c) {
  std::vector<double> e;
  for (int k = 0; k < 15; k++) {
    In in = gen(c);
    c.desc << "\n";
    std::vector<double> y;
    RodasStat st;
    e.push_back(integrate(c, in, in.h0, 1, st, y));
  }
  std::sort(e.begin(), e.end());
  c.ready();
  c.nontrivial();
  c.label(e[7] < 0.01 ? "median<0.01tol" : e[7] < 0.1 ? "median<0.1tol" : e[7] < 1 ? "median<tol" : "median>tol");
  c.check(e[7] <= 1.5, "median-error", "median of the errors of 15 problems: ", e[7], " times the tolerance");
}
int main(int argc, char **argv) {
  Property p;
  p.id = "D01";
  p.quick_cases = 100000;
  p.thorough_cases = 20000000;
  p.rule = "dissipative problems (damping up to 1e6, linear or with cubic and sine terms) whose solution is known by construction, random structure, tolerances, direction and first step; components: the unknowns are independent and their tolerances differ by orders of magnitude, each is judged by its own; decay: independent components which decrease by up to 17 orders of magnitude, relative tolerance only, or ignitions; memory: fast decreasing unknowns and the integrals of their squares; non-trivial: at least 4 accepted steps (exact, components, decay, memory), always (typical: 15 problems)";
  p.arms = {{"exact", 10, exact}, {"components", 4, own}, {"decay", 3, decaying}, {"memory", 3, memory}, {"typical", 1, typical}};
  return run(argc, argv, p);
}
