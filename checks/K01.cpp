// K01: Rock4 integrates parabolic problems with an error of the order of the tolerance.
#include "rock4.hpp"
using namespace pbt;
static const double K = 500, KD = 300, KM = 100;
static const char *lab(double);
struct In {
  Prob p;
  double len, h0, atol, rtol, rho, S = 1;  // S: the unit of time is divided by S
  std::vector<double> y0, sc;
};
// autonomous: the last component is the time
static In gen(Case &c) {
  In in;
  ProbOpt o;
  o.n = c.size(1, 6, 20, 60, 60);
  o.manuf = true;
  o.linear = c.chance(1, 4);
  o.quads = false;
  o.maxstiff = c.pick({10.0, 1e3, 1e5});
  if (c.coin()) o.ml = o.mu = 1;
  o.wmax = c.pick({6.0, 6.0, 6.0, 6.0, 100.0, 2000.0});
  in.p = gen_prob(c, o);
  Prob &p = in.p;
  int n = p.n;
  p.t0 = c.pick({0.0, 1.0, -3.0, 100.0});
  in.len = c.logu(0.05, o.wmax > 6 ? 1 : 8);
  in.atol = c.logu(1e-9, 1e-3);
  in.rtol = c.chance(1, 4) ? 0 : c.logu(1e-9, 1e-3);
  in.h0 = c.logu(1e-6, 1);
  in.S = c.pick({1.0, 1.0, 1.0, 1e4, 1e8, 1e-3, 1e-6});
  in.y0.resize(n);
  in.sc.assign(n, 0);
  p.exact(p.t0, in.y0.data());
  for (int k = 0; k <= 40; k++) {
    std::vector<double> e(n);
    p.exact(p.t0 + in.len * k / 40, e.data());
    for (int i = 0; i < n; i++) in.sc[i] = std::max(in.sc[i], std::fabs(e[i]));
  }
  // bound of the spectral radius
  in.rho = 0;
  for (int i = 0; i < n; i++) {
    double s = 3 * p.cub[i] * (in.sc[i] + 0.1) * (in.sc[i] + 0.1);
    for (int j = 0; j < n; j++) s += std::fabs(p.A[i * n + j]);
    for (auto &t : p.sn)
      if (t.i == i) s += std::fabs(t.c);
    in.rho = std::max(in.rho, s);
  }
  if (c.coin()) in.rho *= c.uniform(1, 3);
  in.y0.push_back(p.t0);
  c.desc << p.show() << " length=" << in.len << " h=" << in.h0 << " atol=" << in.atol << " rtol=" << in.rtol << " rho=" << in.rho;
  if (in.S != 1) c.desc << " time divided by " << in.S;
  return in;
}
static double integrate(Case &c, const In &in, double h, double ft, R4 *&keep, R4F &F, int *nacc = nullptr) {
  int n = in.p.n;
  F.n = n + 1;
  F.f = [&](const double *y, double *r) {
    in.p.rhs(y[n], y, r);
    r[n] = 1;
    for (int i = 0; i <= n; i++) r[i] *= in.S;
  };
  F.r = [&] { return in.S * in.rho; };
  F.calls = 0;
  R4 R(F);
  R.setTolerances(in.atol * ft, in.rtol * ft);
  R4Vec y(in.y0);
  double t0 = in.p.t0, t1 = t0 + in.len;
  double T0 = in.S == 1 ? t0 : 0;
  int rc = r4run(R, y, T0, T0 + in.len / in.S, h / in.S);
  c.check(rc == 0, "not-reached", rc == 1 ? "exception" : "too many evaluations");
  // the last component counts the time: sum of the accepted steps
  c.check(std::fabs(y.p[n] - t1) <= 1e-11 * (1 + std::fabs(t1)), "time", "y'=1 is integrated to ", y.p[n] - t0, " instead of ", t1 - t0);
  if (nacc) *nacc = R.NbAccepted();
  if (keep == (R4 *)1) {
    if (R.NbRejected()) c.label("with rejections");
    int s = R.NbStages() + 4;
    c.label(s < 10 ? "stages<10" : s < 50 ? "stages<50" : s < 140 ? "stages<140" : "stages>=140");
  }
  std::vector<double> e(n);
  in.p.exact(t1, e.data());
  double m = 0, sc = 0;
  for (int i = 0; i < n; i++) sc = std::max(sc, in.atol + in.rtol * std::max(std::fabs(e[i]), in.sc[i]));
  for (int i = 0; i < n; i++) {
    m = std::max(m, std::fabs(y.p[i] - e[i]) / sc);
    if (!std::isfinite(y.p[i])) m = INFINITY;
  }
  return m;
}
// independent components which decrease by many orders of magnitude: the relative
// tolerance decides to the end
static double bernoulli(double lam, double cub, double s, double t) {
  double E = std::exp(-lam * t);
  return s * E / std::sqrt(1 + cub / lam * s * s * (-std::expm1(-2 * lam * t)));
}
static void decaying(Case &c) {
  int n = c.size(1, 6, 20, 100);
  std::vector<double> lam(n), cub(n), y0(n);
  double l0 = c.logu(0.1, 1000), rho = 0, top = 0;
  for (int i = 0; i < n; i++) {
    lam[i] = l0 * c.uniform(0.2, 3);
    y0[i] = c.logu(0.1, 10) * (c.coin() ? -1 : 1);
    cub[i] = c.coin() ? 0 : c.uniform(0, 2) * l0 / (y0[i] * y0[i]);
    rho = std::max(rho, lam[i] + 3.3 * cub[i] * y0[i] * y0[i]);
    top = std::max(top, lam[i]);
  }
  double len = c.uniform(1, 40) / top, h0 = c.logu(1e-6, 1) * len, rtol = c.logu(1e-8, 1e-3), atol = c.pick({1e-30, 1e-25, 1e-20});
  bool flame = c.chance(1, 4);
  if (flame) {
    // ignitions: y' = l0 (y^2 - y^3); nearly nothing happens until 1/y0, then everything at once
    double dmin = 1;
    for (int i = 0; i < n; i++) y0[i] = c.logu(1e-4, 0.1), dmin = std::min(dmin, y0[i]);
    rho = 1.4 * l0;
    len = ((1 / dmin + std::log(1 / dmin)) * c.uniform(1.1, 1.5) + 40) / l0;
    h0 = c.logu(1e-6, 0.01) * len;
    atol = rtol * dmin;
    c.desc << "ignition y'=" << l0 << "*(y^2-y^3) y0=" << show(y0, n) << " length=" << len << " h=" << h0 << " rtol=" << rtol << " atol=" << atol << " rho=" << rho;
  } else
  c.desc << "y'=-lambda y-c y^3, lambda=" << show(lam, n) << " c=" << show(cub, n) << " y0=" << show(y0, n) << " length=" << len << " h=" << h0 << " rtol=" << rtol << " atol=" << atol << " rho=" << rho;
  c.ready();
  static const double fh[5] = {1, 0.61, 0.37, 0.23, 0.14}, ft[5] = {1, 0.83, 0.7, 0.9, 0.77};
  double worst = INFINITY;
  for (int k = 0; k < 5; k++) {
    R4F F;
    F.n = n;
    F.f = [&](const double *y, double *r) {
      for (int i = 0; i < n; i++) r[i] = flame ? l0 * y[i] * y[i] * (1 - y[i]) : -lam[i] * y[i] - cub[i] * y[i] * y[i] * y[i];
    };
    F.r = [&] { return rho; };
    R4 R(F);
    R.setTolerances(atol * ft[k], rtol * ft[k]);
    R4Vec y(y0);
    int rc = r4run(R, y, 0, len, h0 * fh[k]);
    c.check(rc == 0, "not-reached", rc == 1 ? "exception" : "too many evaluations");
    double m = 0;
    for (int i = 0; i < n; i++) {
      double e = flame ? 1 : bernoulli(lam[i], cub[i], y0[i], len);
      m = std::max(m, std::fabs(y.p[i] - e) / (atol + rtol * std::fabs(e)));
      if (!std::isfinite(y.p[i])) m = INFINITY;
    }
    if (k == 0) {
      c.nontrivial(R.NbAccepted() >= 4);
      if (R.NbRejected()) c.label("with rejections");
      c.label(lab(m));
    }
    worst = std::min(worst, m);
    if (worst <= KD) return;
  }
  c.check(false, "error", "error ", worst, " times the tolerance");
}
// unknowns which decrease, and the integrals of their squares, which keep every error
static void memory(Case &c) {
  int n = 2 * c.size(1, 3, 10, 60);
  std::vector<double> lam(n), q(n), y0(n);
  double rho = 0, top = 0;
  double len = c.logu(0.05, 8), h0 = c.logu(1e-6, 1) * len, rtol = c.logu(1e-8, 1e-3), atol = rtol * c.pick({1.0, 0.1, 10.0});
  for (int i = 0; i < n; i += 2) {
    lam[i] = c.logu(0.3, 3e4) / len;
    y0[i] = c.logu(0.1, 3) * (c.coin() ? -1 : 1);
    y0[i + 1] = c.sym();
    q[i + 1] = lam[i] * c.uniform(-2, 2);
    top = std::max(top, lam[i]);
  }
  rho = top * (c.coin() ? 1.05 : c.uniform(1.05, 3));
  c.desc << "y'=-lambda y, I'=q y^2, lambda=" << show(lam, n) << " q=" << show(q, n) << " y0=" << show(y0, n) << " length=" << len << " h=" << h0 << " rtol=" << rtol << " atol=" << atol << " rho=" << rho;
  c.ready();
  static const double fh[5] = {1, 0.61, 0.37, 0.23, 0.14}, ft[5] = {1, 0.83, 0.7, 0.9, 0.77};
  double worst = INFINITY;
  for (int k = 0; k < 5; k++) {
    R4F F;
    F.n = n;
    F.f = [&](const double *y, double *r) {
      for (int i = 0; i < n; i += 2) r[i] = -lam[i] * y[i], r[i + 1] = q[i + 1] * y[i] * y[i];
    };
    F.r = [&] { return rho; };
    R4 R(F);
    R.setTolerances(atol * ft[k], rtol * ft[k]);
    R4Vec y(y0);
    int rc = r4run(R, y, 0, len, h0 * fh[k]);
    c.check(rc == 0, "not-reached", rc == 1 ? "exception" : "too many evaluations");
    double m = 0;
    for (int i = 0; i < n; i++) {
      double l = lam[i & ~1], z = y0[i & ~1];
      double e = i % 2 ? y0[i] + q[i] / (2 * l) * z * z * -std::expm1(-2 * l * len) : z * std::exp(-l * len);
      m = std::max(m, std::fabs(y.p[i] - e) / (atol + rtol * (std::fabs(y0[i]) + std::fabs(e))));
      if (!std::isfinite(y.p[i])) m = INFINITY;
    }
    if (k == 0) {
      c.nontrivial(R.NbAccepted() >= 4);
      if (R.NbRejected()) c.label("with rejections");
      c.label(lab(m));
    }
    worst = std::min(worst, m);
    if (worst <= KM) return;
  }
  c.check(false, "error", "error ", worst, " times the tolerance");
}
static const char *lab(double e) { return e < 0.1 ? "error<0.1tol" : e < 1 ? "error<tol" : e < 10 ? "error<10tol" : e < 100 ? "error<100tol" : "error>100tol"; }
static void exact(Case &c) {
  In in = gen(c);
  c.ready();
  double worst = INFINITY;
  static const double fh[5] = {1, 0.61, 0.37, 0.23, 0.14}, ft[5] = {1, 0.83, 0.7, 0.9, 0.77};
  for (int k = 0; k < 5; k++) {
    int na = 0;
    R4 *keep = k ? nullptr : (R4 *)1;
    R4F F;
    double e = integrate(c, in, k ? std::min(in.h0, in.len) * fh[k] : in.h0, ft[k], keep, F, &na);
    if (k == 0) {
      c.nontrivial(na >= 4);
      c.label(lab(e));
    }
    worst = std::min(worst, e);
    if (worst <= K) return;
  }
  c.check(false, "error", "error ", worst, " times the tolerance");
}
static void typical(Case &c) {
  std::vector<double> e;
  for (int k = 0; k < 15; k++) {
    In in = gen(c);
    c.desc << "\n";
    R4 *keep = nullptr;
    R4F F;
    e.push_back(integrate(c, in, in.h0, 1, keep, F));
  }
  std::sort(e.begin(), e.end());
  c.ready();
  c.nontrivial();
  c.label(e[7] < 0.01 ? "median<0.01tol" : e[7] < 0.1 ? "median<0.1tol" : e[7] < 1 ? "median<tol" : "median>tol");
  c.check(e[7] <= 4, "median-error", "median of the errors of 15 problems: ", e[7], " times the tolerance");
}
int main(int argc, char **argv) {
  Property p;
  p.id = "K01";
  p.quick_cases = 14000;
  p.thorough_cases = 20000000;
  p.rule = "dissipative problems (damping up to 1e5, linear or with cubic and sine terms) whose solution is known by construction, time being a component, random tolerances, first step and bound of the spectral radius; decay: independent components which decrease by up to 17 orders of magnitude, relative tolerance only, or ignitions; memory: decreasing unknowns and the integrals of their squares; non-trivial: at least 4 accepted steps (exact, decay, memory), always (typical: 15 problems)";
  p.arms = {{"exact", 10, exact}, {"decay", 3, decaying}, {"memory", 8, memory}, {"typical", 1, typical}};
  return run(argc, argv, p);
}
