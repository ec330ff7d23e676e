// K02: Rock4 is stable on [-rho h, 0] whatever the number of stages this needs, and adapts the stages to rho.
#include "rock4.hpp"
using namespace pbt;
// one step of y' = lambda_i y, or y' = lambda_i (y - g_i)
static void onestep(Case &c) {
  int n = c.range(1, 12);
  double h = c.logu(1e-6, 1e3);
  int s = c.chance(1, 10) ? c.range(150, 400) : c.range(1, 160);
  double rho = c.chance(1, 12) ? 0 : std::max(0.0, ((s - c.unit()) * (s - c.unit()) * 0.353 - 3)) / h;
  std::vector<double> lam(n), g(n, 0), y0(n);
  bool affine = c.coin();
  double t0 = c.pick({0.0, 1.0, -5.0});
  for (int i = 0; i < n; i++) {
    int k = c.range(0, 4);
    double f = c.unit();
    lam[i] = -(k == 0 ? rho * f : k == 1 ? rho : k == 2 ? 0 : k == 3 ? std::min(rho, f / h) : std::min(rho, 5 * f / h));
    y0[i] = c.coin() ? 1 : c.sym() * 1e3;
    if (affine) g[i] = c.sym() * 10;
  }
  R4F F;
  F.n = n;
  F.f = [&](const double *y, double *r) { for (int i = 0; i < n; i++) r[i] = lam[i] * (y[i] - g[i]); };
  F.r = [&] { return rho; };
  F.maxcalls = 5000;
  c.desc << "h=" << h << " rho=" << rho << " lambda=" << show(lam, n) << " g=" << show(g, n) << " y0=" << show(y0, n) << " t0=" << t0;
  c.ready();
  R4 R(F);
  R.setTolerances(1e30, 1e30);
  R4Vec y(y0);
  double tend = t0 + h;
  if (!(tend > t0)) c.discard();
  int rc = r4run(R, y, t0, tend, h);
  if (h < 1e-5 && rc == 1) c.discard();
  c.check(rc == 0, "not-reached", rc == 1 ? "exception" : "no end");
  c.nontrivial(h * rho > 1);
  bool single = R.NbSteps() == 1;
  // fewer than 152 stages are enough: one step must be done
  double need = std::sqrt((3 + h * rho) / 0.353) + 1;
  if (need < 152) c.check(single, "one-step", R.NbSteps(), " steps: one is enough with ", need, " stages");
  c.label(single ? (need < 8 ? "5-8 stages" : need < 50 ? "8-50 stages" : "50-152 stages") : "several steps");
  double H = tend - t0;
  for (int i = 0; i < n; i++) {
    double u0 = y0[i] - g[i], u1 = y.p[i] - g[i];
    double z = H * lam[i], sz = std::fabs(u0) + std::fabs(g[i]);
    // the last 4 stages amplify the rounding errors of the previous ones by |z/8|^4
    double amp = std::pow(z / 8, 4), noise = 1e-10 * sz + amp * (1e-14 * std::fabs(u0) + 1e-12 * std::fabs(g[i]));
    // the coefficients that were published are a bit outside of the unit disk at z = -8.4, for 133 and 152 stages
    double bnd = single && z <= -2 ? (R.NbStages() + 4 < 96 ? 0.955 : z < -12 ? 0.975 : 1.01) : R.NbStages() + 4 < 96 || z > -6 ? 1 : 1.01;
    // (the interval of 67 stages is shorter than the formula tells, by 0.002 %)
    int st = R.NbStages() + 4;
    if (-z > (0.353 * st * st - 3) * (1 - 2e-4)) bnd = 1.3;
    if (!single) bnd = std::pow(1.01, R.NbSteps());
    c.check(std::fabs(u1) <= std::fabs(u0) * bnd + noise, "unstable", "y-g goes from ", u0, " to ", u1, " with h*lambda=", z, ", ", R.NbStages() + 4, " stages");
    if (lam[i] == 0) c.check(std::fabs(u1 - u0) <= 2e-12 * sz, "constant", "y'=0: y changes from ", y0[i], " to ", y.p[i]);
    if (single && z >= -2) {
      double e = std::fabs(u1 - u0 * std::exp(z)), b = 0.02 * std::pow(-z, 5);
      c.check(e <= b * std::fabs(u0) + 1e-11 * sz, "order", "y-g=", u1, " differs from the exact value by ", e / std::fabs(u0), " relative to the start, h*lambda=", z);
    }
  }
}
// long integrations of stiff linear problems with real eigenvalues, controlled steps
static void integration(Case &c) {
  int n = c.range(3, 40);
  double nu = c.logu(1e-3, 30), dx = 1.0 / (n + 1), k = nu / dx / dx;
  bool neumann = c.coin();
  std::vector<double> y0(n);
  for (auto &v : y0) v = c.sym();
  double len = c.logu(0.01, 3), h0 = c.logu(1e-6, 10), tol = c.logu(1e-8, 1e-2);
  double over = c.coin() ? 1 : c.uniform(1, 2);
  R4F F;
  F.n = n;
  F.f = [&](const double *y, double *r) {
    for (int i = 0; i < n; i++) {
      double l = i ? y[i - 1] : neumann ? y[i] : 0, u = i < n - 1 ? y[i + 1] : neumann ? y[i] : 0;
      r[i] = k * (l - 2 * y[i] + u);
    }
  };
  F.r = [&] { return 4 * k * over; };
  c.desc << "heat n=" << n << " nu/dx^2=" << k << (neumann ? " Neumann" : " Dirichlet") << " y0=" << show(y0, n) << " length=" << len << " h=" << h0 << " tol=" << tol << " rho=" << 4 * k * over;
  c.ready();
  R4 R(F);
  R.setTolerances(tol, tol);
  R4Vec y(y0);
  int rc = r4run(R, y, 0, len, h0);
  c.check(rc == 0, "not-reached", rc == 1 ? "exception" : "too many evaluations");
  c.nontrivial(R.NbSteps() >= 3);
  LD s0 = 0, s1 = 0, m0 = 0, m1 = 0;
  for (int i = 0; i < n; i++) s0 += y0[i] * y0[i], s1 += (LD)y.p[i] * y.p[i], m0 += y0[i], m1 += y.p[i];
  c.check(s1 <= s0 * (1 + 1e-9), "norm-grows", "heat equation: the norm grows from ", (double)sqrtl(s0), " to ", (double)sqrtl(s1));
  if (neumann) c.check(std::fabs(m1 - m0) <= 1e-9 * (1 + n), "mean", "the mean changes from ", (double)m0 / n, " to ", (double)m1 / n);
  // exact solution by its modes
  double scale = 0, err = 0;
  std::vector<LD> ex(n, 0);
  for (int m = neumann ? 0 : 1; m <= (neumann ? n - 1 : n); m++) {
    LD co = 0, nn = 0, pi = acosl(-1.L);
    auto ph = [&](int i) { return neumann ? cosl(m * pi * (i + 0.5L) / n) : sinl(m * pi * (i + 1) / (n + 1)); };
    LD sn = neumann ? sinl(m * pi / (2 * n)) : sinl(m * pi / (2 * (n + 1)));
    for (int i = 0; i < n; i++) co += ph(i) * y0[i], nn += ph(i) * ph(i);
    LD d = co / nn * expl(-4 * k * sn * sn * len);
    if (fabsl(d) > 1e-20L)
      for (int i = 0; i < n; i++) ex[i] += d * ph(i);
  }
  for (int i = 0; i < n; i++) scale = std::max(scale, (double)fabsl(ex[i])), err = std::max(err, (double)fabsl(ex[i] - y.p[i]));
  c.label(err < tol ? "error<tol" : err < 10 * tol ? "error<10tol" : err < 100 * tol ? "error<100tol" : "error>100tol");
  c.check(err <= 300 * tol, "error", "error ", err / tol, " times the tolerance");
}
int main(int argc, char **argv) {
  Property p;
  p.id = "K02";
  p.quick_cases = 100000;
  p.thorough_cases = 20000000;
  p.rule = "onestep: y'=lambda(y-g) for up to 12 lambdas in [-rho,0], all degrees; non-trivial when h*rho>1. integration: heat equations with up to 40 points; non-trivial: at least 3 steps";
  p.arms = {{"onestep", 6, onestep}, {"integration", 1, integration}};
  return run(argc, argv, p);
}
