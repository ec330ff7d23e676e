// L02: Rock4L computes the same linear map in all its forms: linear, affine, superposition, split steps.
#include "rock4l.hpp"
using namespace pbt;
static double uni(Case &c) { return c.sym(); }
// y'=Ay+b against the linear system (A b; 0 0)
static void augment(Case &c) {
  int n = c.size(1, 6, 20, 50), N = c.range(1, 4);
  double h = c.logu(1e-3, 10);
  int s = c.range(5, 100);
  double rho = std::max(0., (0.353 * s * s - 3.3)) / h;
  R4LF F, G;
  F.n = n;
  G.n = n + 1;
  F.r = G.r = rho;
  F.A.assign(n * n, 0);
  G.A.assign((n + 1) * (n + 1), 0);
  bool big = c.coin();
  // symmetric part negative, norm bounded by rho (or of size 1/h)
  double sc = big ? rho / 2 / n : std::min(rho / 2 / n, 3 / h / n);
  for (int i = 0; i < n; i++)
    for (int j = 0; j <= i; j++) {
      double v = sc * uni(c);
      F.A[i * n + j] = F.A[j * n + i] = i == j ? 0 : v;
    }
  for (int i = 0; i < n; i++) {
    double q = 0;
    for (int j = 0; j < n; j++) q += std::fabs(F.A[i * n + j]);
    F.A[i * n + i] = -q - sc * c.unit() * 0.5;
  }
  std::vector<double> y0(n), b(n);
  for (auto &v : y0) v = c.sym();
  bool sparse = c.chance(1, 3);
  for (auto &v : b) v = sparse && c.coin() ? 0 : c.sym() / h;
  for (int i = 0; i < n; i++) {
    for (int j = 0; j < n; j++) G.A[i * (n + 1) + j] = F.A[i * n + j];
    G.A[i * (n + 1) + n] = b[i];
  }
  double t0 = c.pick({0.0, 1.0, -2.0}), last = c.coin() ? 1 : c.uniform(0.1, 1), tend = t0 + (N - 1 + last) * h;
  c.desc << "h=" << h << " steps=" << N << " (last: " << last << ") rho=" << rho << " A=" << show(F.A, n * n) << " b=" << show(b, n) << " y0=" << show(y0, n) << " t0=" << t0;
  c.ready();
  std::vector<double> y = y0, ya = y0;
  ya.push_back(1);
  R4LStat s1, s2;
  int r1 = r4lrun(F, true, y, b, t0, tend, h, &s1), r2 = r4lrun(G, false, ya, {}, t0, tend, h, &s2);
  c.check(r1 == 0 && r2 == 0, "not-reached", "outcomes ", r1, " ", r2);
  c.check(s1.steps == s2.steps && s1.stages == s2.stages && s1.rhs == s2.rhs, "same-work", "affine: ", s1.steps, " steps, ", s1.stages, " stages, ", s1.rhs, " evaluations; linear: ", s2.steps, " ", s2.stages, " ", s2.rhs);
  c.check(std::fabs(ya[n] - 1) <= 1e-11 * N, "constant", "y'=0: 1 becomes ", ya[n]);
  double amp = std::pow(h * rho / 8, 4), tol = N * (1e-10 + 1e-12 * (big ? amp : 1)) * 4;
  for (int i = 0; i < n; i++) c.check(std::fabs(y[i] - ya[i]) <= tol, "affine", "component ", i, ": affine form ", y[i], ", linear form ", ya[i], " with ", s1.stages, " stages");
  // without source the affine form is the linear one
  std::vector<double> z0(n, 0), u = y0, v = y0;
  r1 = r4lrun(F, true, u, z0, t0, tend, h);
  r2 = r4lrun(F, false, v, {}, t0, tend, h);
  for (int i = 0; i < n; i++) c.check(std::fabs(u[i] - v[i]) <= tol, "no-source", "component ", i, ": affine form with b=0 ", u[i], ", linear form ", v[i]);
  c.label(s1.stages < 10 ? "stages<10" : s1.stages < 50 ? "stages<50" : "stages>=50");
  c.nontrivial();
}
// superposition; independence of t0; one run = the same steps one after the other
static void superposition(Case &c) {
  int n = c.size(1, 6, 20, 50), N = c.range(1, 4);
  double h = 1.0 / (1 << c.range(0, 6));
  int s = c.range(5, 100);
  double rho = std::max(0., (0.353 * s * s - 3.3)) / h;
  bool affine = c.coin();
  R4LF F;
  F.n = n;
  F.r = rho;
  F.A.assign(n * n, 0);
  double sc = std::min(rho / 2 / n, 3 / h / n);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) F.A[i * n + j] = sc * uni(c) - (i == j ? sc * n * c.unit() : 0);
  std::vector<double> y1(n), y2(n), b1(n, 0), b2(n, 0);
  for (int i = 0; i < n; i++) {
    y1[i] = c.sym(), y2[i] = c.sym();
    if (affine) b1[i] = c.sym() / h, b2[i] = c.sym() / h;
  }
  double al = 3 * c.sym(), be = 3 * c.sym();
  double last = c.coin() ? 1 : c.range(1, 16) / 16., len = (N - 1 + last) * h;
  double t0 = c.pick({0.0, 1.0, -2.0, 64.0}), tend = t0 + len;
  c.desc << (affine ? "affine" : "linear") << " h=" << h << " steps=" << N << " (last: " << last << ") rho=" << rho << " A=" << show(F.A, n * n) << " y1=" << show(y1, n) << " y2=" << show(y2, n) << " b1=" << show(b1, n) << " b2=" << show(b2, n) << " alpha=" << al << " beta=" << be << " t0=" << t0;
  c.ready();
  std::vector<double> y3(n), b3(n), u1 = y1, u2 = y2, u3, u4 = y1, u5 = y1;
  for (int i = 0; i < n; i++) y3[i] = al * y1[i] + be * y2[i], b3[i] = al * b1[i] + be * b2[i];
  u3 = y3;
  R4LStat st;
  int rc = r4lrun(F, affine, u1, b1, t0, tend, h, &st) + r4lrun(F, affine, u2, b2, t0, tend, h) + r4lrun(F, affine, u3, b3, t0, tend, h);
  c.check(rc == 0, "not-reached", "no success");
  double g = 1;
  for (int i = 0; i < n; i++) g = std::max({g, std::fabs(u1[i]), std::fabs(u2[i]), std::fabs(u3[i])});
  double tol = 1e-9 * g * std::pow(10., N);
  for (int i = 0; i < n; i++) c.check(std::fabs(u3[i] - (al * u1[i] + be * u2[i])) <= tol, "superposition", "component ", i, ": ", u3[i], " instead of ", al * u1[i] + be * u2[i]);
  // shifted time
  rc = r4lrun(F, affine, u4, b1, 0, len, h);
  for (int i = 0; i < n; i++) c.check(rc == 0 && u4[i] == u1[i], "time-shift", "component ", i, ": ", u1[i], " from t0=", t0, ", ", u4[i], " from 0");
  // steps one by one, by one object or by new ones
  bool one = true;
  for (int p = 0; p < 2; p++) {
  if (p) one = false, u5 = y1;
  R4LObj obj(F, affine);
  for (int k = 0; k < N; k++) {
    double a = t0 + k * h, b = std::min(t0 + (k + 1) * h, tend);
    rc += one ? obj.run(u5, b1, a, b, h) : r4lrun(F, affine, u5, b1, a, b, h);
  }
  for (int i = 0; i < n; i++) c.check(rc == 0 && u5[i] == u1[i], "split", "component ", i, ": ", u1[i], " in one run, ", u5[i], " step by step, ", one ? "same object" : "new objects");
  }
  c.nontrivial(N > 1);
}
int main(int argc, char **argv) {
  Property p;
  p.id = "L02";
  p.quick_cases = 60000;
  p.thorough_cases = 20000000;
  p.rule = "augment: affine problems against the equivalent linear one, and without source. superposition: linear combinations of problems, shifted time, steps done one by one; non-trivial: at least 2 steps";
  p.arms = {{"augment", 1, augment}, {"superposition", 1, superposition}};
  return run(argc, argv, p);
}
