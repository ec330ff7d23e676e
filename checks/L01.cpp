// L01: Rock4L integrates y'=Ay (+b) with order 4 and is stable, at every degree.
#include "rock4l.hpp"
using namespace pbt;
static double smax(int s) { return 0.353 * s * s - 3; }
// nilpotent matrices: one step is exact
static void order(Case &c) {
  int n = 5;
  bool affine = c.coin();
  double h = c.logu(1e-4, 10);
  int s = c.range(5, 151);
  R4LF F;
  F.n = n;
  F.r = std::max(0., (smax(s) - 0.3) / h);
  F.A.assign(n * n, 0);
  // strictly lower triangular: A^5=0
  for (int i = 0; i < n; i++)
    for (int j = 0; j < i - (affine ? 0 : 0); j++) F.A[i * n + j] = 2 * c.sym();
  // in the affine case the first row and column are not used: A^4=0
  if (affine)
    for (int i = 0; i < n; i++) F.A[i * n] = 0;
  std::vector<double> y0(n), b(n, 0);
  for (auto &v : y0) v = c.sym();
  if (affine)
    for (auto &v : b) v = c.sym() / h;
  double t0 = c.pick({0.0, 1.0, -2.0});
  c.desc << (affine ? "affine" : "linear") << " h=" << h << " rho=" << F.r << " A=" << show(F.A, n * n) << " b=" << show(b, n) << " y0=" << show(y0, n) << " t0=" << t0;
  c.ready();
  std::vector<double> y = y0;
  R4LStat st;
  int rc = r4lrun(F, affine, y, b, t0, t0 + h, h, &st);
  c.check(rc == 0, "not-reached", rc == 1 ? "exception" : "no end");
  c.check(st.steps == 1, "one-step", st.steps, " steps");
  LD H = (t0 + h) - t0;
  std::vector<LD> e(n, 0), v(n), m(n, 0);
  // exp: sum h^k/k! A^k y0 + h^(k+1)/(k+1)! A^k b
  std::vector<LD> p(y0.begin(), y0.end()), q(b.begin(), b.end()), pm(n), qm(n);
  for (int i = 0; i < n; i++) pm[i] = fabsl(p[i]), qm[i] = fabsl(q[i]);
  LD f = 1;
  for (int k = 0; k <= 5; k++) {
    for (int i = 0; i < n; i++) {
      e[i] += f * p[i] + f * H / (k + 1) * q[i];
      m[i] += f * pm[i] + f * H / (k + 1) * qm[i];
    }
    std::vector<LD> p2(n, 0), q2(n, 0), p3(n, 0), q3(n, 0);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) {
        LD a = F.A[i * n + j];
        p2[i] += a * p[j];
        q2[i] += a * q[j];
        p3[i] += fabsl(a) * pm[j];
        q3[i] += fabsl(a) * qm[j];
      }
    p = p2, q = q2, pm = p3, qm = q3;
    f *= H / (k + 1);
  }
  double worst = 0;
  for (int i = 0; i < n; i++) {
    double d = (double)(fabsl(y[i] - e[i]) / (m[i] + 1e-300L));
    worst = std::max(worst, d);
    c.check(d <= 1e-10, "order-condition", "component ", i, ": ", y[i], " instead of ", (double)e[i], " with ", st.stages, " stages");
  }
  c.label(worst < 1e-13 ? "error<1e-13" : worst < 1e-12 ? "error<1e-12" : worst < 1e-11 ? "error<1e-11" : "error<1e-10");
  c.nontrivial();
}
// diagonal matrices: damping, order
static void stability(Case &c) {
  int n = c.size(1, 10, 20, 100), N = c.chance(1, 3) ? c.range(2, 6) : 1;
  bool affine = c.coin();
  double h = c.logu(1e-5, 1e2);
  int s = c.range(1, 151);
  R4LF F;
  F.n = n;
  double rho = std::max(0., smax(s) - 0.3) / h * (c.coin() ? 1 : c.uniform(0.5, 1));
  F.r = rho;
  F.A.assign(n * n, 0);
  std::vector<double> g(n, 0), b(n, 0), y0(n);
  for (int i = 0; i < n; i++) {
    int k = c.range(0, 4);
    double f = c.unit();
    double lam = -(k == 0 ? rho * f : k == 1 ? rho : k == 2 ? 0 : k == 3 ? std::min(rho, f / h) : std::min(rho, 5 * f / h));
    F.A[i * n + i] = lam;
    y0[i] = c.coin() ? 1 : c.sym() * 1e3;
    if (affine) g[i] = c.sym() * 10, b[i] = -lam * g[i];
  }
  double t0 = c.pick({0.0, 1.0, -2.0}), tend = t0 + N * h;
  c.desc << (affine ? "affine" : "linear") << " h=" << h << " steps=" << N << " rho=" << rho << " A=" << show(F.A, n * n) << " g=" << show(g, n) << " y0=" << show(y0, n) << " t0=" << t0;
  c.ready();
  std::vector<double> y = y0;
  R4LStat st;
  int rc = r4lrun(F, affine, y, b, t0, tend, h, &st);
  c.check(rc == 0, "not-reached", rc == 1 ? "exception" : "no end");
  c.check(st.steps == N, "steps", st.steps, " steps instead of ", N);
  double H = (tend - t0) / N;
  for (int i = 0; i < n; i++) {
    double z = H * F.A[i * n + i], u0 = y0[i] - g[i], u1 = y[i] - g[i], sz = std::fabs(u0) + std::fabs(g[i]);
    double amp = std::pow(z / 8, 4), noise = N * (1e-10 * sz + amp * (1e-14 * std::fabs(u0) + 1e-12 * std::fabs(g[i])));
    double bnd = z <= -2 ? (st.stages < 96 ? 0.955 : z < -12 ? 0.975 : 1.01) : st.stages < 96 || z > -6 ? 1 : 1.01;
    if (-z > smax(st.stages) * (1 - 3e-4)) bnd = 1.3;
    c.check(std::fabs(u1) <= std::fabs(u0) * std::pow(bnd, N) + noise, "unstable", "y-g goes from ", u0, " to ", u1, " in ", N, " steps with h*lambda=", z, ", ", st.stages, " stages");
    if (z == 0) c.check(std::fabs(u1 - u0) <= 1e-12 * sz * N, "constant", "y'=0: y goes from ", y0[i], " to ", y[i]);
    if (z >= -2) {
      double e = std::fabs(u1 - u0 * std::exp(N * z)), bd = N * 0.02 * std::pow(-z, 5);
      c.check(e <= bd * std::fabs(u0) + noise, "order", "y-g=", u1, " differs from the exact value by ", e / (std::fabs(u0) + 1e-300), " relative to the start, h*lambda=", z, ", ", N, " steps");
    }
  }
  c.label(st.stages < 10 ? "stages<10" : st.stages < 50 ? "stages<50" : "stages>=50");
  c.nontrivial(rho * h > 1);
}
// the heat equation of the documentation
static void heat(Case &c) {
  int n = c.range(3, 30);
  bool affine = c.coin();
  double k = c.logu(0.1, 2000);
  R4LF F;
  F.n = n;
  F.A.assign(n * n, 0);
  for (int i = 0; i < n; i++) {
    F.A[i * n + i] = -2 * k;
    if (i) F.A[i * n + i - 1] = k;
    if (i < n - 1) F.A[i * n + i + 1] = k;
  }
  F.r = 4 * k;
  std::vector<double> y0(n), b(n, 0);
  for (auto &v : y0) v = c.sym();
  if (affine)
    for (auto &v : b) v = 3 * c.sym();
  double len = c.logu(0.01, 2), t0 = c.pick({0.0, 1.0, -2.0});
  int N = c.range(1, 8) * 4;
  double h = len / N;
  if (h * F.r > 7800) c.discard();
  c.desc << (affine ? "affine" : "linear") << " heat n=" << n << " k=" << k << " y0=" << show(y0, n) << " b=" << show(b, n) << " length=" << len << " h=" << h << " t0=" << t0;
  c.ready();
  std::vector<double> y = y0;
  R4LStat st;
  int rc = r4lrun(F, affine, y, b, t0, t0 + len, h, &st);
  c.check(rc == 0, "not-reached", rc == 1 ? "exception" : "no end");
  // modes
  double worst = 0;
  LD pi = acosl(-1.L);
  for (int m = 1; m <= n; m++) {
    LD a0 = 0, a1 = 0, ab = 0, nn = 0;
    for (int i = 0; i < n; i++) {
      LD f = sinl(m * pi * (i + 1) / (n + 1));
      a0 += f * y0[i], a1 += f * y[i], ab += f * b[i], nn += f * f;
    }
    LD sn = sinl(m * pi / (2 * (n + 1))), lam = -4 * k * sn * sn;
    LD eq = -ab / lam, ex = eq + (a0 - eq) * expl(lam * len), u = fabsl(a0 - eq);
    LD z = lam * (len / N), w = fabsl(a1 - ex);
    // global error of the mode
    LD d = expl(z), bound;
    if (z > -2) bound = 0.02L * powl(-z, 5) * std::min((LD)N, 1 / (1 - powl(0.98L, 1)) + N) * u;
    else bound = (powl(0.96L, N) + expl(z * N)) * u * (st.stages >= 96 && z > -12 ? 1 + 1.1L * N : 1.01L);
    (void)d;
    LD mags = fabsl(a0) + fabsl(eq);
    LD noise = N * (1e-9L * (mags + 1) + powl(z / 8, 4) * 1e-12L * (mags + 1));
    worst = std::max(worst, (double)(w / (bound + noise)));
    c.check(w <= 1.2L * bound + noise, "heat", "mode ", m, " (h*lambda=", (double)z, "): ", (double)a1, " instead of ", (double)ex, " after ", N, " steps");
  }
  c.label(st.stages < 10 ? "stages<10" : st.stages < 50 ? "stages<50" : "stages>=50");
  c.nontrivial();
}
int main(int argc, char **argv) {
  Property p;
  p.id = "L01";
  p.quick_cases = 60000;
  p.thorough_cases = 20000000;
  p.rule = "order: nilpotent matrices, one step must be exact, all degrees. stability: diagonal matrices, 1 to 6 steps; non-trivial when h*rho>1. heat: heat equations with and without source, each mode is compared with the exact one";
  p.arms = {{"order", 2, order}, {"stability", 2, stability}, {"heat", 1, heat}};
  return run(argc, argv, p);
}
