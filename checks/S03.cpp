// S03: Sdirkl with a source: stationary solutions, affine maps, refusal of the wrong form.
#include "sdirkl.hpp"
using namespace pbt;
static void gen_matrix(Case &c, int n, double dt, std::vector<double> &A) {
  double sc = c.logu(1e-2, 1e3) / dt;
  A.assign(n * n, 0);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++)
      if (j != i) A[i * n + j] = sc * c.sym();
  for (int i = 0; i < n; i++) {
    double q = 0;
    for (int j = 0; j < n; j++)
      if (j != i) q += 0.5 * std::fabs(A[i * n + j] + A[j * n + i]);
    A[i * n + i] = -q - sc * (0.05 + c.unit());
  }
}
static void affine(Case &c) {
  const SdMethod &m = sdmethods()[c.choice(sdmethods().size() - 1)];
  int n = c.size(1, 8, 20, 40), N = c.range(1, 5);
  double dt = c.logu(1e-3, 1e2), al = 3 * c.sym(), be = 3 * c.sym();
  std::vector<double> A;
  gen_matrix(c, n, dt, A);
  std::vector<double> g(n), w(n), y2(n), p2(n);
  for (int i = 0; i < n; i++) g[i] = 2 * c.sym(), w[i] = 2 * c.sym(), y2[i] = c.sym(), p2[i] = c.sym() / dt;
  c.desc << m.name << " n=" << n << " dt=" << dt << " A=" << show(A, n * n) << " g=" << show(g, n) << " w=" << show(w, n) << " y2=" << show(y2, n) << " phi2=" << show(p2, n) << " alpha=" << al << " beta=" << be << " steps=" << N;
  c.ready();
  SdOp::A = &A;
  SdP s = m.make(n, dt, true), l = m.make(n, dt, false);
  // stationary solution g of y'=A(y-g)
  std::vector<double> phi(n), u = g, z(n, 0.);
  double an = 0;
  for (int i = 0; i < n; i++) {
    LD q = 0;
    for (int j = 0; j < n; j++) q -= (LD)A[i * n + j] * g[j], an = std::max(an, std::fabs(A[i * n + j]) * dt * n);
    phi[i] = (double)q;
  }
  double tol = 1e-11 * (1 + an) * 10;
  for (int k = 0; k < N; k++) c.check(s->step(u.data(), phi.data()), "refused", "step refused");
  for (int i = 0; i < n; i++) c.check(std::fabs(u[i] - g[i]) <= tol, "stationary", "component ", i, ": the stationary value ", g[i], " becomes ", u[i]);
  // deviation from the stationary solution: the linear problem
  std::vector<double> a(n), b = w, ns;
  for (int i = 0; i < n; i++) a[i] = g[i] + w[i];
  for (int k = 0; k < N; k++) {
    s->step(a.data(), phi.data());
    c.check(l->step(b.data()), "refused", "step refused");
  }
  for (int i = 0; i < n; i++) c.check(std::fabs(a[i] - g[i] - b[i]) <= tol, "shift", "component ", i, ": y-g=", a[i] - g[i], ", linear problem: ", b[i]);
  // no source
  a = b = w;
  for (int k = 0; k < N; k++) s->step(a.data(), z.data()), l->step(b.data());
  for (int i = 0; i < n; i++) c.check(std::fabs(a[i] - b[i]) <= tol, "no-source", "component ", i, ": affine ", a[i], ", linear ", b[i]);
  // superposition
  std::vector<double> y1 = w, y3(n), p3(n);
  for (int i = 0; i < n; i++) y3[i] = al * w[i] + be * y2[i], p3[i] = al * phi[i] + be * p2[i];
  for (int k = 0; k < N; k++) s->step(y1.data(), phi.data()), s->step(y2.data(), p2.data()), s->step(y3.data(), p3.data());
  for (int i = 0; i < n; i++) c.check(std::fabs(y3[i] - (al * y1[i] + be * y2[i])) <= 20 * tol, "superposition", "component ", i, ": ", y3[i], " instead of ", al * y1[i] + be * y2[i]);
  c.label(m.name);
  c.nontrivial(an > 0.1);
}
static void misuse(Case &c) {
  const SdMethod &m = sdmethods()[c.choice(sdmethods().size() - 1)];
  int n = c.size(1, 6, 20, 40), k = c.range(1, 8);
  bool aff = c.coin();
  double dt = c.logu(1e-3, 10);
  std::vector<double> A;
  gen_matrix(c, n, dt, A);
  std::vector<double> u(n), v, phi(n);
  for (auto &x : u) x = c.sym();
  for (auto &x : phi) x = c.sym();
  v = u;
  c.desc << m.name << (aff ? " affine" : " linear") << " dt=" << dt << " A=" << show(A, n * n) << " u=" << show(u, n) << " phi=" << show(phi, n) << " calls:";
  std::vector<bool> w;
  for (int i = 0; i < k; i++) w.push_back(c.coin()), c.desc << (w[i] ? " wrong" : " right");
  c.ready();
  SdOp::A = &A;
  SdP s = m.make(n, dt, aff), r = m.make(n, dt, aff);
  int wrong = 0;
  for (int i = 0; i < k; i++) {
    std::vector<double> before = u;
    if (w[i]) {
      bool ok = aff ? s->step(u.data()) : s->step(u.data(), phi.data());
      c.check(!ok, "wrong-form", aff ? "a step without source was accepted in the affine case" : "a step with a source was accepted in the linear case");
      c.check(u == before, "wrong-form", "u changed although the step was refused");
      wrong++;
    } else {
      c.check(aff ? s->step(u.data(), phi.data()) : s->step(u.data()), "refused", "right form refused");
      if (aff) r->step(v.data(), phi.data());
      else r->step(v.data());
      c.check(u == v, "after-refusal", "a step after a refused one differs");
    }
  }
  c.nontrivial(wrong > 0 && wrong < k);
}
int main(int argc, char **argv) {
  Property p;
  p.id = "S03";
  p.quick_cases = 60000;
  p.thorough_cases = 20000000;
  p.rule = "affine: random dissipative systems with a source: stationary solutions, shift, superposition; non-trivial when ||A||dt>0.1. misuse: sequences of right and wrong calls; non-trivial when both occur";
  p.arms = {{"affine", 2, affine}, {"misuse", 1, misuse}};
  return run(argc, argv, p);
}
