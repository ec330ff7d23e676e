// S01: each Sdirkl method performs the steps of the Runge-Kutta method it is named after.
#include "sdirkl.hpp"
using namespace pbt;
static void gen_matrix(Case &c, int n, double dt, std::vector<double> &A) {
  A.assign(n * n, 0);
  int kind = c.range(0, 3);
  double sc = c.logu(1e-3, 1e3) / dt;
  // no pole of the method: the symmetric part is negative
  for (int i = 0; i < n; i++) {
    double r = 0;
    for (int j = 0; j < n; j++)
      if (j != i && (kind != 0)) A[i * n + j] = sc * c.sym();
    (void)r;
  }
  if (kind == 1)
    for (int i = 0; i < n; i++)
      for (int j = 0; j < i; j++) A[i * n + j] = A[j * n + i];
  if (kind == 2)
    for (int i = 0; i < n; i++)
      for (int j = 0; j < i; j++) A[i * n + j] = -A[j * n + i];
  for (int i = 0; i < n; i++) {
    double q = 0;
    for (int j = 0; j < n; j++)
      if (j != i) q += 0.5 * std::fabs(A[i * n + j] + A[j * n + i]);
    A[i * n + i] = -q - (c.coin() ? sc * c.unit() : 0);
  }
}
static void model(Case &c) {
  const SdMethod &m = sdmethods()[c.choice(sdmethods().size() - 1)];
  int n = c.size(1, 8, 20, 40), N = c.range(1, 6);
  bool affine = c.coin();
  double dt = c.logu(1e-4, 1e2);
  std::vector<double> A, y0(n), phi(n, 0);
  gen_matrix(c, n, dt, A);
  for (auto &v : y0) v = 2 * c.sym();
  if (affine)
    for (auto &v : phi) v = 3 * c.sym() / dt;
  c.desc << m.name << (affine ? " affine" : " linear") << " dt=" << dt << " A=" << show(A, n * n) << " phi=" << show(phi, n) << " y0=" << show(y0, n) << " steps=" << N;
  c.ready();
  SdOp::A = &A;
  SdP s = m.make(n, dt, affine);
  std::vector<double> u = y0, ph = phi;
  std::vector<LD> e(y0.begin(), y0.end());
  for (int k = 0; k < N; k++) {
    if (affine && c.chance(1, 4)) {  // another source for this step
      for (auto &v : phi) v = 3 * c.sym() / dt;
      c.desc << " phi" << k << "=" << show(phi, n);
      ph = phi;
    }
    SdOp::applies = 0;
    std::vector<LD> e0(u.begin(), u.end());
    bool ok = affine ? s->step(u.data(), ph.data()) : s->step(u.data());
    c.check(ok, "refused", "step refused");
    c.check(ph == phi, "source-changed", "the source is modified");
    c.check(SdOp::applies == m.s, "solves", SdOp::applies, " linear systems solved, the method has ", m.s, " stages");
    // one step from the values reached
    std::vector<LD> r = sdref(m, n, A, dt, e0, affine ? phi : std::vector<double>());
    LD sz = 1;
    for (int i = 0; i < n; i++) sz = std::max({sz, fabsl(e0[i]), fabsl(r[i])});
    for (int i = 0; i < n; i++) c.check(fabsl(u[i] - r[i]) <= 2e-11L * sz, "step", m.name, ": step ", k + 1, ", component ", i, ": ", u[i], " instead of ", (double)r[i]);
  }
  c.label(m.name);
  c.nontrivial();
}
// several objects, with different steps and sizes, do not disturb each other
static void independent(Case &c) {
  int k = c.range(2, 4);
  struct O { const SdMethod *m; int n; double dt; bool affine; std::vector<double> A, y0, phi, u, v; SdP a; };
  std::vector<O> o(k);
  for (auto &q : o) {
    q.m = &sdmethods()[c.choice(sdmethods().size() - 1)];
    q.n = c.size(1, 6, 20, 40);
    q.dt = c.logu(1e-3, 10);
    q.affine = c.coin();
    gen_matrix(c, q.n, q.dt, q.A);
    q.y0.resize(q.n);
    q.phi.assign(q.n, 0);
    for (auto &v : q.y0) v = c.sym();
    if (q.affine)
      for (auto &v : q.phi) v = c.sym();
    q.u = q.v = q.y0;
    c.desc << q.m->name << (q.affine ? " affine" : " linear") << " dt=" << q.dt << " A=" << show(q.A, q.n * q.n) << " y0=" << show(q.y0, q.n) << " phi=" << show(q.phi, q.n) << "\n";
  }
  std::vector<int> order;
  int len = c.range(2, 10);
  for (int i = 0; i < len; i++) order.push_back(c.range(0, k - 1)), c.desc << " " << order.back();
  c.ready();
  for (auto &q : o) q.a = q.m->make(q.n, q.dt, q.affine);
  auto st = [&](O &q, SdBase &s, std::vector<double> &u) {
    SdOp::A = &q.A;
    std::vector<double> ph = q.phi;
    if (q.affine) s.step(u.data(), ph.data());
    else s.step(u.data());
  };
  for (int i : order) st(o[i], *o[i].a, o[i].u);
  for (int i = 0; i < k; i++) {
    SdP s = o[i].m->make(o[i].n, o[i].dt, o[i].affine);
    for (int j : order)
      if (j == i) st(o[i], *s, o[i].v);
    for (int j = 0; j < o[i].n; j++) c.check(o[i].u[j] == o[i].v[j], "shared", "object ", i, ", component ", j, ": ", o[i].u[j], " interleaved with others, ", o[i].v[j], " alone");
  }
  c.nontrivial();
}
int main(int argc, char **argv) {
  Property p;
  p.id = "S01";
  p.quick_cases = 60000;
  p.thorough_cases = 20000000;
  p.rule = "model: the 5 methods, random dissipative matrices (diagonal, symmetric, skew, general) of size 1 to 8, each step compared with the Runge-Kutta method from its definition, in long double. independent: interleaved objects. All are non-trivial";
  p.arms = {{"model", 3, model}, {"independent", 1, independent}};
  return run(argc, argv, p);
}
