// S02: order and stability of the Sdirkl methods.
#include "sdirkl.hpp"
using namespace pbt;
// y'=Ay with A=[a b; -b a] (complex eigenvalue): y is multiplied by R(z)
static void stab(Case &c) {
  const SdMethod &m = sdmethods()[c.choice(sdmethods().size() - 1)];
  double dt = c.logu(1e-3, 1e3);
  double mod = c.logu(1e-3, 1e7), arg = c.chance(1, 4) ? 0 : c.chance(1, 4) ? std::acos(-1.) / 2 : c.unit() * std::acos(-1.) / 2;
  double a = -mod * std::cos(arg) / dt, b = mod * std::sin(arg) / dt;
  if (arg == std::acos(-1.) / 2) a = 0;
  std::vector<double> A = {a, b, -b, a}, y0 = {1 - 2 * c.unit(), c.sym()};
  c.desc << m.name << " dt=" << dt << " z=" << a * dt << "+-" << b * dt << "i y0=" << show(y0, 2);
  c.ready();
  SdOp::A = &A;
  SdP s = m.make(2, dt, false);
  std::vector<double> u = y0;
  s->step(u.data());
  double n0 = std::hypot(y0[0], y0[1]), n1 = std::hypot(u[0], u[1]);
  c.check(n1 <= n0 * (1 + 1e-11), "A-stability", "the norm goes from ", n0, " to ", n1);
  if (m.Lstable && mod > 100) c.check(n1 <= n0 * 40 / mod, "L-stability", "the norm goes from ", n0, " to ", n1, " with |z|=", mod);
  if (mod < 0.5) {
    // exact solution
    double ex = std::exp(a * dt), co = std::cos(b * dt), si = std::sin(b * dt);
    double e0 = ex * (co * y0[0] + si * y0[1]), e1 = ex * (-si * y0[0] + co * y0[1]);
    double err = std::hypot(u[0] - e0, u[1] - e1), K = m.order == 1 ? 0.8 : m.order == 2 ? 8 : 4;
    if (std::string(m.name) == "CrN") K = 0.12;
    if (std::string(m.name) == "RKMethod1") K = 0.05;
    c.check(err <= n0 * (K * std::pow(mod, m.order + 1) + 1e-11), "order", "error ", err / n0, " relative, |z|=", mod, ", order ", m.order);
    c.label("accuracy");
  }
  c.label(m.name);
  c.nontrivial(n0 > 0);
}
// convergence on linear systems with a source, fixed interval
static void convergence(Case &c) {
  const SdMethod &m = sdmethods()[c.choice(sdmethods().size() - 1)];
  int n = c.size(1, 4, 20, 40), N = c.range(6, 12);
  bool affine = c.coin();
  std::vector<double> A(n * n), y0(n), phi(n, 0);
  for (auto &v : A) v = 1.5 * c.sym();
  for (auto &v : y0) v = 2 * c.sym();
  if (affine)
    for (auto &v : phi) v = c.sym();
  double T = c.uniform(0.2, 1.5) / n;
  N = N * (m.order == 1 ? 8 : m.order == 2 ? 8 : 2);
  c.desc << m.name << " T=" << T << " N=" << N << " A=" << show(A, n * n) << " phi=" << show(phi, n) << " y0=" << show(y0, n);
  c.ready();
  SdOp::A = &A;
  // exact: Taylor series of the exponential in long double
  std::vector<LD> ex(y0.begin(), y0.end()), term(n);
  for (int i = 0; i < n; i++) {
    term[i] = phi[i];
    for (int j = 0; j < n; j++) term[i] += (LD)A[i * n + j] * y0[j];
  }
  LD f = T;
  for (int k = 1; k < 60; k++) {
    for (int i = 0; i < n; i++) ex[i] += f * term[i];
    std::vector<LD> t2(n, 0);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) t2[i] += (LD)A[i * n + j] * term[j];
    term = t2;
    f *= (LD)T / (k + 1);
  }
  double e[3];
  for (int q = 0; q < 3; q++) {
    int M = N << q;
    SdP s = m.make(n, T / M, affine);
    std::vector<double> u = y0;
    for (int k = 0; k < M; k++)
      if (affine) s->step(u.data(), phi.data());
      else s->step(u.data());
    LD d = 0;
    for (int i = 0; i < n; i++) d += (u[i] - ex[i]) * (u[i] - ex[i]);
    e[q] = (double)sqrtl(d);
  }
  double floor_ = 1e-11;
  c.label(m.name);
  if (e[1] < floor_) { c.label("exact"); return; }
  double r = e[0] / e[1];
  // the rate can be higher when the leading term of the error vanishes by accident, not lower
  c.check(e[1] <= e[0] * std::pow(2., -m.order) * 1.6 + floor_ || e[2] <= e[1] * std::pow(2., -m.order) * 1.6 + floor_, "convergence", "errors ", e[0], " ", e[1], " ", e[2], " with N, 2N, 4N steps: order ", m.order, " expected, rate ", r);
  c.nontrivial();
}
int main(int argc, char **argv) {
  Property p;
  p.id = "S02";
  p.quick_cases = 60000;
  p.thorough_cases = 20000000;
  p.rule = "stab: 2x2 systems with eigenvalues anywhere in the left half plane: no growth, damping of stiff modes by L-stable methods, error of one step. convergence: random linear systems with and without source, errors with N, 2N, 4N steps; non-trivial: error above rounding errors";
  p.arms = {{"stab", 3, stab}, {"convergence", 1, convergence}};
  return run(argc, argv, p);
}
