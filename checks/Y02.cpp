// Y02: SymplecticRK conserves quadratic invariants and the symplectic form, and is reversible.
#include "symplectic.hpp"
using namespace pbt;
static const int DRIFT = 4;
// length of step k: constant, changed at each step, or every 5 steps (exact multiples: the way back is exact)
template <class D> static D lenk(D h, int vary, int k) { return vary == 1 ? (k % 2 ? h : h * (D)0.875) : vary == 2 ? ((k / 5) % 3 ? h : h * (D)0.75) : h; }
// integrates and follows the invariant I(u)=u^T B u (B symmetric, n*n)
template <int N, class D, class Fn> static void follow(Case &c, int s, Fn f, std::vector<D> u, D h, int steps, const std::vector<D> &B, double L, int newobj, int vary) {
  syhook<D>() = SyHook<D>();
  D fmax = 0, umax = 0;
  syhook<D>().f = [&](const D *x, D *y) {
    f(x, y);
    for (int i = 0; i < N; i++) fmax = std::max(fmax, std::fabs(y[i])), umax = std::max(umax, std::fabs(x[i]));
  };
  auto inv = [&](const std::vector<D> &v) {
    D r = 0;
    for (int i = 0; i < N; i++)
      for (int j = 0; j < N; j++) r += B[i * N + j] * v[i] * v[j];
    return r;
  };
  D nb = 0;
  for (D v : B) nb += std::fabs(v);
  D I0 = inv(u);
  std::vector<D> u0 = u;
  SyP<D> S = symake<N, D>(s, 100);
  bool first = true;
  int done = 0;
  std::vector<D> traj;
  for (int k = 0; k < steps; k++) {
    if (newobj && k % newobj == newobj - 1) S = symake<N, D>(s, 100), first = true;
    std::vector<D> w = u;
    if (!S->step(lenk(h, vary, k), u.data(), first)) { c.label("no convergence"); break; }
    first = false;
    ++done;
    D I1 = inv(u);
    // with compensated summation, u is rounded once only; each step adds an error on the increment
    D ur = umax + std::fabs(h) * fmax;
    D lim = syeps<D>() * nb * ur * (8 * ur + (newobj ? done / newobj : 0) * 2 * ur + done * (2 * s + 20) * std::fabs(h) * (fmax + (D)L * ur));
    c.check(std::fabs(I1 - I0) <= lim, "invariant", "quadratic invariant: ", I0, " becomes ", I1, " in ", done, " steps, difference ", I1 - I0, " (rounding: at most ", lim, ")");
  }
  if (done) {
    // and back
    SyP<D> R = symake<N, D>(s, 100);
    bool fr = true;
    bool ok = true;
    int m = std::min(done, 20);
    // forward again (fewer steps), then backwards
    std::vector<D> v = u0;
    SyP<D> S2 = symake<N, D>(s, 100);
    bool f2 = true;
    for (int k = 0; k < m && ok; k++) { ok = S2->step(lenk(h, vary, k), v.data(), f2); f2 = false; }
    for (int k = m - 1; k >= 0 && ok; k--) { ok = R->step(-lenk(h, vary, k), v.data(), fr); fr = false; }
    if (ok) {
      D ur = umax + std::fabs(h) * fmax, amp = std::exp((D)(2 * m) * std::fabs(h) * (D)L);
      for (int i = 0; i < N; i++) c.check(std::fabs(v[i] - u0[i]) <= syeps<D>() * amp * (4 * ur + m * (2 * s + 30) * std::fabs(h) * (fmax + (D)L * ur)), "reversibility", "component ", i, ": ", u0[i], " becomes ", v[i], " after ", m, " steps of h and ", m, " steps of -h");
    } else c.label("no convergence (back)");
  }
  c.nontrivial(done >= 5 && u != u0);
}
template <int N, class D> static void skew(Case &c) {
  int s = c.range(2, 16);
  Poly p;
  p.n = N;
  p.A.assign(N * N, 0);
  p.g.assign(N, 0);
  std::vector<D> B(N * N, 0);
  std::vector<double> d(N);
  for (int i = 0; i < N; i++) { d[i] = c.pick({1.0, 1.0, 2.0, 0.5, 4.0}); B[i * N + i] = d[i]; }
  int m = c.range(1, N > 6 ? 25 : 5);
  for (int k = 0; k < m; k++) {
    int i = c.range(0, N - 1), j = (i + c.range(1, N - 1)) % N, deg = c.range(0, 2), a = c.range(0, N - 1), b = c.range(0, N - 1);
    double v = c.sym();
    if (deg == 0) { p.A[i * N + j] += v / d[i]; p.A[j * N + i] -= v / d[j]; }
    if (deg == 1) { p.q.push_back({i, j, a, v / d[i]}); p.q.push_back({j, i, a, -v / d[j]}); }
    if (deg == 2) { p.k.push_back({i, j, a, b, v / d[i]}); p.k.push_back({j, i, a, b, -v / d[j]}); }
  }
  std::vector<D> u(N);
  double r = 0.1;
  for (auto &v : u) v = 2 * c.sym(), r += d[&v - &u[0]] * std::fabs((double)v);
  // A is rounded to double: make it exact again for long double
  double L = p.lip(r) + 0.05;
  D h = (D)(c.logu(3e-3, 0.25) / L) * (c.chance(1, 4) ? -1 : 1);
  int steps = c.pick({20, 5, 100, 400}), nobj = c.chance(1, 4) ? c.range(2, 10) : 0, vary = c.pick({0, 0, 1, 2});
  if (sizeof(D) > 8) steps = std::min(steps, 100);
  c.desc << (sizeof(D) > 8 ? "long double " : "double ") << "s=" << s << " " << p.show() << " invariant: weights " << show(d, N) << " u=" << show(u, N) << " h=" << h << " steps=" << steps << " newobj=" << nobj << (vary == 1 ? " alternating steps h*7/8, h" : vary == 2 ? " steps h*3/4, h" : "");
  c.ready();
  c.label("skew");
  follow<N, D>(c, s, [&](const D *x, D *y) { p.f(x, y); }, u, h, steps, B, L, nobj, vary);
}
// Hamiltonian with one degree of freedom, and two tangent vectors: dq1 dp2 - dp1 dq2 is conserved
template <class D> static void hamil(Case &c) {
  int s = c.range(2, 16);
  struct M { int a, b; double c; };
  std::vector<M> H = {{0, 2, 0.5}};
  int m = c.range(1, 5);
  for (int k = 0; k < m; k++) { int a = c.range(0, 4), b = c.range(0, 4 - a); H.push_back({a, b, c.sym()}); }
  std::vector<D> u(6);
  for (int i = 0; i < 6; i++) u[i] = i < 2 ? c.sym() : 2 * c.sym();
  D h = (D)c.logu(3e-3, 0.1);
  int steps = c.pick({10, 5, 30}), vary = c.pick({0, 0, 1, 2});
  c.desc << (sizeof(D) > 8 ? "long double " : "double ") << "H=";
  double L = 0.1;
  for (auto &t : H) c.desc << "+" << t.c << "*q^" << t.a << "*p^" << t.b, L += std::fabs(t.c) * (t.a + t.b) * (t.a + t.b) * 2;
  c.desc << " s=" << s << " u=" << show(u, 6) << " h=" << h << " steps=" << steps << (vary ? " varying" : "");
  c.ready();
  auto f = [&](const D *x, D *y) {
    D hq = 0, hp = 0, qq = 0, qp = 0, pp = 0;
    auto pw = [](D v, int k) { D r = 1; for (int i = 0; i < k; i++) r *= v; return r; };
    for (auto &t : H) {
      if (t.a) hq += t.c * t.a * pw(x[0], t.a - 1) * pw(x[1], t.b);
      if (t.b) hp += t.c * t.b * pw(x[0], t.a) * pw(x[1], t.b - 1);
      if (t.a > 1) qq += t.c * t.a * (t.a - 1) * pw(x[0], t.a - 2) * pw(x[1], t.b);
      if (t.b > 1) pp += t.c * t.b * (t.b - 1) * pw(x[0], t.a) * pw(x[1], t.b - 2);
      if (t.a && t.b) qp += t.c * t.a * t.b * pw(x[0], t.a - 1) * pw(x[1], t.b - 1);
    }
    y[0] = hp;
    y[1] = -hq;
    for (int k = 2; k < 6; k += 2) {
      y[k] = qp * x[k] + pp * x[k + 1];
      y[k + 1] = -qq * x[k] - qp * x[k + 1];
    }
  };
  std::vector<D> B(36, 0);
  B[2 * 6 + 5] = B[5 * 6 + 2] = 0.5;
  B[3 * 6 + 4] = B[4 * 6 + 3] = -0.5;
  c.label("tangent map");
  // the Jacobian cannot be bounded beforehand: it is along the solution
  double R = 0.3;
  for (D v : u) R = std::max(R, (double)std::fabs(v));
  if (L * R * R * R * h > 0.5) { c.label("step too large"); }
  follow<6, D>(c, s, f, u, h, steps, B, L * std::max(1., R * R * R), 0, vary);
}
static void a1(Case &c) {
  if (c.size(0, 0, 1, 1, 60)) return skew<10, double>(c);
  switch (c.range(0, 2)) {
    case 0: return skew<2, double>(c);
    case 1: return skew<3, double>(c);
    default: return skew<4, double>(c);
  }
}
// long runs with small steps: rounding errors are those of the increments, not those of u
template <class D> static void drift(Case &c) {
  int s = c.range(2, 16);
  double w = c.uniform(0.5, 2), cub = c.coin() ? c.unit() : 0;
  D h = (D)c.logu(5e-4, 4e-3);
  int steps = 3000, vary = c.pick({0, 0, 1, 2});
  c.desc << (sizeof(D) > 8 ? "long double " : "double ") << "rotation w=" << w << " cubic=" << cub << " s=" << s << " h=" << h << " steps=" << steps << (vary ? vary == 1 ? " changed at each step" : " changed every 5 steps" : "") << ", 7 initial values";
  std::vector<D> d;
  std::vector<std::vector<D>> us(7, std::vector<D>(2));
  for (auto &u : us)
    for (auto &v : u) v = 1 + (D)c.unit() / 3;
  c.ready();
  syhook<D>() = SyHook<D>();
  syhook<D>().f = [&](const D *x, D *y) { D k = w + cub * (x[0] * x[0]); y[0] = k * x[1]; y[1] = -k * x[0]; };
  for (auto &u : us) {
    D I0 = u[0] * u[0] + u[1] * u[1];
    SyP<D> S = symake<2, D>(s, 100);
    bool first = true;
    int done = 0;
    for (; done < steps; done++) {
      if (!S->step(lenk(h, vary, done), u.data(), first)) break;
      first = false;
    }
    if (done < steps) { c.label("no convergence"); continue; }
    d.push_back(std::fabs(u[0] * u[0] + u[1] * u[1] - I0) / (I0 * syeps<D>()));
  }
  if (d.size() < 5) c.discard();
  std::sort(d.begin(), d.end());
  char b[40];
  if (getenv("Y_STAT")) { snprintf(b, sizeof b, "drift %.0Lf", (LD)d[d.size() / 2]); c.label(b); }
  c.check(d[d.size() / 2] <= DRIFT, "drift", "the quadratic invariant drifts by ", d[d.size() / 2], " (median, unit: rounding of the invariant) in ", steps, " steps");
  c.nontrivial();
}
int main(int argc, char **argv) {
  Property p;
  p.id = "Y02";
  p.quick_cases = 30000;
  p.thorough_cases = 10000000;
  p.rule = "problems of size 2 to 4 with a (weighted) quadratic invariant, linear to cubic; Hamiltonian systems with two tangent vectors, whose symplectic product is an invariant; up to 400 steps of 2 to 16 stages, then the way back; bounds are those of rounding. drift: 3000 small steps, median of 7 runs. Non-trivial: 5 steps or more, and u moves";
  p.arms = {{"skew", 12, a1}, {"tangent", 9, hamil<double>}, {"tangent-long", 2, hamil<LD>}, {"skew-long", 2, skew<3, LD>}, {"drift", 1, drift<double>}};
  return run(argc, argv, p);
}
