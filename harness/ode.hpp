// Random ODE problems, evaluable in double, long double and with dual numbers
// (exact Jacobians), with known solutions on demand.
#pragma once
#include "pbt.hpp"
namespace pbt {
// called in every function of the user, when integrations are interleaved
inline thread_local void (*yield_point)(void *) = nullptr;
inline thread_local void *yield_arg = nullptr;
inline void yield_here() {
  if (yield_point) yield_point(yield_arg);
}
struct Dual {
  double v, d;
  Dual(double v = 0, double d = 0) : v(v), d(d) {}
};
inline Dual operator+(Dual a, Dual b) { return Dual(a.v + b.v, a.d + b.d); }
inline Dual operator-(Dual a, Dual b) { return Dual(a.v - b.v, a.d - b.d); }
inline Dual operator-(Dual a) { return Dual(-a.v, -a.d); }
inline Dual operator*(Dual a, Dual b) { return Dual(a.v * b.v, a.v * b.d + a.d * b.v); }
inline Dual operator/(Dual a, Dual b) { return Dual(a.v / b.v, (a.d - a.v / b.v * b.d) / b.v); }
inline Dual &operator+=(Dual &a, Dual b) { return a = a + b; }
inline Dual &operator-=(Dual &a, Dual b) { return a = a - b; }
inline Dual sin(Dual a) { return Dual(std::sin(a.v), a.d * std::cos(a.v)); }
inline Dual cos(Dual a) { return Dual(std::cos(a.v), -a.d * std::sin(a.v)); }
inline double val(double v) { return v; }
inline double val(long double v) { return (double)v; }
inline double val(Dual v) { return v.v; }
inline Dual exp(Dual a) { return Dual(std::exp(a.v), a.d * std::exp(a.v)); }

// r_i = sum_j A_ij y_j - c_i y_i^3 + sum quad coef*y_a*y_b + sum sn coef*sin(y_a)  [=N(y)]
//       + (manufactured ? g_i'(t) - N_i(g(t)) : g_i(t))
struct Prob {
  int n = 0;
  struct Term { int i, a, b; double c; };
  std::vector<double> A, cub;
  std::vector<Term> quad, sn;
  struct G { double p0, p1, p2, w, ph; };
  std::vector<G> g;
  struct Imp { int i; double a, b, c; };
  std::vector<Imp> imp;   // + c when a <= t < b
  bool manuf = false, autonomous = false;
  double t0 = 0;       // time origin (the right-hand side depends on t-t0)
  double dir = 1;      // unit and direction of time: r(t,y) -> dir*r(dir*(t-t0),y); -1: mirrored problem
  template <class T> void N(const T *y, T *r) const {
    for (int i = 0; i < n; i++) {
      T s = T(0);
      for (int j = 0; j < n; j++)
        if (A[i * n + j] != 0) s += T(A[i * n + j]) * y[j];
      if (cub[i] != 0) s -= T(cub[i]) * y[i] * y[i] * y[i];
      r[i] = s;
    }
    for (auto &q : quad) r[q.i] += T(q.c) * y[q.a] * y[q.b];
    for (auto &q : sn) {
      using std::sin;
      r[q.i] += T(q.c) * sin(y[q.a]);
    }
  }
  template <class T> void G0(T t, T *r) const {
    using std::sin;
    for (int i = 0; i < n; i++) {
      r[i] = T(g[i].p0) + T(g[i].p1) * t;
      if (g[i].p2 != 0) r[i] += T(g[i].p2) * sin(T(g[i].w) * t + T(g[i].ph));
    }
  }
  template <class T> void G1(T t, T *r) const {
    using std::cos;
    for (int i = 0; i < n; i++) {
      r[i] = T(g[i].p1);
      if (g[i].p2 != 0) r[i] += T(g[i].p2 * g[i].w) * cos(T(g[i].w) * t + T(g[i].ph));
    }
  }
  template <class T> void rhs(T tt, const T *y, T *r) const {
    T t = tt - T(t0);
    t = T(dir) * t;
    N(y, r);
    if (manuf) {
      std::vector<T> a(n), b(n);
      G0(t, a.data());
      N(a.data(), b.data());
      G1(t, a.data());
      for (int i = 0; i < n; i++) r[i] = r[i] - b[i] + a[i];
    } else if (!autonomous) {
      std::vector<T> a(n);
      G0(t, a.data());
      for (int i = 0; i < n; i++) r[i] += a[i];
    }
    for (auto &q : imp)
      if (val(t) >= q.a && val(t) < q.b) r[q.i] += T(q.c);
    if (dir != 1)
      for (int i = 0; i < n; i++) r[i] = T(dir) * r[i];
  }
  // exact solution of a manufactured problem
  template <class T> void exact(T tt, T *r) const {
    T t = tt - T(t0);
    t = T(dir) * t;
    G0(t, r);
  }
  // J (row major) and df/dt
  void jac(double t, const double *y, double *J, double *ft) const {
    std::vector<Dual> yy(n), r(n);
    for (int i = 0; i < n; i++) yy[i] = Dual(y[i]);
    if (J)
      for (int j = 0; j < n; j++) {
        yy[j].d = 1;
        rhs(Dual(t), yy.data(), r.data());
        yy[j].d = 0;
        for (int i = 0; i < n; i++) J[i * n + j] = r[i].d;
      }
    if (ft) {
      rhs(Dual(t, 1), yy.data(), r.data());
      for (int i = 0; i < n; i++) ft[i] = r[i].d;
    }
  }
  std::string show() const {
    std::ostringstream o;
    o.precision(17);
    o << "{n=" << n << " A=" << pbt::show(A, n * n) << " cub=" << pbt::show(cub, n);
    for (auto &q : quad) o << " quad(" << q.i << "," << q.a << "," << q.b << ")=" << q.c;
    for (auto &q : sn) o << " sin(" << q.i << "," << q.a << ")=" << q.c;
    if (!autonomous) {
      o << (manuf ? " exact" : " source");
      for (auto &q : g) o << " (" << q.p0 << "+" << q.p1 << "*t+" << q.p2 << "*sin(" << q.w << "*t+" << q.ph << "))";
    }
    for (auto &q : imp) o << " r" << q.i << "+=" << q.c << " for t in [" << q.a << "," << q.b << ")";
    o << " t0=" << t0 << (dir == -1 ? " mirrored" : "");
    if (dir != 1 && dir != -1) o << " unit of time " << dir;
    o << "}";
    return o.str();
  }
};
// one configuration among those of a list; the large ones (more than 8 unknowns) seldom
template <class V> const typename V::value_type &pick_cf(Case &c, const V &v) {
  auto n = [](const auto &q) { if constexpr (std::is_pointer_v<std::decay_t<decltype(q)>>) return q->n; else return q.n; };
  static const int one_in = getenv("PBT_BIG") ? 1 : 30;  // (to look at the large ones only)
  std::vector<size_t> small, big;
  for (size_t i = 0; i < v.size(); i++) (n(v[i]) > 8 ? big : small).push_back(i);
  if (small.empty()) small.swap(big);
  if (!big.empty() && (one_in == 1 || c.chance(1, one_in))) return v[big[c.choice(big.size() - 1)]];
  return v[small[c.choice(small.size() - 1)]];
}
struct ProbOpt {
  int n = 2, ml = 99, mu = 99;  // structure of the Jacobian
  double maxstiff = 1e6;        // largest damping
  bool linear = false, autonomous = false, manuf = false;
  double wmax = 6;              // largest frequency of the sources
  double couple = 2;            // size of the off diagonal terms
  bool dissipative = true, quads = true;
  bool impulses = false;        // short impulses, at the beginning and later
};
inline Prob gen_prob(Case &c, const ProbOpt &o) {
  Prob p;
  p.n = o.n;
  int n = o.n;
  p.A.assign(n * n, 0);
  p.cub.assign(n, 0);
  p.autonomous = o.autonomous && !o.manuf;
  p.manuf = o.manuf;
  auto in = [&](int i, int j) { return j >= i - o.ml && j <= i + o.mu; };
  std::vector<double> lam(n);
  for (int i = 0; i < n; i++) {
    int k = c.range(0, 3);
    lam[i] = k == 0 ? 0.5 : k == 1 ? c.uniform(0.1, 3) : c.logu(0.1, o.maxstiff);
    for (int j = 0; j < n; j++)
      if (j != i && in(i, j)) p.A[i * n + j] = o.couple * c.sym();
  }
  for (int i = 0; i < n; i++) {
    double s = 0;
    if (o.dissipative)
      for (int j = 0; j < n; j++)
        if (j != i) s += 0.5 * std::fabs(p.A[i * n + j] + p.A[j * n + i]);
    p.A[i * n + i] = -(lam[i] + s);
  }
  if (!o.linear) {
    for (int i = 0; i < n; i++)
      if (c.coin()) p.cub[i] = c.uniform(0, 2);
    int q = o.quads ? c.range(0, 3) : 0;
    for (int k = 0; k < q; k++) {
      int i = c.range(0, n - 1), a = c.range(0, n - 1), b = c.range(0, n - 1);
      double v = 0.3 * c.sym();
      if (in(i, a) && in(i, b)) p.quad.push_back({i, a, b, v});
    }
    q = c.range(0, 2);
    for (int k = 0; k < q; k++) {
      int i = c.range(0, n - 1), a = c.range(0, n - 1);
      double v = 0.5 * c.sym();
      if (in(i, a)) p.sn.push_back({i, a, 0, v});
    }
  }
  p.g.assign(n, {0, 0, 0, 0, 0});
  if (!p.autonomous)
    for (int i = 0; i < n; i++) {
      p.g[i].p0 = c.sym() * 2;
      p.g[i].p1 = c.coin() ? c.sym() : 0;
      if (c.coin()) {
        p.g[i].p2 = 0.2 + c.unit();
        p.g[i].w = c.uniform(0.5, o.wmax);
        p.g[i].ph = c.uniform(0, 3);
      }
    }
  if (o.impulses && !p.autonomous && c.chance(1, 3)) {
    int k = c.range(1, 2);
    for (int q = 0; q < k; q++) {
      double a = c.coin() ? c.logu(1e-3, 5) : -1;
      p.imp.push_back({c.range(0, n - 1), a, std::max(a, 0.) + c.logu(1e-11, 1e-1), c.logu(1e-2, 1e6) * (c.coin() ? -1 : 1)});
    }
  }
  return p;
}
// solve the dense system M x = b in long double (partial pivoting); M is destroyed
inline bool solveLD(std::vector<LD> &M, std::vector<LD> &b, int n) {
  for (int k = 0; k < n; k++) {
    int p = k;
    for (int i = k + 1; i < n; i++)
      if (std::fabs(M[i * n + k]) > std::fabs(M[p * n + k])) p = i;
    if (M[p * n + k] == 0) return false;
    if (p != k) {
      for (int j = 0; j < n; j++) std::swap(M[p * n + j], M[k * n + j]);
      std::swap(b[p], b[k]);
    }
    for (int i = k + 1; i < n; i++) {
      LD f = M[i * n + k] / M[k * n + k];
      if (f == 0) continue;
      for (int j = k; j < n; j++) M[i * n + j] -= f * M[k * n + j];
      b[i] -= f * b[k];
    }
  }
  for (int i = n - 1; i >= 0; i--) {
    for (int j = i + 1; j < n; j++) b[i] -= M[i * n + j] * b[j];
    b[i] /= M[i * n + i];
  }
  return true;
}
// One step of an implicit Runge-Kutta method (A,c; s stages) in long double.
// Returns the stage increments z (s*n), with y_i = y + z_i; false if Newton does not converge.
inline bool irkLD(const Prob &p, LD x, LD h, const std::vector<LD> &y, const std::vector<LD> &A, const std::vector<LD> &cc, int s,
                  std::vector<LD> &z) {
  int n = p.n, N = s * n;
  z.assign(N, 0);
  std::vector<LD> f(N), yy(n), M(N * N), b(N);
  std::vector<double> J(n * n), yd(n);
  for (int it = 0; it < 60; it++) {
    LD nrm = 0, sc = 0;
    for (int i = 0; i < s; i++) {
      for (int k = 0; k < n; k++) yy[k] = y[k] + z[i * n + k];
      p.rhs<LD>(x + cc[i] * h, yy.data(), &f[i * n]);
    }
    for (int i = 0; i < s; i++)
      for (int k = 0; k < n; k++) {
        LD r = -z[i * n + k];
        for (int j = 0; j < s; j++) r += h * A[i * s + j] * f[j * n + k];
        b[i * n + k] = r;
      }
    // M = I - h A x J(stage)
    for (int j = 0; j < s; j++) {
      for (int k = 0; k < n; k++) yd[k] = (double)(y[k] + z[j * n + k]);
      p.jac((double)(x + cc[j] * h), yd.data(), J.data(), nullptr);
      for (int i = 0; i < s; i++)
        for (int k = 0; k < n; k++)
          for (int l = 0; l < n; l++) M[(i * n + k) * N + j * n + l] = (i == j && k == l ? 1.L : 0.L) - h * A[i * s + j] * (LD)J[k * n + l];
    }
    if (!solveLD(M, b, N)) return false;
    for (int i = 0; i < N; i++) {
      z[i] += b[i];
      nrm = std::max(nrm, std::fabs(b[i]));
      sc = std::max(sc, std::fabs(z[i]));
      if (!std::isfinite((double)z[i])) return false;
    }
    for (int k = 0; k < n; k++) sc = std::max(sc, std::fabs(y[k]));
    if (nrm <= 1e-17L * sc || nrm == 0) return true;
    if (it > 20 && nrm <= 1e-15L * sc) return true;
  }
  return false;
}
// reference integration with RK Gauss? simple: composite of many irkLD steps is left to the caller
}  // namespace pbt
