// Polynomial right-hand sides.
#pragma once
#include "ode.hpp"
namespace pbt {
// y' = A y + quadratic and cubic terms
struct Poly {
  int n = 0;
  struct T2 { int i, a, b; double c; };
  struct T3 { int i, a, b, d; double c; };
  std::vector<double> A, g;
  std::vector<T2> q;
  std::vector<T3> k;
  template <class T> void f(const T *y, T *r) const {
    for (int i = 0; i < n; i++) {
      T s = g[i];
      for (int j = 0; j < n; j++) s += T(A[i * n + j]) * y[j];
      r[i] = s;
    }
    for (auto &t : q) r[t.i] += T(t.c) * y[t.a] * y[t.b];
    for (auto &t : k) r[t.i] += T(t.c) * y[t.a] * y[t.b] * y[t.d];
  }
  // sum of the absolute values of the terms, when |y_j| <= y[j]
  void mag(const double *y, double *r) const {
    for (int i = 0; i < n; i++) {
      double s = std::fabs(g[i]);
      for (int j = 0; j < n; j++) s += std::fabs(A[i * n + j]) * y[j];
      r[i] = s;
    }
    for (auto &t : q) r[t.i] += std::fabs(t.c) * y[t.a] * y[t.b];
    for (auto &t : k) r[t.i] += std::fabs(t.c) * y[t.a] * y[t.b] * y[t.d];
  }
  // a Lipschitz constant (maximum norm) when |y_j| <= R
  double lip(double R) const {
    std::vector<double> s(n, 0);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) s[i] += std::fabs(A[i * n + j]);
    for (auto &t : q) s[t.i] += 2 * R * std::fabs(t.c);
    for (auto &t : k) s[t.i] += 3 * R * R * std::fabs(t.c);
    return *std::max_element(s.begin(), s.end());
  }
  std::string show() const {
    std::ostringstream o;
    o.precision(17);
    o << "{n=" << n << " A=" << pbt::show(A, n * n) << " g=" << pbt::show(g, n);
    for (auto &t : q) o << " r" << t.i << "+=" << t.c << "*y" << t.a << "*y" << t.b;
    for (auto &t : k) o << " r" << t.i << "+=" << t.c << "*y" << t.a << "*y" << t.b << "*y" << t.d;
    o << "}";
    return o.str();
  }
};
inline Poly gen_poly(Case &c, int n, int deg = 3) {
  Poly p;
  p.n = n;
  p.A.assign(n * n, 0);
  p.g.assign(n, 0);
  for (auto &v : p.A)
    if (c.coin()) v = 2 * c.sym();
  for (auto &v : p.g)
    if (c.coin()) v = c.sym();
  int m = deg >= 2 ? c.range(0, 3) : 0;
  for (int i = 0; i < m; i++) { int a = c.range(0, n - 1), b = c.range(0, n - 1), d = c.range(0, n - 1); p.q.push_back({a, b, d, c.sym()}); }
  m = deg >= 3 ? c.range(0, 2) : 0;
  for (int i = 0; i < m; i++) { int a = c.range(0, n - 1), b = c.range(0, n - 1), d = c.range(0, n - 1), e = c.range(0, n - 1); p.k.push_back({a, b, d, e, c.sym()}); }
  return p;
}
}  // namespace pbt
