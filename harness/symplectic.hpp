// SymplecticRK behind a simple interface, and Gauss methods of reference.
#pragma once
#include "poly.hpp"
#include <cmath>
#include <cstring>
#include <functional>
#include <iostream>
#include <memory>
#include "SymplecticRK.hpp"
#undef MAX
#undef ABS
namespace pbt {
typedef __float128 Q;
// the right-hand side of the problem being solved
template <class D> struct SyHook {
  std::function<void(const D *, D *)> f;
  long calls = 0;
  bool rec = false;
  std::vector<std::vector<D>> args;
  long throw_at = -1;                 // number of the call that throws
};
template <class D> SyHook<D> &syhook() {
  static thread_local SyHook<D> h;
  return h;
}
struct SyThrow {};
template <int N, class D> struct SyF {
  static const int n = N;
  void operator()(D *x, D *y) {
    SyHook<D> &h = syhook<D>();
    yield_here();
    ++h.calls;
    if (h.rec && h.args.size() < 20000) h.args.push_back(std::vector<D>(x, x + N));
    if (h.calls == h.throw_at) throw SyThrow();
    h.f(x, y);
  }
};
template <class D> struct SyBase {
  virtual ~SyBase() {}
  virtual bool step(D h, D *u, bool &first) = 0;
  virtual int iter() = 0;
  virtual D diff() = 0;
};
template <int N, int S, class D> struct SyRun : SyBase<D> {
  odes::SymplecticRK<SyF<N, D>, S, D> s;
  SyRun(int itermax) : s(itermax) {}
  bool step(D h, D *u, bool &first) override { return s.step(h, u, first); }
  int iter() override { return s.maxIter(); }
  D diff() override { return s.lastdiff(); }
};
template <class D> using SyP = std::unique_ptr<SyBase<D>>;
template <int N, class D> SyP<D> symake(int s, int itermax) {
  switch (s) {
#define SYCASE(S) \
  case S: return SyP<D>(new SyRun<N, S, D>(itermax));
    SYCASE(2) SYCASE(3) SYCASE(4) SYCASE(5) SYCASE(6) SYCASE(7) SYCASE(8) SYCASE(9) SYCASE(10) SYCASE(11) SYCASE(12) SYCASE(13) SYCASE(14) SYCASE(15) SYCASE(16)
  }
  return nullptr;
}
inline Q qabs(Q x) { return x < 0 ? -x : x; }
// Gauss methods: nodes on [0,1], and A, b (quadruple precision)
struct Gauss {
  int s;
  std::vector<Q> c, b, A, E;  // E: integrals from 0 to 1+c_i
  static void nodes(int s, std::vector<Q> &c, std::vector<Q> &b) {
    c.resize(s);
    b.resize(s);
    for (int k = 0; k < s; k++) {
      Q x = cosl(acosl(-1.L) * (k + 0.75L) / (s + 0.5L)), dp = 0;
      for (int it = 0; it < 12; it++) {
        Q p0 = 1, p1 = x;
        for (int j = 2; j <= s; j++) { Q p2 = ((2 * j - 1) * x * p1 - (j - 1) * p0) / j; p0 = p1; p1 = p2; }
        dp = s * (x * p1 - p0) / (x * x - 1);
        x -= p1 / dp;
      }
      c[s - 1 - k] = (1 + x) / 2;
      b[s - 1 - k] = 1 / ((1 - x * x) * dp * dp);
    }
  }
  //! j-th Lagrange polynomial of the nodes
  Q lag(int j, Q x) const {
    Q r = 1;
    for (int k = 0; k < s; k++)
      if (k != j) r *= (x - c[k]) / (c[j] - c[k]);
    return r;
  }
  //! its integral between 0 and x
  Q intlag(int j, Q x) const {
    Q r = 0;
    for (int k = 0; k < s; k++) r += b[k] * lag(j, x * c[k]);
    return r * x;
  }
  explicit Gauss(int s) : s(s) {
    nodes(s, c, b);
    A.resize(s * s);
    for (int i = 0; i < s; i++)
      for (int j = 0; j < s; j++) A[i * s + j] = intlag(j, c[i]);
    E.resize(s * s);
    for (int i = 0; i < s; i++)
      for (int j = 0; j < s; j++) E[i * s + j] = intlag(j, 1 + c[i]);
  }
  static const Gauss &get(int s) {
    static std::map<int, std::unique_ptr<Gauss>> m;
    auto &p = m[s];
    if (!p) p.reset(new Gauss(s));
    return *p;
  }
};
// Gauss step from y: stage derivatives F (s*n) and new value; false if the iterations do not converge
template <class T, class Fn> bool gauss_step(const Gauss &G, int n, Fn f, T h, const T *y, std::vector<T> &F, T *out, T eps, std::vector<T> *stages = nullptr) {
  int s = G.s;
  std::vector<T> A(s * s), Y(s * n), v(n);
  for (int i = 0; i < s * s; i++) A[i] = h * (T)G.A[i];
  F.assign(s * n, 0);
  for (int i = 0; i < s; i++)
    for (int l = 0; l < n; l++) Y[i * n + l] = y[l];
  T old = -1;
  for (int it = 0;; it++) {
    if (it == 400) return false;
    for (int i = 0; i < s; i++) f(&Y[i * n], &F[i * n]);
    T d = 0, m = 0;
    for (int i = 0; i < s; i++) {
      for (int l = 0; l < n; l++) v[l] = 0;
      for (int j = 0; j < s; j++)
        for (int l = 0; l < n; l++) v[l] += A[i * s + j] * F[j * n + l];
      for (int l = 0; l < n; l++) {
        v[l] += y[l];
        T e = v[l] - Y[i * n + l];
        if (e < 0) e = -e;
        if (!(e == e)) return false;
        T av = v[l] < 0 ? -v[l] : v[l];
        if (e > d) d = e;
        if (av > m) m = av;
        Y[i * n + l] = v[l];
      }
    }
    if (d <= eps * m) break;
    if (it > 30 && old >= 0 && d >= old && d <= 1000 * eps * m) break;
    old = d;
  }
  for (int i = 0; i < s; i++) f(&Y[i * n], &F[i * n]);
  for (int l = 0; l < n; l++) {
    T d = 0;
    for (int i = 0; i < s; i++) d += h * (T)G.b[i] * F[i * n + l];
    out[l] = y[l] + d;
  }
  if (stages) *stages = Y;
  return true;
}
template <class D> inline D syeps() { return std::numeric_limits<D>::epsilon(); }
}  // namespace pbt
