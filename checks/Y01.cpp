// Y01: each step of SymplecticRK is the step of the Gauss collocation method.
#include "symplectic.hpp"
using namespace pbt;
template <int N, class D, class T> static void go(Case &c) {
  int s = c.range(2, 16);
  const Gauss &G = Gauss::get(s);
  Poly p = gen_poly(c, N);
  std::vector<D> u(N);
  double m = 0.1;
  for (auto &v : u) { v = 2 * c.sym(); if (sizeof(D) > 8) v += (D)c.sym() * 1e-17L; m = std::max(m, (double)std::fabs(v)); }
  double L = p.lip(2 * m) + 0.1;
  D h = (D)(c.logu(1e-3, 0.3) / L) * (c.chance(1, 4) ? -1 : 1);
  if (sizeof(D) > 8) h = h / 3;
  int nst = c.range(1, 5);
  c.desc << (sizeof(D) > 8 ? "long double " : "double ") << "s=" << s << " " << p.show() << " u=" << show(u, N) << " h=" << h << " steps=" << nst;
  // changes of step
  std::vector<D> hs(nst, h);
  for (int i = 1; i < nst; i++) {
    hs[i] = hs[i - 1];
    if (c.chance(1, 3)) { hs[i] = c.coin() ? h * (D)c.uniform(0.3, 1) * (c.chance(1, 4) ? -1 : 1) : c.coin() ? hs[i - 1] * (D)c.pick({-1.0, -1.0, 0.5, -0.5}) : hs[i - 1] * (1 + (D)(c.logu(1e-15, 1e-4) * (c.coin() ? -1 : 1))); c.desc << " h" << i << "=" << hs[i]; }
  }
  // other units for the unknowns (power of 2: no rounding)
  D sc = 1;
  if (c.chance(1, 3)) { sc = std::ldexp((D)1, c.range(-120, 120)); c.desc << " unit=" << sc; c.label("scaled"); }
  // another unit of time; or a first step of length 1
  D tu = 1;
  if (c.chance(1, 4)) { tu = std::ldexp((D)1, c.range(-120, 120)); c.desc << " unit of time=" << tu; c.label("time scaled"); }
  else if (c.chance(1, 12)) {
    hs[0] = std::ldexp((D)1, std::ilogb(h)) * (c.chance(1, 4) ? -1 : 1);
    tu = 1 / std::fabs(hs[0]);
    c.desc << " h0=" << hs[0] << " unit of time=" << tu;
    c.label("step of length 1");
  }
  int redeclare = c.chance(1, 4) ? c.range(1, 5) : -1;
  if (redeclare > 0 && redeclare < nst) c.desc << " step " << redeclare << " is declared as a first one";
  c.ready();
  syhook<D>() = SyHook<D>();
  syhook<D>().f = [&](const D *x, D *y) {
    D z[N];
    for (int i = 0; i < N; i++) z[i] = x[i] / sc;
    p.f(z, y);
    for (int i = 0; i < N; i++) y[i] = y[i] * sc / tu;
  };
  SyP<D> S = symake<N, D>(s, 200);
  bool first = true;
  bool some = false;
  for (int k = 0; k < nst; k++) {
    std::vector<D> w = u;
    for (auto &v : u) v *= sc;
    if (k == redeclare) first = true;
    bool conv = S->step(hs[k] * tu, u.data(), first);
    for (auto &v : u) v /= sc;
    if (!conv) {
      c.label("no convergence");
      for (int i = 0; i < N; i++) c.check(u[i] == w[i], "failed-step", "u changes although the step failed");
      first = true;
      continue;
    }
    first = false;
    std::vector<T> y(w.begin(), w.end()), F, out(N);
    if (!gauss_step<T>(G, N, [&](const T *x, T *r) { p.f(x, r); }, (T)hs[k], y.data(), F, out.data(), sizeof(D) > 8 ? (T)1e-24L : (T)1e-19L)) { c.label("reference failed"); return; }
    std::vector<double> a(N), mg(N);
    for (int i = 0; i < N; i++) a[i] = 1.3 * std::max(std::fabs((double)w[i]), std::fabs((double)out[i]));
    for (auto &v : a) v = std::max(v, 1e-3 * m);
    p.mag(a.data(), mg.data());
    double fm = 0;
    for (double v : mg) fm = std::max(fm, v);
    D mm = 0;
    for (int i = 0; i < N; i++) mm = std::max(mm, std::fabs(u[i]));
    for (int i = 0; i < N; i++) {
      T e = (T)u[i] - out[i];
      if (e < 0) e = -e;
      // rounding of u (before and after), and of the increment
      LD lim = (LD)syeps<D>() * (1.2L * std::max(std::fabs((LD)u[i]), std::fabs((LD)w[i])) + (10 + s) * (LD)std::fabs(hs[k]) * (fm + L * (LD)mm));
      c.check((LD)e <= lim, "not-a-gauss-step", "step ", k, ", component ", i, ": ", u[i], ", the Gauss method gives ", (LD)out[i], ", difference ", (LD)e, " admitted ", lim);
    }
    some = some || w != u;
  }
  c.label("s=" + std::to_string(s));
  c.nontrivial(some);
}
// the steps of before, of any lengths, leave no trace (nothing moves in them)
template <class D> static void changes(Case &c) {
  const int N = 2;
  int s = c.range(2, 16), nch = c.coin() ? c.range(1, 10) : c.range(10, 400), wide = c.choice(3);
  Poly p = gen_poly(c, N);
  std::vector<D> u(N);
  double m = 0.1;
  for (auto &v : u) v = 2 * c.sym(), m = std::max(m, (double)std::fabs(v));
  D h = (D)(c.logu(1e-3, 0.3) / (p.lip(2 * m) + 0.1)) * (c.coin() ? -1 : 1) / 3;
  uint64_t sd = c.range(0, 1 << 30);
  c.desc << (sizeof(D) > 8 ? "long double " : "double ") << "s=" << s << " " << p.show() << " u=" << show(u, N) << " h=" << h << " after " << nch << " steps of random lengths (kind " << wide << ", seed " << sd << ")";
  c.ready();
  bool still = true;
  syhook<D>() = SyHook<D>();
  syhook<D>().f = [&](const D *x, D *y) {
    if (still) for (int i = 0; i < N; i++) y[i] = 0;
    else p.f(x, y);
  };
  SyP<D> S = symake<N, D>(s, 200), R = symake<N, D>(s, 200);
  std::vector<D> v = u, w = u;
  bool first = true;
  for (int k = 0; k < nch; k++) {
    sd = sd * 6364136223846793005ULL + 1442695040888963407ULL;
    double q = (double)(sd >> 11) / 9007199254740992.0;
    D g = wide == 0 ? h * (D)(0.1 + 3 * q) : wide == 1 ? (D)std::pow(10., 200 * (q - 0.5)) : wide == 2 ? (D)(q < 0.1 ? 0 : h * (D)(1 + q * 1e-6)) : h * (1 + (D)std::pow(10., -4 - 12 * q));
    if (wide < 3 && sd & 1024) g = -g;
    c.check(S->step(g, v.data(), first), "still", "a step that moves nothing does not converge, h=", g);
    first = false;
  }
  for (int i = 0; i < N; i++) c.check(v[i] == u[i], "still", "u moves although the right-hand side is 0");
  still = false;
  bool f1 = true, f2 = true;
  for (int k = 0; k < 3; k++) {
    bool a = S->step(h, v.data(), f1), b = R->step(h, w.data(), f2);
    f1 = f2 = false;
    c.check(a == b && v == w, "past-steps", "step ", k, " gives ", show(v, N), ", in a new object ", show(w, N));
    if (!a) return;
  }
  c.label(nch < 10 ? "few changes" : "many changes");
  c.nontrivial(v != u);
}
static void dbl(Case &c) {
  switch (c.range(1, 3)) {
    case 1: return go<1, double, LD>(c);
    case 2: return go<2, double, LD>(c);
    default: return c.size(0, 0, 1, 1, 60) ? go<10, double, LD>(c) : go<4, double, LD>(c);
  }
}
static void ldbl(Case &c) {
  if (c.coin()) go<1, LD, Q>(c);
  else go<3, LD, Q>(c);
}
// order 2s: s=2,3,4 on a nonlinear problem in long double, with the rate of convergence
static void order(Case &c) {
  int s = c.range(2, 4);
  double a = c.uniform(0.5, 2), b = c.uniform(0.5, 2);
  std::vector<LD> u0 = {1 + (LD)c.unit(), 1 + (LD)c.unit()};
  c.desc << "Lotka-Volterra a=" << a << " b=" << b << " s=" << s << " u=" << show(u0, 2);
  c.ready();
  syhook<LD>() = SyHook<LD>();
  syhook<LD>().f = [&](const LD *x, LD *y) { y[0] = x[0] * (a - x[1]); y[1] = x[1] * (x[0] - b); };
  LD Tend = 0.4L;
  std::vector<std::vector<LD>> r;
  int Ns[4] = {4, 8, 16, 64};
  for (int N : Ns) {
    SyP<LD> S = symake<2, LD>(s, 300);
    std::vector<LD> u = u0;
    bool first = true;
    for (int i = 0; i < N; i++) {
      if (!S->step(Tend / N, u.data(), first)) { c.label("no convergence"); c.discard(); }
      first = false;
    }
    r.push_back(u);
  }
  LD e[3];
  for (int k = 0; k < 3; k++) e[k] = std::fabs(r[k][0] - r[3][0]) + std::fabs(r[k][1] - r[3][1]);
  LD fl = 1e-17L;
  c.check(e[0] <= 1e-2, "order", "error ", e[0]);
  LD rate = std::pow(2.L, -2 * s);
  c.check(e[1] <= e[0] * rate * 2 + fl || e[2] <= e[1] * rate * 2 + fl, "order", "errors ", e[0], " ", e[1], " ", e[2], " with 4, 8 and 16 steps: the order is not ", 2 * s);
  c.nontrivial();
}
int main(int argc, char **argv) {
  Property p;
  p.id = "Y01";
  p.quick_cases = 120000;
  p.thorough_cases = 5000000;
  p.rule = "random polynomial problems of size 1 to 4, 2 to 16 stages, forwards or backwards, up to 5 steps with changes of the step and of its sign; each converged step is compared with the Gauss collocation step in long double (double) or quadruple precision (long double), up to rounding; non-trivial: u moves. changes: up to 400 steps of random lengths in which nothing moves, then the steps of a new object, to the last bit. order: observed rate of convergence";
  p.arms = {{"double", 6, dbl}, {"long double", 1, ldbl}, {"changes", 1, [](Case &c) { if (c.chance(1, 3)) changes<LD>(c); else changes<double>(c); }}, {"order", 1, order}};
  return run(argc, argv, p);
}
