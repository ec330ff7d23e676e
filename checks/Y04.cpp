// Y04: the starting values of SymplecticRK: extrapolation of the preceding step, no effect on the result, and fewer iterations.
#include "symplectic.hpp"
using namespace pbt;
// the last unknown is the time (y'=1): it tells at which abscissa a stage is evaluated
template <int N, class D, class T> static void start(Case &c) {
  int s = c.range(2, 16);
  const Gauss &G = Gauss::get(s);
  Poly p = gen_poly(c, N);
  for (int i = 0; i < N; i++) p.A[(N - 1) * N + i] = 0;
  p.g[N - 1] = 1;
  auto drop = [&](auto &v) { for (size_t i = 0; i < v.size();) if (v[i].i == N - 1) v.erase(v.begin() + i); else i++; };
  drop(p.q);
  drop(p.k);
  std::vector<D> u(N);
  double m = 0.1;
  for (auto &v : u) { v = 2 * c.sym(); m = std::max(m, (double)std::fabs(v)); }
  double L = p.lip(2 * m) + 0.1;
  D h = (D)(c.logu(2e-3, 0.15) / L) * (c.chance(1, 4) ? -1 : 1);
  int len = c.range(2, 8);
  struct E { bool first; double mul; bool fail; };
  std::vector<E> ev;
  c.desc << (sizeof(D) > 8 ? "long double " : "double ") << "s=" << s << " " << p.show() << " u=" << show(u, N) << " h=" << h;
  double mul = 1;
  for (int k = 0; k < len; k++) {
    E e;
    e.first = k == 0 || c.chance(1, 8);
    if (c.chance(1, 6)) mul = c.pick({0.5, 1.0, 0.75, -1.0});
    e.mul = mul;
    e.fail = c.chance(1, 8);
    ev.push_back(e);
    c.desc << " step(h*" << e.mul << (e.first ? ", first" : "") << (e.fail ? ", NaN met" : "") << ")";
  }
  c.ready();
  SyHook<D> &H = syhook<D>();
  SyP<D> S = symake<N, D>(s, 100);
  D hold = 0;
  bool okold = false;
  std::vector<T> F;             // stage derivatives of the preceding step
  std::vector<D> uold(N);
  int extr = 0;
  bool first = true, declared = true;  // the variable of the caller, written when the declaration changes
  for (int k = 0; k < len; k++) {
    D hk = h * (D)ev[k].mul;
    H = SyHook<D>();
    H.rec = true;
    bool fail = ev[k].fail;
    H.f = [&](const D *x, D *y) { p.f(x, y); if (fail) y[0] = NAN; };
    if (ev[k].first != declared) first = declared = ev[k].first;
    std::vector<D> w = u;
    bool ok = S->step(hk, u.data(), first);
    D um = 0;
    for (D v : w) um = std::max(um, std::fabs(v));
    c.check((long)H.args.size() >= s, "starting-values", "only ", H.args.size(), " evaluations");
    bool ex = !ev[k].first && okold && hold == hk;
    // abscissas that were seen
    std::vector<char> seen(s, 0);
    for (int i = 0; i < s; i++) {
      const std::vector<D> &Y = H.args[i];
      if (!ex) {
        for (int l = 0; l < N; l++) c.check(Y[l] == w[l], "plain-start", "step ", k, ev[k].first ? ": a first step" : okold ? ": a step of another size" : ": the step after a failed one", " starts from ", show(Y, N), " instead of u=", show(w, N));
        c.label(ev[k].first ? "first step" : okold ? "other size" : "after a failed step");
        continue;
      }
      // collocation polynomial of the preceding step at 1+c_j: the nearest abscissa
      LD x = ((LD)Y[N - 1] - (LD)uold[N - 1]) / (LD)hk - 1;
      int j = 0;
      for (int q = 1; q < s; q++)
        if (fabsl((LD)G.c[q] - x) < fabsl((LD)G.c[j] - x)) j = q;
      LD amp = 0;
      std::vector<T> r(uold.begin(), uold.end());
      LD fm = 0;
      for (int q = 0; q < s; q++) {
        T b = (T)G.E[j * s + q];
        amp += fabsl((LD)b);
        for (int l = 0; l < N; l++) r[l] += (T)hk * b * F[q * N + l], fm = std::max(fm, fabsl((LD)F[q * N + l]));
      }
      // rounding of the coefficients and of the derivatives is amplified
      LD lim = 40 * (LD)syeps<D>() * (fabsl((LD)um) + 1e-3L + amp * fabsl((LD)hk) * (fm + L * (um + 1e-3L)) * 1.0L);
      if (seen[j]) c.check(false, "starting-values", "step ", k, ": two starting values at the same abscissa ", (double)x);
      seen[j] = 1;
      for (int l = 0; l < N; l++) c.check(fabsl((LD)r[l] - (LD)Y[l]) <= lim, "starting-values", "step ", k, ", component ", l, ": stage ", i, " starts from ", Y[l], ", the polynomial of the preceding step gives ", (LD)r[l], " at abscissa ", (LD)(1 + G.c[j]), ", admitted ", lim);
    }
    if (ex) ++extr, c.label("extrapolated start");
    if (fail) c.check(!ok, "NaN-accepted", "convergence declared although the right-hand side is NaN");
    okold = ok;
    hold = hk;
    uold = w;
    if (!ok) { c.label("no convergence"); continue; }
    // the same step from a new object, and the reference
    std::vector<T> y(w.begin(), w.end()), out(N);
    if (!gauss_step<T>(G, N, [&](const T *x, T *r) { p.f(x, r); }, (T)hk, y.data(), F, out.data(), sizeof(D) > 8 ? (T)1e-24L : (T)1e-19L)) { c.label("reference failed"); return; }
    H = SyHook<D>();
    H.f = [&](const D *x, D *y) { p.f(x, y); };
    SyP<D> S2 = symake<N, D>(s, 100);
    bool f2 = true;
    std::vector<D> v = w;
    if (S2->step(hk, v.data(), f2)) {
      std::vector<double> a(N), mg(N);
      for (int i = 0; i < N; i++) a[i] = 1.3 * std::max(std::fabs((double)w[i]), std::fabs((double)v[i])) + 1e-3 * m;
      p.mag(a.data(), mg.data());
      double fm = *std::max_element(mg.begin(), mg.end());
      for (int i = 0; i < N; i++) {
        LD lim = (LD)syeps<D>() * (3 * std::fabs((LD)v[i]) + (20 + 2 * s) * (LD)std::fabs(hk) * (fm + L * a[i]));
        c.check(std::fabs((LD)u[i] - (LD)v[i]) <= lim, "depends-on-history", "step ", k, ", component ", i, ": ", u[i], ", with a new object ", v[i]);
      }
    }
  }
  c.nontrivial(extr >= 1);
}
// smooth orbits: the extrapolation spares iterations
static void saves(Case &c) {
  int s = c.range(2, 12);
  double w = c.uniform(0.5, 2), cub = c.unit();
  double h = c.logu(3e-3, 0.15) / (w + cub);
  std::vector<double> u0 = {c.uniform(0.3, 1), c.sym()};
  int steps = 20;
  c.desc << "oscillator w=" << w << " cubic=" << cub << " s=" << s << " h=" << h << " u=" << show(u0, 2);
  c.ready();
  long n[2] = {0, 0};
  for (int mode = 0; mode < 2; mode++) {
    syhook<double>() = SyHook<double>();
    syhook<double>().f = [&](const double *x, double *y) { y[0] = w * x[1]; y[1] = -w * x[0] - cub * x[0] * x[0] * x[0]; };
    SyP<double> S = symake<2, double>(s, 100);
    std::vector<double> u = u0;
    bool first = true;
    for (int k = 0; k < steps; k++) {
      if (!S->step(h, u.data(), first)) c.discard();
      n[mode] += S->iter();
      first = mode == 1;
    }
  }
  c.check(n[0] <= n[1] + (s <= 3 ? 4 : 0), "iterations", n[0], " iterations with the extrapolation, ", n[1], " without, in ", steps, " steps");
  c.nontrivial(n[0] < n[1]);
}
static void st(Case &c) {
  if (c.size(0, 0, 1, 1, 60)) start<9, double, LD>(c);
  else if (c.coin()) start<2, double, LD>(c);
  else start<4, double, LD>(c);
}
int main(int argc, char **argv) {
  Property p;
  p.id = "Y04";
  p.quick_cases = 25000;
  p.thorough_cases = 10000000;
  p.rule = "start: 2 to 8 steps with changes of step, restarts and failures; the starting values are seen through the calls and compared with the collocation polynomial of the preceding step; each step is compared with that of a new object; non-trivial: an extrapolated start. saves: iterations with and without extrapolation; non-trivial: some are spared";
  p.arms = {{"start", 6, st}, {"start-long", 1, start<3, LD, Q>}, {"saves", 3, saves}};
  return run(argc, argv, p);
}
