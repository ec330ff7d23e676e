// Y03: SymplecticRK reports convergence truly, a failed step has no effect, and contractive steps converge.
#include "symplectic.hpp"
#include "OdesException.hpp"
using namespace pbt;
static double LIPR;
template <class D> static bool tight(const std::vector<D> &a, const std::vector<D> &b, D h, double fm, int s, double &worst) {
  worst = 0;
  D m = 0;
  for (auto v : a) m = std::max(m, std::fabs(v));
  for (size_t i = 0; i < a.size(); i++) {
    LD lim = (LD)syeps<D>() * (3 * std::max(std::fabs((LD)a[i]), std::fabs((LD)b[i])) + (20 + 2 * s) * (LD)std::fabs(h) * (fm + LIPR * (LD)m));
    worst = std::max(worst, (double)(std::fabs((LD)a[i] - (LD)b[i]) / (lim + 1e-300L)));
  }
  return worst <= 1;
}
template <int N, class D> static void history(Case &c) {
  int s = c.range(2, 16), itermax = c.pick({100, 30, 8, 3, 1});
  Poly p = gen_poly(c, N);
  std::vector<D> u(N);
  double m = 0.1;
  for (auto &v : u) { v = 2 * c.sym(); m = std::max(m, (double)std::fabs(v)); }
  double L = LIPR = p.lip(2 * m) + 0.1;
  D h = (D)(c.logu(1e-3, 0.2) / L);
  int len = c.range(2, 10);
  struct E { int kind; long at; double mul; };
  std::vector<E> ev;
  static const char *nm[] = {"step", "NaN from call", "exception at call", "large step", "NaN at call"};
  c.desc << (sizeof(D) > 8 ? "long double " : "double ") << "s=" << s << " itermax=" << itermax << " " << p.show() << " u=" << show(u, N) << " h=" << h;
  for (int i = 0; i < len; i++) {
    E e;
    e.kind = c.chance(1, 2) ? c.range(1, 4) : 0;
    e.at = c.range(1, 3 * s);
    e.mul = e.kind == 3 ? c.logu(100, 1e5) : c.chance(1, 4) ? c.uniform(0.3, 1) : 1;
    ev.push_back(e);
    c.desc << " " << nm[e.kind];
    if (e.kind && e.kind != 3) c.desc << " " << e.at;
    if (e.mul != 1) c.desc << " h*" << e.mul;
  }
  c.ready();
  SyHook<D> &H = syhook<D>();
  H = SyHook<D>();
  SyP<D> S = symake<N, D>(s, itermax);
  bool first = true, failed = false, prevfailed = false;
  int good = 0, after = 0;
  for (int k = 0; k < len; k++) {
    const E &e = ev[k];
    D hk = e.mul == 1 ? h : (D)(h * e.mul);
    auto plain = [&](const D *x, D *y) { p.f(x, y); };
    H = SyHook<D>();
    H.f = plain;
    if (e.kind == 1 || e.kind == 4)
      H.f = [&](const D *x, D *y) {
        p.f(x, y);
        if (e.kind == 1 ? H.calls >= e.at : H.calls == e.at) y[N - 1] = NAN;
      };
    if (e.kind == 2) H.throw_at = e.at;
    std::vector<D> w = u;
    bool ok = false, thrown = false;
    try { ok = S->step(hk, u.data(), first); } catch (SyThrow &) { thrown = true; }
    if (thrown) c.label("exception");
    else {
      c.check(S->iter() >= 1 && S->iter() <= itermax, "iterations", "maxIter()=", S->iter(), ", limit ", itermax);
      c.check(H.calls == (long)S->iter() * s, "iteration-count", "maxIter()=", S->iter(), " with ", s, " stages; the right-hand side was called ", H.calls, " times");
      c.check(ok || S->iter() == itermax, "gave-up", "no convergence declared after ", S->iter(), " iterations, limit ", itermax);
      // (squared) difference of the two last iterates
      c.check(!ok || (S->diff() >= 0 && S->diff() <= (D)1e-300L), "false-convergence", "convergence declared, lastdiff()=", S->diff());
    }
    if (!ok) {
      c.label(std::string("failed: ") + nm[e.kind]);
      for (int i = 0; i < N; i++) c.check(!memcmp(&u[i], &w[i], 10 < sizeof(D) ? 10 : sizeof(D)), "failed-step-changes-u", "step failed (", nm[e.kind], "): component ", i, " goes from ", w[i], " to ", u[i]);
      if (prevfailed && e.kind == 0 && itermax > 2) {  // does a new object do better?
        H = SyHook<D>();
        H.f = plain;
        std::vector<D> v = w;
        SyP<D> F = symake<N, D>(s, itermax - 2);  // (the history of the stopping test may cost an iteration)
        bool f1 = true;
        c.check(!F->step(hk, v.data(), f1), "failure-persists", "step ", k, " after a failed one does not converge; with a new object it does");
        c.label("failed again");
      }
      prevfailed = failed = true;
      continue;  // the caller keeps firstStep as it was
    }
    c.check(e.kind != 1 || H.calls < e.at, "NaN-accepted", "convergence declared although the right-hand side gives NaN since call ", e.at, " of ", H.calls);
    for (int i = 0; i < N; i++) c.check(std::isfinite(u[i]), "not-finite", "component ", i, ": ", u[i]);
    first = prevfailed = false;
    if (e.kind == 3) { c.label("large step converged"); }
    // same step by a new object
    {
      H = SyHook<D>();
      H.f = plain;
      std::vector<D> v = w;
      SyP<D> F = symake<N, D>(s, 300);
      bool f1 = true;
      if (F->step(hk, v.data(), f1) && std::fabs(hk) * L <= 0.3) {
        std::vector<double> a(N), mg(N);
        for (int i = 0; i < N; i++) a[i] = 1.3 * std::max(std::fabs((double)w[i]), std::fabs((double)v[i])) + 1e-3 * m;
        p.mag(a.data(), mg.data());
        double q;
        bool t = tight(u, v, hk, *std::max_element(mg.begin(), mg.end()), s, q);
        c.check(t, "after-failure", "step ", k, failed ? " after a failed one" : "", ": u=", show(u, N), ", with a new object ", show(v, N), ", distance ", q, " times rounding");
        ++good;
        if (failed) ++after;
        // the limit on the iterations is the number needed, or one less
        int q0 = F->iter();
        std::vector<D> z = w;
        bool f2 = true;
        SyP<D> E = symake<N, D>(s, q0);
        bool r = E->step(hk, z.data(), f2);
        c.check(r && z == v, "limit-reached", q0, " iterations are needed and allowed: ", r ? "another result" : "failure reported");
        if (q0 > 1) {
          z = w;
          f2 = true;
          SyP<D> E1 = symake<N, D>(s, q0 - 1);
          c.check(!E1->step(hk, z.data(), f2), "limit-exceeded", q0, " iterations are needed, ", q0 - 1, " allowed, success reported");
        }
      }
    }
  }
  if (after) c.label("step compared after a failure");
  c.nontrivial(good >= 1);
}
// contractive steps converge (a cycle between neighbouring numbers is not excluded, but rare)
template <class D> static void converge(Case &c) {
  const int M = 15;
  int ok = 0;
  std::ostringstream bad;
  int s = c.range(2, 16);
  double th = c.logu(1e-4, 0.05);
  std::vector<Poly> ps;
  std::vector<std::vector<D>> us;
  c.desc << M << " problems, s=" << s << " h*L=" << th;
  for (int k = 0; k < M; k++) {
    ps.push_back(gen_poly(c, 3));
    us.push_back(std::vector<D>(3));
    for (auto &v : us.back()) v = 2 * c.sym();
    c.desc << "\n " << ps[k].show() << " u=" << show(us[k], 3);
  }
  c.ready();
  for (int k = 0; k < M; k++) {
    double m = 0.1;
    for (auto v : us[k]) m = std::max(m, (double)std::fabs(v));
    D h = th / (ps[k].lip(2 * m) + 0.1);
    syhook<D>() = SyHook<D>();
    syhook<D>().f = [&](const D *x, D *y) { ps[k].f(x, y); };
    SyP<D> S = symake<3, D>(s, 60);
    bool first = true;
    ok += S->step(h, us[k].data(), first);
  }
  c.check(ok >= M - 4, "no-convergence", "with h*L=", th, ", ", M - ok, " steps out of ", M, " do not converge");
  c.nontrivial();
}
template <int S> static bool refused() {
  try { SyRun<2, S, double> r(10); } catch (odes::OdesException &) { return true; }
  return false;
}
template <int S> static bool refusedl() {
  try { SyRun<2, S, LD> r(10); } catch (odes::OdesException &) { return true; }
  return false;
}
static void range(Case &c) {
  int k = c.range(0, 3);
  c.desc << "number of stages out of the range, case " << k;
  c.ready();
  bool r = k == 0 ? refused<1>() : k == 1 ? refused<17>() : k == 2 ? refusedl<1>() : refusedl<20>();
  c.check(r, "stages-range", "no OdesException for a number of stages out of [2,16]");
}
static void h1(Case &c) {
  if (c.size(0, 0, 1, 1, 60)) history<11, double>(c);
  else if (c.coin()) history<3, double>(c);
  else history<1, double>(c);
}
int main(int argc, char **argv) {
  Property p;
  p.id = "Y03";
  p.quick_cases = 50000;
  p.thorough_cases = 20000000;
  p.rule = "history: 2 to 10 steps of one object, some of which meet NaN, an exception, a diverging step, a small limit on iterations; checked: reports, no effect of a failed step, agreement with a new object; non-trivial: a step was compared. converge: 15 contractive problems. range: number of stages out of range";
  p.arms = {{"history", 20, h1}, {"history-long", 4, history<2, LD>}, {"converge", 4, converge<double>}, {"converge-long", 1, converge<LD>}, {"range", 1, range}};
  return run(argc, argv, p);
}
