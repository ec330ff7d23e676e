// Execution of a scenario. SCEN_PART 1: Radau5cc, Rodascc, Rock4; 2: Rock4L, Sdirkl, SymplecticRK
// (Rock4.hpp and Rock4L.hpp cannot be included together).
#pragma once
#include "scen.hpp"
#if SCEN_PART == 1
#include "radau.hpp"
#define Tol RTol
#define gen_tol rgen_tol
#include "rodas.hpp"
#undef Tol
#undef gen_tol
#include "rock4.hpp"
#else
#include "rock4l.hpp"
#include "sdirkl.hpp"
#include "symplectic.hpp"
#endif
#include <malloc.h>
#include <new>
namespace scen {
// storage for one object, filled with the pattern
struct Store {
  unsigned char *raw;
  Store(size_t size, int pattern) {
    raw = (unsigned char *)aligned_alloc(64, (size + 63) / 64 * 64);
    if (pattern >= 0) memset(raw, pattern, size);
  }
  ~Store() { free(raw); }
};
template <class T> struct Held {
  Store s;
  T *o = nullptr;
  template <class... A> Held(int pattern, A &&... a) : s(sizeof(T), pattern) { o = new (s.raw) T(std::forward<A>(a)...); }
  ~Held() { o->~T(); }
  T *operator->() { return o; }
  T &operator*() { return *o; }
};
// aligned as the library asks
struct Vec {
  int n;
  double *p;
  Vec(const std::vector<double> &v) : n(v.size()), p(nullptr) {
    // (no room behind: the sanitizer sees any access beyond the end)
    if (posix_memalign((void **)&p, 64, v.size() * 8)) abort();
    std::copy(v.begin(), v.end(), p); }
  ~Vec() { free(p); }
  Vec(const Vec &) = delete;
  double *data() { return p; }
  double *begin() { return p; }
  double *end() { return p + n; }
};
__attribute__((noinline)) inline void fill_stack(int pattern) {
  if (pattern < 0) return;
  volatile unsigned char b[60000];
  memset((void *)b, pattern, sizeof b);
  asm volatile("" ::"r"(b) : "memory");
}
#if SCEN_PART == 1
inline void fault_hook(const Prob &p, long throw_at) {
  new_hook(&p);
  hook().maxf = 20000;
  if (throw_at > 0) {
    const Prob *pp = &p;
    hook().f = [pp, throw_at](double t, const double *y, double *r) {
      if (hook().nf == throw_at) throw Thrown();
      pp->rhs(t, y, r);
    };
  }
}
template <int N, int NSUB, int NSUP, bool HESS, bool NUM> void radau(const In &in, Out &o) {
  typedef RFn<N, NSUB, NSUP, HESS, NUM> Fn;
  Vec a(in.atol), r(in.rtol);
  fill_stack(in.pattern);
  Held<odes::Radau5cc<Fn>> q(in.pattern, in.same, a.data(), r.data());
  Vec y(in.y0), a2(in.atol), r2(in.rtol);
  for (double &v : a2) v *= 0.5;
  for (double &v : r2) v *= 0.3;
  bool fine = false;
  double last = 0;
  for (auto &k : in.runs) {
    double x = k.x0, xend = k.xend;
    if (k.cont && fine) xend = last + (k.xend - k.x0), x = last;
    else std::copy(in.y0.begin(), in.y0.end(), y.begin());
    bool empty = x == xend;
    fault_hook(in.p, k.throw_at);
    q->performOnlyOneStep(k.opt & 1);
    q->setGustafssonTest(!(k.opt & 2));
    q->setMaxIterationsNewton(k.opt & 4 ? 4 : 7);
    q->setNmax(k.opt & 8 ? 6 : 300);
    q->setRecomputeJacobianTreshold(k.opt & 16 ? 0.3 : 0.001);
    if (k.opt & 32) q->setSafe(0.7);
    if (k.opt & 64) q->setFacrFacl(0.3, 6);
    if (k.opt & 128) q->setFnewt(0.003);
    if (k.opt & 256) {
      std::swap(a.p, a2.p);
      std::swap(r.p, r2.p);
      q->setTestPolicy(in.same, a.data(), r.data());
    }
    int rc = 0;
    fill_stack(in.pattern);
    try { (*q)(k.h, x, xend, y.data()); } catch (odes::OdesException &) { rc = 1; } catch (Budget &) { rc = 2; } catch (Thrown &) { rc = 3; }
    o.put(rc);
    o.put(x);
    fine = rc == 0;
    last = x;
    for (double v : y) {
      o.put(v);
      if (!(std::fabs(v) < 1e3)) fine = false;
    }
    if (!in.digits) {
      o.put(q->getNstep());
      o.put(q->getNaccpt());
      o.put(q->getNrejct());
      o.put(q->getNJac());
      o.put(q->getNdec());
      o.put(q->getNfoncCalled());
      o.put(q->getNewt());
      if (rc == 0 && !empty) {
        o.put(q->getLastTimeStep());
        o.put(q->getfirstAcceptedStep());
      }
    }
#ifdef LOGRADAU5
    if (!in.digits) o.str(q->Log().tostring());
#endif
  }
}
template <int N, int NSUB, int NSUP, bool HESS, bool NUM, bool AUTO, bool DFT, int METH> void rodas(const In &in, Out &o) {
  typedef DFn<N, NSUB, NSUP, HESS, NUM, AUTO, DFT, METH> Fn;
  Vec a(in.atol), r(in.rtol);
  fill_stack(in.pattern);
  Held<odes::Rodascc<Fn>> q(in.pattern, in.same, a.data(), r.data());
  Vec y(in.y0), a2(in.atol), r2(in.rtol);
  for (double &v : a2) v *= 0.5;
  for (double &v : r2) v *= 0.3;
  bool fine = false;
  double last = 0;
  for (auto &k : in.runs) {
    double x = k.x0, xend = k.xend;
    if (k.cont && fine) xend = last + (k.xend - k.x0), x = last;
    else std::copy(in.y0.begin(), in.y0.end(), y.begin());
    bool empty = x == xend;
    fault_hook(in.p, k.throw_at);
    q->performOnlyOneStep(k.opt & 1);
    q->setGustafssonTest(!(k.opt & 2));
    q->setNmax(k.opt & 8 ? 6 : 300);
    if (k.opt & 32) q->setSafe(0.7);
    if (k.opt & 256) {
      std::swap(a.p, a2.p);
      std::swap(r.p, r2.p);
      q->setTestPolicy(in.same, a.data(), r.data());
    }
    int rc = 0;
    fill_stack(in.pattern);
    try { (*q)(k.h, x, xend, y.data()); } catch (odes::OdesException &) { rc = 1; } catch (Budget &) { rc = 2; } catch (Thrown &) { rc = 3; }
    o.put(rc);
    if (rc == 0) o.put(x);
    fine = rc == 0;
    last = x;
    for (double v : y) {
      o.put(v);
      if (!(std::fabs(v) < 1e3)) fine = false;
    }
    if (!in.digits) {
      o.put(q->getNstep());
      o.put(q->getNaccpt());
      o.put(q->getNrejct());
      o.put(q->getNJac());
      o.put(q->getNdec());
      if (rc == 0 && !empty) {
        o.put(q->getLastTimeStep());
        o.put(q->getfirstAcceptedStep());
      }
    }
#ifdef LOGRODAS
    if (!in.digits) o.str(q->Log().tostring());
#endif
  }
}
inline void rock4(const In &in, Out &o) {
  int n = in.n;
  R4F F;
  F.n = n;
  F.maxcalls = 20000;
  const Poly &q = in.q;
  long at = -1, base = 0;
  F.r = [&] { return in.rho; };
  // the functor is copied in the object: what it reads is referenced
  F.f = [&](const double *x, double *y) {
    if (++base == at) throw Thrown();
    q.f(x, y);
    if (base <= in.noise) for (int i = 0; i < n; i++) y[i] += 1e6 * std::sin(double(7 * base + i));
  };
  fill_stack(in.pattern);
  Held<R4> r(in.pattern, F);
  R4Vec y(in.y0);
  bool fine = false;
  double last = 0;
  for (auto &k : in.runs) {
    double t0 = k.x0, tend = k.xend;
    if (k.cont && fine) tend = last + (k.xend - k.x0), t0 = last;
    else y.set(in.y0);
    r->setTolerances(in.atol[0], in.rtol[0]);
    at = k.throw_at;
    base = 0;
    int rc = 0;
    fill_stack(in.pattern);
    try { (*r)(y.p, t0, tend, k.h); } catch (odes::OdesException &) { rc = 1; } catch (R4Budget &) { rc = 2; } catch (Thrown &) { rc = 3; }
    o.put(rc);
    fine = !rc;
    last = tend;
    if (rc) continue;   // y can be one of the work arrays then
    for (int i = 0; i < n; i++) {
      o.put(y.p[i]);
      if (!(std::fabs(y.p[i]) < 1e3)) fine = false;
    }
    if (in.digits) continue;
    o.put(r->NbSteps());
    o.put(r->NbAccepted());
    o.put(r->NbRejected());
    o.put(r->NbRhsComputed());
    o.put(r->nbUnkn());
    if (k.x0 != k.xend) {
      o.put(r->NbStages());
      o.put(r->LastAcceptedTimeStep());
    }
#ifdef LOGROCK4
    if (!in.digits) o.str(r->Log().tostring());
#endif
  }
}
#else
template <bool AFF> void rock4l(const In &in, Out &o) {
  R4LF F;
  F.n = in.n;
  F.A = in.A;
  F.r = in.rho;
  F.maxcalls = 20000;
  fill_stack(in.pattern);
  Held<odes::Rock4L<R4LF, AFF>> r(in.pattern, F);
  R4LVec v(in.y0);
  bool fine = false;
  for (auto &k : in.runs) {
    std::vector<double> v0 = in.y0;
    if (k.cont && fine) v0 = std::vector<double>(v.p, v.p + in.n);
    for (int i = 0; i < in.n; i++) v.p[i] = v0[i];
    R4LVec w(in.phi.empty() ? std::vector<double>(in.n, 0.) : in.phi);
    int rc = 0;
    fill_stack(in.pattern);
    try {
      if (k.opt & 1 ? !AFF : AFF) (*r)(v.p, w.p, k.x0, k.xend, k.h);
      else (*r)(v.p, k.x0, k.xend, k.h);
    } catch (odes::OdesException &) { rc = 1; } catch (R4LBudget &) { rc = 2; }
    o.put(rc);
    fine = !rc;
    for (int i = 0; i < in.n; i++) if (!(std::fabs(v.p[i]) < 1e3)) fine = false;
    if (rc == 2) continue;
    for (int i = 0; i < in.n; i++) o.put(v.p[i]);
    for (int i = 0; i < in.n; i++) o.put(w.p[i]);
    if (rc == 0 && !in.digits) {
      o.put(r->NbStages());
      o.put(r->NbSteps());
      o.put(r->NbRhsComputed());
      o.put(r->nbUnkn());
      o.put(r->Time());
    }
  }
}
template <class RK> void sdirk(const In &in, Out &o) {
  SdOp::A = &in.A;
  SdOp::nA = in.n;
  fill_stack(in.pattern);
  Held<odes::Sdirkl<RK, SdOp>> s(in.pattern, in.n, in.dt, in.affine);
  std::vector<double> last;
  for (auto &k : in.runs) {
    double *u = odes::allocDoubleArray(in.n), *phi = odes::allocDoubleArray(in.n);
    for (int i = 0; i < in.n; i++) u[i] = k.cont && !last.empty() ? last[i] : in.y0[i], phi[i] = in.phi[i];
    int bad = 0;
    for (int m = 0; m < 1 + (k.opt & 7); m++) {
      bool aff = in.affine != ((k.opt & 8) && m == 1);
      fill_stack(in.pattern);
      try { if (aff) s->step(u, phi); else s->step(u); } catch (...) { bad++; }
    }
    o.put(bad);
    for (int i = 0; i < in.n; i++) o.put(u[i]), o.put(phi[i]);
    last.assign(u, u + in.n);
    odes::destroyDoubleArray(u);
    odes::destroyDoubleArray(phi);
  }
}
template <int N, int S, class D> void symp(const In &in, Out &o) {
  const Poly &q = in.q;
  fill_stack(in.pattern);
  Held<odes::SymplecticRK<SyF<N, D>, S, D>> s(in.pattern, 200);
  D u[N];
  for (int i = 0; i < N; i++) u[i] = in.y0[i];
  bool first = in.first;
  SyHook<D> &h = syhook<D>();
  h = SyHook<D>();
  h.f = [&q](const D *x, D *y) { q.f(x, y); };
  for (auto &k : in.runs) {
    D dt = k.h;
    if (k.opt & 16) first = true;
    for (int m = 0; m < 1 + (k.opt & 7); m++) {
      h.calls = 0;
      h.throw_at = (k.opt & 8) && m == 1 ? k.throw_at : -1;
      int rc = 0;
      bool ok = false;
      fill_stack(in.pattern);
      try { ok = s->step(dt, u, first); } catch (SyThrow &) { rc = 1; }
      o.put(rc);
      o.put(ok);
      for (int i = 0; i < N; i++) {
        double hi = (double)u[i];
        o.put(hi);
        if (!in.digits) o.put((double)(u[i] - hi));
      }
      if (!in.digits && rc == 0) o.put(s->maxIter());
    }
  }
}
#endif
inline void run(const In &in, Out &o) {
  o.n = 0;
  o.text = 1469598103934665603ul;
  if (in.pattern >= 0) mallopt(M_PERTURB, in.pattern == 0 ? 0xff : (unsigned char)~in.pattern);
  switch (in.solver * 100 + in.cfg) {
#if SCEN_PART == 1
    case 0: radau<1, 0, 0, false, false>(in, o); break;
    case 1: radau<3, 2, 2, false, true>(in, o); break;
    case 2: radau<4, 3, 3, false, false>(in, o); break;
    case 3: radau<5, 4, 4, true, true>(in, o); break;
    case 4: radau<4, 3, 3, true, false>(in, o); break;
    case 5: radau<4, 1, 1, false, false>(in, o); break;
    case 6: radau<5, 0, 0, false, true>(in, o); break;
    case 7: radau<6, 2, 1, false, true>(in, o); break;
    case 8: radau<6, 0, 3, false, false>(in, o); break;
    case 9: radau<2, 1, 1, true, true>(in, o); break;
    case 10: radau<11, 10, 10, false, false>(in, o); break;
    case 11: radau<13, 2, 4, false, true>(in, o); break;
    case 12: radau<10, 9, 9, true, true>(in, o); break;
    case 100: rodas<1, 0, 0, false, false, false, true, 1>(in, o); break;
    case 101: rodas<3, 2, 2, false, true, false, false, 2>(in, o); break;
    case 102: rodas<4, 3, 3, false, false, true, false, 3>(in, o); break;
    case 103: rodas<5, 4, 4, true, true, false, true, 1>(in, o); break;
    case 104: rodas<4, 3, 3, true, false, false, false, 2>(in, o); break;
    case 105: rodas<4, 1, 1, false, false, false, true, 3>(in, o); break;
    case 106: rodas<6, 2, 1, false, true, true, true, 1>(in, o); break;
    case 107: rodas<6, 0, 3, false, false, false, false, 2>(in, o); break;
    case 108: rodas<2, 1, 1, true, true, false, true, 3>(in, o); break;
    case 109: rodas<11, 10, 10, false, true, true, true, 2>(in, o); break;
    case 110: rodas<14, 4, 2, false, false, false, true, 1>(in, o); break;
    case 200: rock4(in, o); break;
#else
    case 300: rock4l<false>(in, o); break;
    case 301: rock4l<true>(in, o); break;
    case 400: sdirk<odes::EulerImp>(in, o); break;
    case 401: sdirk<odes::CrN>(in, o); break;
    case 402: sdirk<odes::RKRS>(in, o); break;
    case 403: sdirk<odes::RKMethod1>(in, o); break;
    case 404: sdirk<odes::RKMethod2>(in, o); break;
    case 500: symp<1, 2, double>(in, o); break;
    case 501: symp<2, 3, double>(in, o); break;
    case 502: symp<3, 4, long double>(in, o); break;
    case 503: symp<2, 6, double>(in, o); break;
    case 504: symp<4, 8, double>(in, o); break;
    case 505: symp<1, 11, long double>(in, o); break;
    case 506: symp<2, 13, double>(in, o); break;
    case 507: symp<2, 16, long double>(in, o); break;
    case 508: symp<9, 5, double>(in, o); break;
#endif
    default: abort();
  }
}
}  // namespace scen
