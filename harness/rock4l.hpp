// Rock4L behind a simple interface.
#pragma once
#include "ode.hpp"
#include <cmath>
#include <cstring>
#include <memory>
#include <iostream>
#include <string>
using namespace std;
#include "MacrosForCompilers.hpp"
#include "AllocateDestroyVector.hpp"
#include "OdesException.hpp"
#include "switchAdr.hpp"
#include "Rock4L.hpp"
namespace pbt {
struct R4LBudget {};
// y' = A y + b, A dense
struct R4LF {
  int n = 0;
  std::vector<double> A;
  double r = 0;
  long calls = 0, maxcalls = 1000000, affine = 0;
  bool alias = false;
  std::vector<double> w;
  void mul(const double *x) {
    yield_here();
    if (++calls > maxcalls) throw R4LBudget();
    w.assign(n, 0);
    for (int i = 0; i < n; i++) {
      double s = 0;
      for (int j = 0; j < n; j++)
        if (A[i * n + j] != 0) s += A[i * n + j] * x[j];
      w[i] = s;
    }
  }
  void note(const double *in, const double *s, const double *out) { alias = alias || out == in || out == s; }
  double rho() { return r; }
  int size() const { return n; }
  void operator()(double *in, double *s, double a, double b, double *out) {
    note(in, s, out);
    mul(in);
    for (int i = 0; i < n; i++) out[i] = a * w[i] + b * s[i];
  }
  void operator()(double *in, double *s, double a, double b, double *g, double *out) {
    note(in, s, out);
    mul(in);
    ++affine;
    for (int i = 0; i < n; i++) out[i] = a * (w[i] + g[i]) + b * s[i];
  }
  void operator()(double *in, double *s, double a, double b, double c, double *out) {
    note(in, s, out);
    mul(in);
    for (int i = 0; i < n; i++) out[i] = a * w[i] + b * in[i] + c * s[i];
  }
  void operator()(double *in, double *s, double a, double b, double c, double *g, double *out) {
    note(in, s, out);
    mul(in);
    ++affine;
    for (int i = 0; i < n; i++) out[i] = a * (w[i] + g[i]) + b * in[i] + c * s[i];
  }
};
struct R4LVec {
  double *p;
  int n;
  R4LVec(const std::vector<double> &v) : n(v.size()) {
    p = odes::allocDoubleArray(n);
    for (int i = 0; i < n; i++) p[i] = v[i];
  }
  ~R4LVec() { odes::destroyDoubleArray(p); }
  std::vector<double> get() const { return std::vector<double>(p, p + n); }
  R4LVec(const R4LVec &) = delete;
};
struct R4LStat { int stages, steps, rhs, n; double time; };
// an object that can be used again
struct R4LObj {
  std::unique_ptr<odes::Rock4L<R4LF, true>> a;
  std::unique_ptr<odes::Rock4L<R4LF, false>> l;
  R4LObj(R4LF &F, bool affine) {
    if (affine) a.reset(new odes::Rock4L<R4LF, true>(F));
    else l.reset(new odes::Rock4L<R4LF, false>(F));
  }
  int run(std::vector<double> &y, const std::vector<double> &b, double t0, double tend, double h) {
    R4LVec v(y), w(b.empty() ? std::vector<double>(1, 0.) : b);
    int rc = 0;
    try {
      if (a) (*a)(v.p, w.p, t0, tend, h);
      else (*l)(v.p, t0, tend, h);
    } catch (odes::OdesException &) { rc = 1; } catch (R4LBudget &) { rc = 2; }
    y = v.get();
    return rc;
  }
};
// 0: done, 1: exception of the library, 2: too many evaluations
inline int r4lrun(R4LF &F, bool affine, std::vector<double> &y, const std::vector<double> &b, double t0, double tend, double h, R4LStat *st = nullptr) {
  R4LVec v(y), w(b.empty() ? std::vector<double>(1, 0.) : b);
  int rc = 0;
  if (affine) {
    odes::Rock4L<R4LF, true> r(F);
    try {
      r(v.p, w.p, t0, tend, h);
    } catch (odes::OdesException &) { rc = 1; } catch (R4LBudget &) { rc = 2; }
    if (st) *st = {r.NbStages(), r.NbSteps(), r.NbRhsComputed(), r.nbUnkn(), r.Time()};
  } else {
    odes::Rock4L<R4LF, false> r(F);
    try {
      r(v.p, t0, tend, h);
    } catch (odes::OdesException &) { rc = 1; } catch (R4LBudget &) { rc = 2; }
    if (st) *st = {r.NbStages(), r.NbSteps(), r.NbRhsComputed(), r.nbUnkn(), r.Time()};
  }
  y = v.get();
  return rc;
}
}  // namespace pbt
