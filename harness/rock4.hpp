// Rock4 behind a simple interface.
#pragma once
#include "ode.hpp"
#include <cmath>
#include <cstring>
#include "MacrosForCompilers.hpp"
#include "AllocateDestroyVector.hpp"
#include "Rock4.hpp"
namespace pbt {
struct R4Budget {};
struct R4F {
  int n = 0;
  std::function<void(const double *, double *)> f;
  std::function<double()> r;
  long calls = 0, maxcalls = 3000000, rhos = 0;
  bool rec = false;
  std::vector<std::vector<double>> in, out;
  void operator()(double *x, double *y) {
    yield_here();
    if (++calls > maxcalls) throw R4Budget();
    f(x, y);
    if (rec) {
      in.emplace_back(x, x + n);
      out.emplace_back(y, y + n);
    }
  }
  double rho() { yield_here(); ++rhos; return r(); }
  int size() const { return n; }
};
typedef odes::Rock4<R4F> R4;
// y is allocated as the documentation says, and its address can change
struct R4Vec {
  double *p;
  int n;
  R4Vec(const std::vector<double> &v) : n(v.size()) {
    p = odes::allocDoubleArray(n);
    set(v);
  }
  void set(const std::vector<double> &v) { for (int i = 0; i < n; i++) p[i] = v[i]; }
  std::vector<double> get() const { return std::vector<double>(p, p + n); }
  ~R4Vec() { odes::destroyDoubleArray(p); }
  R4Vec(const R4Vec &) = delete;
};
// 0: done, 1: exception of the library, 2: too many evaluations
inline int r4run(R4 &r, R4Vec &y, double t0, double tend, double h) {
  try {
    r(y.p, t0, tend, h);
    return 0;
  } catch (odes::OdesException &) {
    return 1;
  } catch (R4Budget &) {
    return 2;
  }
}
}  // namespace pbt
