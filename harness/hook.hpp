// What the right-hand sides given to the integrators record.
#pragma once
#include "ode.hpp"
namespace pbt {
struct Budget {};  // thrown by a right-hand side when too many calls were made
struct Call { double t; std::vector<double> y; char kind; };  // kind: 'f' right-hand side, 'J' Jacobian, 't' df/dt
struct Hook {
  const Prob *p = nullptr;
  long nf = 0, nj = 0, nt = 0;
  long maxf = 2000000;
  bool rec = false, recy = false;
  std::vector<Call> calls;
  // faults: from call number nanfrom on, or outside a domain, the right-hand side gives NaN
  long nanfrom = -1;
  double nan_above = INFINITY;   // NaN when |y|_inf exceeds it
  std::function<void(double, const double *, double *)> f;  // if set, used instead of p
  std::function<void(double, const double *, double *)> j;  // row major
  std::function<void(double, const double *, double *)> ft; // derivative with respect to t
  double jacnoise = 0;           // multiplies the analytic Jacobian by 1+jacnoise
  void reset() { nf = nj = nt = 0; calls.clear(); }
  void call(double t, const double *y, double *r, int n) {
    yield_here();
    if (++nf > maxf) throw Budget();
    if (rec) calls.push_back({t, recy ? std::vector<double>(y, y + n) : std::vector<double>(), 'f'});
    if (f) f(t, y, r);
    else p->rhs(t, y, r);
    bool bad = nanfrom >= 0 && nf >= nanfrom;
    for (int i = 0; i < n; i++) bad = bad || std::fabs(y[i]) > nan_above;
    if (bad)
      for (int i = 0; i < n; i++) r[i] = NAN;
  }
  void jac(double t, const double *y, double *J, int n) {
    yield_here();
    ++nj;
    if (rec) calls.push_back({t, recy ? std::vector<double>(y, y + n) : std::vector<double>(), 'J'});
    if (j) j(t, y, J);
    else p->jac(t, y, J, nullptr);
    if (jacnoise != 0)
      for (int i = 0; i < n * n; i++) J[i] *= 1 + jacnoise;
  }
  void dft(double t, const double *y, double *ft, int n) {
    yield_here();
    ++nt;
    if (rec) calls.push_back({t, recy ? std::vector<double>(y, y + n) : std::vector<double>(), 't'});
    if (this->ft) this->ft(t, y, ft);
    else p->jac(t, y, nullptr, ft);
  }
};
inline Hook &hook() {
  static thread_local Hook h;
  return h;
}
inline void new_hook(const Prob *p) {
  hook() = Hook();
  hook().p = p;
}
}  // namespace pbt
