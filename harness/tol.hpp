// Tolerances of Radau5cc and Rodascc.
#pragma once
#include "pbt.hpp"
namespace pbt {
struct Tol {
  bool same;
  std::vector<double> a, r;
  std::string show() const {
    int n = same ? 1 : a.size();
    return std::string(same ? "scalar" : "vector") + " atol=" + pbt::show(a, n) + " rtol=" + pbt::show(r, n);
  }
};
inline Tol gen_tol(Case &c, int n, double lo = 1e-9, double hi = 1e-3) {
  Tol t;
  t.same = !c.coin();
  double r0 = c.logu(lo, hi), q0 = c.pick({1.0, 0.1, 10.0});
  t.a.assign(n, r0 * q0);
  t.r.assign(n, r0);
  if (!t.same)
    for (int i = 0; i < n; i++) {
      t.r[i] = r0 * c.pick({1.0, 0.3, 3.0, 10.0});
      t.a[i] = t.r[i] * c.pick({1.0, 0.1, 10.0});
    }
  return t;
}
}  // namespace pbt
