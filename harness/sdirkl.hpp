// Sdirkl behind a simple interface.
#pragma once
#include "ode.hpp"
#include <cmath>
#include <memory>
#include <iostream>
#include <string>
#include "MacrosForCompilers.hpp"
#include "GenericException.hpp"
#include "Sdirkl.hpp"
#include "EulerImp.hpp"
#include "CrN.hpp"
#include "RKRS.hpp"
#include "RKMethod1.hpp"
#include "RKMethod2.hpp"
namespace pbt {
// solves (I - alpha A) x = rhs, A dense
struct SdOp {
  static thread_local const std::vector<double> *A;
  static thread_local int nA;
  static thread_local long applies, inits;
  static thread_local double alpha0;
  int n = 0;
  double alpha = 0;
  void init(int n_, double a) {
    n = n_;
    alpha = a;
    alpha0 = a;
    ++inits;
  }
  void apply(double *rhs, double *x) {
    yield_here();
    ++applies;
    std::vector<LD> M(n * n), b(rhs, rhs + n);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) M[i * n + j] = (i == j ? 1.L : 0.L) - (LD)alpha * (*A)[i * n + j];
    solveLD(M, b, n);
    for (int i = 0; i < n; i++) x[i] = (double)b[i];
  }
};
thread_local const std::vector<double> *SdOp::A = nullptr;
thread_local int SdOp::nA = 0;
thread_local long SdOp::applies = 0, SdOp::inits = 0;
thread_local double SdOp::alpha0 = 0;
struct SdBase {
  virtual ~SdBase() {}
  // false: the library refused
  virtual bool step(double *u) = 0;
  virtual bool step(double *u, double *phi) = 0;
};
template <class RK> struct SdRun : SdBase {
  odes::Sdirkl<RK, SdOp> s;
  SdRun(int n, double dt, bool affine) : s(n, dt, affine) {}
  bool step(double *u) override {
    try { s.step(u); return true; } catch (...) { return false; }
  }
  bool step(double *u, double *phi) override {
    try { s.step(u, phi); return true; } catch (...) { return false; }
  }
};
typedef std::unique_ptr<SdBase> SdP;
struct SdMethod {
  const char *name;
  int order, s;
  bool Lstable;
  std::vector<LD> A, b;  // the method, from its definition
  SdP (*make)(int, double, bool);
};
template <class RK> SdP sdmake(int n, double dt, bool affine) { return SdP(new SdRun<RK>(n, dt, affine)); }
inline const std::vector<SdMethod> &sdmethods() {
  static std::vector<SdMethod> v;
  if (!v.empty()) return v;
  v.push_back({"EulerImp", 1, 1, true, {1}, {1}, sdmake<odes::EulerImp>});
  v.push_back({"CrN", 2, 1, false, {0.5L}, {1}, sdmake<odes::CrN>});
  LD g = 1 + 1 / sqrtl(2.L);
  v.push_back({"RKRS", 2, 2, false, {g, 0, 1 - 2 * g, g}, {0.5L, 0.5L}, sdmake<odes::RKRS>});
  v.push_back({"RKMethod1", 4, 5, true, {0.25L, 0, 0, 0, 0, 0.5L, 0.25L, 0, 0, 0, 17 / 50.L, -1 / 25.L, 0.25L, 0, 0, 371 / 1360.L, -137 / 2720.L, 15 / 544.L, 0.25L, 0, 25 / 24.L, -49 / 48.L, 125 / 16.L, -85 / 12.L, 0.25L}, {25 / 24.L, -49 / 48.L, 125 / 16.L, -85 / 12.L, 0.25L}, sdmake<odes::RKMethod1>});
  LD h = 2 / sqrtl(3.L) * cosl(acosl(-1.L) / 18), g2 = (1 + h) / 2, d = 1 / (6 * (2 * g2 - 1) * (2 * g2 - 1));
  v.push_back({"RKMethod2", 4, 3, false, {g2, 0, 0, 0.5L - g2, g2, 0, 2 * g2, 1 - 4 * g2, g2}, {d, 1 - 2 * d, d}, sdmake<odes::RKMethod2>});
  return v;
}
// one step of the method in long double for y'=Ay+phi
inline std::vector<LD> sdref(const SdMethod &m, int n, const std::vector<double> &A, LD dt, const std::vector<LD> &y, const std::vector<double> &phi) {
  int s = m.s;
  std::vector<LD> k(s * n), out = y;
  for (int i = 0; i < s; i++) {
    std::vector<LD> u = y, r(n, 0), M(n * n);
    for (int j = 0; j < i; j++)
      for (int q = 0; q < n; q++) u[q] += dt * m.A[i * s + j] * k[j * n + q];
    for (int q = 0; q < n; q++) {
      r[q] = phi.empty() ? 0 : phi[q];
      for (int l = 0; l < n; l++) r[q] += A[q * n + l] * u[l], M[q * n + l] = (q == l ? 1.L : 0.L) - dt * m.A[i * s + i] * A[q * n + l];
    }
    solveLD(M, r, n);
    for (int q = 0; q < n; q++) k[i * n + q] = r[q], out[q] += dt * m.b[i] * r[q];
  }
  return out;
}
}  // namespace pbt
