// Radau5cc behind a run-time interface: one class per matrix structure.
#pragma once
#include "hook.hpp"
#include "tol.hpp"
#include <memory>
#include "OdesException.hpp"
#include "Radau5cc.hpp"
namespace pbt {
template <int N, int NSUB, int NSUP, bool HESS, bool NUM> struct RFn {
  static const int n = N, nsub = NSUB, nsup = NSUP;
  static const bool Hessenberg = HESS, ComputeJacobianNumerically = NUM;
  void operator()(double t, double *y, double *r) const { hook().call(t, y, r, N); }
  template <class M> void Jacobian(double t, odes::fortranVector y, const odes::fortranVector, M &Jac) const {
    double yy[N], J[N * N];
    for (int i = 0; i < N; i++) yy[i] = y(i + 1);
    hook().jac(t, yy, J, N);
    for (int j = 0; j < N; j++)
      for (int i = std::max(0, j - NSUP); i <= std::min(N - 1, j + NSUB); i++) Jac(i + 1, j + 1) = J[i * N + j];
  }
};
struct RadauStat { int nstep, naccpt, nrejct, njac, ndec, nf; double hlast, hfirst; int newt = 0; };
struct RadauBase {
  virtual ~RadauBase() {}
  //! 0: returned, 1: OdesException, 2: call budget exhausted
  virtual int run(double h, double &x, double xend, double *y) = 0;
  virtual void one(bool) = 0;
  virtual void thresh(double) = 0;
  virtual void nit(int) = 0;
  virtual void safe(double) = 0;
  virtual void fac(double facr, double facl) = 0;
  virtual void gus(bool) = 0;
  virtual void nmax(int) = 0;
  virtual bool fnewt(double) = 0;
  virtual void tol(bool same, double *a, double *r) = 0;
  virtual RadauStat stat() const = 0;
  virtual std::string log() = 0;
  virtual double J(int i, int j) = 0;  // entry of the stored Jacobian
};
template <class Fn> struct RadauRun : RadauBase {
  odes::Radau5cc<Fn> r;
  RadauRun(bool same, double *a, double *rt) : r(same, a, rt) {}
  int run(double h, double &x, double xend, double *y) override {
    try {
      r(h, x, xend, y);
      return 0;
    } catch (odes::OdesException &) {
      return 1;
    } catch (Budget &) {
      return 2;
    }
  }
  double J(int i, int j) override { return r.Jacobian()(i, j); }
  void one(bool b) override { r.performOnlyOneStep(b); }
  void thresh(double v) override { r.setRecomputeJacobianTreshold(v); }
  void nit(int v) override { r.setMaxIterationsNewton(v); }
  void safe(double v) override { r.setSafe(v); }
  void fac(double a, double b) override { r.setFacrFacl(a, b); }
  void gus(bool b) override { r.setGustafssonTest(b); }
  void nmax(int v) override { r.setNmax(v); }
  bool fnewt(double v) override {
    try {
      r.setFnewt(v);
      return true;
    } catch (odes::OdesException &) {
      return false;
    }
  }
  void tol(bool same, double *a, double *rt) override { r.setTestPolicy(same, a, rt); }
  RadauStat stat() const override {
    return {r.getNstep(), r.getNaccpt(), r.getNrejct(), r.getNJac(), r.getNdec(), r.getNfoncCalled(), r.getLastTimeStep(), r.getfirstAcceptedStep(), r.getNewt()};
  }
#ifdef LOGRADAU5
  std::string log() override { return r.Log().tostring(); }
#else
  std::string log() override { return ""; }
#endif
};
struct RCfg {
  int n, nsub, nsup;
  bool hess, num;
  RadauBase *(*make)(bool, double *, double *);
  std::string name() const {
    std::ostringstream o;
    o << (hess ? "Hessenberg" : nsub == n - 1 && nsup == n - 1 ? "full" : "band") << " n=" << n;
    if (!hess && !(nsub == n - 1 && nsup == n - 1)) o << "(" << nsub << "," << nsup << ")";
    o << (num ? " numeric-J" : " analytic-J");
    return o.str();
  }
};
template <int N, int NSUB, int NSUP, bool HESS, bool NUM> RadauBase *mk(bool s, double *a, double *r) {
  return new RadauRun<RFn<N, NSUB, NSUP, HESS, NUM>>(s, a, r);
}
#define RCFG(N, L, U, H, J) {N, L, U, H, J, mk<N, L, U, H, J>}
#define RFULL(N, J) RCFG(N, N - 1, N - 1, false, J)
#define RHESS(N, J) RCFG(N, N - 1, N - 1, true, J)
typedef std::unique_ptr<RadauBase> RadauP;
// tolerances used internally: rtol -> 0.1 rtol^(2/3), same ratio atol/rtol
inline void radau_inner_tol(const Tol &t, int i, double &a, double &r) {
  int k = t.same ? 0 : i;
  r = 0.1 * std::pow(t.r[k], 2.0 / 3);
  a = r * (t.a[k] / t.r[k]);
}
// Radau IIA, order 5
struct RadauTab {
  std::vector<LD> A, c;
  RadauTab() {
    LD s = std::sqrt((LD)6);
    A = {(88 - 7 * s) / 360, (296 - 169 * s) / 1800, (-2 + 3 * s) / 225, (296 + 169 * s) / 1800, (88 + 7 * s) / 360, (-2 - 3 * s) / 225, (16 - s) / 36, (16 + s) / 36, 1 / 9.0L};
    c = {(4 - s) / 10, (4 + s) / 10, 1};
    for (int i = 0; i < 3; i++)  // self check: C(3)
      for (int k = 1; k <= 3; k++) {
        LD z = 0;
        for (int j = 0; j < 3; j++) z += A[i * 3 + j] * std::pow(c[j], (LD)(k - 1));
        if (std::fabs(z - std::pow(c[i], (LD)k) / k) > 1e-17L) abort();
      }
  }
};
// what the sequence of calls of the right-hand side tells of the steps
struct Attempt {
  double x, h;      // start, step
  int newt;         // number of Newton iterations
  bool accepted;
  size_t base;      // index of the first call at x (value at the start of the step)
  bool extra;       // a call at x follows the Newton iterations, before anything else at x+h
};
// returns false if the calls cannot be understood
inline bool parse_radau(const std::vector<Call> &cl, double x0, double xfinal, std::vector<Attempt> &at) {
  const double s6 = std::sqrt(6.0), c1 = (4 - s6) / 10, c2 = (4 + s6) / 10;
  at.clear();
  std::vector<const Call *> f;
  std::vector<size_t> idx;
  for (size_t i = 0; i < cl.size(); i++)
    if (cl[i].kind == 'f') { f.push_back(&cl[i]); idx.push_back(i); }
  double x = x0;
  size_t i = 0, base = 0;
  if (f.empty() || f[0]->t != x0) return false;
  base = idx[0];
  i = 1;
  bool cur = false;  // an attempt is open at x
  while (i < f.size()) {
    double t = f[i]->t;
    if (i + 2 < f.size()) {
      // the three stages, whatever their order
      double d[3] = {f[i]->t - x, f[i + 1]->t - x, f[i + 2]->t - x};
      std::sort(d, d + 3, [](double a, double b) { return std::fabs(a) < std::fabs(b); });
      double h = d[2];
      double tol = 1e-7 * std::fabs(h);
      if (h != 0 && std::fabs(d[0] - c1 * h) <= tol && std::fabs(d[1] - c2 * h) <= tol) {
        if (std::fabs(h) < 1e-8 * std::fabs(x)) return false;
        if (cur && at.back().x == x && std::fabs(at.back().h - h) <= 1e-12 * std::fabs(h) && !at.back().extra) at.back().newt++;
        else {
          at.push_back({x, h, 1, false, base, false});
          cur = true;
        }
        i += 3;
        continue;
      }
    }
    if (std::fabs(t - x) <= 1e-14 * std::fabs(x)) {
      if (cur) at.back().extra = true;
      ++i;
      continue;
    }
    if (cur && std::fabs(t - (at.back().x + at.back().h)) <= 1e-14 * std::max(std::fabs(t), std::fabs(x))) {
      at.back().accepted = true;
      x = t;
      base = idx[i];
      cur = false;
      ++i;
      continue;
    }
    return false;
  }
  if (cur) {
    if (std::fabs(xfinal - (at.back().x + at.back().h)) <= 1e-13 * std::max(std::fabs(xfinal), std::fabs(x))) at.back().accepted = true;
    else return false;
  }
  return true;
}
}  // namespace pbt
