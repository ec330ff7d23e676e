// Rodascc behind a run-time interface, and the Rosenbrock methods in long double.
#pragma once
#include "hook.hpp"
#include "tol.hpp"
#include <memory>
#include "OdesException.hpp"
#include "Rodascc.hpp"
namespace pbt {
template <int N, int NSUB, int NSUP, bool HESS, bool NUM, bool AUTO, bool DFT, int METH> struct DFn {
  static const int n = N, nsub = NSUB, nsup = NSUP, method = METH;
  static const bool Hessenberg = HESS, ComputeJacobianNumerically = NUM, autonomous = AUTO, use_DF_t = DFT;
  void operator()(double t, double *y, double *r) const { hook().call(t, y, r, N); }
  template <class M> void Jacobian(double t, odes::fortranVector y, const odes::fortranVector, M &Jac) const {
    double yy[N], J[N * N];
    for (int i = 0; i < N; i++) yy[i] = y(i + 1);
    hook().jac(t, yy, J, N);
    for (int j = 0; j < N; j++)
      for (int i = std::max(0, j - NSUP); i <= std::min(N - 1, j + NSUB); i++) Jac(i + 1, j + 1) = J[i * N + j];
  }
  template <class V, class W> void DF_t(double t, const V &y, W &ft) const {
    double yy[N], f[N];
    for (int i = 0; i < N; i++) yy[i] = y(i + 1);
    hook().dft(t, yy, f, N);
    for (int i = 0; i < N; i++) ft(i + 1) = f[i];
  }
};
struct RodasStat { int nstep, naccpt, nrejct, njac, ndec; double hlast, hfirst; };
struct RodasBase {
  virtual ~RodasBase() {}
  virtual int run(double h, double &x, double xend, double *y) = 0;
  virtual void one(bool) = 0;
  virtual void safe(double) = 0;
  virtual void gus(bool) = 0;
  virtual void nmax(int) = 0;
  virtual void tol(bool same, double *a, double *r) = 0;
  virtual RodasStat stat() const = 0;
  virtual std::string log() = 0;
  virtual double J(int i, int j) = 0;  // entry of the stored Jacobian
};
template <class Fn> struct RodasRun : RodasBase {
  odes::Rodascc<Fn> r;
  RodasRun(bool same, double *a, double *rt) : r(same, a, rt) {}
  int run(double h, double &x, double xend, double *y) override {
    try {
      r(h, x, xend, y);
      return 0;
    } catch (odes::OdesException &) {
      return 1;
    } catch (Budget &) {
      return 2;
    }
  }
  double J(int i, int j) override { return r.Jacobian()(i, j); }
  void one(bool b) override { r.performOnlyOneStep(b); }
  void safe(double v) override { r.setSafe(v); }
  void gus(bool b) override { r.setGustafssonTest(b); }
  void nmax(int v) override { r.setNmax(v); }
  void tol(bool same, double *a, double *rt) override { r.setTestPolicy(same, a, rt); }
  RodasStat stat() const override { return {r.getNstep(), r.getNaccpt(), r.getNrejct(), r.getNJac(), r.getNdec(), r.getLastTimeStep(), r.getfirstAcceptedStep()}; }
#ifdef LOGRODAS
  std::string log() override { return r.Log().tostring(); }
#else
  std::string log() override { return ""; }
#endif
};
struct DCfg {
  int n, nsub, nsup;
  bool hess, num, autonomous, dft;
  int meth;
  RodasBase *(*make)(bool, double *, double *);
  std::string name() const {
    std::ostringstream o;
    o << (hess ? "Hessenberg" : nsub == n - 1 && nsup == n - 1 ? "full" : "band") << " n=" << n;
    if (!hess && !(nsub == n - 1 && nsup == n - 1)) o << "(" << nsub << "," << nsup << ")";
    o << (num ? " numeric-J" : " analytic-J") << (autonomous ? " autonomous" : dft ? " analytic-dF/dt" : " numeric-dF/dt") << " method " << meth;
    return o.str();
  }
};
template <int N, int NSUB, int NSUP, bool HESS, bool NUM, bool AUTO, bool DFT, int METH> RodasBase *mkd(bool s, double *a, double *r) {
  return new RodasRun<DFn<N, NSUB, NSUP, HESS, NUM, AUTO, DFT, METH>>(s, a, r);
}
#define DCFG(N, L, U, H, J, AU, DF, M) {N, L, U, H, J, AU, DF, M, mkd<N, L, U, H, J, AU, DF, M>}
#define DFULL(N, J, AU, DF, M) DCFG(N, N - 1, N - 1, false, J, AU, DF, M)
#define DHESS(N, J, AU, DF, M) DCFG(N, N - 1, N - 1, true, J, AU, DF, M)
typedef std::unique_ptr<RodasBase> RodasP;
// coefficients published with RODAS (Hairer & Wanner) for the methods 1 to 3
struct RosTab {
  LD a[6][5], c[6][5], al[6], d[6], g;
  RosTab(int m) {
    static const double A1[] = {1.544, .9466785280815826, .2557011698983284, 3.314825187068521, 2.896124015972201, .9986419139977817, 1.221224509226641, 6.019134481288629, 12.53708332932087, -.6878860361058950};
    static const double C1[] = {-5.6688, -2.430093356833875, -.2063599157091915, -.1073529058151375, -9.594562251023355, -20.47028614809616, 7.496443313967647, -10.24680431464352, -33.99990352819905, 11.70890893206160, 8.083246795921522, -7.981132988064893, -31.52159432874371, 16.31930543123136, -6.058818238834054};
    static const double A2[] = {1.4028884, .6581212688557198, -1.320936088384301, 7.131197445744498, 16.02964143958207, -5.561572550509766, 22.73885722420363, 67.38147284535289, -31.21877493038560, .7285641833203814};
    static const double C2[] = {-5.1043536, -2.899967805418783, 4.040399359702244, -32.64449927841361, -99.35311008728094, 49.99119122405989, -76.46023087151691, -278.5942120829058, 153.9294840910643, 10.97101866258358, -76.29701586804983, -294.2795630511232, 162.0029695867566, 23.65166903095270, -7.652977706771382};
    static const double A3[] = {3., 1.831036793486759, .4955183967433795, 2.304376582692669, -.05249275245743001, -1.176798761832782, -7.170454962423024, -4.741636671481785, -16.31002631330971, -1.062004044111401};
    static const double C3[] = {-12., -8.791795173947035, -2.207865586973518, 10.81793056857153, 6.780270611428266, 19.53485944642410, 34.19095006749676, 15.49671153725963, 54.74760875964130, 14.16005392148534, 34.62605830930532, 15.30084976114473, 56.99955578662667, 18.40807009793095, -5.714285714285717};
    const double *A = m == 1 ? A1 : m == 2 ? A2 : A3, *C = m == 1 ? C1 : m == 2 ? C2 : C3;
    int k = 0, l = 0;
    for (int i = 0; i < 6; i++)
      for (int j = 0; j < 5; j++) a[i][j] = c[i][j] = 0;
    for (int i = 1; i < 5; i++)
      for (int j = 0; j < i; j++) a[i][j] = A[k++];
    for (int i = 1; i < 6; i++)
      for (int j = 0; j < i; j++) c[i][j] = C[l++];
    static const double AL[3][3] = {{.386, .21, .63}, {.3507221, .2557041, .6817790}, {.75, .21, .63}};
    static const double D[3][4] = {{.25, -.1043, .1035, -.03620000000000023}, {.25, -.06902209999999998, -.0009671999999999459, -.08797900000000025}, {.25, -.5, -.023504, -.0362}};
    al[0] = 0;
    for (int i = 0; i < 3; i++) al[i + 1] = AL[m - 1][i];
    al[4] = al[5] = 1;
    for (int i = 0; i < 4; i++) d[i] = D[m - 1][i];
    d[4] = d[5] = 0;
    g = .25L;
  }
};
inline const RosTab &rostab(int m) {
  static const RosTab t[3] = {RosTab(1), RosTab(2), RosTab(3)};
  return t[m - 1];
}
// one step in long double: y1, and the error vector; J and ft: those of p at (x,y)
inline bool rosLD(const Prob &p, const RosTab &t, LD x, LD h, const std::vector<LD> &y, std::vector<LD> &y1, std::vector<LD> &err, bool autonomous) {
  int n = p.n;
  std::vector<double> Jd(n * n), ftd(n), yd(n);
  for (int i = 0; i < n; i++) yd[i] = (double)y[i];
  p.jac((double)x, yd.data(), Jd.data(), ftd.data());
  std::vector<std::vector<LD>> k(6, std::vector<LD>(n));
  std::vector<LD> u(n), f(n), M, b(n), z(n);
  std::vector<LD> E(n * n);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) E[i * n + j] = (i == j ? 1 / (h * t.g) : 0) - (LD)Jd[i * n + j];
  for (int s = 0; s < 6; s++) {
    for (int i = 0; i < n; i++) {
      u[i] = y[i];
      for (int j = 0; j < s; j++) {
        LD a = s < 5 ? t.a[s][j] : (j < 4 ? t.a[4][j] : 1);
        u[i] += a * k[j][i];
      }
    }
    p.rhs<LD>(x + t.al[s] * h, u.data(), f.data());
    for (int i = 0; i < n; i++) {
      b[i] = f[i];
      if (!autonomous) b[i] += h * t.d[s] * (LD)ftd[i];
      for (int j = 0; j < s; j++) b[i] += t.c[s][j] / h * k[j][i];
    }
    M = E;
    if (!solveLD(M, b, n)) return false;
    k[s] = b;
    if (s == 5) {
      y1 = u;
      for (int i = 0; i < n; i++) {
        y1[i] += b[i];
        if (!std::isfinite((double)y1[i])) return false;
      }
      err = b;
    }
  }
  return true;
}
struct DAttempt { double x, h; bool accepted; size_t base; };
inline bool parse_rodas(const std::vector<Call> &cl, double x0, double xfinal, int meth, std::vector<DAttempt> &at) {
  const RosTab &t = rostab(meth);
  at.clear();
  std::vector<size_t> f;
  for (size_t i = 0; i < cl.size(); i++)
    if (cl[i].kind == 'f') f.push_back(i);
  if (f.empty() || cl[f[0]].t != x0) return false;
  double x = x0;
  size_t base = f[0], i = 1;
  bool cur = false;
  while (i < f.size()) {
    double tt = cl[f[i]].t;
    if (i + 4 < f.size()) {
      double h = cl[f[i + 4]].t - x;
      bool ok = h != 0 && std::fabs(h) > 1e-8 * std::fabs(x);
      for (int k = 0; k < 4 && ok; k++) ok = std::fabs(cl[f[i + k]].t - x - (double)t.al[k + 1] * h) <= 1e-7 * std::fabs(h);
      if (ok) {
        at.push_back({x, h, false, base});
        cur = true;
        i += 5;
        continue;
      }
    }
    if (cur && std::fabs(tt - (at.back().x + at.back().h)) <= 1e-14 * std::max(std::fabs(tt), std::fabs(x))) {
      at.back().accepted = true;
      x = tt;
      base = f[i];
      cur = false;
      ++i;
      continue;
    }
    if (!cur) { ++i; continue; }  // numerical Jacobian and dF/dt
    return false;
  }
  if (cur) {
    if (std::fabs(xfinal - (at.back().x + at.back().h)) <= 1e-13 * std::max(std::fabs(xfinal), std::fabs(x))) at.back().accepted = true;
    else return false;
  } else if (at.empty() || std::fabs(xfinal - (at.back().x + at.back().h)) > 4e-16 * std::max(std::fabs(xfinal), std::fabs(x))) return false;  // a last step too short to be seen
  return true;
}
}  // namespace pbt
