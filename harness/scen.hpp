// Scenarios over all the integrators: descriptions and their generator.
#pragma once
#include "hook.hpp"
#include "poly.hpp"
namespace scen {
using namespace pbt;
struct Thrown {};   // what a right-hand side throws
struct Run { double h, x0, xend; long throw_at; int opt; bool cont = false; };   // cont: goes on from the end of the preceding run
struct In {
  int solver = 0, cfg = 0, n = 1;
  Prob p;             // radau, rodas
  Poly q;             // symplectic, rock4
  std::vector<double> A, phi, y0;   // rock4l, sdirkl
  std::vector<double> atol, rtol;
  double dt = 0.1, rho = 0;
  int noise = 0;      // rock4: the first evaluations of each run are perturbed (steps are rejected)
  bool same = true, affine = false;
  std::vector<Run> runs;
  int pattern = -1;   // memory is filled with this byte before the objects are built
  bool first = true;  // symplectic: what the first step is told
  bool digits = false;   // (builds are compared up to rounding: no log, no number of evaluations)
};
struct Out {
  enum { MAX = 4096 };
  double v[MAX];
  int n = 0;
  unsigned long text = 0;
  void put(double d) { if (n < MAX) v[n++] = d; }
  void str(const std::string &s) { for (unsigned char ch : s) text = (text ^ ch) * 1099511628211ul; }
};
inline const int NCFG[] = {10, 9, 1, 2, 5, 8}, NBIG[] = {3, 2, 0, 0, 0, 1};   // then the large configurations, seldom used
inline const char *SOLVER[] = {"Radau5cc", "Rodascc", "Rock4", "Rock4L", "Sdirkl", "SymplecticRK"};
inline const int RN[] = {1, 3, 4, 5, 4, 4, 5, 6, 6, 2, 11, 13, 10}, RL[] = {0, 2, 3, 4, 3, 1, 0, 2, 0, 1, 10, 2, 9}, RU[] = {0, 2, 3, 4, 3, 1, 0, 1, 3, 1, 10, 4, 9};
inline const int DN[] = {1, 3, 4, 5, 4, 4, 6, 6, 2, 11, 14}, DL[] = {0, 2, 3, 4, 3, 1, 2, 0, 1, 10, 4}, DU[] = {0, 2, 3, 4, 3, 1, 1, 3, 1, 10, 2};
inline const bool DA[] = {false, false, true, false, false, false, true, false, false, true, false};
// its eight bytes are 0x3f
inline const double H3F = [] { double d; memset(&d, 0x3f, 8); return d; }();
inline const int SN[] = {1, 2, 3, 2, 4, 1, 2, 2, 9};
// random scenario; mild: no faults, moderate stiffness (results are then well conditioned)
// like: with the same integrator and configuration as this one
inline In gen(Case &c, bool mild = false, const In *like = nullptr) {
  In in;
  in.solver = like ? like->solver : c.range(0, 5);
  if (int N = NCFG[in.solver], B = NBIG[in.solver]; like) in.cfg = like->cfg;
  else in.cfg = B ? c.size(0, N - 1, N, N + B - 1, 15) : c.range(0, N - 1);
  c.desc << SOLVER[in.solver] << " configuration " << in.cfg << " ";
  int nruns = mild ? 1 : c.range(1, 3);
  if (in.solver < 2) {
    bool ra = in.solver == 0;
    ProbOpt o;
    in.n = o.n = ra ? RN[in.cfg] : DN[in.cfg];
    o.ml = ra ? RL[in.cfg] : DL[in.cfg];
    o.mu = ra ? RU[in.cfg] : DU[in.cfg];
    o.autonomous = !ra && DA[in.cfg];
    o.linear = c.coin();
    o.maxstiff = c.coin() && !mild ? 1e5 : 30;
    in.p = gen_prob(c, o);
    in.same = !c.coin();
    double r0 = c.logu(1e-7, 1e-2);
    for (int i = 0; i < in.n; i++) {
      double r = in.same || i == 0 ? r0 : r0 * c.pick({1.0, 0.3, 3.0});
      in.rtol.push_back(r);
      in.atol.push_back(r * (in.same ? 1.0 : c.pick({1.0, 0.1, 10.0})));
    }
    if (in.same) in.rtol.resize(1), in.atol.resize(1);   // only the first one is there
    in.y0.resize(in.n);
    for (auto &v : in.y0) v = 2 * c.sym();
    c.desc << in.p.show() << (in.same ? " scalar" : " vector") << " rtol=" << pbt::show(in.rtol, in.rtol.size());
  } else if (in.solver == 2) {
    in.n = c.pick({1, 2, 3, 7, 20, 64});
    Poly &q = in.q;
    q.n = in.n;
    q.A.assign(in.n * in.n, 0);
    q.g.assign(in.n, 0);
    double k = mild ? c.logu(1, 20) : c.logu(1, 3000);
    for (int i = 0; i < in.n; i++) {
      q.A[i * in.n + i] = -2 * k;
      if (i) q.A[i * in.n + i - 1] = k;
      if (i + 1 < in.n) q.A[i * in.n + i + 1] = k;
      q.g[i] = c.sym();
    }
    if (c.coin()) for (int i = 0; i < in.n; i++) q.k.push_back({i, i, i, i, -c.unit()});
    in.rho = 4 * k + 20;
    if (!mild && c.chance(1, 4)) in.noise = (int)c.logu(5, 1500);
    in.atol = in.rtol = {c.logu(1e-6, 1e-2)};
    in.y0.resize(in.n);
    for (auto &v : in.y0) v = c.sym();
    c.desc << "n=" << in.n << " k=" << k << " tol=" << in.atol[0] << " noise=" << in.noise;
  } else if (in.solver == 3 || in.solver == 4) {
    in.n = c.chance(1, 15) ? 33 : c.pick({1, 2, 3, 5, 9});
    in.affine = in.solver == 3 ? in.cfg == 1 : c.coin();
    double k = mild ? c.logu(0.5, 20) : c.logu(0.5, 2000);
    in.A.assign(in.n * in.n, 0);
    for (int i = 0; i < in.n; i++) {
      in.A[i * in.n + i] = -2 * k - c.unit();
      if (i) in.A[i * in.n + i - 1] = k;
      if (i + 1 < in.n) in.A[i * in.n + i + 1] = k;
    }
    in.rho = 4 * k + 1;
    for (int i = 0; i < in.n; i++) in.y0.push_back(c.sym()), in.phi.push_back(c.sym());
    in.dt = c.logu(1e-3, 1);
    c.desc << "n=" << in.n << " k=" << k << " dt=" << in.dt << (in.affine ? " affine" : "");
  } else {
    in.n = SN[in.cfg];
    in.q = gen_poly(c, in.n);
    for (int i = 0; i < in.n; i++) in.y0.push_back(c.sym());
    in.first = mild || !c.chance(1, 6);
    c.desc << in.q.show() << (in.first ? "" : " not declared as first");
  }
  c.desc << " y0=" << pbt::show(in.y0, in.n);
  for (int i = 0; i < nruns; i++) {
    Run r;
    r.x0 = mild || !c.chance(1, 6) ? 0 : 1;
    bool back = in.solver < 2 && !mild && c.chance(1, 4);
    double len = c.logu(0.01, 3);
    if (!mild && c.chance(1, 12)) len = 0;
    // backwards, dissipative problems blow up: short intervals
    r.xend = r.x0 + (back ? -std::min(len, 0.05) : len);
    if (in.solver == 5) r.h = mild || c.chance(7, 8) ? c.sym() * 0.4 : c.pick({1.0, 0.0, H3F, -0.25});
    else r.h = c.logu(1e-4, 1);
    r.throw_at = !mild && c.chance(1, 4) ? c.range(1, 60) : -1;
    r.opt = c.range(0, 31);
    if (!mild && in.solver < 2 && c.coin()) r.opt += 32 * c.range(0, 15);
    if (!mild && in.solver < 2 && c.chance(1, 4)) r.h = -r.h;
    r.cont = i && in.solver < 5 && c.chance(1, 3);
    if (mild && in.solver < 2) r.opt &= ~9;
    if (mild && in.solver == 3) r.opt = 0;
    if (mild && in.solver == 5) r.opt &= ~8;
    in.runs.push_back(r);
    c.desc << " run(x0=" << r.x0 << ",xend=" << r.xend << ",h=" << r.h << ",throw=" << r.throw_at << ",opt=" << r.opt << (r.cont ? ",going on" : "") << ")";
  }
  return in;
}
}  // namespace scen
