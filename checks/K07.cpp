// K07: integration by Rock4 commutes with the symmetries of the problem.
#include "rock4.hpp"
using namespace pbt;
struct Pb {
  Prob p;
  int n;
  double rho, h0, x0, len, atol, rtol;
  std::vector<double> y0, shift;
  bool varrho;       // the spectral radius depends on the last y given
  int copies = 1;
};
struct Res {
  int rc, nstep, nacc, nrej, nst;
  long nf, nrho;
  double hlast;
  std::vector<double> y;
};
static Res go(const Pb &q) {
  int m = q.n, N = m * q.copies;
  R4F F;
  F.n = N;
  F.maxcalls = 60000;
  double big = 0;
  F.f = [&](const double *y, double *r) {
    std::vector<double> z(m);
    for (int k = 0; k < q.copies; k++) {
      for (int i = 0; i < m; i++) z[i] = y[k * m + i] - q.shift[i];
      q.p.rhs(0.0, z.data(), r + k * m);
    }
    big = y[0] - q.shift[0];
  };
  double s0 = q.y0[0] - q.shift[0];
  F.r = [&] { return q.rho * (q.varrho ? 1 + std::min(1.0, std::fabs(big / s0)) : 1); };
  R4 R(F);
  R.setTolerances(q.atol, q.rtol);
  std::vector<double> y;
  for (int k = 0; k < q.copies; k++) y.insert(y.end(), q.y0.begin(), q.y0.end());
  R4Vec v(y);
  Res r;
  r.rc = r4run(R, v, q.x0, q.x0 + q.len, q.h0);
  r.nstep = R.NbSteps();
  r.nacc = R.NbAccepted();
  r.nrej = R.NbRejected();
  r.nst = R.NbStages();
  r.nf = F.calls;
  r.nrho = F.rhos;
  r.hlast = r.nacc ? R.LastAcceptedTimeStep() : 0;
  r.y = v.get();
  return r;
}
enum { UNITS, TIME, PERM, TRANS, COPIES, SHIFT };
static void sym(Case &c, int kind, int *ndiff = nullptr) {
  int n = c.size(kind == PERM ? 2 : 1, 8, 20, 60);
  ProbOpt o;
  o.n = n;
  o.linear = c.chance(1, 4);
  o.autonomous = true;
  o.maxstiff = c.pick({10.0, 300.0, kind == UNITS || kind == TIME ? 1e4 : 1000.0});  // stiff problems amplify rounding
  o.quads = c.chance(1, 3);
  Pb q;
  q.p = gen_prob(c, o);
  if (kind == UNITS) q.p.sn.clear();
  q.n = n;
  q.rho = 0;
  for (int i = 0; i < n; i++) {
    double s = 3 * q.p.cub[i] * 9;
    for (int j = 0; j < n; j++) s += std::fabs(q.p.A[i * n + j]);
    q.rho = std::max(q.rho, s + 1);
  }
  q.varrho = c.chance(1, 3) && kind != SHIFT && kind != PERM;
  q.x0 = kind == TRANS ? c.pick({1.0, -3.0, 0.5}) : c.pick({0.0, 1.0, -7.0});
  q.len = c.logu(0.01, 5);
  q.h0 = c.logu(1e-5, 5);
  q.atol = c.logu(kind == SHIFT ? 1e-5 : kind == UNITS || kind == TIME ? 1e-8 : 1e-7, 1e-2);
  q.rtol = kind == SHIFT ? 0 : c.chance(1, 3) ? 0 : c.logu(1e-8, 1e-2);
  q.shift.assign(n, 0);
  for (int i = 0; i < n; i++) q.y0.push_back(3 * c.sym());
  if (std::fabs(q.y0[0]) < 0.1) q.y0[0] = 1;
  static const char *nm[] = {"change of units", "unit of time", "permutation", "time translation", "copies", "shift of the unknowns"};
  c.desc << nm[kind] << " " << q.p.show() << " rho=" << q.rho << (q.varrho ? "(1+|y0|)" : "") << " y0=" << show(q.y0, n) << " h=" << q.h0 << " from " << q.x0 << " length=" << q.len << " atol=" << q.atol << " rtol=" << q.rtol;
  Pb b = q;
  double u = 1;
  std::vector<double> s(n, 1), d(n, 0);
  std::vector<int> perm(n);
  for (int i = 0; i < n; i++) perm[i] = i;
  if (kind == UNITS) {
    s.assign(n, std::ldexp(1.0, c.range(0, 80) - 40));
    c.desc << " by " << s[0];
    for (int i = 0; i < n; i++) {
      auto &g = b.p.g[i];
      g.p0 *= s[i], g.p1 *= s[i], g.p2 *= s[i], b.y0[i] *= s[i], b.p.cub[i] /= s[i] * s[i];
    }
    b.atol *= s[0];
    for (auto &t : b.p.quad) t.c *= s[t.i] / (s[t.a] * s[t.b]);
  } else if (kind == TIME) {
    u = std::ldexp(1.0, c.range(0, 70) - 50);
    c.desc << " by " << u;
    b.p.dir = u;
    b.rho *= u;
    b.x0 /= u;
    b.len /= u;
    b.h0 /= u;
  } else if (kind == PERM) {
    for (int i = n - 1; i > 0; i--) std::swap(perm[i], perm[c.choice(i)]);
    c.desc << " " << show(perm, n);
    for (int i = 0; i < n; i++) {
      for (int j = 0; j < n; j++) b.p.A[perm[i] * n + perm[j]] = q.p.A[i * n + j];
      b.p.cub[perm[i]] = q.p.cub[i];
      b.p.g[perm[i]] = q.p.g[i];
      b.y0[perm[i]] = q.y0[i];
    }
    for (auto *v : {&b.p.quad, &b.p.sn})
      for (auto &t : *v) { t.i = perm[t.i]; t.a = perm[t.a]; t.b = perm[t.b]; }
  } else if (kind == TRANS) {
    b.x0 += c.pick({2.0, 64.0, -0.125, 5.3});
    c.desc << " to " << b.x0;
  } else if (kind == COPIES) {
    b.copies = c.range(2, 5);
    c.desc << " " << b.copies;
  } else {
    for (int i = 0; i < n; i++) {
      d[i] = b.shift[i] = c.pick({1.0, -2.0, 0.25});
      b.y0[i] += d[i];
    }
    c.desc << " by " << show(d, n);
  }
  if (!ndiff) c.ready();
  Res A = go(q), B = go(b);
  bool same = A.rc == B.rc && A.nstep == B.nstep && A.nacc == B.nacc && A.nf == B.nf && A.nst == B.nst && A.nrho == B.nrho;
  if (ndiff) {
    *ndiff += !same;
    c.desc << "\n";
    return;
  }
  c.check((A.rc == 0) == (B.rc == 0), "status", "status ", A.rc, " and ", B.rc, " for the transformed problem");
  if (A.rc) c.discard();
  if (kind == TIME && std::max(A.nrej, B.nrej) >= 10) c.discard();  // after 10 rejections in place, the step is 1e-5: published
  double e = 0, sc = q.atol, e2 = 0;
  for (int i = 0; i < n; i++) sc = std::max(sc, q.atol + q.rtol * std::fabs(A.y[i]));
  for (int i = 0; i < n; i++) {
    e = std::max(e, std::fabs(A.y[i] - (B.y[perm[i]] / s[i] - d[i])));
    for (int k = 1; k < b.copies; k++) e2 = std::max(e2, std::fabs(B.y[k * n + i] - B.y[i]));
  }
  e /= sc;
  c.label(std::string(nm[kind]) + (same ? ", same steps" : ", different steps"));
  c.label(std::string(nm[kind]) + (e == 0 ? ", no difference" : e < 1e-6 ? ", difference<1e-6 tol" : e < 1 ? ", difference<tol" : ", difference>tol"));
  bool exact = kind == UNITS || kind == TIME;  // powers of 2
  int dn = std::abs(A.nstep - B.nstep);
  c.check(e2 == 0, "copies-differ", "copies of the same system differ by ", e2);
  c.check(dn <= (exact ? 2 + 0.02 * A.nstep : kind == SHIFT ? 100 + 2 * A.nstep : 20 + 0.5 * A.nstep), "different-work", nm[kind], ": ", A.nstep, " steps and ", B.nstep);
  c.check(e <= (exact ? 0.01 : 300), "different-solution", nm[kind], ": solutions differ by ", e, " times the tolerance: ", show(A.y, n), " and (transformed) ", show(B.y, b.n));
  if (exact) c.check(std::fabs(A.hlast - u * B.hlast) <= 1e-3 * A.hlast, "last-step", nm[kind], ": last steps reported: ", A.hlast, " and ", u * B.hlast);
  c.nontrivial(A.nacc >= 3);
}
// rounding seldom changes the work
static void similar(Case &c) {
  int nd = 0, kind = c.range(PERM, SHIFT);
  for (int k = 0; k < 10; k++) sym(c, kind, &nd);
  c.ready();
  c.nontrivial();
  c.label("of ten problems, " + std::to_string(nd) + " with another work");
  c.check(nd <= 7, "work-differs", nd, " of ten transformed problems take another number of steps, stages or evaluations");
}
int main(int argc, char **argv) {
  Property p;
  p.id = "K07";
  p.quick_cases = 100000;
  p.thorough_cases = 20000000;
  p.rule = "a random problem and its image under a symmetry; non-trivial: 3 accepted steps or more; similar: ten problems";
  static const char *nm[] = {"units", "time-unit", "permutation", "translation", "copies", "shift"};
  for (int k = 0; k < 6; k++) p.arms.push_back({nm[k], 1, [k](Case &c) { sym(c, k); }});
  p.arms.push_back({"similar", 1, similar});
  return run(argc, argv, p);
}
