// K05: Rock4 has order 4 for nonlinear problems, its error estimator order 3, at every degree.
#include "rock4.hpp"
using namespace pbt;
// elementary differentials up to order 5: a nilpotent polynomial system whose solution is polynomial
static void trees(Case &c) {
  // random coefficients, random starting values
  double a[8];
  for (double &v : a) v = c.uniform(0.5, 2) * (c.coin() ? 1 : -1);
  R4F F;
  F.n = 9;
  F.f = [&](const double *y, double *r) {
    r[0] = a[0];                  // t
    r[1] = a[1] * y[0];           // [t]
    r[2] = a[2] * y[0] * y[0];    // [t,t]
    r[3] = a[3] * y[1];           // [[t]]
    r[4] = a[4] * y[0] * y[0] * y[0];
    r[5] = a[5] * y[0] * y[1];
    r[6] = a[6] * y[2];
    r[7] = a[7] * y[3];
    r[8] = 0;
  };
  double h = c.logu(1e-3, 10);
  // the spectral radius that is announced selects the number of stages: 5 to 152
  int s = c.range(5, 152);
  double rho = ((s - 0.5) * (s - 0.5) * 0.353 - 3) / h;
  if (rho < 0) rho = 0;
  F.r = [&] { return rho; };
  std::vector<double> y0(9, 0);
  bool zero = c.coin();
  if (!zero)
    for (int i = 0; i < 9; i++) y0[i] = c.sym();
  double t0 = c.pick({0.0, 1.0, -3.0});
  c.desc << "h=" << h << " rho=" << rho << " (s=" << s << ") t0=" << t0 << " a=" << show(std::vector<double>(a, a + 8), 8) << " y0=" << show(y0, 9);
  c.ready();
  R4 R(F);
  R.setTolerances(1e30, 1e30);
  R4Vec y(y0);
  int rc = r4run(R, y, t0, t0 + h, h);
  c.check(rc == 0, "not-reached", rc == 1 ? "exception" : "no end");
  h = (t0 + h) - t0;
  c.check(R.NbSteps() == 1 && R.NbAccepted() == 1, "one-step", R.NbSteps(), " steps, ", R.NbRejected(), " rejected: with huge tolerances and one step to do");
  LD H = h;
  auto P = [&](std::initializer_list<LD> q) { return std::vector<LD>(q); };
  // polynomials in tau
  auto mul = [](const std::vector<LD> &u, const std::vector<LD> &v) {
    std::vector<LD> w(u.size() + v.size() - 1, 0);
    for (size_t i = 0; i < u.size(); i++)
      for (size_t j = 0; j < v.size(); j++) w[i + j] += u[i] * v[j];
    return w;
  };
  auto integ = [](const std::vector<LD> &u, LD k, LD c0) {
    std::vector<LD> w(1, c0);
    for (size_t i = 0; i < u.size(); i++) w.push_back(k * u[i] / (i + 1));
    return w;
  };
  std::vector<LD> p[9];
  p[0] = integ(P({1}), a[0], y0[0]);
  p[1] = integ(p[0], a[1], y0[1]);
  p[2] = integ(mul(p[0], p[0]), a[2], y0[2]);
  p[3] = integ(p[1], a[3], y0[3]);
  p[4] = integ(mul(p[0], mul(p[0], p[0])), a[4], y0[4]);
  p[5] = integ(mul(p[0], p[1]), a[5], y0[5]);
  p[6] = integ(p[2], a[6], y0[6]);
  p[7] = integ(p[3], a[7], y0[7]);
  p[8] = {(LD)y0[8]};
  static const char *nm[] = {"t", "[t]", "[t,t]", "[[t]]", "[t,t,t]", "[t,[t]]", "[[t,t]]", "[[[t]]]", "0"};
  double worst = 0;
  for (int i = 0; i < 9; i++) {
    LD e = 0, m = 0, q = 1;
    for (LD k : p[i]) e += k * q, m += std::fabs(k * q), q *= H;
    double d = (double)(std::fabs(y.p[i] - e) / (m + 1e-300));
    worst = std::max(worst, d);
    c.check(d <= 1e-10, "order-condition", "tree ", nm[i], ": relative error ", d, " with ", R.NbStages() + 4, " stages");
  }
  c.label(worst < 1e-13 ? "error<1e-13" : worst < 1e-12 ? "error<1e-12" : worst < 1e-11 ? "error<1e-11" : "error<1e-10");
  c.nontrivial();
}
// the estimator does not see errors where the embedded formula is exact (order 3),
// and sees the terms of order 4
static void estimator(Case &c) {
  double a[8];
  for (double &v : a) v = c.uniform(0.5, 2) * (c.coin() ? 1 : -1);
  bool four = c.coin();
  R4F F;
  F.n = 4;
  int which = c.range(0, 3);
  F.f = [&](const double *y, double *r) {
    r[0] = a[0];
    r[1] = a[1] * y[0];
    r[2] = a[2] * y[0] * y[0];
    r[3] = a[3] * y[1];
    if (four) {
      if (which == 0) r[3] = a[4] * y[0] * y[0] * y[0];
      if (which == 1) r[3] = a[5] * y[0] * y[1];
      if (which == 2) r[3] = a[6] * y[2];
      if (which == 3) { r[3] = a[7] * y[2]; r[2] = a[3] * y[1]; }
    }
  };
  double h = c.logu(1e-2, 10);
  int s = c.range(5, 152);
  double rho = std::max(0., ((s - 0.5) * (s - 0.5) * 0.353 - 3) / h);
  F.r = [&] { return rho; };
  std::vector<double> y0(4, 0);
  if (!four)
    for (auto &v : y0) v = c.sym();
  double tol = four ? 1e-12 : 1e-9;
  // absolute size of the result
  LD H = h, sz = 0;
  for (int k = 0; k <= 3; k++) sz = std::max(sz, powl(H, k));
  double at = tol * (double)sz * 20;
  c.desc << "h=" << h << " rho=" << rho << " (s=" << s << ") a=" << show(std::vector<double>(a, a + 8), 8) << " y0=" << show(y0, 4) << (four ? " order 4" : " order 3") << " case " << which;
  if (four) at = 1e-9 * std::pow(h, 4);
  c.desc << " atol=" << at;
  c.ready();
  R4 R(F);
  R.setTolerances(at, 0);
  R4Vec y(y0);
  F.maxcalls = four ? 3000 : 300000;
  int rc = r4run(R, y, 0, h, h);
  if (!four) {
    c.check(rc == 0, "not-reached", "no success");
    c.check(R.NbSteps() == 1 && R.NbAccepted() == 1, "estimator-order", R.NbSteps(), " steps: the estimated error of a problem that is solved exactly is larger than ", at);
  } else
    c.check(R.NbRejected() >= 1, "estimator-blind", "a step of ", h, " was accepted with tolerance ", at);
  c.nontrivial();
}
int main(int argc, char **argv) {
  Property p;
  p.id = "K05";
  p.quick_cases = 60000;
  p.thorough_cases = 20000000;
  p.rule = "trees: nilpotent polynomial systems containing all the elementary differentials up to order 4, random step, degree (all 50 of them) and coefficients: one step must be exact. estimator: problems of order 3 must be accepted, of order 4 rejected, with tiny tolerances. All are non-trivial";
  p.arms = {{"trees", 2, trees}, {"estimator", 1, estimator}};
  return run(argc, argv, p);
}
