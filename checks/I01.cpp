// I01: what the problem conserves linearly (mass, charge, momentum) is conserved to rounding.
#include "radau.hpp"
#include "rodas.hpp"
#include "rock4.hpp"
#include "scen_load.hpp"
using namespace pbt;
static const std::vector<RCfg> CR = {RFULL(2, false), RFULL(3, false), RFULL(5, false), RHESS(3, false), RHESS(5, false), RCFG(4, 1, 1, false, false), RCFG(5, 2, 1, false, false),
    RFULL(12, false), RCFG(17, 2, 2, false, false)};
static const std::vector<DCfg> CD = {DFULL(2, false, true, false, 1), DFULL(3, false, false, true, 2), DFULL(5, false, true, false, 3), DHESS(3, false, false, true, 1), DHESS(5, false, true, false, 2), DCFG(4, 1, 1, false, false, true, false, 3), DCFG(5, 1, 2, false, false, false, true, 1),
    DFULL(12, false, false, true, 2), DCFG(17, 2, 2, false, false, true, false, 3)};
static const char *bound(double q) { return q == 0 ? ": exactly conserved" : q < 1e-4 ? ": <0.01% of the bound" : q < 1e-3 ? ": <0.1% of the bound" : q < 1e-2 ? ": <1% of the bound" : q < 0.1 ? ": <10% of the bound" : ": >10% of the bound"; }
// reactions a -> b: r += k(t) y_a^p y_c^q (w_b e_... ), exactly of sum 0 with the weights w
struct React {
  int a, b, cat;
  double k, w, ph;
};
struct Net {
  int n;
  std::vector<double> wt;   // weights: small integers
  std::vector<React> R;
  double dir = 1, x0 = 0;
  template <class T> void rhs(T t, const T *y, T *r) const {
    using std::sin;
    t = (t - T(x0)) * T(dir);
    for (int i = 0; i < n; i++) r[i] = T(0);
    for (auto &q : R) {
      T v = T(dir * q.k) * y[q.a];
      if (q.cat >= 0) v = v * y[q.cat];
      if (q.w != 0) v = v * (T(1) + T(0.5) * sin(T(q.w) * t + T(q.ph)));
      r[q.a] -= T(wt[q.b]) * v;
      r[q.b] += T(wt[q.a]) * v;
    }
  }
  void jac(double t, const double *y, double *J, double *ft) const {
    std::vector<Dual> yy(n), r(n);
    for (int i = 0; i < n; i++) yy[i] = Dual(y[i]);
    if (J)
      for (int j = 0; j < n; j++) {
        yy[j].d = 1;
        rhs(Dual(t), yy.data(), r.data());
        yy[j].d = 0;
        for (int i = 0; i < n; i++) J[i * n + j] = r[i].d;
      }
    if (ft) {
      rhs(Dual(t, 1), yy.data(), r.data());
      for (int i = 0; i < n; i++) ft[i] = r[i].d;
    }
  }
  std::string show() const {
    std::ostringstream o;
    o.precision(17);
    o << "{n=" << n << " weights " << pbt::show(wt, n);
    for (auto &q : R) {
      o << "; " << q.a << "->" << q.b << " rate " << q.k << "*y" << q.a;
      if (q.cat >= 0) o << "*y" << q.cat;
      if (q.w != 0) o << "*(1+sin(" << q.w << "t+" << q.ph << ")/2)";
    }
    o << "}";
    return o.str();
  }
};
static Net gen_net(Case &c, int n, int ml, int mu, bool autonomous, double kmax) {
  Net p;
  p.n = n;
  for (int i = 0; i < n; i++) p.wt.push_back(c.range(1, 3));
  int m = c.range(n, 2 * n);
  auto in = [&](int i, int j) { return j >= i - ml && j <= i + mu; };
  for (int k = 0; k < m; k++) {
    React q;
    q.a = k < n ? k : c.choice(n - 1);
    q.b = (q.a + c.range(1, n - 1)) % n;
    q.cat = c.coin() ? c.choice(n - 1) : -1;
    q.k = c.coin() ? c.logu(0.1, 10) : c.logu(0.1, kmax);
    q.w = !autonomous && c.coin() ? c.uniform(0.5, 6) : 0;
    q.ph = q.w != 0 ? c.uniform(0, 3) : 0;
    // both columns must be in the structure declared, in both rows
    bool ok = in(q.b, q.a) && (q.cat < 0 || (in(q.a, q.cat) && in(q.b, q.cat)));
    if (!ok) q.cat = -1;
    if (in(q.b, q.a)) p.R.push_back(q);
  }
  if (p.R.empty()) p.R.push_back({0, 1, -1, 1, 0, 0});
  if (!in(1, 0)) c.discard();
  return p;
}
template <class Cfg> static void implicit(Case &c, const std::vector<Cfg> &CF, bool autonomous_of(const Cfg &), const char *who) {
  const Cfg &cf = pick_cf(c, CF);
  int n = cf.n;
  Net p = gen_net(c, n, cf.nsub, cf.nsup, autonomous_of(cf), c.coin() ? 1e6 : 100);
  p.dir = c.chance(1, 3) ? -1 : 1;
  Tol tol = gen_tol(c, n, 1e-6, 1e-2);
  p.x0 = c.pick({0.0, 1.0, -3.0});
  double len = c.logu(0.01, 10), h0 = c.logu(1e-5, 1);
  std::vector<double> y0(n);
  for (auto &v : y0) v = c.chance(1, 4) ? 0 : 2 * c.unit();
  double jn = c.chance(1, 4) ? c.pick({0.1, -0.2}) : 0;   // a wrong Jacobian that has the same left kernel
  c.desc << who << " " << cf.name() << " " << p.show() << " y0=" << show(y0, n) << " h=" << h0 << " x=" << p.x0 << " xend=" << p.x0 + p.dir * len << " " << tol.show();
  if (jn != 0) c.desc << " Jacobian times " << 1 + jn;
  c.ready();
  auto r = std::unique_ptr<typename std::remove_pointer<decltype(cf.make(true, nullptr, nullptr))>::type>(cf.make(tol.same, tol.a.data(), tol.r.data()));
  Prob dummy;
  dummy.n = n;
  new_hook(&dummy);
  Hook &H = hook();
  H.maxf = 20000;
  double ymax = 0, jmax = 0;
  H.f = [&](double t, const double *y, double *o) {
    p.rhs(t, y, o);
    for (int i = 0; i < n; i++) ymax = std::max(ymax, std::fabs(y[i]));
  };
  H.j = [&](double t, const double *y, double *J) {
    p.jac(t, y, J, nullptr);
    for (int i = 0; i < n * n; i++) jmax = std::max(jmax, std::fabs(J[i]));
  };
  H.ft = [&](double t, const double *y, double *f) { p.jac(t, y, nullptr, f); };
  H.jacnoise = jn;
  double x = p.x0;
  std::vector<double> y = y0;
  int rc = r->run(h0, x, p.x0 + p.dir * len, y.data());
  if (rc == 2 || !finite_all(y.data(), n) || ymax > 1e6) c.discard();
  auto st = r->stat();
  double I0 = 0, I1 = 0, W = 0, moved = 0;
  for (int i = 0; i < n; i++) {
    I0 += p.wt[i] * y0[i], I1 += p.wt[i] * y[i], W += p.wt[i];
    moved = std::max(moved, std::fabs(y[i] - y0[i]));
  }
  // rounding: of y at each step, of h J y in each step
  double lim = 2e-16 * W * ymax * n * (10 * (st.nstep + 1) + 30 * n * std::fabs(x - p.x0) * jmax);
  double tl = 0;
  for (int i = 0; i < n; i++) { double a = tol.a[tol.same ? 0 : i], q = tol.r[tol.same ? 0 : i]; tl = std::max(tl, a + q * ymax); }
  if (lim > 0.1 * tl) c.discard();
  double q = lim > 0 ? std::fabs(I1 - I0) / lim : 0;
  c.label(std::string(who) + (bound(q)));
  c.check(std::fabs(I1 - I0) <= lim, "not-conserved", who, ": sum of w_i*y_i goes from ", I0, " to ", I1, ", difference ", I1 - I0, " (rounding: at most ", lim, ")");
  c.nontrivial(st.naccpt >= 3 && moved > 100 * lim);
}
static void radau(Case &c) { implicit<RCfg>(c, CR, [](const RCfg &) { return false; }, "Radau5cc"); }
static void rodas(Case &c) { implicit<DCfg>(c, CD, [](const DCfg &k) { return k.autonomous; }, "Rodascc"); }
static void rock4(Case &c) {
  int n = c.pick({2, 3, 5, 12});
  Net p = gen_net(c, n, n, n, true, c.coin() ? 3e4 : 100);
  double x0 = c.pick({0.0, 2.0}), len = c.logu(0.01, 5), h0 = c.logu(1e-5, 1), tol = c.logu(1e-6, 1e-2);
  std::vector<double> y0(n);
  for (auto &v : y0) v = c.chance(1, 4) ? 0 : 2 * c.unit();
  double rho = 0;
  for (auto &q : p.R) rho += 2 * q.k * 3 * (q.cat >= 0 ? 8 : 1);
  c.desc << "Rock4 " << p.show() << " rho=" << rho << " y0=" << show(y0, n) << " h=" << h0 << " x=" << x0 << " length=" << len << " tol=" << tol;
  c.ready();
  R4F F;
  F.n = n;
  F.maxcalls = 30000;
  double ymax = 0;
  F.f = [&](const double *y, double *r) {
    p.rhs(0., y, r);
    for (int i = 0; i < n; i++) ymax = std::max(ymax, std::fabs(y[i]));
  };
  F.r = [&] { return rho; };
  R4 R(F);
  R.setTolerances(tol, tol);
  R4Vec v(y0);
  if (r4run(R, v, x0, x0 + len, h0)) c.discard();
  std::vector<double> y = v.get();
  if (!finite_all(y.data(), n) || ymax > 1e6) c.discard();
  double I0 = 0, I1 = 0, W = 0, moved = 0;
  for (int i = 0; i < n; i++) {
    I0 += p.wt[i] * y0[i], I1 += p.wt[i] * y[i], W += p.wt[i];
    moved = std::max(moved, std::fabs(y[i] - y0[i]));
  }
  // each stage rounds; in the recurrences the roundings add up (less than the square of the number of stages)
  double lim = 4e-17 * W * ymax * n * (10.0 * F.calls + 30 * len * rho);
  double q = lim > 0 ? std::fabs(I1 - I0) / lim : 0;
  if (lim > 0.1 * tol) c.discard();
  c.label(std::string("Rock4") + bound(q));
  c.check(std::fabs(I1 - I0) <= lim, "not-conserved", "Rock4: sum of w_i*y_i goes from ", I0, " to ", I1, ", difference ", I1 - I0, " (rounding: at most ", lim, ")");
  c.nontrivial(R.NbAccepted() >= 3 && moved > 100 * lim);
}
// exchanges between unknowns: weights of sum 0 in each column
static std::vector<double> gen_exchange(Case &c, int n, const std::vector<double> &w, double kmax) {
  std::vector<double> A(n * n, 0);
  int m = c.range(n, 2 * n);
  for (int k = 0; k < m; k++) {
    int a = k < n ? k : c.choice(n - 1), b = (a + c.range(1, n - 1)) % n;
    double v = std::ldexp(std::floor(std::ldexp(c.logu(0.1, kmax), 8)), -8);   // (products with the weights are exact)
    A[a * n + a] -= w[b] * v;
    A[b * n + a] += w[a] * v;
  }
  return A;
}
static scen::Plugin &plugin() {
  static scen::Plugin p("ref");
  return p;
}
static scen::Out OUT;
static void judge(Case &c, const char *who, double I0, double I1, double lim) {
  double q = lim > 0 ? std::fabs(I1 - I0) / lim : 0;
  c.label(std::string(who) + (bound(q)));
  c.check(std::fabs(I1 - I0) <= lim, "not-conserved", who, ": sum of w_i*y_i is ", I1, " instead of ", I0, ", difference ", I1 - I0, " (rounding: at most ", lim, ")");
}
// fixed steps: Rock4L, Sdirkl (with sources: the sum grows as it must), SymplecticRK
static void fixedstep(Case &c) {
  scen::In in;
  in.solver = c.range(3, 5);
  in.cfg = in.solver == 5 ? c.pick({1, 2, 3, 4, 6, 7}) : c.choice(scen::NCFG[in.solver] - 1);
  in.n = in.solver == 5 ? scen::SN[in.cfg] : c.pick({2, 3, 5, 9});
  int n = in.n;
  std::vector<double> w(n);
  for (auto &v : w) v = c.range(1, 3);
  for (int i = 0; i < n; i++) in.y0.push_back(c.sym()), in.phi.push_back(c.coin() ? c.sym() : 0);
  in.affine = in.solver == 3 ? in.cfg == 1 : c.coin();
  double I0 = 0, rate = 0, W = 0, ymax = 0, stiff = 0;
  c.desc << scen::SOLVER[in.solver] << " configuration " << in.cfg << " weights " << show(w, n) << " y0=" << show(in.y0, n);
  int nr = c.range(1, 3);
  for (int i = 0; i < n; i++) I0 += w[i] * in.y0[i], W += w[i];
  if (in.solver == 5) {
    in.q.n = n;
    in.q.A.assign(n * n, 0);
    in.q.g.assign(n, 0);
    auto dy = [&] { return std::ldexp((double)c.range(-40, 40), -6); };
    int m = c.range(1, 5);
    for (int k = 0; k < m; k++) {
      int a = c.choice(n - 1), b = (a + c.range(1, n - 1)) % n, i = c.choice(n - 1), j = c.choice(n - 1), l = c.choice(n - 1), d = c.range(0, 3);
      double v = dy();
      if (d == 0) in.q.g[a] -= w[b] * v, in.q.g[b] += w[a] * v;
      if (d == 1) in.q.A[a * n + i] -= w[b] * v, in.q.A[b * n + i] += w[a] * v;
      if (d == 2) in.q.q.push_back({a, i, j, -w[b] * v}), in.q.q.push_back({b, i, j, w[a] * v});
      if (d == 3) in.q.k.push_back({a, i, j, l, -w[b] * v}), in.q.k.push_back({b, i, j, l, w[a] * v});
    }
    c.desc << " " << in.q.show();
  } else {
    in.A = gen_exchange(c, n, w, c.coin() ? 10 : 3000);
    for (int j = 0; j < n; j++) stiff = std::max(stiff, std::fabs(in.A[j * n + j]));
    for (int j = 0; j < n; j++) {
      double s = 0;
      for (int i = 0; i < n; i++) s += std::fabs(in.A[i * n + j]);
      in.rho = std::max(in.rho, s);
    }
    in.dt = c.logu(1e-3, 1);
    if (in.affine)
      for (int i = 0; i < n; i++) rate += w[i] * in.phi[i];
    c.desc << " A=" << show(in.A, n * n) << " rho=" << in.rho << " dt=" << in.dt;
    if (in.affine) c.desc << " source " << show(in.phi, n);
  }
  for (int k = 0; k < nr; k++) {
    scen::Run r;
    r.x0 = 0;
    r.throw_at = -1;
    r.opt = in.solver == 3 ? 0 : c.range(0, 7);
    r.cont = k > 0;
    r.xend = c.logu(0.01, 2);
    r.h = in.solver == 5 ? c.sym() * 0.2 : std::min(c.logu(1e-3, 1), 5000 / in.rho);
    in.runs.push_back(r);
    c.desc << " run(" << (in.solver == 3 ? "length " : "steps ") << (in.solver == 3 ? r.xend : 1. + r.opt) << ",h=" << r.h << ")";
  }
  c.ready();
  plugin()(in, OUT);
  int p = 0;
  double T = 0;
  long nst = 0;
  bool moved = false;
  auto sum = [&](int at, int stride) {
    double s = 0, z = 0;
    for (int i = 0; i < n; i++) {
      double v = OUT.v[at + i * stride];
      s += w[i] * v;
      if (!std::isfinite(v) || std::fabs(v) >= 1e3) c.discard();   // (unstable: the eigenvalues of a network need not be real)
      ymax = std::max(ymax, std::fabs(v));
      z += std::fabs(v - in.y0[i]);
    }
    moved |= z > 1e-6;
    return s;
  };
  for (double v : in.y0) ymax = std::max(ymax, std::fabs(v));
  for (auto &k : in.runs) {
    if (in.solver == 3) {
      if (OUT.v[p++] != 0) c.discard();
      double s = sum(p, 1);
      p += 2 * n;
      nst += OUT.v[p] * OUT.v[p + 1];
      p += 5;
      T += k.xend;
      // (coefficients of 15 digits)
      judge(c, scen::SOLVER[in.solver], I0 + rate * T, s, 3e-16 * n * W * (ymax + std::fabs(rate) * T) * (10.0 * nst + 3 * T * stiff));
    } else if (in.solver == 4) {
      c.check(OUT.v[p++] == 0, "exception", "exception");
      double s = sum(p, 2);
      p += 2 * n;
      int m = 1 + k.opt;
      nst += m;
      T += m * in.dt;
      judge(c, scen::SOLVER[in.solver], I0 + rate * T, s, 3e-16 * n * W * (ymax + std::fabs(rate) * T) * (30.0 * nst + 3 * n * T * stiff));
    } else
      for (int m = 0; m < 1 + k.opt; m++) {
        bool ok = OUT.v[p + 1];
        p += 2;
        double s = sum(p, 2);
        for (int i = 0; i < n; i++) s += w[i] * OUT.v[p + 2 * i + 1];
        p += 2 * n + 1;
        nst++;
        judge(c, scen::SOLVER[in.solver], I0, s, 1e-15 * n * W * (4 * ymax + (in.first ? 10.0 : 10.0) * nst));
        if (!ok) c.label("no convergence");
      }
  }
  c.nontrivial(moved && nst >= 3);
}
int main(int argc, char **argv) {
  Property p;
  p.id = "I01";
  p.quick_cases = 60000;
  p.thorough_cases = 10000000;
  p.rule = "random networks of reactions (2 to 12 species, rates over 7 orders of magnitude, catalysis, rates that depend on time) that conserve a weighted sum, all structures of the Jacobian, exact or scaled Jacobians; non-trivial: 3 accepted steps or more, and the unknowns move";
  p.arms = {{"radau", 2, radau}, {"rodas", 2, rodas}, {"rock4", 1, rock4}, {"fixed", 2, fixedstep}};
  return run(argc, argv, p);
}
