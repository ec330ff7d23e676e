// R04: local error control and step size selection of Radau5cc.
#include "radau.hpp"
using namespace pbt;
static const std::vector<RCfg> CF = {RFULL(1, false), RFULL(2, false), RFULL(3, false), RCFG(4, 1, 1, false, false), RHESS(3, false),
    // seldom
    RFULL(11, false), RCFG(17, 2, 3, false, false)};
static const std::vector<RCfg> CFN = {RFULL(1, true), RFULL(2, false), RFULL(3, true), RCFG(4, 1, 1, false, false), RHESS(4, true)};
static const RadauTab TAB;
struct Opt {
  double safe = 0.9, facr = 8, facl = 0.2;
  bool gus = true;
  int nit = 7;
  std::string show() const {
    std::ostringstream o;
    o.precision(17);
    o << " safe=" << safe << " facr=" << facr << " facl=" << facl << " gustafsson=" << gus << " nit=" << nit;
    return o.str();
  }
};
static Opt gen_opt(Case &c, RadauBase &r) {
  Opt o;
  if (c.chance(1, 3)) r.safe(o.safe = c.uniform(0.5, 0.99));
  if (c.chance(1, 3)) { o.facr = c.uniform(1.3, 20); o.facl = c.uniform(0.05, 0.9); r.fac(o.facr, o.facl); }
  if (c.chance(1, 3)) r.gus(o.gus = false);
  if (c.chance(1, 3)) r.nit(o.nit = c.range(4, 12));
  return o;
}
// error estimator of Radau5 (Hairer-Wanner IV.8) for a problem whose Jacobian is J
struct Est {
  const Prob &p;
  const Tol &tol;
  std::vector<LD> y, z, f0, E, scal;
  LD x, h;
  int n;
  bool ok;
  Est(const Prob &p, const Tol &tol, double x, double h, const std::vector<double> &y0) : p(p), tol(tol), y(y0.begin(), y0.end()), x(x), h(h), n(p.n) {
    ok = irkLD(p, x, h, y, TAB.A, TAB.c, 3, z);
    f0.resize(n);
    p.rhs<LD>(x, y.data(), f0.data());
    for (int i = 0; i < n; i++) {
      double a, r;
      radau_inner_tol(tol, i, a, r);
      scal.push_back(a + r * std::fabs(y[i]));
    }
    LD g = (6 + cbrtl(81.0L) - cbrtl(9.0L)) / 30;
    std::vector<double> J(n * n), yd(y0);
    p.jac((double)x, yd.data(), J.data(), nullptr);
    E.assign(n * n, 0);
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) E[i * n + j] = (i == j ? 1 / (g * this->h) : 0) - (LD)J[i * n + j];
  }
  LD rms(std::vector<LD> v) {
    std::vector<LD> M = E;
    solveLD(M, v, n);
    last = v;
    LD s = 0;
    for (int i = 0; i < n; i++) s += (v[i] / scal[i]) * (v[i] / scal[i]);
    return std::sqrt(s / n);
  }
  std::vector<LD> last, aux;
  LD e1, e2;
  void compute() {
    LD s6 = std::sqrt((LD)6);
    LD d1 = -(13 + 7 * s6) / 3, d2 = (-13 + 7 * s6) / 3, d3 = -1 / 3.0L;
    std::vector<LD> F2(n), v(n), f(n);
    for (int i = 0; i < n; i++) {
      F2[i] = (d1 * z[i] + d2 * z[n + i] + d3 * z[2 * n + i]) / h;
      v[i] = F2[i] + f0[i];
    }
    e1 = rms(v);
    for (int i = 0; i < n; i++) v[i] = last[i] + y[i];
    aux = v;
    p.rhs<LD>(x, v.data(), f.data());
    for (int i = 0; i < n; i++) v[i] = f[i] + F2[i];
    e2 = rms(v);
  }
  double noise() const {
    double m = 0;
    for (int i = 0; i < n; i++) m = std::max(m, (double)(std::fabs(y[i]) / scal[i]));
    for (int i = 0; i < n; i++) m = std::max(m, (double)(std::fabs(f0[i] * h) / scal[i]));
    return 1e-12 * m;
  }
};
static void law(Case &c) {
  const RCfg &cf = pick_cf(c, CF);
  ProbOpt o;
  o.impulses = true;
  o.n = cf.n;
  o.ml = cf.nsub;
  o.mu = cf.nsup;
  o.linear = true;
  o.maxstiff = c.coin() ? 1e4 : 20;
  bool lng = getenv("PBT_LONG") || c.chance(1, 60);  // a run of hundreds of steps
  if (lng) o.wmax = 60;
  Prob p = gen_prob(c, o);
  p.dir = c.coin() ? -1 : 1;
  Tol tol = gen_tol(c, cf.n, 1e-7, 1e-2);
  double len = c.logu(0.1, 5), h0 = c.logu(1e-5, 1);
  if (lng) {
    len = c.uniform(5, 40);
    for (auto &v : tol.a) v = c.logu(1e-8, 1e-5);
    for (auto &v : tol.r) v = c.logu(1e-7, 1e-5);
  }
  // only the size of the step given matters
  int sg = c.chance(1, 4) ? -1 : 1;
  if (sg < 0) c.desc << "step given with the sign - ";
  std::vector<double> y0(cf.n);
  for (auto &v : y0) v = 2 * c.sym();
  RadauP r(cf.make(tol.same, tol.a.data(), tol.r.data()));
  Opt op = gen_opt(c, *r);
  double rt, ain;
  radau_inner_tol(tol, 0, ain, rt);
  double fn = std::max(1e-6, 1e-12 / rt);
  if (!r->fnewt(fn)) c.discard();
  c.desc << cf.name() << " " << p.show() << " y0=" << show(y0, cf.n) << " h=" << h0 << " xend=" << p.dir * len << " " << tol.show() << op.show();
  // the right-hand side may have a bounded domain, out of which it gives NaN
  double dom = INFINITY;
  if (c.chance(1, 3)) {
    dom = 0;
    for (double v : y0) dom = std::max(dom, std::fabs(v));
    dom += c.logu(1e-5, 1);
    c.desc << " NaN if |y|>" << dom;
  }
  c.ready();
  new_hook(&p);
  hook().rec = hook().recy = true;
  hook().maxf = 30000;
  hook().nan_above = dom;
  double x = 0, xend = p.dir * len;
  std::vector<double> y = y0;
  if (r->run(sg * h0, x, xend, y.data())) c.discard();
  std::vector<Attempt> at;
  if (!parse_radau(hook().calls, 0, x, at)) { c.label("calls not understood"); c.discard(); }
  // model
  bool first = true, reject = false;
  double hacc = 0, eacc_lo = 0, eacc_hi = 0;
  int nacc = 0;
  double h = std::min(h0, len);
  bool last = false;
  if (h * 1.0001 > len) { h = len; last = true; }
  double hlo = h * (1 - 1e-9), hhi = h * (1 + 1e-9), halt = h;  // admissible next steps
  for (size_t k = 0; k < at.size() && k < (lng ? 500 : 60); k++) {
    Attempt &a = at[k];
    double ha = a.h * p.dir;
    double slack = 4e-15 * std::fabs(a.x);  // h is known by a difference of times
    c.check((ha >= hlo - slack && ha <= hhi + slack) || std::fabs(ha - halt) <= 1e-9 * halt + slack, "step-law", "attempt ", k, " at x=", a.x, ": step ", ha, ", expected in [", hlo, ",", hhi, "]", last ? " or up to xend" : "", " previous attempt: h=", k ? at[k - 1].h : 0., k && at[k - 1].accepted ? " accepted" : " rejected");
    Est e(p, tol, a.x, a.h, hook().calls[a.base].y);
    if (!e.ok) { c.label("reference failed"); return; }
    e.compute();
    bool near = false;  // the stages leave the domain: Newton iterations may fail
    for (int i = 0; i < 3 * p.n; i++) near = near || std::fabs(e.y[i % p.n] + e.z[i]) > dom - 1e-3 * dom;
    if (near) { c.label("stages outside of the domain"); return; }
    double err = (double)e.e1, nz = e.noise() + 3 * fn * (a.newt < 2);
    bool tie = std::fabs(err - 1) < 0.01 + nz;
    if (err >= 1 && (first || reject)) {
      if (tie) { c.label("tie"); return; }
      double vm = 0;
      for (auto v : e.aux) vm = std::max(vm, (double)std::fabs(v));
      if (vm > dom * 0.999) {
        if (vm < dom * 1.001) return;
        c.label("estimator outside of the domain");
        c.check(!a.accepted, "accepted-without-estimate", "attempt ", k, " at x=", a.x, " h=", a.h, ": estimated error ", err, ", the second estimate is NaN; the step is accepted");
        return;
      }
      err = (double)e.e2;
    }
    if (std::fabs(err - 1) < 0.01 + nz) { c.label("tie"); return; }
    if (dom < INFINITY && !a.accepted) { c.label("Newton iterates outside of the domain"); return; }
    c.check((err < 1) == a.accepted, err < 1 ? "rejected-though-accurate" : "accepted-though-inaccurate", "attempt ", k, " at x=", a.x, " h=", a.h, ": estimated error ", err, " (1 is the limit), ", a.accepted ? "accepted" : "rejected", " first=", first, " reject=", reject);
    double elo = std::max(1e-10, err * 0.999 - nz), ehi = std::max(1e-10, err * 1.001 + nz);
    double fac = std::min(op.safe, op.safe * (1 + 2 * op.nit) / (a.newt + 2 * op.nit));
    auto clampq = [&](double q) { return std::max(1 / op.facr, std::min(1 / op.facl, q)); };
    double qlo = clampq(std::pow(elo, 0.25) / fac), qhi = clampq(std::pow(ehi, 0.25) / fac);
    c.label(qhi == 1 / op.facr ? "growth limited by facr" : qlo == 1 / op.facl ? "reduction limited by facl" : "free");
    if (a.accepted) {
      first = false;
      ++nacc;
      if (op.gus) {
        if (nacc > 1) {
          double glo = clampq(hacc / ha * std::pow(elo * elo / eacc_hi, 0.25) / op.safe), ghi = clampq(hacc / ha * std::pow(ehi * ehi / eacc_lo, 0.25) / op.safe);
          if (glo > qhi) c.label("Gustafsson's prediction is used");
          qlo = std::max(qlo, glo);
          qhi = std::max(qhi, ghi);
        }
        hacc = ha;
        eacc_lo = std::max(0.01, elo);
        eacc_hi = std::max(0.01, ehi);
      }
      double xn = std::fabs(a.x + a.h);
      hlo = std::min(ha / qhi, len) * (1 - 1e-6);
      hhi = std::min(ha / qlo, len) * (1 + 1e-6);
      if (reject) { hlo = std::min(hlo, ha * (1 - 1e-9)); hhi = std::min(hhi, ha * (1 + 1e-9)); }
      reject = false;
      // the step is kept if it could only grow a little
      halt = hhi >= ha && hlo <= 1.2 * ha ? ha : hlo;
      bool keep_sure = hlo > ha * (1 + 1e-9) && hhi < 1.2 * ha * (1 - 1e-9);
      last = false;
      double rest = len - xn;
      if (hhi >= rest) {
        last = true;
        if (hlo >= rest) { hlo = rest * (1 - 1e-9); hhi = rest * (1 + 1e-9); halt = rest; }
        else { hhi = rest * (1 + 1e-9); halt = ha; }
      } else if (keep_sure) {
        c.label("step kept");
        hlo = hhi = halt = ha;
      }
    } else {
      reject = true;
      c.label(first ? "rejected first step" : "rejected step");
      if (first) { hlo = ha * 0.1 * (1 - 1e-9); hhi = ha * 0.1 * (1 + 1e-9); }
      else { hlo = ha / qhi * (1 - 1e-6); hhi = ha / qlo * (1 + 1e-6); }
      halt = hlo;
    }
  }
  c.nontrivial(nacc >= 3);
}
// limits that hold for any problem
static void bounds(Case &c) {
  const RCfg &cf = pick_cf(c, CFN);
  ProbOpt o;
  o.impulses = true;
  o.n = cf.n;
  o.ml = cf.nsub;
  o.mu = cf.nsup;
  o.maxstiff = 1e4;
  Prob p = gen_prob(c, o);
  p.dir = c.coin() ? -1 : 1;
  Tol tol = gen_tol(c, cf.n, 1e-7, 1e-2);
  double len = c.logu(0.1, 5), h0 = c.logu(1e-5, 10);
  // only the size of the step given matters
  int sg = c.chance(1, 4) ? -1 : 1;
  if (sg < 0) c.desc << "step given with the sign - ";
  std::vector<double> y0(cf.n);
  for (auto &v : y0) v = 3 * c.sym();
  RadauP r(cf.make(tol.same, tol.a.data(), tol.r.data()));
  Opt op = gen_opt(c, *r);
  c.desc << cf.name() << " " << p.show() << " y0=" << show(y0, cf.n) << " h=" << h0 << " xend=" << p.dir * len << " " << tol.show() << op.show();
  c.ready();
  new_hook(&p);
  hook().rec = hook().recy = true;
  hook().maxf = 30000;
  double x = 0, xend = p.dir * len;
  std::vector<double> y = y0;
  int rc = r->run(sg * h0, x, xend, y.data());
  for (auto &k : hook().calls) c.check(k.t * p.dir >= 0 && k.t * p.dir <= len * (1 + 1e-12), "outside", "right-hand side evaluated at t=", k.t, " outside of the interval");
  if (rc) c.discard();
  std::vector<Attempt> at;
  if (!parse_radau(hook().calls, 0, x, at)) { c.label("calls not understood"); c.discard(); }
  bool rej = false;
  int nacc = 0;
  for (size_t k = 0; k + 1 < at.size(); k++) {
    double q = at[k + 1].h / at[k].h;
    bool tolast = std::fabs(at[k + 1].x + at[k + 1].h - xend) <= 1e-12 * len;
    std::ostringstream w;
    w.precision(17);
    // h is known by a difference of times
    double g = 1e-12 + 2e-15 * std::fabs(at[k].x) / std::min(std::fabs(at[k].h), std::fabs(at[k + 1].h));
    w << "attempt " << k << " x=" << at[k].x << " h=" << at[k].h << (at[k].accepted ? " accepted" : " rejected") << ", next h=" << at[k + 1].h;
    if (at[k].accepted) {
      c.check(q <= op.facr * (1 + g), "facr", "step multiplied by more than facr: ", w.str());
      c.check(q >= op.facl * (1 - g) || tolast, "facl", "step reduced by more than facl: ", w.str());
      c.check(!rej || q <= 1 + g, "growth-after-reject", "the step grows just after a rejection: ", w.str());
      rej = false;
      nacc++;
    } else {
      rej = true;
      c.check(q < 1, "no-reduction", "a step which was not accepted is not reduced: ", w.str());
    }
  }
  c.nontrivial(nacc >= 3);
}
int main(int argc, char **argv) {
  Property p;
  p.id = "R04";
  p.quick_cases = 60000;
  p.thorough_cases = 10000000;
  p.rule = "law: linear problems with random structure, scalar or vector tolerances, safety factor, step limits, Gustafsson's control on or off; for every attempted step the error estimate is computed in long double and decides whether it must be accepted and what the next step must be. bounds: non linear problems, limits on the steps. Non-trivial: 3 accepted steps or more";
  p.arms = {{"law", 2, law}, {"bounds", 1, bounds}};
  return run(argc, argv, p);
}
