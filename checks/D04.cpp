// D04: local error control and step size selection of Rodascc.
#include "rodas.hpp"
using namespace pbt;
static const std::vector<DCfg> CF = {DFULL(1, false, false, true, 1), DFULL(2, false, false, true, 2), DFULL(2, false, true, true, 1), DFULL(3, false, false, true, 3),
                                     DCFG(4, 1, 1, false, false, false, true, 1), DCFG(5, 1, 2, false, false, true, true, 3), DHESS(3, false, false, true, 2), DHESS(4, false, true, true, 3),
    // seldom
    DFULL(11, false, false, true, 1), DCFG(17, 2, 3, false, false, true, true, 2)};
static const std::vector<DCfg> CFN = {DFULL(1, true, false, false, 1), DFULL(2, false, false, false, 2), DFULL(3, true, true, true, 3), DCFG(4, 1, 1, false, true, false, true, 1), DHESS(4, true, false, false, 2)};
struct Opt {
  double safe = 0.9;
  bool gus = true;
  std::string show() const {
    std::ostringstream o;
    o.precision(17);
    o << " safe=" << safe << " gustafsson=" << gus;
    return o.str();
  }
};
static Opt gen_opt(Case &c, RodasBase &r) {
  Opt o;
  if (c.chance(1, 3)) r.safe(o.safe = c.uniform(0.5, 0.99));
  if (c.chance(1, 3)) r.gus(o.gus = false);
  return o;
}
static double clampq(double q) { return std::max(1. / 6, std::min(5., q)); }
static void law(Case &c) {
  const DCfg &cf = pick_cf(c, CF);
  ProbOpt o;
  o.impulses = true;
  o.n = cf.n;
  o.ml = cf.nsub;
  o.mu = cf.nsup;
  o.linear = c.coin();
  o.autonomous = cf.autonomous;
  o.maxstiff = c.coin() ? 1e4 : 20;
  bool lng = getenv("PBT_LONG") || c.chance(1, 60);  // a run of hundreds of steps
  if (lng) o.wmax = 60;
  Prob p = gen_prob(c, o);
  p.dir = c.coin() ? -1 : 1;
  Tol tol = gen_tol(c, cf.n, 1e-7, 1e-2);
  double len = c.logu(0.1, 5), h0 = c.logu(1e-5, 1);
  if (lng) {
    len = c.uniform(5, 40);
    for (auto &v : tol.a) v = c.logu(1e-8, 1e-5);
    for (auto &v : tol.r) v = c.logu(1e-7, 1e-5);
  }
  // only the size of the step given matters
  int sg = c.chance(1, 4) ? -1 : 1;
  if (sg < 0) c.desc << "step given with the sign - ";
  double x0 = c.pick({0.0, 0.0, 1.0, -2.0});
  p.t0 = x0;
  std::vector<double> y0(cf.n);
  for (auto &v : y0) v = 2 * c.sym();
  RodasP r(cf.make(tol.same, tol.a.data(), tol.r.data()));
  Opt op = gen_opt(c, *r);
  double xend = x0 + p.dir * len;
  c.desc << cf.name() << " " << p.show() << " y0=" << show(y0, cf.n) << " h=" << h0 << " x=" << x0 << " xend=" << xend << " " << tol.show() << op.show();
  c.ready();
  new_hook(&p);
  hook().rec = hook().recy = true;
  hook().maxf = 20000;
  double x = x0;
  std::vector<double> y = y0;
  if (r->run(sg * h0, x, xend, y.data())) c.discard();
  std::vector<DAttempt> at;
  if (!parse_rodas(hook().calls, x0, x, cf.meth, at)) { c.label("calls not understood"); c.discard(); }
  len = std::fabs(xend - x0);
  bool reject = false;
  double hacc = 0, eacc_lo = 0, eacc_hi = 0;
  int nacc = 0;
  double hlo = std::min(h0, len), hhi = hlo;
  bool lastp = false;
  if (hlo * 1.0001 > len) { hlo = hhi = len; lastp = true; }
  double plo = 0, phi = 0;
  for (size_t k = 0; k < at.size() && k < (lng ? 700 : 60); k++) {
    DAttempt &a = at[k];
    double ha = a.h * p.dir, slack = 1e-9 * ha + 4e-15 * (std::fabs(a.x) + std::fabs(x0));
    c.check(ha >= hlo - slack && ha <= hhi + slack, "step-law", "attempt ", k, " at x=", a.x, ": step ", ha, ", expected in [", hlo, ",", hhi, "]", lastp ? " (up to xend)" : "", " previous attempt: h=", k ? at[k - 1].h : 0., k && at[k - 1].accepted ? " accepted" : " rejected");
    std::vector<double> &yb = hook().calls[a.base].y;
    std::vector<LD> yl(yb.begin(), yb.end()), y1, ev;
    if (!rosLD(p, rostab(cf.meth), a.x, a.h, yl, y1, ev, cf.autonomous)) { c.label("reference failed"); return; }
    for (LD v : y1)
      if (!(fabsl(v) < 1e100L)) { c.label("overflow"); return; }
    double err = 0, nz = 0;
    // rounding errors of the stages, relative to the scale
    for (int i = 0; i < p.n; i++) {
      int j = tol.same ? 0 : i;
      double q = tol.a[j] + tol.r[j] * std::max(std::fabs((double)yl[i]), std::fabs((double)y1[i]));
      err += std::pow((double)ev[i] / q, 2);
      double m = 0;
      for (int l = 0; l < p.n; l++) m = std::max(m, std::fabs((double)yl[l]) + std::fabs((double)y1[l]));
      nz = std::max(nz, 1e-12 * (m + 1 + std::fabs(a.x)) / q);
    }
    err = std::sqrt(err / p.n);
    if (nz > 1e-3) { c.label("rounding errors"); return; }
    if (std::fabs(err - 1) < 1e-4 + nz) { c.label("tie"); return; }
    c.check((err < 1) == a.accepted, err < 1 ? "rejected-though-accurate" : "accepted-though-inaccurate", "attempt ", k, " at x=", a.x, " h=", a.h, ": estimated error ", err, " (1 is the limit), ", a.accepted ? "accepted" : "rejected");
    double elo = std::max(0., err * 0.99999 - nz), ehi = err * 1.00001 + nz;
    double qlo = clampq(std::pow(elo, 0.25) / op.safe), qhi = clampq(std::pow(ehi, 0.25) / op.safe);
    c.label(qhi == 1. / 6 ? "growth limited" : qlo == 5 ? "reduction limited" : "free");
    lastp = false;
    if (a.accepted) {
      ++nacc;
      if (op.gus) {
        if (nacc > 1) {
          double glo = clampq(hacc / ha * std::pow(elo * elo / eacc_hi, 0.25) / op.safe), ghi = clampq(hacc / ha * std::pow(ehi * ehi / eacc_lo, 0.25) / op.safe);
          if (glo > qhi) c.label("Gustafsson's prediction is used");
          qlo = std::max(qlo, glo);
          qhi = std::max(qhi, ghi);
        }
        hacc = ha;
        eacc_lo = std::max(0.01, elo);
        eacc_hi = std::max(0.01, ehi);
      }
      hlo = std::min(ha / qhi, len);
      hhi = std::min(ha / qlo, len);
      if (reject) { hlo = std::min(hlo, ha); hhi = std::min(hhi, ha); c.label("no growth after a rejection"); }
      reject = false;
      plo = hlo;
      phi = hhi;
      double rest = (xend - (a.x + a.h)) * p.dir;
      if (hhi * 1.0001 >= rest * (1 - 1e-9)) {
        lastp = true;
        if (hlo * 1.0001 > rest * (1 + 1e-9)) hlo = hhi = rest;
        else hhi = std::max(hhi, rest);
      }
    } else {
      reject = true;
      c.label("rejected step");
      hlo = ha / qhi;
      hhi = ha / qlo;
    }
  }
  if (at.size() <= 60) {  // the step reported is the one that would come next
    double hl = r->stat().hlast * p.dir;
    c.check(hl >= plo * (1 - 1e-6) && hl <= phi * (1 + 1e-6), "last-step", "step reported in the end: ", hl, ", expected in [", plo, ",", phi, "]");
  }
  c.nontrivial(nacc >= 3);
}
// limits that hold for any problem
static void bounds(Case &c) {
  const DCfg &cf = pick_cf(c, CFN);
  ProbOpt o;
  o.impulses = true;
  o.n = cf.n;
  o.ml = cf.nsub;
  o.mu = cf.nsup;
  o.autonomous = cf.autonomous;
  o.maxstiff = 1e4;
  Prob p = gen_prob(c, o);
  p.dir = c.coin() ? -1 : 1;
  Tol tol = gen_tol(c, cf.n, 1e-7, 1e-2);
  double len = c.logu(0.1, 5), h0 = c.logu(1e-5, 10);
  // only the size of the step given matters
  int sg = c.chance(1, 4) ? -1 : 1;
  if (sg < 0) c.desc << "step given with the sign - ";
  std::vector<double> y0(cf.n);
  for (auto &v : y0) v = 3 * c.sym();
  RodasP r(cf.make(tol.same, tol.a.data(), tol.r.data()));
  Opt op = gen_opt(c, *r);
  double xend = p.dir * len;
  c.desc << cf.name() << " " << p.show() << " y0=" << show(y0, cf.n) << " h=" << h0 << " xend=" << xend << " " << tol.show() << op.show();
  c.ready();
  new_hook(&p);
  hook().rec = true;
  hook().maxf = 30000;
  double x = 0;
  std::vector<double> y = y0;
  int rc = r->run(sg * h0, x, xend, y.data());
  for (auto &k : hook().calls) {
    // the numerical derivative with respect to time looks a little further
    double d = cf.autonomous || cf.dft ? 0 : 2e-8 * (1 + std::sqrt(std::fabs(k.t)));
    c.check(k.t * p.dir >= -1e-12 * len - d && k.t * p.dir <= len * (1 + 1e-12) + d, "outside", "right-hand side evaluated at t=", k.t, " outside of the interval");
  }
  if (rc) c.discard();
  std::vector<DAttempt> at;
  if (!parse_rodas(hook().calls, 0, x, cf.meth, at)) { c.label("calls not understood"); c.discard(); }
  bool rej = false;
  int nacc = 0;
  for (size_t k = 0; k + 1 < at.size(); k++) {
    double q = at[k + 1].h / at[k].h;
    bool tolast = std::fabs(at[k + 1].x + at[k + 1].h - xend) <= 1e-12 * len;
    std::ostringstream w;
    w.precision(17);
    w << "attempt " << k << " x=" << at[k].x << " h=" << at[k].h << (at[k].accepted ? " accepted" : " rejected") << ", next h=" << at[k + 1].h;
    // reaching xend can stretch the last step by 0.01 per cent
    double g = 1 + 1e-6 + (tolast ? 1e-4 : 0);
    if (at[k].accepted) {
      c.check(q <= 6 * g, "growth", "step multiplied by more than 6: ", w.str());
      c.check(q >= 0.2 * (1 - 1e-6) || tolast, "reduction", "step divided by more than 5: ", w.str());
      c.check(!rej || q <= g, "growth-after-reject", "the step grows just after a rejection: ", w.str());
      rej = false;
      nacc++;
    } else {
      rej = true;
      c.check(q < 1, "no-reduction", "a step which was rejected is not reduced: ", w.str());
      c.check(q >= 0.2 * (1 - 1e-6), "reduction", "step divided by more than 5: ", w.str());
    }
  }
  c.nontrivial(nacc >= 3);
}
int main(int argc, char **argv) {
  Property p;
  p.id = "D04";
  p.quick_cases = 100000;
  p.thorough_cases = 10000000;
  p.rule = "law: problems with random structure, scalar or vector tolerances, safety factor, Gustafsson's control on or off; for every attempted step the Rosenbrock step is done in long double, and decides whether it must be accepted and what the next step must be. bounds: limits on the steps. Non-trivial: 3 accepted steps or more";
  p.arms = {{"law", 2, law}, {"bounds", 1, bounds}};
  return run(argc, argv, p);
}
