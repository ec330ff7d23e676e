// D06: a Rodascc object can be reused; its counters and its log tell what happened.
#include "rodas.hpp"
using namespace pbt;
static const std::vector<DCfg> CF = {DFULL(1, false, false, true, 1), DFULL(2, true, true, true, 2), DFULL(2, true, false, false, 3), DFULL(3, false, false, true, 3),
                                     DCFG(4, 1, 1, false, false, false, true, 1), DCFG(4, 2, 1, false, true, true, true, 3), DHESS(3, true, false, false, 2), DHESS(4, false, true, true, 1),
    // seldom
    DFULL(10, true, true, true, 2), DCFG(17, 2, 1, false, true, false, true, 3)};
static void counters(Case &c) {
  const DCfg &cf = pick_cf(c, CF);
  int n = cf.n;
  ProbOpt o;
  o.impulses = true;
  o.n = n;
  o.ml = cf.nsub;
  o.mu = cf.nsup;
  o.linear = c.chance(1, 4);
  o.autonomous = cf.autonomous;
  o.maxstiff = c.coin() ? 1e4 : 50;
  bool lng = getenv("PBT_LONG") || c.chance(1, 60);  // a run of hundreds of steps
  if (lng) o.wmax = 60, o.quads = false;
  Prob p = gen_prob(c, o);
  p.dir = c.coin() ? -1 : 1;
  for (auto &v : p.cub) v *= c.pick({1.0, 1.0, 50.0});
  Tol tol = gen_tol(c, n, 1e-7, 1e-2);
  double len = c.logu(0.05, 20), h0 = c.logu(1e-5, 20);
  if (lng) {
    len = c.uniform(5, 40);
    for (auto &v : tol.a) v = c.logu(1e-8, 1e-5);
    for (auto &v : tol.r) v = c.logu(1e-7, 1e-5);
  }
  // only the size of the step given matters
  int sg = c.chance(1, 4) ? -1 : 1;
  if (sg < 0) c.desc << "step given with the sign - ";
  double x0 = c.pick({0.0, 1.0, -7.0});
  p.t0 = x0;
  std::vector<double> y0(n);
  for (auto &v : y0) v = 5 * c.sym();
  bool one = c.chance(1, 5);
  RodasP r(cf.make(tol.same, tol.a.data(), tol.r.data()));
  r->one(one);
  double xend = x0 + p.dir * len;
  c.desc << cf.name() << " " << p.show() << " y0=" << show(y0, n) << " h=" << h0 << " x=" << x0 << " xend=" << xend << " " << tol.show() << (one ? " one step" : "");
  c.ready();
  new_hook(&p);
  Hook &H = hook();
  H.rec = true;
  H.maxf = 20000;
  double x = x0;
  std::vector<double> y = y0;
  if (r->run(sg * h0, x, xend, y.data())) c.discard();
  RodasStat s = r->stat();
  std::vector<DAttempt> at;
  if (!parse_rodas(H.calls, x0, x, cf.meth, at)) { c.label("calls not understood"); c.discard(); }
  int na = 0, rej = 0;
  double hf = 0;
  for (auto &a : at) {
    if (a.accepted && !na) hf = a.h;
    if (!a.accepted && na) rej++;
    na += a.accepted;
  }
  c.label(rej ? "rejections" : "no rejection");
  c.check(s.nstep == (int)at.size(), "nstep", "getNstep()=", s.nstep, ", attempts seen: ", at.size());
  c.check(s.naccpt == na, "naccpt", "getNaccpt()=", s.naccpt, ", seen: ", na);
  c.check(s.nrejct == rej, "nrejct", "getNrejct()=", s.nrejct, ", rejections seen after the first accepted step: ", rej);
  c.check(s.njac == na, "njac", "getNJac()=", s.njac, ", one for each of the ", na, " accepted steps is needed");
  if (!cf.num) c.check(s.njac == H.nj, "njac-seen", "getNJac()=", s.njac, ", evaluations: ", H.nj);
  c.check(s.ndec == (int)at.size(), "ndec", "getNdec()=", s.ndec, ", one for each of the ", at.size(), " attempts is needed");
  c.check(std::fabs(s.hfirst - hf) <= 1e-12 * std::fabs(hf) + 4e-16 * std::fabs(x0), "first-step", "getfirstAcceptedStep()=", s.hfirst, ", seen: ", hf);
  c.check(s.hlast * p.dir > 0 && std::fabs(s.hlast) <= len * (1 + 1e-12) + 1e-15 * std::fabs(x0), "last-step", "getLastTimeStep()=", s.hlast);
  if (one) {
    c.check(na == 1, "one-step", na, " steps accepted although performOnlyOneStep(true)");
    c.check(std::fabs(x - x0 - hf) <= 1e-12 * std::fabs(hf) + 4e-16 * std::fabs(x0), "one-step-x", "x=", x, " after one step of ", hf);
  }
  // log: the steps at the beginning of each step
  std::string log = r->log();
  std::istringstream is(log);
  std::string line;
  std::vector<double> lx, lh;
  while (std::getline(is, line)) {
    size_t a = line.find("Time: "), b = line.find("new step: ");
    c.check(line.find("Event: changedH") != std::string::npos && a != std::string::npos && b != std::string::npos, "log-line", "log line ", line);
    lx.push_back(atof(line.c_str() + a + 6));
    lh.push_back(atof(line.c_str() + b + 10));
  }
  // (the log has 6 decimals)
  auto near = [](double a, double b) { return std::fabs(a - b) <= 1.1e-6 + 1e-12 * std::fabs(b); };
  c.check(!lh.empty() && near(lh[0], sg * h0) && near(lx[0], x0), "log-first", "the log does not start with h=", h0);
  // the last step that was logged before the first attempt at some x is the one used
  size_t li = 0;
  bool fresh = true;
  for (auto &a : at) {
    if (fresh) {
      bool found = false;
      while (li < lh.size() && !found) {
        found = near(lx[li], a.x) && near(lh[li], a.h);
        ++li;
      }
      c.check(found, "log-step", "at x=", a.x, " the step is ", a.h, ": not in the log, or not in this order");
    }
    fresh = a.accepted;
  }
  c.check(near(lh.back(), at.back().h) || !at.back().accepted || (at.size() > 1 && !at[at.size() - 2].accepted), "log-last", "the last step in the log is ", lh.back(), ", the last step was ", at.back().h);
  c.nontrivial(at.size() >= 4);
}
// an object that went through a history gives what a fresh one gives
static void reuse(Case &c) {
  const DCfg &cf = pick_cf(c, CF);
  int n = cf.n;
  Tol tol = gen_tol(c, n, 1e-7, 1e-2);
  RodasP r(cf.make(tol.same, tol.a.data(), tol.r.data()));
  int k = c.range(1, 4);
  c.desc << cf.name() << " constructed with " << tol.show();
  bool one = false, gus = true, hist = false;
  int nmax = 10000;
  double safe = 0.9;
  // runs may repeat parts of the preceding one (problem, initial values, interval, step), or go on from its end;
  // the object with a history is always given the same array
  Prob p;
  double len = 0, h0 = 0, x0 = 0, xe = 0;
  std::vector<double> y0(n), ya(n);
  for (int i = 0; i <= k; i++) {
    bool lastrun = i == k;
    if (c.chance(1, 3)) { tol = gen_tol(c, n, 1e-7, 1e-2); r->tol(tol.same, tol.a.data(), tol.r.data()); c.desc << "\n setTestPolicy " << tol.show(); }
    if (c.chance(1, 3)) { one = c.coin(); r->one(one); c.desc << " one=" << one; }
    if (c.chance(1, 4)) { gus = c.coin(); r->gus(gus); c.desc << " gus=" << gus; }
    if (c.chance(1, 4)) { nmax = c.pick({10000, 5, 30}); r->nmax(nmax); c.desc << " nmax=" << nmax; }
    if (c.chance(1, 4)) { safe = c.uniform(0.5, 0.95); r->safe(safe); c.desc << " safe=" << safe; }
    bool related = i && c.chance(2, 3);
    bool sameP = related && !c.chance(1, 4), sameI = related && !c.chance(1, 4), sameY = related && !c.chance(1, 4), goOn = related && c.chance(1, 4);
    if (!sameP) {
      ProbOpt o;
  o.impulses = true;
      o.n = n;
      o.ml = cf.nsub;
      o.mu = cf.nsup;
      o.linear = c.chance(1, 4);
      o.autonomous = cf.autonomous;
      o.maxstiff = c.coin() ? 1e4 : 50;
  p = gen_prob(c, o);
      p.dir = c.coin() ? -1 : 1;
    }
    if (!sameI) len = c.logu(0.05, 5), h0 = c.logu(1e-5, 5);
    if (!sameY)
      for (auto &v : y0) v = 3 * c.sym();
    x0 = 0;
    if (goOn && std::isfinite(xe)) {
      x0 = xe, c.desc << "\n going on";
      bool fin = true;
      for (auto &v : ya) fin = fin && std::fabs(v) < 10;
      if (fin) y0 = ya;
    }
    int fault = lastrun ? 0 : c.range(0, 3);
    int at = c.range(1, 60);
    bool empty = c.chance(1, 8);   // an interval of length 0
    double xe0 = empty ? x0 : x0 + p.dir * len;
    c.desc << "\n run " << p.show() << " y0=" << show(y0, n) << " h=" << h0 << " x=" << x0 << " xend=" << xe0;
    if (fault == 1) c.desc << " NaN from call " << at;
    if (fault == 2) c.desc << " exception at call " << at;
    if (lastrun) c.ready();
    auto go = [&](RodasBase &q, double &x, std::vector<double> &y) {
      new_hook(&p);
      hook().maxf = lastrun ? 8000 : 1500;
      if (fault == 1) hook().nanfrom = at;
      if (fault == 2) hook().maxf = at;
      x = x0;
      y = y0;
      return q.run(h0, x, xe0, y.data());
    };
    double x1, x2;
    std::vector<double> y2;
    int rc = go(*r, x1, ya);
    xe = x1;
    if (!lastrun) {
      c.label(rc == 0 ? "history: run" : rc == 1 ? "history: exception" : "history: interrupted");
      hist = true;
      continue;
    }
    RodasStat s1 = r->stat();
    RodasP f(cf.make(tol.same, tol.a.data(), tol.r.data()));
    f->one(one);
    f->gus(gus);
    f->nmax(nmax);
    f->safe(safe);
    int rc2 = go(*f, x2, y2);
    RodasStat s2 = f->stat();
    c.check(rc == rc2, "reuse-status", "status ", rc, ", with a new object ", rc2);
    c.check(s1.nstep == s2.nstep && s1.naccpt == s2.naccpt && s1.nrejct == s2.nrejct && s1.njac == s2.njac && s1.ndec == s2.ndec, "reuse-counters", "counters (steps,accepted,rejected,J,LU) ", s1.nstep, " ", s1.naccpt, " ", s1.nrejct, " ", s1.njac, " ", s1.ndec, ", with a new object ", s2.nstep, " ", s2.naccpt, " ", s2.nrejct, " ", s2.njac, " ", s2.ndec);
    c.check(r->log() == f->log(), "reuse-log", "the logs differ");
    double d = 0;
    for (int i = 0; i < n; i++) d = std::max(d, std::fabs(ya[i] - y2[i]) / (1e-3 + std::fabs(y2[i])));
    c.check(d <= 1e-9 && std::fabs(x1 - x2) <= 1e-9 * std::fabs(x2), "reuse-result", "y=", show(ya, n), " x=", x1, ", with a new object ", show(y2, n), " x=", x2);
    if (rc == 0 && !empty) c.check(std::fabs(s1.hlast - s2.hlast) <= 1e-6 * std::fabs(s2.hlast) && std::fabs(s1.hfirst - s2.hfirst) <= 1e-6 * std::fabs(s2.hfirst), "reuse-steps", "last and first steps ", s1.hlast, " ", s1.hfirst, ", with a new object ", s2.hlast, " ", s2.hfirst);
    c.nontrivial(hist && s1.naccpt >= 1);
  }
}
int main(int argc, char **argv) {
  Property p;
  p.id = "D06";
  p.quick_cases = 100000;
  p.thorough_cases = 20000000;
  p.rule = "counters: a random integration, whose calls are recorded and compared to the counters and the log; non-trivial: 4 attempted steps or more. reuse: 1 to 4 integrations (some interrupted by NaN, a limit, or an exception of the right-hand side) with changes of options, then one that is compared with that of a new object; non-trivial: an accepted step";
  p.arms = {{"counters", 1, counters}, {"reuse", 1, reuse}};
  return run(argc, argv, p);
}
