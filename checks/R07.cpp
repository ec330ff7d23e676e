// R07: a Radau5cc object can be reused; its counters and its log tell what happened.
#include "radau.hpp"
using namespace pbt;
static const std::vector<RCfg> CF = {RFULL(1, false), RFULL(2, false), RFULL(2, true), RFULL(3, false), RHESS(3, true), RHESS(4, false), RCFG(4, 1, 1, false, false), RCFG(4, 2, 1, false, true), RCFG(6, 1, 1, false, true), RCFG(6, 1, 2, false, false),
    // seldom
    RFULL(10, true), RCFG(17, 2, 1, false, true)};
static int count(const std::string &log, const std::string &ev) {
  int k = 0;
  for (size_t p = log.find("Event: " + ev + "\n"); p != std::string::npos; p = log.find("Event: " + ev + "\n", p + 1)) k++;
  for (size_t p = log.find("Event: " + ev + " "); p != std::string::npos; p = log.find("Event: " + ev + " ", p + 1)) k++;
  return k;
}
static void counters(Case &c) {
  const RCfg &cf = pick_cf(c, CF);
  int n = cf.n;
  ProbOpt o;
  o.impulses = true;
  o.n = n;
  o.ml = cf.nsub;
  o.mu = cf.nsup;
  o.linear = c.chance(1, 4);
  o.maxstiff = c.coin() ? 1e5 : 50;
  Prob p = gen_prob(c, o);
  p.dir = c.coin() ? -1 : 1;
  for (auto &v : p.cub) v *= c.pick({1.0, 1.0, 50.0});
  Tol tol = gen_tol(c, n, 1e-9, 1e-2);
  double len = c.logu(0.05, 20), h0 = c.logu(1e-5, 20);
  // only the size of the step given matters
  int sg = c.chance(1, 4) ? -1 : 1;
  if (sg < 0) c.desc << "step given with the sign - ";
  std::vector<double> y0(n);
  for (auto &v : y0) v = 5 * c.sym();
  bool one = c.chance(1, 5);
  RadauP r(cf.make(tol.same, tol.a.data(), tol.r.data()));
  r->one(one);
  int nit = 7;
  if (c.chance(1, 3)) r->nit(nit = c.range(2, 10));
  c.desc << cf.name() << " " << p.show() << " y0=" << show(y0, n) << " h=" << h0 << " xend=" << p.dir * len << " " << tol.show() << " nit=" << nit << (one ? " one step" : "");
  if (c.chance(1, 4)) { double th = c.pick({0.1, 1e-8, 0.5}); r->thresh(th); c.desc << " thresh=" << th; }
  c.ready();
  new_hook(&p);
  Hook &H = hook();
  H.rec = true;
  H.maxf = 8000;
  if (c.chance(1, 4)) { H.jacnoise = c.pick({0.3, -0.3, -1.0}); c.desc << " Jacobian times " << 1 + H.jacnoise; }
  double x = 0, xend = p.dir * len;
  std::vector<double> y = y0;
  if (r->run(sg * h0, x, xend, y.data())) c.discard();
  RadauStat s = r->stat();
  c.check(s.nf == H.nf, "nfonc", "getNfoncCalled()=", s.nf, ", evaluations: ", H.nf);
  if (!cf.num) c.check(s.njac == H.nj, "njac", "getNJac()=", s.njac, ", evaluations: ", H.nj);
  std::string log = r->log();
  int rej = count(log, "rejectedStep"), nf = count(log, "NewtonFailed"), nw = count(log, "NewtonWillNotConverge");
  c.label(nf ? "Newton failures" : "no Newton failure");
  c.label(nw ? "Newton abandoned" : "Newton never abandoned");
  c.label(rej ? "rejections" : "no rejection");
  c.check(s.nstep == s.naccpt + rej + nf + nw, "nstep", "getNstep()=", s.nstep, " but ", s.naccpt, " accepted, and in the log: ", rej, " rejections, ", nf, " Newton failures, ", nw, " abandoned");
  c.check(s.nrejct <= rej, "nrejct", "getNrejct()=", s.nrejct, ", ", rej, " rejections in the log");
  c.check(s.ndec >= 1 && s.ndec >= s.njac, "ndec", "getNdec()=", s.ndec, " getNJac()=", s.njac);
  std::vector<Attempt> at;
  if (!parse_radau(H.calls, 0, x, at)) { c.label("calls not understood"); return; }
  int na = 0, fr = 0;
  double hf = 0;
  // an attempt after a Newton failure can have the same h only if it was not reduced; so they are all seen
  for (auto &a : at) {
    if (a.accepted && !na) hf = a.h;
    if (!na && !a.accepted) fr++;
    na += a.accepted;
  }
  c.check(s.naccpt == na, "naccpt", "getNaccpt()=", s.naccpt, ", seen: ", na);
  c.check(s.nstep == (int)at.size(), "nstep-seen", "getNstep()=", s.nstep, ", attempts seen: ", at.size());
  if (nf + nw == 0) c.check(s.nrejct == (int)at.size() - na - fr, "nrejct-seen", "getNrejct()=", s.nrejct, ", rejections seen after the first accepted step: ", at.size() - na - fr);
  c.check(std::fabs(s.hfirst - hf) <= 1e-12 * std::fabs(hf), "first-step", "getfirstAcceptedStep()=", s.hfirst, ", seen: ", hf);
  c.check(s.newt == at.back().newt, "newton-iterations", "getNewt()=", s.newt, ", Newton iterations of the last step: ", at.back().newt);
  long rest = s.nf - 1 - (one ? 0 : na - 1);  // evaluations for the numerical Jacobian, and second error estimates
  int maybe = 0, kept = 0, open = 0;
  for (size_t k = 0; k < at.size(); k++) {
    const Attempt &a = at[k];
    rest -= 3 * a.newt;
    if (!k || !at[k - 1].accepted) { maybe++; continue; }
    // the matrices are kept when neither the step nor the Jacobian changes
    const Call &nx = H.calls[a.base + 1];
    if (nx.kind != 'f' || nx.t == a.x || std::fabs(a.h - at[k - 1].h) > 1e-9 * std::fabs(a.h)) continue;
    (std::fabs(a.x + a.h - xend) <= 1e-9 * std::fabs(a.h) ? open : kept)++;
  }
  if (kept) c.label("matrices kept");
  c.check(s.ndec <= (int)at.size() - kept && s.ndec >= (int)at.size() - kept - open, "ndec", "getNdec()=", s.ndec, ", ", at.size(), " attempts, in ", kept, " of which the matrices are those of the preceding one");
  c.check(cf.num ? rest >= s.njac * n && rest <= s.njac * n + maybe : rest >= 0 && rest <= maybe, "njac-nfonc", s.njac, " Jacobians and ", s.nf, " evaluations reported: ", rest, " evaluations remain for ", maybe, " second estimates of the error", cf.num ? " and the Jacobians" : "");
  if (one) c.check(std::fabs(s.hlast - at.back().h) <= 1e-12 * std::fabs(s.hlast), "last-step", "getLastTimeStep()=", s.hlast, " after one step of ", at.back().h);
  else c.check(s.hlast * p.dir > 0 && std::fabs(s.hlast) <= len * (1 + 1e-12), "last-step", "getLastTimeStep()=", s.hlast);
  if (!one && na >= 2) {
    // the step proposed after the last accepted step but one, which never grows
    double hp = 0;
    int q = 0;
    for (auto &a : at) if (a.accepted && ++q == na - 1) hp = std::fabs(a.h);
    c.check(std::fabs(s.hlast) <= hp * (1 + 1e-9) && std::fabs(s.hlast) >= 0.05 * hp, "last-step", "getLastTimeStep()=", s.hlast, ", the last step that was not cut by xend is ", hp);
  }
  // the step in use at each attempt is the last one in the log (6 decimals); the times never go back
  std::istringstream is(log);
  std::string line;
  size_t ia = 0;
  double hcur = 0, tprev = 0;
  bool any = false;
  while (std::getline(is, line)) {
    size_t a = line.find("Time: "), b = line.find("step: "), e = line.find("Event: "), v = line.find("new step: ");
    c.check(a != std::string::npos && b != std::string::npos && e != std::string::npos, "log-line", "log line ", line);
    double lt = atof(line.c_str() + a + 6);
    int ls = atoi(line.c_str() + b + 6);
    c.check(lt * p.dir >= tprev * p.dir - 1.1e-6, "log-time", "the times in the log go back: ", line);
    tprev = lt;
    // attempts up to number ls were made with the step in use before this event
    while (any && ia < at.size() && (int)ia < ls) {
      c.check(std::fabs(hcur - at[ia].h) <= 1.1e-6 + 1e-12 * std::fabs(hcur), "log-step", "attempt ", ia + 1, " was made with step ", at[ia].h, "; the last step in the log is ", hcur);
      ++ia;
    }
    if (line.compare(e + 7, 8, "changedH") == 0) {
      c.check(v != std::string::npos, "log-line", "log line ", line);
      if (!any) c.check(std::fabs(atof(line.c_str() + v + 10) - sg * h0) <= 1.1e-6 + 1e-12 * h0 && ls == 0 && std::fabs(lt) <= 1e-6, "log-first", "the log does not start with the step given: ", line);
      hcur = atof(line.c_str() + v + 10);
      any = true;
    }
  }
  c.check(any, "log-first", "no step in the log");
  c.nontrivial(at.size() >= 4);
}
// an object that went through a history gives what a fresh one gives
static void reuse(Case &c) {
  const RCfg &cf = pick_cf(c, CF);
  int n = cf.n;
  Tol tol = gen_tol(c, n, 1e-8, 1e-2);
  RadauP r(cf.make(tol.same, tol.a.data(), tol.r.data()));
  int k = c.range(1, 4);
  c.desc << cf.name() << " constructed with " << tol.show();
  bool one = false, gus = true;
  int nmax = 10000, nit = 7;
  double safe = 0.9, facr = 8, facl = 0.2, th = 1e-3, fnewt = 0;  // fnewt 0: chosen by setTestPolicy
  bool setfac = false, hist = false;
  // runs may repeat parts of the preceding one (problem, initial values, interval, step), or go on from its end;
  // the object with a history is always given the same array
  Prob p;
  double len = 0, h0 = 0, x0 = 0, xe = 0;
  std::vector<double> y0(n), ya(n);
  for (int i = 0; i <= k; i++) {
    bool lastrun = i == k;
    // options may change between runs
    if (c.chance(1, 3)) { tol = gen_tol(c, n, 1e-8, 1e-2); r->tol(tol.same, tol.a.data(), tol.r.data()); fnewt = 0; c.desc << "\n setTestPolicy " << tol.show(); }
    if (c.chance(1, 3)) { one = c.coin(); r->one(one); c.desc << " one=" << one; }
    if (c.chance(1, 4)) { gus = c.coin(); r->gus(gus); c.desc << " gus=" << gus; }
    if (c.chance(1, 4)) { nmax = c.pick({10000, 5, 30}); r->nmax(nmax); c.desc << " nmax=" << nmax; }
    if (c.chance(1, 4)) { nit = c.range(3, 9); r->nit(nit); c.desc << " nit=" << nit; }
    if (c.chance(1, 4)) { safe = c.uniform(0.5, 0.95); r->safe(safe); c.desc << " safe=" << safe; }
    if (c.chance(1, 4)) { facr = c.uniform(1.5, 10); facl = c.uniform(0.1, 0.8); setfac = true; r->fac(facr, facl); c.desc << " facr=" << facr << " facl=" << facl; }
    if (c.chance(1, 4)) { th = c.pick({1e-3, 0.1, 1e-8}); r->thresh(th); c.desc << " thresh=" << th; }
    if (c.chance(1, 4)) {
      double a0, r0;
      radau_inner_tol(tol, 0, a0, r0);
      double least = 1e-16 / r0, v = c.chance(1, 3) ? least * c.pick({0.5, 0.0, -1.0, 2.0}) : c.logu(1e-4, 0.3);
      bool ok = r->fnewt(v);
      c.desc << " fnewt=" << v << (ok ? "" : " (refused)");
      c.check(ok == (v > least), "fnewt", "setFnewt(", v, ok ? ") accepted" : ") refused", ", the limit is ", least);
      if (ok) fnewt = v;
    }
    bool related = i && c.chance(2, 3);
    bool sameP = related && !c.chance(1, 4), sameI = related && !c.chance(1, 4), sameY = related && !c.chance(1, 4), goOn = related && c.chance(1, 4);
    if (!sameP) {
      ProbOpt o;
  o.impulses = true;
      o.n = n;
      o.ml = cf.nsub;
      o.mu = cf.nsup;
      o.linear = c.chance(1, 4);
      o.maxstiff = c.coin() ? 1e5 : 50;
  p = gen_prob(c, o);
      p.dir = c.coin() ? -1 : 1;
    }
    if (!sameI) len = c.logu(0.05, 5), h0 = c.logu(1e-5, 5);
    if (!sameY)
      for (auto &v : y0) v = 3 * c.sym();
    x0 = 0;
    if (goOn && std::isfinite(xe)) {
      x0 = xe, c.desc << "\n going on";
      bool fin = true;
      for (auto &v : ya) fin = fin && std::fabs(v) < 10;
      if (fin) y0 = ya;
    }
    int fault = lastrun ? 0 : c.range(0, 3);
    int at = c.range(1, 60);
    bool empty = c.chance(1, 8);   // an interval of length 0
    double xe0 = empty ? x0 : x0 + p.dir * len;
    c.desc << "\n run " << p.show() << " y0=" << show(y0, n) << " h=" << h0 << " x=" << x0 << " xend=" << xe0;
    if (fault == 1) c.desc << " NaN from call " << at;
    if (fault == 2) c.desc << " exception at call " << at;
    if (lastrun) c.ready();
    auto go = [&](RadauBase &q, double &x, std::vector<double> &y) {
      new_hook(&p);
      hook().maxf = lastrun ? 8000 : 1500;
      if (fault == 1) hook().nanfrom = at;
      if (fault == 2) hook().maxf = at;
      x = x0;
      y = y0;
      return q.run(h0, x, xe0, y.data());
    };
    double x1, x2;
    std::vector<double> y2;
    int rc = go(*r, x1, ya);
    xe = x1;
    if (!lastrun) {
      c.label(rc == 0 ? "history: run" : rc == 1 ? "history: exception" : "history: interrupted");
      hist = true;
      continue;
    }
    RadauStat s1 = r->stat();
    RadauP f(cf.make(tol.same, tol.a.data(), tol.r.data()));
    f->one(one);
    if (fnewt != 0) f->fnewt(fnewt);
    f->gus(gus);
    f->nmax(nmax);
    f->nit(nit);
    f->safe(safe);
    f->thresh(th);
    if (setfac) f->fac(facr, facl);
    int rc2 = go(*f, x2, y2);
    RadauStat s2 = f->stat();
    c.check(rc == rc2, "reuse-status", "status ", rc, ", with a new object ", rc2);
    c.check(s1.nstep == s2.nstep && s1.naccpt == s2.naccpt && s1.nrejct == s2.nrejct && s1.nf == s2.nf && s1.njac == s2.njac && s1.ndec == s2.ndec && s1.newt == s2.newt, "reuse-counters", "counters (steps,accepted,rejected,F,J,LU) ", s1.nstep, " ", s1.naccpt, " ", s1.nrejct, " ", s1.nf, " ", s1.njac, " ", s1.ndec, ", with a new object ", s2.nstep, " ", s2.naccpt, " ", s2.nrejct, " ", s2.nf, " ", s2.njac, " ", s2.ndec);
    double d = 0;
    for (int i = 0; i < n; i++) d = std::max(d, std::fabs(ya[i] - y2[i]) / (1e-3 + std::fabs(y2[i])));
    c.check(d <= 1e-9 && std::fabs(x1 - x2) <= 1e-9 * std::fabs(x2), "reuse-result", "y=", show(ya, n), " x=", x1, ", with a new object ", show(y2, n), " x=", x2);
    if (rc == 0 && !empty) c.check(std::fabs(s1.hlast - s2.hlast) <= 1e-6 * std::fabs(s2.hlast) && std::fabs(s1.hfirst - s2.hfirst) <= 1e-6 * std::fabs(s2.hfirst), "reuse-steps", "last and first steps ", s1.hlast, " ", s1.hfirst, ", with a new object ", s2.hlast, " ", s2.hfirst);
    c.check(r->log() == f->log(), "reuse-log", "the logs differ");
    c.nontrivial(hist && s1.naccpt >= 1);
  }
}
int main(int argc, char **argv) {
  Property p;
  p.id = "R07";
  p.quick_cases = 80000;
  p.thorough_cases = 20000000;
  p.rule = "counters: a random integration, whose calls are recorded; non-trivial: 4 attempted steps or more. reuse: 1 to 4 integrations (some interrupted by NaN, a limit, or an exception of the right-hand side) with changes of options, then one that is compared with that of a new object; non-trivial: an accepted step";
  p.arms = {{"counters", 1, counters}, {"reuse", 1, reuse}};
  return run(argc, argv, p);
}
