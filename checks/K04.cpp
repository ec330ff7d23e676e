// K04: a Rock4 object can be reused; its counters, log and buffers tell what happened.
#include "rock4.hpp"
#include <memory>
using namespace pbt;
struct Pb {
  Prob p;
  int n;
  double rho, h0, len, t0;
  std::vector<double> y0;
};
static Pb gen(Case &c, int n) {
  Pb q;
  ProbOpt o;
  o.impulses = true;
  o.n = n - 1;
  o.linear = c.chance(1, 4);
  o.maxstiff = c.pick({10.0, 1e3, 1e4});
  o.quads = false;
  q.n = n;
  q.p = gen_prob(c, o);
  q.rho = 0;
  for (int i = 0; i < n - 1; i++) {
    double s = 3 * q.p.cub[i] * 16;
    for (int j = 0; j < n - 1; j++) s += std::fabs(q.p.A[i * (n - 1) + j]);
    q.rho = std::max(q.rho, s + 1);
  }
  q.t0 = c.pick({0.0, 1.0, -7.0});
  q.p.t0 = q.t0;
  q.len = c.logu(0.01, 5);
  q.h0 = c.logu(1e-5, 5);
  for (int i = 0; i < n - 1; i++) q.y0.push_back(3 * c.sym());
  q.y0.push_back(q.t0);
  c.desc << "\n run " << q.p.show() << " rho=" << q.rho << " y0=" << show(q.y0, n) << " h=" << q.h0 << " length=" << q.len;
  return q;
}
static void setF(R4F &F, const Pb &q) {
  F.n = q.n;
  F.f = [&](const double *y, double *r) {
    q.p.rhs(y[q.n - 1], y, r);
    r[q.n - 1] = 1;
  };
  F.r = [&] { return q.rho; };
}
struct Line { double t; long step; std::string ev; double v; };
static std::vector<Line> parse(Case &c, const std::string &log) {
  std::vector<Line> l;
  std::istringstream is(log);
  std::string s;
  while (std::getline(is, s)) {
    Line k;
    k.v = NAN;
    size_t a = s.find("Time: "), b = s.find("step: "), e = s.find("Event: "), n = s.find("new step: ");
    c.check(a != std::string::npos && b != std::string::npos && e != std::string::npos, "log-line", "log line: ", s);
    k.t = atof(s.c_str() + a + 6);
    k.step = atol(s.c_str() + b + 6);
    std::istringstream w(s.substr(e + 7));
    w >> k.ev;
    if (n != std::string::npos) k.v = atof(s.c_str() + n + 10);
    l.push_back(k);
  }
  return l;
}
static void counters(Case &c) {
  int n = c.size(2, 6, 20, 50);
  Pb q = gen(c, n);
  double atol = c.logu(1e-8, 1e-2), rtol = c.chance(1, 3) ? 0 : c.logu(1e-8, 1e-2);
  c.desc << " atol=" << atol << " rtol=" << rtol;
  c.ready();
  R4F F;
  setF(F, q);
  F.rec = true;
  F.maxcalls = 60000;
  R4 R(F);
  R.setTolerances(atol, rtol);
  R4Vec y(q.y0);
  double tend = q.t0 + q.len;
  if (r4run(R, y, q.t0, tend, q.h0)) c.discard();
  c.check(R.nbUnkn() == n, "size", "nbUnkn()=", R.nbUnkn());
  c.check(R.NbRhsComputed() == F.calls, "rhs-counter", "NbRhsComputed()=", R.NbRhsComputed(), ", evaluations: ", F.calls);
  c.check(R.NbSteps() == R.NbAccepted() + R.NbRejected(), "step-counters", R.NbSteps(), " steps, ", R.NbAccepted(), " accepted, ", R.NbRejected(), " rejected");
  auto log = parse(c, [&] { std::ostringstream o; o << R.Log(); return o.str(); }());
  int na = 0, nr = 0;
  double t = q.t0, hl = 0;
  bool okh = true;
  c.check((int)log.size() == R.NbSteps(), "log-size", log.size(), " lines in the log for ", R.NbSteps(), " steps");
  for (size_t i = 0; i < log.size(); i++) {
    auto &l = log[i];
    c.check(l.step == (long)i + 1, "log-step", "line ", i + 1, " is numbered ", l.step);
    if (l.ev.compare(0, 7, "success") == 0) {
      na++;
      c.check(l.t > t - 2e-6, "log-time", "time goes from ", t, " to ", l.t);
      hl = l.t - t;
      t = l.t;
    } else {
      nr++;
      c.check(l.ev.compare(0, 8, "rejected") == 0, "log-event", "event ", l.ev);
      c.check(std::fabs(l.t - t) <= 2e-6, "log-time", "rejected step logged at ", l.t, ", time is ", t);
      c.check(std::isfinite(l.v), "log-new-step", "no step after a rejected step");
    }
  }
  c.check(na == R.NbAccepted() && nr == R.NbRejected(), "log-counts", "log: ", na, " accepted, ", nr, " rejected; counters: ", R.NbAccepted(), ", ", R.NbRejected());
  c.check(std::fabs(t - tend) <= 2e-6, "log-end", "the last step that was logged ends at ", t);
  c.check(std::fabs(R.LastAcceptedTimeStep() - hl) <= 3e-6, "hlast", "LastAcceptedTimeStep()=", R.LastAcceptedTimeStep(), ", log: ", hl);
  // the time is one component: its last step
  c.check(std::fabs(y.p[n - 1] - tend) <= 1e-11 * (1 + std::fabs(tend)), "time", "y'=1: ", y.p[n - 1] - q.t0, " instead of ", q.len);
  c.label(R.NbRejected() ? "rejections" : "no rejection");
  // the accepted solution is the one whose right-hand side was computed last at an accepted step
  std::vector<double> yl(y.p, y.p + n);
  bool seen = false;
  for (size_t k = F.in.size(); k-- > 0 && !seen;) seen = F.in[k] == yl;
  c.check(seen, "result-is-a-step", "the result is not the result of a step: ", show(yl, n));
  (void)okh;
  c.nontrivial(R.NbSteps() >= 3);
}
// objects with a history behave as fresh ones; the caller's buffers are not mixed with those of the object
static void reuse(Case &c) {
  int n = c.size(2, 5, 20, 50), k = c.range(1, 4);
  R4F F;
  F.n = n;
  F.r = [] { return 0.; };
  double atol = 1e-5, rtol = 1e-5;
  bool hist = false, interrupted = false;
  Pb prev;
  int prc = 0;
  std::unique_ptr<R4> R(new R4(F));
  std::vector<std::unique_ptr<R4Vec>> kept;
  std::vector<std::vector<double>> kv;
  c.desc << "n=" << n;
  for (int i = 0; i <= k; i++) {
    bool last = i == k;
    if (c.chance(1, 3)) {
      atol = c.logu(1e-8, 1e-2), rtol = c.logu(1e-8, 1e-2);
      R->setTolerances(atol, rtol);
      c.desc << "\n setTolerances(" << atol << "," << rtol << ")";
    }
    // another problem, the preceding one once more, or its continuation
    int rel = i ? c.choice(3) : 0;
    Pb q = rel < 2 ? gen(c, n) : prev;
    if (rel == 2) c.desc << "\n the same run";
    if (rel == 3 && prc == 0) {
      q.t0 = prev.t0 + prev.len;
      q.y0 = kv.back();
      if (c.coin()) q.h0 = c.logu(1e-5, 5);
      if (c.coin()) q.len = c.logu(0.01, 5);
      c.desc << "\n going on: y0=" << show(q.y0, n) << " h=" << q.h0 << " length=" << q.len;
    } else if (rel == 3)
      c.desc << "\n the same run";
    prev = q;
    int fault = last ? 0 : c.range(0, 2), at = c.range(1, 300);
    // the first evaluations may be perturbed (many rejections, always the same)
    double noise = c.chance(1, 3) ? c.logu(1, 1e8) : 0;
    int nnoise = c.range(10, 300);
    if (noise) {
      c.desc << " evaluations 2 to " << nnoise << " perturbed by " << noise;
      if (c.coin()) q.h0 = q.len;
    }
    bool again = c.coin();
    if (again && i) c.desc << " (in the vector of the preceding run)";
    if (fault == 1) c.desc << " NaN from call " << at;
    if (fault == 2) c.desc << " exception at call " << at;
    if (last) c.ready();
    auto go = [&](R4 &r, R4Vec &y) {
      setF(F, q);
      F.calls = 0;
      F.maxcalls = fault == 2 ? at : last ? 20000 : 3000;
      if (noise) {
        auto g0 = F.f;
        F.f = [&, g0](const double *a, double *b) {
          g0(a, b);
          if (F.calls > 1 && F.calls <= nnoise) b[0] += noise * std::sin(F.calls * 7.0 + 0.3 * F.calls * F.calls);
        };
      }
      auto g = F.f;
      if (fault == 1) F.f = [&, g](const double *a, double *b) { g(a, b); if (F.calls >= at) b[0] = NAN; };
      return r4run(r, y, q.t0, q.t0 + q.len, q.h0);
    };
    // the same vector, with other contents, or another vector
    std::unique_ptr<R4Vec> y;
    if (again && !kept.empty()) {
      y = std::move(kept.back());
      kept.pop_back();
      kv.pop_back();
      y->set(q.y0);
    } else
      y.reset(new R4Vec(q.y0));
    int rc = go(*R, *y);
    prc = rc;
    if (rel == 2) c.label("same run again");
    if (rel == 3) c.label("going on");
    // vectors that were given earlier still hold what they held
    for (size_t j = 0; j < kept.size(); j++)
      c.check(!memcmp(kept[j]->p, kv[j].data(), n * sizeof(double)), "other-vector-changed", "a later run changed the result of run ", j + 1);
    if (!last) {
      hist = true;
      c.label(rc == 0 ? "history: run" : rc == 1 ? "history: exception" : "history: interrupted");
      if (rc == 2) interrupted = true;
      kv.push_back(y->get());
      kept.push_back(std::move(y));
      continue;
    }
    int st = R->NbSteps(), ac = R->NbAccepted(), re = R->NbRejected(), rh = R->NbRhsComputed(), sg = R->NbStages();
    double hl = R->LastAcceptedTimeStep();
    R4 fresh(F);
    fresh.setTolerances(atol, rtol);
    R4Vec y2(q.y0);
    int rc2 = go(fresh, y2);
    c.check(rc == rc2, "outcome", "object with a history: ", rc, ", fresh object: ", rc2);
    if (rc) c.discard();
    for (int j = 0; j < n; j++) c.check(!memcmp(&y->p[j], &y2.p[j], sizeof(double)), "result", "component ", j, ": ", y->p[j], " with a history, ", y2.p[j], " without");
    c.check(st == fresh.NbSteps() && ac == fresh.NbAccepted() && re == fresh.NbRejected() && rh == fresh.NbRhsComputed() && sg == fresh.NbStages() && hl == fresh.LastAcceptedTimeStep(), "counters", "counters with a history: ", st, " ", ac, " ", re, " ", rh, " ", sg, " ", hl, ", without: ", fresh.NbSteps(), " ", fresh.NbAccepted(), " ", fresh.NbRejected(), " ", fresh.NbRhsComputed(), " ", fresh.NbStages(), " ", fresh.LastAcceptedTimeStep());
  }
  (void)interrupted;
  c.nontrivial(hist);
}
// the default tolerances are those that setTolerances(1e-5,1e-5) gives; forward only
static void edges(Case &c) {
  int n = c.range(2, 5);
  Pb q = gen(c, n);
  int kind = c.range(0, 1);
  c.ready();
  R4F F;
  setF(F, q);
  F.maxcalls = 20000;
  R4 R(F);
  R4Vec y(q.y0);
  if (kind == 0) {
    int rc = r4run(R, y, q.t0, q.t0 + q.len, q.h0);
    R4 S(F);
    S.setTolerances(1e-5, 1e-5);
    F.calls = 0;
    R4Vec z(q.y0);
    int rc2 = r4run(S, z, q.t0, q.t0 + q.len, q.h0);
    c.check(rc == rc2, "default-tolerances", "outcomes ", rc, " ", rc2);
    if (rc) c.discard();
    for (int j = 0; j < n; j++) c.check(y.p[j] == z.p[j], "default-tolerances", "without setTolerances: ", y.p[j], ", with (1e-5,1e-5): ", z.p[j]);
    c.nontrivial();
  } else {
    // nothing to integrate
    int rc = r4run(R, y, q.t0, q.t0, q.h0);
    c.check(rc == 0 && R.NbSteps() == 0, "empty", "t0==tend: outcome ", rc, ", steps ", R.NbSteps());
    for (int j = 0; j < n; j++) c.check(y.p[j] == q.y0[j], "empty", "t0==tend: y changes");
    c.nontrivial();
  }
}
int main(int argc, char **argv) {
  Property p;
  p.id = "K04";
  p.quick_cases = 30000;
  p.thorough_cases = 20000000;
  p.rule = "counters: random problems, counters, log and recorded evaluations compared; non-trivial: 3 steps at least. reuse: objects that went through up to 4 runs (some of them failing or interrupted; other problems, the same one again or its continuation; sometimes the first evaluations are perturbed, which causes many rejections) compared, bit for bit, with fresh ones. edges: default tolerances, empty interval";
  p.arms = {{"counters", 2, counters}, {"reuse", 2, reuse}, {"edges", 1, edges}};
  return run(argc, argv, p);
}
