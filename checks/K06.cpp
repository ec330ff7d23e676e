// K06: Rock4's choice of stages, error estimate, acceptance and step control, attempt by attempt.
#include "rock4.hpp"
using namespace pbt;
static const int MSTAB[50] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 22, 24, 26, 28, 30, 32, 34, 36, 38, 41, 44, 47, 50, 53, 56, 59, 63, 67, 71, 76, 81, 86, 92, 98, 105, 112, 120, 129, 138, 148};
// hard: the first evaluations are perturbed: many rejections, very small steps
static void attempts(Case &c, bool hard) {
  int n = c.size(2, 5, 20, 60);
  ProbOpt o;
  o.impulses = true;
  o.n = n - 1;
  o.linear = c.chance(1, 4);
  o.maxstiff = c.pick({10.0, 1e3, 1e5});
  o.quads = false;
  Prob p = gen_prob(c, o);
  for (auto &v : p.cub) v *= c.pick({1.0, 1.0, 30.0});
  double rho = 0, t0 = c.pick({0.0, 1.0, -7.0});
  p.t0 = t0;
  double rscale = c.pick({1.0, 1.0, 0.2, 3.0});
  for (int i = 0; i < n - 1; i++) {
    double s = 3 * p.cub[i] * 4;
    for (int j = 0; j < n - 1; j++) s += std::fabs(p.A[i * (n - 1) + j]);
    rho = std::max(rho, s + 1);
  }
  rho *= rscale;
  if (c.chance(1, 10)) rho *= 1e3;
  if (c.chance(1, 10)) rho = 0;
  double len = c.logu(0.01, 10), h0 = c.logu(1e-5, 20), atol = c.logu(1e-8, 1e-2), rtol = c.chance(1, 3) ? 0 : c.logu(1e-8, 1e-2);
  double noise = 0;
  long nnoise = 0;
  if (hard) {
    len = c.logu(0.01, 100);
    h0 = len * c.logu(0.1, 2);
    atol = c.logu(1e-9, 1e-5);
    rho = c.chance(1, 3) ? 0 : c.logu(0.1, 8000) / len;
    for (auto &v : p.cub) v = 0;
    double lm = 0;
    for (double v : p.A) lm = std::max(lm, std::fabs(v));
    for (auto &v : p.A) v *= std::min(1., 0.3 / len / lm);
    p.sn.clear();
    if (rho > 0) rho += 4 / len;
    p.imp.clear();
    noise = c.logu(1, 1e8);
    nnoise = c.range(10, 300);
    if (c.coin()) t0 = p.t0 = 0;
  }
  double tend = t0 + len;
  // an end near 0: t0+(tend-t0) may differ from tend by rounding
  if (len < 10 && c.chance(1, 4)) tend = len * c.logu(1e-6, 1), t0 = p.t0 = tend - len;
  std::vector<double> y0;
  for (int i = 0; i < n - 1; i++) y0.push_back(2 * c.sym());
  y0.push_back(t0);
  c.desc << p.show() << " rho=" << rho << " y0=" << show(y0, n) << " h=" << h0 << " t0=" << t0 << " tend=" << tend << " atol=" << atol << " rtol=" << rtol;
  if (hard) c.desc << " evaluations 2 to " << nnoise << " perturbed by " << noise;
  c.ready();
  R4F F;
  F.n = n;
  F.f = [&](const double *y, double *r) {
    p.rhs(y[n - 1], y, r);
    r[n - 1] = 1;
    if (F.calls > 1 && F.calls <= nnoise) r[0] += noise * std::sin(F.calls * 7.0 + 0.3 * F.calls * F.calls);
  };
  std::vector<long> rhoat;
  F.r = [&] { rhoat.push_back(F.calls); return rho; };
  F.rec = true;
  F.maxcalls = 30000;
  R4 R(F);
  R.setTolerances(atol, rtol);
  R4Vec y(y0);
  int rc = r4run(R, y, t0, tend, h0);
  if (rc == 1) {
    c.check(!(std::fabs(y.p[n - 1] - tend) <= 1e-14 * (std::fabs(t0) + std::fabs(tend))), "exception-at-the-end", "exception although the end is reached, at t=", y.p[n - 1]);
    c.discard();
  }
  // replay
  odes::Rock4Coeffs C;
  size_t pos = 1;
  double t = t0, h = h0, hp = h0, errp = -1, facmax = 5;
  bool reject = false, ten = false;
  double errpn = 0;  // uncertainty of errp
  int nrej = 0, nacc = 0, att = 0, sincerho = 0, rejrow = 0;
  size_t ir = 0;
  std::vector<double> yc = y0;
  while (pos < F.in.size()) {
    // end of the interval
    double rest = tend - t;
    if (h < 1e-12 * std::fabs(t)) { c.label("steps lost in the rounding of t"); return; }
    // steps that may be used
    std::vector<double> cand, base;
    if (rejrow == 11 && !ten) base = {1e-5};
    else base = {h};
    // after ten rejections at one time (the first one counts or does not)
    if (rejrow == 10) base.push_back(1e-5);
    for (double hb : base) {
      bool clip = 1.01 * hb >= rest * (1 - 1e-9), noclip = 1.01 * hb < rest * (1 + 1e-9);
      bool aclip = nacc > 0 && !reject;
      if (aclip) clip = 1.1 * hb >= rest * (1 - 1e-9), noclip = 1.1 * hb < rest * (1 + 1e-9);
      if (clip) cand.push_back(rest);
      if (noclip) cand.push_back(hb);
    }
    // stages
    struct Opt { double h; int k; };
    std::vector<Opt> opts;
    for (double hh : cand)
      for (double pert : {1 - 1e-7, 1.0, 1 + 1e-7}) {
        double sr = std::sqrt((3 + hh * pert * rho) / 0.353) + 1;
        int s = sr > 1e6 ? 1000000 : (int)sr;
        double h2 = hh;
        if (s > 152) {
          h2 = 0.8 * (152. * 152. * 0.353 - 3) / rho;
          s = 152;
        }
        int d = std::max(s, 5) - 4, k = 0;
        while (MSTAB[k] < d) k++;
        bool have = false;
        for (auto &q : opts) have = have || (q.h == h2 && q.k == k);
        if (!have) opts.push_back({h2, k});
      }
    double H = NAN;
    int K = -1;
    bool trunc = false;
    double seen = NAN;
    for (auto &q : opts) {
      int m = MSTAB[q.k];
      size_t e = pos + (m - 1) + 4;  // the last evaluation
      if (e >= F.in.size()) { trunc = trunc || rc == 2; continue; }
      // y + sum h b k must be the argument of the last evaluation, the time component being t+h
      double hs = F.in[e][n - 1] - t;
      if (std::isnan(seen)) seen = hs;
      if (!(std::fabs(hs - q.h) <= 1e-7 * q.h + 3e-13 * (1 + std::fabs(t)) * (4 + att))) continue;
      seen = hs;
      bool ok = true;
      H = q.h;
      const double *k1 = F.out[e - 4].data(), *k2 = F.out[e - 3].data(), *k3 = F.out[e - 2].data(), *k4 = F.out[e - 1].data(), *g0 = F.in[e - 4].data();
      int z = q.k + 1;
      for (int i = 0; i < n && ok; i++) {
        LD v = g0[i], mg = fabsl(v);
        LD add[4] = {hs * (LD)C.fpb(z, 1) * k1[i], hs * (LD)C.fpb(z, 2) * k2[i], hs * (LD)C.fpb(z, 3) * k3[i], hs * (LD)C.fpb(z, 4) * k4[i]};
        for (LD a : add) v += a, mg += fabsl(a);
        LD dh = 0;  // rounding of the time, which gives h
        for (LD a : add) dh += fabsl(a / hs) * 1e-15L * (1 + std::fabs(t));
        ok = fabsl(v - F.in[e][i]) <= 1e-6L * mg + dh + 1e-300L || !std::isfinite((double)v);
      }
      if (ok) { K = q.k; break; }
    }
    if (trunc && K < 0) break;
    c.check(K >= 0, "step-or-stages", "attempt ", att + 1, " at t=", t, ": step ", opts[0].h, " with ", MSTAB[opts[0].k] + 4, " stages expected; a step of ", seen, " seen at the end of these stages");
    if ((rejrow == 10 || rejrow == 11) && !(std::fabs(H - h) < 1e-9 * h)) {
      ten = true;
      c.label("ten rejections at one time");
    }
    int m = MSTAB[K];
    size_t e = pos + (m - 1) + 4;
    att++;
    // spectral radius: asked again often enough
    bool asked = false;
    while (ir < rhoat.size() && (size_t)rhoat[ir] <= pos) asked = true, ir++;
    sincerho = asked ? 0 : sincerho;
    c.check(nacc + nrej > 0 || asked, "rho", "the spectral radius is not computed before the first step");
    c.check(sincerho < 10 || asked, "rho", "the spectral radius was not computed for ", sincerho, " accepted steps");
    // error
    int z = K + 1;
    const double *k1 = F.out[e - 4].data(), *k2 = F.out[e - 3].data(), *k3 = F.out[e - 2].data(), *k4 = F.out[e - 1].data(), *k5 = F.out[e].data(), *yn = F.in[e].data();
    LD s = 0, noise = 0;
    for (int i = 0; i < n; i++) {
      LD a[5] = {(C.fpbe(z, 1) - (LD)C.fpb(z, 1)) * k1[i], (C.fpbe(z, 2) - (LD)C.fpb(z, 2)) * k2[i], (C.fpbe(z, 3) - (LD)C.fpb(z, 3)) * k3[i], (C.fpbe(z, 4) - (LD)C.fpb(z, 4)) * k4[i], (LD)C.fpbe(z, 5) * k5[i]};
      LD v = 0, mg = 0, sc = atol + rtol * fabsl(yn[i]);
      for (LD q : a) v += H * q, mg += fabsl(H * q);
      const double *kk[4] = {k1, k2, k3, k4};
      for (int j = 0; j < 4; j++) mg += fabsl(H * kk[j][i]) * (std::fabs(C.fpb(z, j + 1)) + std::fabs(C.fpbe(z, j + 1)));
      s += v / sc * v / sc;
      noise += mg / sc * mg / sc;
    }
    double err = sqrtl(s / n), ne = 1e-14 * (double)sqrtl(noise / n);
    pos = e + 1;
    bool nextnoise = ne > 1e-8 * err;
    bool clean = ne < 1e-8 * err;
    bool big = false;  // (no overflow)
    for (int i = 0; i < n; i++) big = big || !(std::fabs(k5[i]) < 1e100 && std::fabs(yn[i]) < 1e100);
    clean = clean && !big;
    // accepted?
    bool acc;
    std::vector<double> ynv(yn, yn + n);
    bool lastatt = pos >= F.in.size();
    if (lastatt) {
      if (rc == 2) break;
      acc = true;
    } else {
      // the next attempt starts from ynv or from yc: its first 5 last stages tell; decide by err, check below
      acc = err < 1;
    }
    if (lastatt || std::fabs(err - 1) > 1e-6 + ne) c.check(!lastatt || err < 1 + 1e-6 + ne, "accepted", "the last step was accepted with an error estimate of ", err);
    else c.discard();
    if (reject) facmax = 1;
    auto factor = [&](double er, double dp = 0) {
      double fac = er > 0 ? std::sqrt(std::sqrt(1 / er)) : INFINITY;
      if (er != er) return 0.1;
      if (errp > 0 && !reject) {
        double facp = std::sqrt(std::sqrt(std::max(0., errp + dp))) * fac * fac * (H / hp);
        fac = std::min(fac, facp);
      }
      return std::min(facmax, std::max(0.1, 0.8 * fac));
    };
    double fac = factor(err);
    // rounding errors do not matter if the bounds of the factor are active
    if (!clean && !big) clean = std::fabs(factor(err + ne) - fac) < 2e-9 * fac && std::fabs(factor(std::max(0., err - ne)) - fac) < 2e-9 * fac;
    if (errpn > 0) clean = clean && std::fabs(factor(err, errpn) - fac) < 1e-8 * fac && std::fabs(factor(err, -errpn) - fac) < 1e-8 * fac;
    double hnew = H * fac;
    if (acc) {
      ++nacc;
      sincerho++;
      facmax = 2;
      t = ynv[n - 1];
      if (reject) hnew = std::min(hnew, H), reject = false;
      rejrow = 0;
      ten = false;
      hp = H;
      h = hnew;
      errp = err;
      errpn = nextnoise ? ne : 0;
      yc = ynv;
    } else {
      reject = true;
      h = 0.8 * hnew;
      ++nrej;
      rejrow++;
    }
    if (!clean) {
      // rounding errors decide: nothing more to predict
      c.label("stopped by rounding errors");
      c.nontrivial(att >= 4);
      return;
    }
  }
  if (rc == 0) {
    c.check(nacc == R.NbAccepted() && nrej == R.NbRejected(), "counts", nacc, " accepted and ", nrej, " rejected steps seen, counters: ", R.NbAccepted(), ", ", R.NbRejected());
    for (int i = 0; i < n; i++) c.check(y.p[i] == yc[i], "result", "the result is not the end of the last accepted step");
    c.label("complete");
  }
  if (nrej) c.label("rejections");
  if (rho * len > 8000) c.label("many stages");
  c.nontrivial(att >= 4);
}
static void law(Case &c) { attempts(c, false); }
static void hard(Case &c) { attempts(c, true); }
int main(int argc, char **argv) {
  Property p;
  p.id = "K06";
  p.quick_cases = 50000;
  p.thorough_cases = 20000000;
  p.rule = "random stiff and non stiff problems, all evaluations of the right-hand side recorded and compared with a model of the controller: stages, step, error estimate, acceptance, next step, refresh of the spectral radius; hard: the first evaluations are perturbed, so that steps are rejected many times; non-trivial: at least 4 attempts";
  p.arms = {{"law", 6, law}, {"hard", 1, hard}};
  return run(argc, argv, p);
}
