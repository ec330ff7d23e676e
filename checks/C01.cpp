// C01: the linear algebra backends (full, banded, Hessenberg) factorize and solve
// (fac*I-J)x=b and ((alpha+i beta)I-J)z=w, over histories of refreshes and factorizations.
#include "pbt.hpp"
#include "OdesException.hpp"
#include "protos_lapack.hpp"
#include "Matrices.hpp"
#include <complex>
#include <memory>
using namespace pbt;
using odes::fortranVectorF;
struct Back {
  virtual ~Back() {}
  virtual int n() const = 0;
  virtual bool in(int i, int j) const = 0;
  virtual void setJ(const std::vector<double> &J) = 0;          // row major; refreshes
  virtual bool decr(double f) = 0;
  virtual bool decc(double a, double b) = 0;
  virtual void solr(std::vector<double> &z) = 0;
  virtual void solc(std::vector<double> &zr, std::vector<double> &zi) = 0;
  virtual bool hess() const = 0;
};
template <int N, int L, int U, bool H> struct BackT : Back, odes::Matrices<(N - L == 1 && N - U == 1), H, N, L, U> {
  typedef odes::Matrices<(N - L == 1 && N - U == 1), H, N, L, U> M;
  typename M::MatrixReal Jac;
  fortranVectorF<N> z, w;
  int n() const override { return N; }
  bool hess() const override { return H; }
  bool in(int i, int j) const override { return i >= j - U && i <= j + L; }
  void setJ(const std::vector<double> &J) override {
    for (int j = 1; j <= N; j++)
      for (int i = M::Ibegin(j); i <= M::Iend(j); i++) Jac(i, j) = J[(i - 1) * N + j - 1];
    M::calhes = true;
  }
  bool decr(double f) override {
    try { M::decomr(f, Jac); } catch (odes::OdesException &) { return false; }
    return true;
  }
  bool decc(double a, double b) override {
    try { M::decomc(a, b, Jac); } catch (odes::OdesException &) { return false; }
    return true;
  }
  void solr(std::vector<double> &x) override {
    for (int i = 0; i < N; i++) z(i + 1) = x[i];
    M::solvereal(z, Jac);
    for (int i = 0; i < N; i++) x[i] = z(i + 1);
  }
  void solc(std::vector<double> &x, std::vector<double> &y) override {
    for (int i = 0; i < N; i++) { z(i + 1) = x[i]; w(i + 1) = y[i]; }
    M::solvecomplex(z, w, Jac);
    for (int i = 0; i < N; i++) { x[i] = z(i + 1); y[i] = w(i + 1); }
  }
};
template <int N, int L, int U, bool H> Back *mk() { return new BackT<N, L, U, H>; }
struct Cf { const char *name; Back *(*make)(); };
static const Cf CF[] = {{"full 1", mk<1, 0, 0, false>}, {"full 2", mk<2, 1, 1, false>}, {"full 3", mk<3, 2, 2, false>}, {"full 5", mk<5, 4, 4, false>}, {"full 9", mk<9, 8, 8, false>},
                        {"Hessenberg 1", mk<1, 0, 0, true>}, {"Hessenberg 2", mk<2, 1, 1, true>}, {"Hessenberg 3", mk<3, 2, 2, true>}, {"Hessenberg 4", mk<4, 3, 3, true>}, {"Hessenberg 7", mk<7, 6, 6, true>}, {"Hessenberg 12", mk<12, 11, 11, true>},
                        {"band 2(0,0)", mk<2, 0, 0, false>}, {"band 2(1,0)", mk<2, 1, 0, false>}, {"band 3(1,1)", mk<3, 1, 1, false>}, {"band 4(0,2)", mk<4, 0, 2, false>}, {"band 5(3,1)", mk<5, 3, 1, false>}, {"band 5(1,4)", mk<5, 1, 4, false>}, {"band 8(2,2)", mk<8, 2, 2, false>}, {"band 10(1,3)", mk<10, 1, 3, false>}, {"band 6(5,4)", mk<6, 5, 4, false>}, {"band 4(3,0)", mk<4, 3, 0, false>}, {"band 7(3,5)", mk<7, 3, 5, false>},
                        // seldom
                        {"full 33", mk<33, 32, 32, false>}, {"Hessenberg 35", mk<35, 34, 34, true>}, {"band 40(3,11)", mk<40, 3, 11, false>}, {"band 25(9,2)", mk<25, 9, 2, false>}};
static const int NCF = sizeof CF / sizeof *CF;
static const Cf &config(Case &c) { return c.chance(1, 25) ? CF[NCF - 4 + c.choice(3)] : CF[c.choice(NCF - 5)]; }
typedef std::complex<LD> CLD;
// smallest pivot of a complete elimination, relative to the largest (row-scaled)
static LD regular(std::vector<CLD> a, int n) {
  LD big = 0, small = INFINITY;
  for (int k = 0; k < n; k++) {
    int p = k, q = k;
    for (int i = k; i < n; i++)
      for (int j = k; j < n; j++)
        if (std::abs(a[i * n + j]) > std::abs(a[p * n + q])) p = i, q = j;
    LD m = std::abs(a[p * n + q]);
    big = std::max(big, m);
    small = std::min(small, m);
    if (m == 0) return 0;
    for (int j = 0; j < n; j++) std::swap(a[p * n + j], a[k * n + j]);
    for (int i = 0; i < n; i++) std::swap(a[i * n + q], a[i * n + k]);
    for (int i = k + 1; i < n; i++) {
      CLD f = a[i * n + k] / a[k * n + k];
      for (int j = k; j < n; j++) a[i * n + j] -= f * a[k * n + j];
    }
  }
  return small / big;
}
static std::vector<CLD> shifted(const std::vector<double> &J, int n, double a, double b) {
  std::vector<CLD> m(n * n);
  for (int i = 0; i < n * n; i++) m[i] = -(LD)J[i];
  for (int i = 0; i < n; i++) m[i * n + i] += CLD(a, b);
  return m;
}
static void solve(Case &c) {
  const Cf &cf = config(c);
  std::unique_ptr<Back> b(cf.make());
  int n = b->n();
  c.desc << cf.name;
  c.label(std::string(cf.name).substr(0, 4));
  int ops = c.range(1, 8), solves = 0;
  std::vector<double> J(n * n, 0);
  bool haveJ = false, haveR = false, haveC = false;
  double fac = 0, al = 0, be = 0, sc = 1;
  bool exact = false, keepshift = false;
  for (int k = 0; k < ops; k++) {
    int op = k == 0 ? 0 : c.range(0, 4);
    if (op == 0 || !haveJ) {
      bool same = haveJ && fac != 0 && c.chance(1, 3);  // a new matrix with the same shifts
      double scale = same ? sc : c.chance(1, 4) ? c.logu(1e-15, 1e15) : c.logu(1e-6, 1e6);
      int kind = c.range(0, 3);
      for (auto &v : J) v = 0;
      for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
          if (b->in(i, j)) {
            if (kind == 1 && c.coin()) continue;                 // sparse
            J[i * n + j] = scale * c.sym();
            if (kind == 2) J[i * n + j] *= c.logu(1e-4, 1e4);    // badly scaled
            if (kind == 3) J[i * n + j] = scale * c.range(-1, 1);
          }
      if (!same) {
        fac = scale * (c.chance(1, 8) ? c.logu(1e-10, 1e10) : c.logu(1e-3, 1e3)) * (c.chance(1, 8) ? -1 : 1);
        al = fac * c.uniform(0.1, 3);
        be = fac * c.uniform(0.1, 3);
      } else c.label("same shifts");
      keepshift = same;
      exact = kind == 3 && c.coin();
      if (kind == 3 && c.coin())  // already in Hessenberg form
        for (int i = 0; i < n; i++)
          for (int j = 0; j < i - 1; j++) J[i * n + j] = 0;
      if (exact && !same) {  // shifts that give exact zeros
        scale = std::exp2(std::round(std::log2(scale)));
        for (auto &v : J) v = v == 0 ? 0 : v > 0 ? scale : -scale;
        c.label("exact zeros");
      }
      sc = scale;
      b->setJ(J);
      c.desc << "\n J=" << show(J, n * n);
      haveJ = true;
      haveR = haveC = false;
    }
    // the real matrix is factorized first (it reduces J to Hessenberg form)
    if (op == 1 || !haveR) {
      if (!keepshift) fac *= c.logu(0.1, 10);
      c.desc << "\n real " << fac;
      if (k == ops - 1) c.ready();
      if (!b->decr(fac)) { c.label("declared singular"); LD q = regular(shifted(J, n, fac, 0), n); c.check(q <= 1e-14 * n * n, "regular-refused", "a regular real matrix was refused, relative pivot ", (double)q); haveR = false; if (c.coin()) b->setJ(J); continue; }
      haveR = true;
    }
    if (op == 2 || !haveC) {
      if (!keepshift) {
        if (c.chance(3, 4)) al *= c.logu(0.1, 10);  // one of both may stay
        if (c.chance(3, 4)) be *= c.logu(0.1, 10);
      }
      keepshift = false;
      if (exact) {
        al = sc * c.range(-2, 2);
        be = sc * c.pick({1.0, 0.5, 0.25, 2.0});
      }
      c.desc << "\n complex " << al << " " << be;
      if (!b->decc(al, be)) { c.label("declared singular"); LD q = regular(shifted(J, n, al, be), n); c.check(q <= 1e-14 * n * n, "regular-refused", "a regular complex matrix was refused, relative pivot ", (double)q); haveC = false; continue; }
      haveC = true;
    }
    LD nJ = 0;
    for (int i = 0; i < n; i++) {
      LD s = 0;
      for (int j = 0; j < n; j++) s += std::fabs(J[i * n + j]);
      nJ = std::max(nJ, s);
    }
    double tol = 1e-13 * n * n;
    if (op != 4) {
      std::vector<double> r(n), x;
      for (auto &v : r) v = c.sym() * c.logu(1e-3, 1e3);
      x = r;
      c.desc << "\n solve " << show(r, n);
      b->solr(x);
      ++solves;
      if (!finite_all(x.data(), n)) c.label("overflow");
      else {
        LD res = 0, nx = 0;
        for (int i = 0; i < n; i++) {
          LD s = -(LD)r[i] + (LD)fac * x[i];
          for (int j = 0; j < n; j++) s -= (LD)J[i * n + j] * x[j];
          res = std::max(res, std::fabs(s));
          nx = std::max(nx, (LD)std::fabs(x[i]));
        }
        for (int i = 0; i < n; i++) nx = std::max(nx, (LD)std::fabs(r[i]) / (nJ + std::fabs(fac)));
        c.check(res <= tol * (nJ + std::fabs((LD)fac)) * nx, "real-residual", "residual ", (double)res, " of the real system, |A||x|=", (double)((nJ + std::fabs((LD)fac)) * nx), " x=", show(x, n));
      }
    }
    if (op != 3) {
      std::vector<double> rr(n), ri(n), xr, xi;
      for (auto &v : rr) v = c.sym();
      for (auto &v : ri) v = c.coin() ? 0 : c.sym();
      xr = rr;
      xi = ri;
      c.desc << "\n complex solve " << show(rr, n) << " + i " << show(ri, n);
      b->solc(xr, xi);
      ++solves;
      if (!finite_all(xr.data(), n) || !finite_all(xi.data(), n)) c.label("overflow");
      else {
        LD res = 0, nx = 0, na = nJ + std::hypot((LD)al, (LD)be);
        for (int i = 0; i < n; i++) {
          CLD s = CLD(al, be) * CLD(xr[i], xi[i]) - CLD(rr[i], ri[i]);
          for (int j = 0; j < n; j++) s -= (LD)J[i * n + j] * CLD(xr[j], xi[j]);
          res = std::max(res, std::abs(s));
          nx = std::max(nx, (LD)std::hypot(xr[i], xi[i]));
        }
        for (int i = 0; i < n; i++) nx = std::max(nx, (LD)std::hypot(rr[i], ri[i]) / na);
        c.check(res <= tol * na * nx, "complex-residual", "residual ", (double)res, " of the complex system, |A||x|=", (double)(na * nx), " x=", show(xr, n), " + i ", show(xi, n));
      }
    }
  }
  c.nontrivial(solves >= 1 && n > 1);
}
// exactly singular matrices are reported, and the object can be used again
static void singular(Case &c) {
  const Cf &cf = config(c);
  std::unique_ptr<Back> b(cf.make());
  int n = b->n();
  std::vector<double> J(n * n, 0);
  // small integers: the eliminations are exact when only a diagonal is concerned
  double f = c.range(1, 9);
  int k = c.range(0, n - 1);
  bool diag = b->hess() || c.coin();
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++)
      if (b->in(i, j) && (i == j || !diag)) J[i * n + j] = c.range(-9, 9);
  bool col = c.coin();
  for (int i = 0; i < n; i++) {
    if (col || diag) J[i * n + k] = 0;
    else J[k * n + i] = 0;
  }
  J[k * n + k] = f;
  if (b->hess() && n >= 4 && c.coin()) {  // the first column is left alone by the reflections
    for (int i = 0; i < n * n; i++) J[i] = c.range(-9, 9);
    for (int i = 0; i < n; i++) J[i * n] = 0;
    J[0] = f;
    diag = false;
    col = true;
  }
  c.desc << cf.name << " J=" << show(J, n * n) << " fac=" << f;
  c.ready();
  b->setJ(J);
  c.check(!b->decr(f), "singular-real", "an exactly singular real matrix was accepted");
  c.nontrivial(n > 1);
  // complex: alpha+i0 (beta=0) is singular too
  if (c.coin()) {
    b->setJ(J);
    if (b->decr(f + 20 * n)) c.check(!b->decc(f, 0), "singular-complex", "an exactly singular complex matrix was accepted");
  }
  if (c.coin()) b->setJ(J);  // or the same matrix with another shift
  double g = f + 30 * n;
  c.check(b->decr(g), "after-singular", "regular matrix rejected");
  std::vector<double> x(n), r(n);
  for (int i = 0; i < n; i++) x[i] = r[i] = i + 1;
  b->solr(x);
  for (int i = 0; i < n; i++) {
    double s = g * x[i] - r[i];
    for (int j = 0; j < n; j++) s -= J[i * n + j] * x[j];
    c.check(std::fabs(s) <= 1e-10 * n, "after-singular-solve", "residual ", s);
  }
}
int main(int argc, char **argv) {
  Property p;
  p.id = "C01";
  p.quick_cases = 150000;
  p.thorough_cases = 50000000;
  p.rule = "solve: histories of new matrices, real and complex factorizations and solutions (full, banded, Hessenberg), checked by their residual in long double; non-trivial: n>1 and a system was solved. singular: exactly singular matrices; non-trivial: n>1";
  p.arms = {{"solve", 4, solve}, {"singular", 1, singular}};
  return run(argc, argv, p);
}
