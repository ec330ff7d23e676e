// C02: vectors and matrices behave as such, with indexes from 1 and LAPACK's storage.
#include "pbt.hpp"
#include <dlfcn.h>
#include <memory>
#include "OdesException.hpp"
#include "fortranVector.hpp"
#include "fortranArray.hpp"
#include "fortranComplexArray.hpp"
#include "fortranRectangularArray.hpp"
#include "fortranRectangularComplexArray.hpp"
using namespace pbt;
using namespace odes;
typedef std::vector<double> V;
// a value passed by value is a view
static void poke(fortranVector v, int i, double x) { v(i) = x; }
static double peek(const fortranVector v, int i) { return v(i); }
template <int N> struct VecModel {
  static void run(Case &c) {
    const int P = 6;
    fortranVectorF<N> x[P];
    std::vector<V> m(P, V(N));
    for (int k = 0; k < P; k++)
      for (int i = 0; i < N; i++) x[k](i + 1) = m[k][i] = c.sym();
    auto at = [&](int k, int i) { return m[k][i]; };
    int ops = c.range(1, 12);
    c.desc << "n=" << N;
    for (int o = 0; o < ops; o++) {
      int op = c.range(0, 22), r = c.range(0, P - 1), k[5];
      for (int &q : k) q = c.range(0, P - 1);
      double a[5];
      for (double &q : a) q = c.chance(1, 6) ? c.pick({0.0, 1.0, -1.0, 2.0}) : c.sym() * 3;
      V res(N), mag(N);
      int i = c.range(1, N);
      auto lin = [&](int nt, bool plus, int first) {  // plus: the first term has coefficient 1
        for (int i = 0; i < N; i++) {
          double s = 0, t = 0;
          for (int q = 0; q < nt; q++) {
            double v = (plus && q == 0 ? 1 : a[q - (plus && first ? 1 : 0)]) * m[k[q]][i];
            s += v;
            t += std::fabs(v);
          }
          res[i] = s;
          mag[i] = t;
        }
      };
      c.desc << "\n " << op << " r=" << r << " k=" << k[0] << k[1] << k[2] << k[3] << k[4] << " i=" << i << " a=" << pbt::show(V(a, a + 5), 5);
      if (o == ops - 1) c.ready();
      bool modified = true;
      switch (op) {
        case 0: x[r] = a[0]; res.assign(N, a[0]); break;
        case 1: { V t(N); for (auto &q : t) q = c.sym(); x[r] = t.data(); res = t; break; }
        case 2: x[r] = x[k[0]]; res = m[k[0]]; break;
        case 3: { fortranVector w(&x[k[0]], N); x[r].fortranVector::operator=(w); res = m[k[0]]; break; }
        case 4: x[r] += x[k[0]]; for (int i = 0; i < N; i++) res[i] = m[r][i] + m[k[0]][i], mag[i] = std::fabs(m[r][i]) + std::fabs(m[k[0]][i]); break;
        case 5: x[r].sum(x[k[0]], x[k[1]]); a[0] = a[1] = 1; lin(2, false, 0); break;
        case 6: { fortranVector w(&x[k[1]], N); x[r].sum(x[k[0]], w); a[0] = a[1] = 1; lin(2, false, 0); break; }
        case 7: { fortranVector v(&x[k[0]], N), w(&x[k[1]], N); x[r].setsum2(v, w); a[0] = a[1] = 1; lin(2, false, 0); break; }
        case 8: x[r].a_Y(a[0], x[k[0]]); lin(1, false, 0); break;
        case 9: x[r].lc2(a[0], x[k[0]], a[1], x[k[1]]); lin(2, false, 0); break;
        case 10: x[r].lc3(a[0], x[k[0]], a[1], x[k[1]], a[2], x[k[2]]); lin(3, false, 0); break;
        case 11: x[r].lc4(a[0], x[k[0]], a[1], x[k[1]], a[2], x[k[2]], a[3], x[k[3]]); lin(4, false, 0); break;
        case 12: x[r].lc5(a[0], x[k[0]], a[1], x[k[1]], a[2], x[k[2]], a[3], x[k[3]], a[4], x[k[4]]); lin(5, false, 0); break;
        case 13: x[r].x_lc2(x[k[0]], a[0], x[k[1]], a[1], x[k[2]]); lin(3, true, 1); break;
        case 14: x[r].x_lc3(x[k[0]], a[0], x[k[1]], a[1], x[k[2]], a[2], x[k[3]]); lin(4, true, 1); break;
        case 15: x[r].x_lc4(x[k[0]], a[0], x[k[1]], a[1], x[k[2]], a[2], x[k[3]], a[3], x[k[4]]); lin(5, true, 1); break;
        case 16: {
          x[r].a_x_plus_y(a[0], x[k[0]], x[k[1]]);
          for (int i = 0; i < N; i++) res[i] = a[0] * m[k[0]][i] + m[k[1]][i], mag[i] = std::fabs(a[0] * m[k[0]][i]) + std::fabs(m[k[1]][i]);
          break;
        }
        case 17: {
          V t(N + 2, 77.);
          x[r].put(t.data() + 1);
          for (int i = 0; i < N; i++) c.check(t[i + 1] == m[r][i], "put", "put gives ", t[i + 1], " for component ", i + 1, ", expected ", m[r][i]);
          c.check(t[0] == 77 && t[N + 1] == 77, "put-outside", "put writes outside");
          modified = false;
          break;
        }
        case 18: poke(x[r], i, a[0]); res = m[r]; res[i - 1] = a[0]; break;
        case 19: if (r != k[0]) { x[r].switchadr(x[k[0]]); std::swap(m[r], m[k[0]]); } modified = false; break;
        case 20: {
          // a vector of its own, then a copy of it
          fortranVector v(N);
          v = x[k[0]];
          { fortranVector w(v); w(i) = a[0]; c.check(v(i) == a[0], "view", "a copy of a vector is not a view"); }
          v(i) += 1;
          c.check(peek(v, i) == a[0] + 1 && v.get_size() == N, "own", "component ", v(i), " expected ", a[0] + 1);
          x[r].fortranVector::operator+=(v);
          for (int j = 0; j < N; j++) { double t = j == i - 1 ? a[0] + 1 : m[k[0]][j]; res[j] = m[r][j] + t; mag[j] = std::fabs(m[r][j]) + std::fabs(t); }
          break;
        }
      }
      if (op == 21) {  // the size
        c.check(x[r].get_size() == N, "size", "size ", x[r].get_size(), ", expected ", N);
        fortranVector v(&x[r], N + 3);
        v.setsize(N);
        c.check(v.get_size() == N, "size", "size ", v.get_size(), ", expected ", N);
        fortranVector w(v), e;
        c.check(w.get_size() == N && e.get_size() == 0, "size", "size ", w.get_size(), " of a view, expected ", N);
        modified = false;
      }
      if (op == 22) {  // printing
        std::ostringstream o;
        auto *old = std::cout.rdbuf(o.rdbuf());
        if (c.coin()) x[r].print("name");
        else x[r].fortranVector::print("name");
        std::cout.rdbuf(old);
        std::ostringstream e;
        e << "name ";
        for (double v : m[r]) e << v << ' ';
        e << "\n";
        c.check(o.str() == e.str(), "print", "print gives ", o.str(), " expected ", e.str());
        modified = false;
      }
      if (modified) {
        for (int j = 0; j < N; j++) {
          c.check(std::fabs(x[r](j + 1) - res[j]) <= 4e-15 * mag[j], "vector-op", "operation ", op, ": component ", j + 1, " is ", x[r](j + 1), ", expected ", res[j]);
          m[r][j] = x[r](j + 1);
        }
      }
      // nothing else changed, and every access sees the same values
      for (int q = 0; q < P; q++)
        for (int j = 0; j < N; j++) c.check(x[q](j + 1) == m[q][j] && (&x[q])[j] == m[q][j] && peek(x[q], j + 1) == m[q][j], "other-vector", "operation ", op, " on vector ", r, ": vector ", q, " component ", j + 1, " is ", x[q](j + 1), ", expected ", m[q][j]);
    }
    c.label("vectors");
    c.nontrivial(ops >= 3);
  }
};
template <class A, int N, int L, int U, bool CX> struct Acc;
template <class A, int N, int L, int U> struct Acc<A, N, L, U, false> {
  A a;
  void set(int i, int j, double r, double) { a(i, j) = r; }
  void setp(int i, int j, double r, int) { a(i, j) = r; }
  double get(int i, int j, int) { const A &b = a; double x = b(i, j), y = a(i, j); return x == y ? x : NAN; }
  double raw(long k, int) { return (&a)[k]; }
};
template <class A, int N, int L, int U> struct Acc<A, N, L, U, true> {
  A a;
  void set(int i, int j, double r, double s) { a.set(i, j, r, s); }
  void setp(int i, int j, double r, int p) { if (p) a.Im(i, j) = r; else a.Re(i, j) = r; }
  double get(int i, int j, int p) { return p ? a.Im(i, j) : a.Re(i, j); }
  double raw(long k, int p) { return (&a)[2 * k + p]; }
};
template <class A, int N, int L, int U, bool CX> struct MatModel {
  static void run(Case &c) {
    bool full = L == N - 1 && U == N - 1 && N > 0;
    (void)full;
    std::unique_ptr<Acc<A, N, L, U, CX>> m(new Acc<A, N, L, U, CX>);
    auto in = [](int i, int j) { return i >= 1 && j >= 1 && i <= N && j <= N && j >= i - L && j <= i + U; };
    std::map<std::array<int, 3>, double> ref;
    int np = CX ? 2 : 1;
    for (int i = 1; i <= N; i++)
      for (int j = 1; j <= N; j++)
        if (in(i, j)) {
          double a = c.sym(), b = CX ? c.sym() : 0;
          m->set(i, j, a, b);
          ref[{i, j, 0}] = a;
          if (CX) ref[{i, j, 1}] = b;
        }
    int ops = c.range(0, 10);
    c.desc << "n=" << N << "(" << L << "," << U << ")" << (CX ? " complex" : "");
    c.ready();
    for (int o = 0; o < ops; o++) {
      int i = c.range(1, N), j = c.range(std::max(1, i - L), std::min(N, i + U)), p = c.range(0, np - 1);
      double v = c.sym();
      m->setp(i, j, v, p);
      ref[{i, j, p}] = v;
      c.desc << " (" << i << "," << j << "," << p << ")=" << v;
    }
    verify(c, *m, ref, "write");
    if constexpr (!CX) {
      std::unique_ptr<A> b(new A);
      b->equal_minus(m->a);
      double d = c.sym();
      b->addDiag(d);
      for (auto &q : ref) {
        double e = -q.second + (q.first[0] == q.first[1] ? d : 0), g = (*b)(q.first[0], q.first[1]);
        c.check(std::fabs(g - e) <= 1e-15 * (1 + std::fabs(e)), "minus-diag", "-A+", d, "I: element (", q.first[0], ",", q.first[1], ") is ", g, ", expected ", e);
      }
      verify(c, *m, ref, "equal_minus");
    }
    {
      std::ostringstream o, e;
      auto *old = std::cout.rdbuf(o.rdbuf());
      m->a.print("name");
      std::cout.rdbuf(old);
      e << "name\n";
      for (int p = 0; p < np; p++) {
        if (p) e << "---\n";
        for (int i = 1; i <= N; i++) {
          for (int j = 1; j <= N; j++)
            if (in(i, j)) e << ref[{i, j, p}] << " ";
          e << "\n";
        }
      }
      c.check(o.str() == e.str(), "print", "print gives ", o.str(), " expected ", e.str());
    }
    c.label(CX ? "complex" : "real");
    c.nontrivial(N > 1);
  }
  static bool inband(bool rect) { return rect; }
  static constexpr bool rect = std::is_same<A, fortranRectangularArray<N, L, U>>::value || std::is_same<A, fortranRectangularComplexArray<N, L, U>>::value;
  static void verify(Case &c, Acc<A, N, L, U, CX> &m, std::map<std::array<int, 3>, double> &ref, const char *w) {
    for (auto &q : ref) {
      int i = q.first[0], j = q.first[1], p = q.first[2];
      c.check(m.get(i, j, p) == q.second, "element", w, ": element (", i, ",", j, ") is ", m.get(i, j, p), ", expected ", q.second);
      long k = rect ? (long)(2 * L + U + 1) * (j - 1) + L + U + i - j : (long)N * (j - 1) + i - 1;
      c.check(m.raw(k, p) == q.second, "storage", w, ": element (", i, ",", j, ") is not at its place in LAPACK's storage");
    }
  }
};
static void vectors(Case &c) {
  switch (c.range(0, 12)) {
    case 5: VecModel<1>::run(c); break;
    case 1: VecModel<2>::run(c); break;
    case 2: VecModel<5>::run(c); break;
    case 3: VecModel<8>::run(c); break;
    case 4: VecModel<13>::run(c); break;
    case 6: VecModel<3>::run(c); break;
    case 7: VecModel<4>::run(c); break;
    case 8: VecModel<7>::run(c); break;
    case 9: VecModel<16>::run(c); break;
    case 10: VecModel<37>::run(c); break;
    case 11: VecModel<6>::run(c); break;
    case 12: c.chance(1, 4) ? VecModel<131>::run(c) : VecModel<9>::run(c); break;
    case 0: VecModel<10>::run(c); break;
  }
}
template <int N> static void copyarray(Case &c) {
  fortranArray<N> *a = new fortranArray<N>;
  double v[N * N];
  for (int i = 0; i < N * N; i++) (*a)(1 + i % N, 1 + i / N) = v[i] = c.sym();
  c.desc << "copy of an array " << pbt::show(v, N * N);
  c.ready();
  fortranArray<N> b(*a);
  for (int i = 0; i < N * N; i++) (*a)(1 + i % N, 1 + i / N) = 99;
  delete a;
  for (int i = 0; i < N * N; i++) c.check(b(1 + i % N, 1 + i / N) == v[i], "array-copy", "a copy of a matrix changes with the original");
  c.nontrivial();
}
static void matrices(Case &c) {
  switch (c.range(0, 17)) {
    case 0: MatModel<fortranArray<1>, 1, 0, 0, false>::run(c); break;
    case 1: MatModel<fortranArray<3>, 3, 2, 2, false>::run(c); break;
    case 2: MatModel<fortranArray<6>, 6, 5, 5, false>::run(c); break;
    case 3: MatModel<fortranComplexArray<1>, 1, 0, 0, true>::run(c); break;
    case 4: MatModel<fortranComplexArray<4>, 4, 3, 3, true>::run(c); break;
    case 5: MatModel<fortranRectangularArray<3, 0, 0>, 3, 0, 0, false>::run(c); break;
    case 6: MatModel<fortranRectangularArray<5, 1, 2>, 5, 1, 2, false>::run(c); break;
    case 7: MatModel<fortranRectangularArray<7, 3, 0>, 7, 3, 0, false>::run(c); break;
    case 8: MatModel<fortranRectangularArray<6, 4, 5>, 6, 4, 5, false>::run(c); break;
    case 9: MatModel<fortranRectangularComplexArray<4, 0, 1>, 4, 0, 1, true>::run(c); break;
    case 10: MatModel<fortranRectangularComplexArray<6, 2, 1>, 6, 2, 1, true>::run(c); break;
    case 11: MatModel<fortranRectangularComplexArray<9, 1, 4>, 9, 1, 4, true>::run(c); break;
    case 12: c.coin() ? copyarray<4>(c) : c.coin() ? copyarray<1>(c) : copyarray<7>(c); break;
    case 13: MatModel<fortranArray<17>, 17, 16, 16, false>::run(c); break;
    case 14: MatModel<fortranComplexArray<9>, 9, 8, 8, true>::run(c); break;
    case 15: MatModel<fortranRectangularArray<15, 2, 6>, 15, 2, 6, false>::run(c); break;
    case 16: MatModel<fortranRectangularComplexArray<14, 7, 2>, 14, 7, 2, true>::run(c); break;
    case 17: MatModel<fortranRectangularComplexArray<2, 1, 0>, 2, 1, 0, true>::run(c); break;
  }
}
// with DEBUG, an index is accepted if and only if it is inside
static void debug(Case &c) {
  static int (*probe)(int, int, int, int) = nullptr;
  if (!probe) {
    void *h = dlopen(getenv("PLUGIN_debug"), RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(3); }
    probe = (int (*)(int, int, int, int))dlsym(h, "probe");
  }
  static const int SH[][4] = {{0, 5}, {0, 1}, {1, 4, 3, 3}, {1, 1, 0, 0}, {2, 6, 1, 2}, {2, 5, 3, 0}, {2, 4, 0, 0}, {2, 5, 3, 4}, {3, 6, 2, 1}, {3, 5, 0, 3}, {3, 4, 3, 2}, {3, 3, 0, 0}, {4, 4}};
  int k = c.range(0, 12), ty = SH[k][0], n = SH[k][1], l = SH[k][2], u = SH[k][3];
  int w = c.range(0, ty == 3 || ty == 0 ? 2 : 1), i = c.range(-2, 10), j = c.range(-2, 10);
  if (c.chance(1, 20)) i += c.pick({-1, 1}) * c.range(10, 2000000000);
  else if (ty && ty != 4 && c.chance(1, 20)) j += c.pick({-1, 1}) * c.range(10, 2000000000);
  static const char *nm[] = {"vector", "matrix", "band", "complex band", "sum of vectors"};
  bool in;
  if (ty == 0) in = i >= 1 && i <= n;
  else if (ty == 4) {
    i = 1 + std::abs(i % 6);
    j = 1 + std::abs(j % 6);
    in = i == n && j == n;
  } else in = i >= 1 && i <= n && j >= 1 && j <= n && j >= i - l && j <= i + u;
  c.desc << nm[ty] << " " << n << "(" << l << "," << u << ")" << (w ? " write " : " read ") << i << "," << j;
  c.ready();
  int r = probe(k, w, i, j);
  c.check(r == !in, "range-check", nm[ty], ": index ", i, ",", j, r ? " was rejected" : " was accepted");
  c.label(in ? "index inside" : "index outside");
  c.nontrivial(!in);
}
int main(int argc, char **argv) {
  Property p;
  p.id = "C02";
  p.quick_cases = 600000;
  p.thorough_cases = 50000000;
  p.rule = "vectors: random sequences of vector operations against a model, with aliasing arguments; non-trivial: 3 operations or more. matrices: random writes, storage and elementary operations; non-trivial: n>1. debug: indexes in and out of range in DEBUG builds; non-trivial: out of range";
  p.arms = {{"vectors", 4, vectors}, {"matrices", 3, matrices}, {"debug", 1, debug}};
  return run(argc, argv, p);
}
