// G01: compiler, optimization and build switches do not change the results.
#include "scen_load.hpp"
using namespace pbt;
static scen::Out A, B;
static const scen::Plugin &ref() {
  static scen::Plugin p("ref");
  return p;
}
// builds that have to do the same floating point operations: same bits on the current tree; rounding is allowed
static void exact(Case &c) {
  static scen::Plugin v[4] = {{"o0"}, {"o3"}, {"clang"}, {"promise"}};
  static const char *name[] = {"g++ -O0 with ON_STACK, DEBUG and logs", "g++ -O3 with ALIGN_BLOCKED", "clang++ -O2", "ALIGN_BLOCKED with checks of the promised alignments"};
  scen::In in = scen::gen(c);
  int k = c.range(0, 3);
  c.desc << " " << name[k];
  c.ready();
  ref()(in, A);
  v[k](in, B);
  c.label(scen::SOLVER[in.solver]);
  c.label(name[k]);
  bool same = A.n == B.n && memcmp(A.v, B.v, A.n * sizeof(double)) == 0;
  c.label(same ? "same bits" : "rounding");
  c.check(A.n == B.n, "build", "outcome differs with ", name[k]);
  for (int i = 0; i < A.n; i++) {
    double a = A.v[i], b = B.v[i];
    bool fa = std::isfinite(a), fb = std::isfinite(b);
    c.check(fa == fb && (!fa || std::fabs(a - b) <= 1e-8 * std::fabs(a) + 1e-9), "build", "output number ", i, " of the runs is ", a, " with g++ -O1 and ", b, " with ", name[k]);
  }
  c.nontrivial(A.n > 2);
}
// the flags of the test programs: other roundings (fused operations), so that decisions can change
static void fused(Case &c) {
  static scen::Plugin v("native");
  scen::In in = scen::gen(c, true);
  in.digits = true;
  c.ready();
  ref()(in, A);
  v(in, B);
  c.label(scen::SOLVER[in.solver]);
  bool same = A.n == B.n && memcmp(A.v, B.v, A.n * sizeof(double)) == 0;
  c.label(same ? "same bits" : "rounding");
  c.check(A.n == B.n, "flags", "outcome differs with -O3 -march=native: ", A.n, " and ", B.n, " outputs");
  double tol = in.solver < 3 ? 30 * std::max(*std::max_element(in.rtol.begin(), in.rtol.end()), *std::max_element(in.atol.begin(), in.atol.end())) : 1e-8;
  if (in.solver == 0) tol *= 10;
  double m = 1;
  for (int i = 0; i < A.n; i++)
    if (std::isfinite(A.v[i])) m = std::max(m, std::fabs(A.v[i]));
  int per = in.solver == 5 ? in.n + 2 : 0;  // status, convergence, unknowns
  for (int i = 0; i < A.n; i++) {
    double a = A.v[i], b = B.v[i];
    if (per && i % per == 1 && a != b) { c.label("convergence to the last bit differs"); break; }
    bool fa = std::isfinite(a), fb = std::isfinite(b);
    c.check(fa == fb && (!fa || std::fabs(a - b) <= tol * m), "flags", "output number ", i, " of the runs is ", a, " with g++ -O1 and ", b, " with -O3 -march=native");
  }
  c.nontrivial(A.n > 2);
}
int main(int argc, char **argv) {
  Property p;
  p.id = "G01";
  p.quick_cases = 70000;
  p.thorough_cases = 10000000;
  p.rule = "random scenarios of all integrators (as in M01) executed by the code built with g++ -O1 and with: g++ -O0 and the switches ON_STACK, DEBUG and the logs; g++ -O3 and ALIGN_BLOCKED; clang++ -O2; clang++ with ALIGN_BLOCKED, ON_STACK and traps where the alignment promised to the compiler is false (same operations); g++ -O3 -march=native and ALIGN_BLOCKED as in the test programs (fused: other roundings). Non-trivial: the scenario runs";
  p.arms = {{"exact", 3, exact}, {"fused", 1, fused}};
  return run(argc, argv, p);
}
