// M01: memory safety of all parts (compiled with the address and undefined behaviour sanitizers).
#include "scen_load.hpp"
#include "OdesException.hpp"
#include "protos_lapack.hpp"
#include "Matrices.hpp"
#include "fortranVector.hpp"
#include "fortranArray.hpp"
#include "fortranComplexArray.hpp"
#include "fortranRectangularArray.hpp"
#include "fortranRectangularComplexArray.hpp"
#include "logger.hpp"
#include <complex>
#include <memory>
#include <list>
#include <fstream>
#include <dlfcn.h>
namespace c01 {
#define main main1
#include "../checks/C01.cpp"
#undef main
}
namespace c02 {
#define main main2
#include "../checks/C02.cpp"
#undef main
}
namespace c03 {
#define main main3
#include "../checks/C03.cpp"
#undef main
}
using namespace pbt;
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static scen::Out OUT[3];
static void solvers(Case &c) {
  scen::In in = scen::gen(c);
  static scen::Plugin run("san");
  c.ready();
  run(in, OUT[0]);
  size_t a = __sanitizer_get_current_allocated_bytes();
  run(in, OUT[1]);
  size_t b = __sanitizer_get_current_allocated_bytes();
  c.check(a == b, "leak", (long)b - (long)a, " bytes remain allocated after the object is destroyed");
  bool same = OUT[0].n == OUT[1].n && memcmp(OUT[0].v, OUT[1].v, OUT[0].n * sizeof(double)) == 0;
  c.check(same, "not-deterministic", "the same scenario run twice gives different results");
  c.label(scen::SOLVER[in.solver]);
  for (auto &r : in.runs) {
    if (r.throw_at > 0) c.label("exception planned");
    if (r.xend == r.x0) c.label("empty interval");
  }
  c.nontrivial(OUT[0].n > 2);
}
int main(int argc, char **argv) {
  Property p;
  p.id = "M01";
  p.quick_cases = 40000;
  p.thorough_cases = 10000000;
  p.rule = "random scenarios of all integrators (every matrix structure, method and number of stages in a list of configurations; several runs per object, interrupted by exceptions or limits), and the matrix, vector and log histories of C01, C02 and C03, with address and undefined behaviour sanitizers; the memory in use is compared before and after. Non-trivial: the scenario runs";
  p.arms = {{"solvers", 6, solvers}, {"matrices", 2, c01::solve}, {"singular", 1, c01::singular}, {"vectors", 1, c02::vectors}, {"arrays", 1, c02::matrices}, {"log", 1, c03::logging}};
  return run(argc, argv, p);
}
