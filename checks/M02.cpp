// M02: results do not depend on what the memory contained before.
#include "scen_load.hpp"
using namespace pbt;
static scen::Out OUT[2];
static void memory(Case &c) {
  static scen::Plugin run("mem");
  scen::In in = scen::gen(c);
  in.pattern = 0;
  int second = c.pick({0xff, 0x7f, 0xa5, 0x3f, 1});
  c.desc << " fill=" << second;
  c.ready();
  run(in, OUT[0]);
  in.pattern = second;
  run(in, OUT[1]);
  c.label(scen::SOLVER[in.solver]);
  c.label(std::string(scen::SOLVER[in.solver]) + " configuration " + std::to_string(in.cfg));
  int n = std::max(OUT[0].n, OUT[1].n);
  for (int i = 0; i < n; i++)
    c.check(OUT[0].n == OUT[1].n && memcmp(&OUT[0].v[i], &OUT[1].v[i], sizeof(double)) == 0, "uninitialized", "output number ", i, " of the runs is ", OUT[0].v[i], " when the memory is filled with 0 and ", OUT[1].v[i], " when it is filled with ", second);
  c.check(OUT[0].text == OUT[1].text, "uninitialized-log", "the log depends on what the memory contained");
  c.nontrivial(OUT[0].n > 2);
}
int main(int argc, char **argv) {
  Property p;
  p.id = "M02";
  p.quick_cases = 60000;
  p.thorough_cases = 10000000;
  p.rule = "random scenarios of all integrators (as in M01), run twice: storage of the object, heap and stack filled with 0, then with another byte; all results, counters and logs compared bit by bit. Non-trivial: the scenario runs";
  p.arms = {{"memory", 1, memory}};
  return run(argc, argv, p);
}
