// C03: the log gives the events back, in order, one per line, filtered by type.
#include "pbt.hpp"
#include "logger.hpp"
using namespace pbt;
using namespace odes;
struct Ev { double t, v; int s, e; };
static const char *NM[] = {"success", "rejectedStep", "NewtonFailed", "NewtonWillNotConverge", "changedH"};
static void verify(Case &c, const std::string &txt, const std::vector<Ev> &m, int filter) {
  std::istringstream is(txt);
  std::string line;
  size_t k = 0;
  int count = 0;
  while (std::getline(is, line)) {
    while (k < m.size() && filter != all && m[k].e != filter) k++;
    c.check(k < m.size(), "too-many-lines", "filter ", filter, ": unexpected line ", line);
    int num, st, pos = 0;
    double t;
    char name[64];
    c.check(sscanf(line.c_str(), "%d Time: %lf step: %d Event: %63s%n", &num, &t, &st, name, &pos) == 4, "format", "line ", line);
    c.check(num == ++count, "number", "line ", count, " has number ", num);
    c.check(std::fabs(t - m[k].t) <= 0.51e-6 + 1e-12 * std::fabs(m[k].t), "time", "line ", line, ": time should be ", m[k].t);
    c.check(st == m[k].s, "step", "line ", line, ": step should be ", m[k].s);
    c.check(std::string(name) == NM[m[k].e], "name", "line ", line, ": event should be ", NM[m[k].e]);
    const char *v = strstr(line.c_str(), "new step: ");
    bool want = m[k].e == changedH || m[k].e == rejectedStep;
    c.check((v != nullptr) == want, "value", "line ", line, want ? ": the new step is missing" : ": no new step expected");
    if (v) c.check(std::fabs(atof(v + 10) - m[k].v) <= 0.51e-6 + 1e-12 * std::fabs(m[k].v), "value", "line ", line, ": new step should be ", m[k].v);
    k++;
  }
  while (k < m.size() && filter != all && m[k].e != filter) k++;
  c.check(k == m.size(), "missing-lines", "filter ", filter, ": ", count, " lines, an event is missing");
}
static void logging(Case &c) {
  logger L;
  std::vector<Ev> m;
  int ops = c.chance(1, 60) ? c.range(100, 1500) : c.range(0, 25);
  for (int o = 0; o < ops; o++) {
    int op = c.range(0, ops > 25 ? 400 : 12);
    if (op == 0) {
      L.clear();
      m.clear();
      c.desc << " clear";
      c.label("cleared");
    } else if (op == 1) {
      int f = c.range(0, 5);
      c.desc << " tostring(" << f << ")";
      c.ready();
      verify(c, L.tostring((eventType)f), m, f);
    } else {
      Ev e;
      e.t = c.pick({0.0, 1.0, -1.0}) * c.logu(1e-8, 1e8);
      e.v = c.sym() * c.logu(1e-8, 1e4);
      e.s = c.chance(1, 20) ? 2147483647 - c.range(0, 5) : c.range(0, 100000);
      e.e = c.range(0, 4);
      L.put(e.t, e.s, (eventType)e.e, e.v);
      m.push_back(e);
      if (o < 40) c.desc << " put(" << e.t << "," << e.s << "," << NM[e.e] << "," << e.v << ")";
    }
  }
  c.ready();
  for (int f = 0; f <= 5; f++) verify(c, L.tostring((eventType)f), m, f);
  verify(c, L.tostring(), m, all);
  std::ostringstream os;
  os << L;
  c.check(os.str() == L.tostring(), "stream", "operator<< gives something else");
  logger M(L);
  L.clear();
  c.check(L.tostring().empty(), "clear", "not empty after clear()");
  verify(c, M.tostring(), m, all);
  c.nontrivial(m.size() >= 2);
}
int main(int argc, char **argv) {
  Property p;
  p.id = "C03";
  p.quick_cases = 100000;
  p.thorough_cases = 10000000;
  p.rule = "random sequences of events, clear() and filtered conversions against a list; non-trivial: 2 events or more at the end";
  p.arms = {{"log", 1, logging}};
  return run(argc, argv, p);
}
