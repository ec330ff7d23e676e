// T01: objects are independent: integrations that are interleaved, or run in several threads.
#include "scen_load.hpp"
#include <condition_variable>
#include <mutex>
#include <thread>
using namespace pbt;
enum { MAXK = 4 };
static scen::Out ALONE[MAXK], TOGETHER[MAXK];
// only the thread that holds the token runs; it is handed on in the calls of the functions of the user
struct Sched {
  std::mutex m;
  std::condition_variable cv;
  int k, cur = 0, alive;
  bool done[MAXK] = {};
  std::vector<std::pair<int, int>> plan;  // number of calls, then which one of the others
  size_t pos = 0;
  long left = 0, switches = 0;
  void next() {
    auto s = plan[pos++ % plan.size()];
    left = s.first;
    if (!alive) return;
    int t = cur;
    for (int j = 0; j <= s.second || done[t]; j++) t = (t + 1) % k;
    switches += t != cur;
    cur = t;
  }
};
struct Me { Sched *s; int i; };
static void yield(void *p) {
  Me *me = (Me *)p;
  Sched &s = *me->s;
  if (--s.left > 0) return;
  std::unique_lock<std::mutex> l(s.m);
  s.next();
  if (s.cur == me->i) return;
  s.cv.notify_all();
  s.cv.wait(l, [&] { return s.cur == me->i; });
}
static std::vector<scen::In> scenarios(Case &c, int k) {
  std::vector<scen::In> in;
  for (int i = 0; i < k; i++) {
    bool like = i && c.coin();
    in.push_back(scen::gen(c, false, like ? &in[0] : nullptr));
    c.desc << "\n  ";
  }
  return in;
}
static void compare(Case &c, const std::vector<scen::In> &in, const char *how) {
  for (size_t i = 0; i < in.size(); i++) {
    int n = std::max(ALONE[i].n, TOGETHER[i].n);
    for (int j = 0; j < n; j++)
      c.check(ALONE[i].n == TOGETHER[i].n && memcmp(&ALONE[i].v[j], &TOGETHER[i].v[j], sizeof(double)) == 0, "disturbed", scen::SOLVER[in[i].solver], " number ", i, ": output number ", j, " is ", ALONE[i].v[j], " alone and ", TOGETHER[i].v[j], " when ", how);
    c.check(ALONE[i].text == TOGETHER[i].text, "disturbed-log", scen::SOLVER[in[i].solver], " number ", i, ": another log when ", how);
  }
  for (auto &k : in) c.label(scen::SOLVER[k.solver]);
}
static scen::Plugin &plugin() {
  static scen::Plugin p("tsan");
  return p;
}
static void interleaved(Case &c) {
  scen::Plugin &run = plugin();
  int k = c.range(2, 3);
  std::vector<scen::In> in = scenarios(c, k);
  Sched s;
  s.k = s.alive = k;
  int m = c.range(1, 12), big = c.pick({1, 3, 10, 60});
  c.desc << "calls between switches:";
  for (int i = 0; i < m; i++) {
    s.plan.push_back({c.range(1, big), c.choice(k - 1)});
    c.desc << " " << s.plan.back().first << "(" << s.plan.back().second << ")";
  }
  c.ready();
  Me me[MAXK];
  s.left = s.plan[0].first;
  std::vector<std::thread> th;
  for (int i = 0; i < k; i++) {
    me[i] = {&s, i};
    th.emplace_back([&, i] {
      {
        std::unique_lock<std::mutex> l(s.m);
        s.cv.wait(l, [&] { return s.cur == i; });
      }
      run(in[i], TOGETHER[i], yield, &me[i]);
      std::unique_lock<std::mutex> l(s.m);
      s.done[i] = true;
      s.alive--;
      s.next();
      s.cv.notify_all();
    });
  }
  for (auto &t : th) t.join();
  for (int i = k - 1; i >= 0; i--) run(in[i], ALONE[i]);
  compare(c, in, "interleaved");
  c.label(s.switches < 10 ? "switches: <10" : s.switches < 100 ? "switches: 10-99" : "switches: 100 or more");
  c.nontrivial(s.switches >= k);
}
static void threads(Case &c) {
  scen::Plugin &run = plugin();
  int k = c.range(2, 4);
  std::vector<scen::In> in = scenarios(c, k);
  c.ready();
  std::vector<std::thread> th;
  for (int i = 0; i < k; i++) th.emplace_back([&, i] { run(in[i], TOGETHER[i]); });
  for (auto &t : th) t.join();
  for (int i = k - 1; i >= 0; i--) run(in[i], ALONE[i]);
  compare(c, in, "run in several threads");
  c.nontrivial();
}
int main(int argc, char **argv) {
  Property p;
  p.id = "T01";
  p.quick_cases = 5000;
  p.thorough_cases = 2000000;
  p.rule = "2 to 4 random scenarios of all integrators (as in M01), half of them with the same integrator and configuration, interleaved in the calls of the user's functions by a random schedule, or run in threads under ThreadSanitizer; all results, counters and logs compared bit by bit with those of scenarios run alone. Non-trivial: as many switches as scenarios";
  p.arms = {{"interleaved", 2, interleaved}, {"threads", 1, threads}};
  return run(argc, argv, p);
}
