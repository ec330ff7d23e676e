#include "pbt.hpp"
#include <atomic>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
using namespace std;
namespace pbt {
uint64_t *g_pub_out, *g_pub_n;
char *g_pub_desc;
size_t g_pub_desc_size;
namespace {
double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}
const int MAXARM = 64, MAXLAB = 400, LABLEN = 56, MAXFAIL = 64;
struct Lab { char name[LABLEN]; uint64_t n; };
struct FailRec { uint64_t idx; int arm; char key[80]; char msg[1200]; };
struct Slot {
  volatile uint64_t cur;       // index being run
  volatile int running;        // 1 while a case is in progress
  volatile uint64_t next;      // next index to run
  volatile int done;
  uint64_t evals[MAXARM], disc[MAXARM], nontriv[MAXARM];
  uint64_t sample[MAXARM][3];
  int nsample[MAXARM];
  Lab lab[MAXLAB];
  int nlab;
  FailRec fail[MAXFAIL];
  volatile int nfail;
  uint64_t hashes[1 << 17];
  uint64_t nhash;
};
struct One {  // result of one isolated run
  int status;  // 0 ok, 1 fail, 2 discard
  char key[80];
  char msg[1200];
  char desc[6000];
  uint64_t nout;
  uint64_t out[1 << 18];
  int done;
};
template <class T> T *shared() {
  void *p = mmap(0, sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
  return (T *)p;
}
void put(char *dst, size_t n, const string &s) {
  size_t k = min(n - 1, s.size());
  memcpy(dst, s.data(), k);
  dst[k] = 0;
}
string g_scratch;
void quiet(const string &errfile) {
  int f = open("/dev/null", O_WRONLY);
  dup2(f, 1);
  int e = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (e >= 0) dup2(e, 2);
  else dup2(f, 2);
}
string tailfile(const string &path) {
  ifstream f(path);
  stringstream s;
  s << f.rdbuf();
  string t = s.str();
  size_t a = t.find("ERROR: ");
  if (a == string::npos) a = t.find("runtime error");
  if (a == string::npos) a = t.find("WARNING: ");
  if (a == string::npos) a = t.size() > 900 ? t.size() - 900 : 0;
  else a = t.rfind('\n', a) == string::npos ? 0 : t.rfind('\n', a);
  return t.substr(a, 900);
}
void cpu_limit(double s) {
  itimerval v;
  memset(&v, 0, sizeof v);
  v.it_value.tv_sec = (long)s;
  v.it_value.tv_usec = (long)((s - (long)s) * 1e6);
  setitimer(ITIMER_PROF, &v, 0);  // SIGPROF kills: reported as a hang
}
int pick_arm(const Property &p, uint64_t idx) {
  // deterministic weighted interleaving
  int tot = 0;
  for (auto &a : p.arms) tot += a.weight;
  uint64_t s = idx / tot * 7919 + 17;
  // a permutation of the tot slots, different for each round
  int k = (int)(idx % tot);
  k = (int)((k + splitmix(s) % tot) % tot);
  for (size_t i = 0; i < p.arms.size(); i++) {
    if (k < p.arms[i].weight) return (int)i;
    k -= p.arms[i].weight;
  }
  return 0;
}
uint64_t case_seed(uint64_t seed, const string &id, uint64_t idx) {
  uint64_t h = 1469598103934665603ull;
  for (char c : id) h = (h ^ (unsigned char)c) * 1099511628211ull;
  uint64_t s = h ^ (seed * 0x9e3779b97f4a7c15ull);
  splitmix(s);
  s ^= idx * 0xd1342543de82ef95ull;
  splitmix(s);
  return s;
}
// run one case; returns status
int exec(const Arm &a, Case &c, string &key, string &msg) {
  try {
    a.fn(c);
    return 0;
  } catch (const Fail &f) {
    key = f.key;
    msg = f.msg;
    return 1;
  } catch (const Discard &) {
    return 2;
  } catch (const std::exception &e) {
    key = "unexpected-exception";
    msg = string("uncaught std::exception: ") + e.what();
    return 1;
  } catch (...) {
    key = "unexpected-exception";
    msg = "the code under test threw an exception where none is allowed";
    return 1;
  }
}
string sig_key(int st) {
  if (WIFSIGNALED(st)) {
    int s = WTERMSIG(st);
    if (s == SIGPROF || s == SIGKILL) return "hang";
    return "crash-signal-" + to_string(s);
  }
  return "crash-exit-" + to_string(WEXITSTATUS(st));
}
// isolated run, of a choice sequence or of a seed
int isolated_(const Property &p, int arm, const vector<uint64_t> *ch, uint64_t seed, One *o, double cpu) {
  memset(o->key, 0, sizeof o->key);
  memset(o->msg, 0, sizeof o->msg);
  memset(o->desc, 0, sizeof o->desc);
  o->done = 0;
  o->nout = 0;
  o->status = 0;
  string ef = g_scratch + "/one.err";
  cout.flush();
  fflush(0);
  pid_t pid = fork();
  if (pid == 0) {
    quiet(ef);
    g_pub_out = o->out;
    g_pub_n = &o->nout;
    g_pub_desc = o->desc;
    g_pub_desc_size = sizeof o->desc;
    cpu_limit(cpu);
    Case c = ch ? Case(*ch) : Case(seed);
    string k, m;
    int st = exec(p.arms[arm], c, k, m);
    c.ready();
    put(o->key, sizeof o->key, k);
    put(o->msg, sizeof o->msg, m);
    o->status = st;
    o->done = 1;
    fflush(0);
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (!o->done || !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
    o->status = 1;
    put(o->key, sizeof o->key, sig_key(st));
    put(o->msg, sizeof o->msg, tailfile(ef));
  }
  return o->status;
}
int isolated(const Property &p, int arm, const vector<uint64_t> &ch, One *o, double cpu) {
  return isolated_(p, arm, &ch, 0, o, cpu);
}
string jstr(const string &s) {
  string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
struct Args {
  string tier = "quick", evidence, replaydir = ".", known, replay;
  uint64_t seed = 1;
  long cases = -1;
  double budget = 0;
  bool list = false;
  int arm = -1;
  long index = -1;
};
void worker(const Property &p, const Args &a, Slot *s, uint64_t N, int W, const string &errfile, double tend) {
  quiet(errfile);
  for (uint64_t i = s->next; i < N; i += W) {
    if (now() > tend) break;
    int arm = a.arm >= 0 ? a.arm : pick_arm(p, i);
    s->cur = i;
    s->running = 1;
    s->next = i + W;
    cpu_limit(p.case_cpu_s);
    Case c(case_seed(a.seed, p.id, i));
    string k, m;
    int st = exec(p.arms[arm], c, k, m);
    cpu_limit(0);
    s->running = 0;
    if (st == 2) { s->disc[arm]++; continue; }
    s->evals[arm]++;
    for (auto &l : c.labels) {
      int j = 0;
      for (; j < s->nlab; j++)
        if (l.compare(0, LABLEN - 1, s->lab[j].name) == 0) break;
      if (j == s->nlab) {
        if (s->nlab == MAXLAB) continue;
        put(s->lab[j].name, LABLEN, l);
        s->nlab++;
      }
      s->lab[j].n++;
    }
    if (c.nontriv) {
      s->nontriv[arm]++;
      if (s->nsample[arm] < 3) s->sample[arm][s->nsample[arm]++] = i;
      uint64_t h = 1469598103934665603ull ^ arm;
      for (uint64_t v : c.out) h = (h ^ v) * 1099511628211ull;
      if (s->nhash < (1 << 17)) s->hashes[s->nhash++] = h;
    }
    if (st == 1 && s->nfail < MAXFAIL) {
      FailRec &f = s->fail[s->nfail];
      f.idx = i;
      f.arm = arm;
      put(f.key, sizeof f.key, k);
      put(f.msg, sizeof f.msg, m);
      s->nfail = s->nfail + 1;
      if (s->nfail >= MAXFAIL) break;
    }
  }
  s->done = 1;
  fflush(0);
  _exit(0);
}
vector<uint64_t> outv(const One *o) { return vector<uint64_t>(o->out, o->out + o->nout); }
vector<uint64_t> shrink(const Property &p, int arm, vector<uint64_t> best, const string &key, const set<string> &known, One *o,
                        double secs, int &runs) {
  double t1 = now() + secs;
  runs = 0;
  auto bad = [&](const vector<uint64_t> &c, vector<uint64_t> &res) {
    if (now() > t1 || runs > 3000) return false;
    ++runs;
    isolated(p, arm, c, o, min(p.case_cpu_s, 20.0));
    if (o->status != 1 || key != o->key) return false;
    (void)known;
    res = outv(o);
    // never accept something larger
    if (res.size() > best.size()) return false;
    if (res.size() == best.size() && !lexicographical_compare(res.begin(), res.end(), best.begin(), best.end())) return false;
    return true;
  };
  bool progress = true;
  vector<uint64_t> r;
  while (progress && now() < t1 && runs <= 3000) {
    progress = false;
    // truncate
    for (size_t len = best.size() / 2; len >= 1 && best.size() > 1; len /= 2) {
      if (best.size() <= len) continue;
      vector<uint64_t> c(best.begin(), best.end() - len);
      if (bad(c, r)) { best = r; progress = true; }
    }
    // delete blocks
    for (int len : {16, 8, 4, 2, 1})
      for (size_t i = 0; i + len <= best.size();) {
        vector<uint64_t> c(best);
        c.erase(c.begin() + i, c.begin() + i + len);
        if (bad(c, r)) { best = r; progress = true; }
        else ++i;
        if (now() > t1) break;
      }
    // zero blocks
    for (int len : {8, 4, 2, 1})
      for (size_t i = 0; i + len <= best.size(); i += len) {
        vector<uint64_t> c(best);
        bool any = false;
        for (int k = 0; k < len; k++) { any |= c[i + k] != 0; c[i + k] = 0; }
        if (any && bad(c, r)) { best = r; progress = true; }
        if (now() > t1) break;
      }
    // lower values
    for (size_t i = 0; i < best.size() && now() < t1; i++) {
      uint64_t lo = 0;
      int it = 0;
      while (i < best.size() && lo < best[i] && it++ < 24) {
        uint64_t mid = lo + (best[i] - lo) / 2;
        vector<uint64_t> c(best);
        c[i] = mid;
        if (bad(c, r)) { best = r; progress = true; }
        else lo = mid + 1;
      }
    }
  }
  return best;
}
bool read_choices(const string &file, string &arm, vector<uint64_t> &ch) {
  ifstream f(file);
  if (!f) return false;
  stringstream ss;
  ss << f.rdbuf();
  string t = ss.str();
  size_t a = t.find("\"arm\"");
  if (a == string::npos) return false;
  a = t.find('"', t.find(':', a)) + 1;
  arm = t.substr(a, t.find('"', a) - a);
  size_t b = t.find("\"choices\"");
  if (b == string::npos) return false;
  b = t.find('[', b) + 1;
  size_t e = t.find(']', b);
  stringstream in(t.substr(b, e - b));
  string tok;
  while (getline(in, tok, ',')) ch.push_back(strtoull(tok.c_str(), 0, 10));
  return true;
}
}  // namespace

int run(int argc, char **argv, const Property &p) {
  Args a;
  for (int i = 1; i < argc; i++) {
    string s = argv[i];
    auto val = [&]() { return string(i + 1 < argc ? argv[++i] : ""); };
    if (s == "--tier") a.tier = val();
    else if (s == "--seed") a.seed = strtoull(val().c_str(), 0, 10);
    else if (s == "--evidence") a.evidence = val();
    else if (s == "--replaydir") a.replaydir = val();
    else if (s == "--known") a.known = val();
    else if (s == "--cases") a.cases = atol(val().c_str());
    else if (s == "--budget") a.budget = atof(val().c_str());
    else if (s == "--replay") a.replay = val();
    else if (s == "--arm") { string n = val(); for (size_t k = 0; k < p.arms.size(); k++) if (p.arms[k].name == n) a.arm = k; }
    else if (s == "--index") a.index = atol(val().c_str());
  }
  char tmpl[] = "/tmp/pbt.XXXXXX";
  if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 3; }
  g_scratch = tmpl;
  struct Clean { ~Clean() { string c = "rm -rf '" + g_scratch + "'"; if (system(c.c_str())) {} } } clean;
  One *one = shared<One>();
  // known findings: lines "known: property=ID key=KEY <text>"
  map<string, string> known;
  {
    ifstream f(a.known);
    string l;
    while (getline(f, l)) {
      string pre = "known: property=" + p.id + " key=";
      if (l.compare(0, pre.size(), pre) == 0) {
        string rest = l.substr(pre.size());
        size_t sp = rest.find(' ');
        known[rest.substr(0, sp)] = sp == string::npos ? "" : rest.substr(sp + 1);
      }
    }
  }
  if (!a.replay.empty()) {
    string arm;
    vector<uint64_t> ch;
    if (!read_choices(a.replay, arm, ch)) { cerr << "cannot read " << a.replay << endl; return 3; }
    for (size_t k = 0; k < p.arms.size(); k++)
      if (p.arms[k].name == arm) {
        isolated(p, k, ch, one, p.case_cpu_s);
        cout << "input: " << one->desc << "\n";
        if (one->status == 1) {
          cout << "FAILS: " << one->key << ": " << one->msg << "\n";
          if (known.count(one->key)) { cout << "KNOWN-FINDING: property=" << p.id << " " << one->key << "\n"; return 0; }
          cout << "VIOLATION property=" << p.id << " replay=" << a.replay << endl;
          return 1;
        }
        cout << (one->status == 2 ? "discarded" : "passes") << endl;
        return 0;
      }
    cerr << "no arm " << arm << endl;
    return 3;
  }
  if (a.index >= 0) {  // debug: run one index
    int arm = a.arm >= 0 ? a.arm : pick_arm(p, a.index);
    Case c(case_seed(a.seed, p.id, a.index));
    string k, m;
    int st = exec(p.arms[arm], c, k, m);
    cout << p.arms[arm].name << ": " << c.desc.str() << "\nstatus " << st << " " << k << " " << m << "\nlabels:";
    for (auto &l : c.labels) cout << " " << l;
    cout << "\nnontrivial " << c.nontriv << endl;
    return st == 1;
  }
  double t0 = now();
  bool thorough = a.tier == "thorough";
  uint64_t N = a.cases >= 0 ? a.cases : thorough ? p.thorough_cases : p.quick_cases;
  double budget = a.budget > 0 ? a.budget : thorough ? 3000 : 240;
  const char *ew = getenv("PBT_WORKERS");
  int W = ew ? std::max(1, atoi(ew)) : p.workers ? p.workers : (int)max(1L, sysconf(_SC_NPROCESSORS_ONLN));
  W = (int)min<uint64_t>(W, max<uint64_t>(1, N));
  vector<Slot *> slot(W);
  vector<pid_t> pid(W, 0);
  vector<double> since(W, now());
  vector<uint64_t> lastcur(W, ~0ull);
  double tend = t0 + budget;
  auto start = [&](int w) {
    cout.flush();
    fflush(0);
    pid[w] = fork();
    if (pid[w] == 0) worker(p, a, slot[w], N, W, g_scratch + "/w" + to_string(w) + ".err", tend);
  };
  for (int w = 0; w < W; w++) {
    slot[w] = shared<Slot>();
    slot[w]->next = w;
    start(w);
  }
  int alive = W, crashes = 0;
  vector<FailRec> fails;
  while (alive) {
    int st;
    pid_t q = waitpid(-1, &st, WNOHANG);
    if (q <= 0) {
      usleep(5000);
      for (int w = 0; w < W; w++)
        if (pid[w]) {
          if (slot[w]->cur != lastcur[w]) { lastcur[w] = slot[w]->cur; since[w] = now(); }
          else if (slot[w]->running && now() - since[w] > 10 * p.case_cpu_s) kill(pid[w], SIGKILL);
        }
      continue;
    }
    for (int w = 0; w < W; w++)
      if (pid[w] == q) {
        pid[w] = 0;
        bool clean_exit = WIFEXITED(st) && WEXITSTATUS(st) == 0 && slot[w]->done;
        if (clean_exit) { --alive; break; }
        FailRec f;
        memset(&f, 0, sizeof f);
        f.idx = slot[w]->cur;
        f.arm = a.arm >= 0 ? a.arm : pick_arm(p, f.idx);
        put(f.key, sizeof f.key, sig_key(st));
        put(f.msg, sizeof f.msg, tailfile(g_scratch + "/w" + to_string(w) + ".err"));
        fails.push_back(f);
        slot[w]->evals[f.arm]++;
        slot[w]->running = 0;
        if (++crashes > 12) { slot[w]->done = 1; --alive; break; }
        start(w);
      }
  }
  uint64_t evals = 0, disc = 0, nontriv = 0;
  map<string, uint64_t> labels;
  set<uint64_t> distinct;
  for (int w = 0; w < W; w++) {
    Slot *s = slot[w];
    for (size_t k = 0; k < p.arms.size(); k++) { evals += s->evals[k]; disc += s->disc[k]; nontriv += s->nontriv[k]; }
    for (int j = 0; j < s->nlab; j++) labels[s->lab[j].name] += s->lab[j].n;
    for (uint64_t j = 0; j < s->nhash; j++) distinct.insert(s->hashes[j]);
    for (int j = 0; j < s->nfail; j++) fails.push_back(s->fail[j]);
  }
  sort(fails.begin(), fails.end(), [](const FailRec &x, const FailRec &y) { return x.idx < y.idx; });
  // group by (arm,key)
  set<string> knownkeys;
  for (auto &k : known) knownkeys.insert(k.first);
  vector<FailRec> firsts;
  map<string, int> seen;
  for (auto &f : fails) {
    if (known.count(f.key)) { seen["K:" + string(f.key)]++; continue; }
    if (seen[f.key]++ == 0) firsts.push_back(f);
  }
  for (auto &k : known) {
    int n = seen["K:" + k.first];
    if (n) cout << "KNOWN-FINDING: property=" << p.id << " " << k.first << " " << k.second << " (" << n << " generated cases)" << endl;
  }
  string vjson;
  int nviol = 0;
  if (firsts.size() > 2) firsts.resize(2);
  mkdir(a.replaydir.c_str(), 0755);
  for (auto &f : firsts) {
    // the choice sequence of the failing case
    isolated_(p, f.arm, nullptr, case_seed(a.seed, p.id, f.idx), one, p.case_cpu_s);
    string key = f.key, msg = f.msg, d = one->desc;
    vector<uint64_t> best = outv(one);
    int runs = 0;
    bool have = one->status == 1;
    if (have) {
      vector<uint64_t> ch = best;
      key = one->key;
      best = shrink(p, f.arm, ch, key, knownkeys, one, thorough ? 120 : 40, runs);
      isolated(p, f.arm, best, one, p.case_cpu_s);
      if (one->status != 1) { best = ch; isolated(p, f.arm, best, one, p.case_cpu_s); }
      msg = one->msg;
      d = one->desc;
    }
    int again = 0;
    for (int r = 0; have && r < 3; r++) { isolated(p, f.arm, best, one, p.case_cpu_s); again += one->status == 1; }
    string safe = key;
    for (char &c : safe) if (!isalnum((unsigned char)c)) c = '-';
    string path = a.replaydir + "/" + p.id + "-" + safe + ".json";
    ofstream out(path);
    out << "{\"property\": " << jstr(p.id) << ",\n \"arm\": " << jstr(p.arms[f.arm].name) << ",\n \"key\": " << jstr(key)
        << ",\n \"message\": " << jstr(msg) << ",\n \"input\": " << jstr(d) << ",\n \"seed\": " << a.seed
        << ",\n \"index\": " << f.idx << ",\n \"shrink_runs\": " << runs << ",\n \"replays_failing\": \"" << again
        << "/3\",\n \"choices\": [";
    for (size_t i = 0; i < best.size(); i++) out << (i ? "," : "") << best[i];
    out << "]}\n";
    out.close();
    cout << p.id << "/" << p.arms[f.arm].name << " [" << key << "] " << msg << "\n  input: " << d << "\n  (case " << f.idx << ", "
         << seen[f.key] << " failing cases with this key, shrunk in " << runs << " runs, fails again " << again << "/3)" << endl;
    cout << "VIOLATION property=" << p.id << " replay=" << path << endl;
    vjson += string(nviol ? "," : "") + jstr(path);
    nviol++;
  }
  // samples
  vector<string> samples;
  for (size_t k = 0; k < p.arms.size(); k++) {
    bool got = false;
    for (int w = 0; w < W && !got; w++)
      if (slot[w]->nsample[k]) {
        uint64_t idx = slot[w]->sample[k][0];
        isolated_(p, k, nullptr, case_seed(a.seed, p.id, idx), one, p.case_cpu_s);
        samples.push_back(("case " + to_string(idx) + " " + p.arms[k].name + ": " + one->desc).substr(0, 700));
        got = true;
      }
    if (samples.size() >= 8) break;
  }
  double wall = now() - t0;
  if (!a.evidence.empty()) {
    ofstream e(a.evidence);
    e << "{\"property\": " << jstr(p.id) << ", \"tier\": " << jstr(a.tier) << ", \"seed\": " << a.seed
      << ", \"level\": \"exploration\",\n \"coverage\": {\"evaluations\": " << evals << ", \"discarded\": " << disc
      << ", \"nontrivial\": " << nontriv << ", \"distinct_nontrivial\": " << distinct.size() << ", \"rule\": " << jstr(p.rule)
      << ",\n  \"arms\": {";
    for (size_t k = 0; k < p.arms.size(); k++) {
      uint64_t ev = 0, nt = 0, di = 0;
      for (int w = 0; w < W; w++) { ev += slot[w]->evals[k]; nt += slot[w]->nontriv[k]; di += slot[w]->disc[k]; }
      e << (k ? ", " : "") << jstr(p.arms[k].name) << ": {\"evaluations\": " << ev << ", \"nontrivial\": " << nt << ", \"discarded\": " << di << "}";
    }
    e << "},\n  \"labels\": {";
    bool first = true;
    for (auto &l : labels) { e << (first ? "" : ", ") << jstr(l.first) << ": " << l.second; first = false; }
    e << "},\n  \"samples\": [";
    for (size_t i = 0; i < samples.size(); i++) e << (i ? ",\n   " : "") << jstr(samples[i]);
    e << "]},\n \"assumptions\": [";
    for (size_t i = 0; i < p.assumptions.size(); i++) e << (i ? ", " : "") << jstr(p.assumptions[i]);
    e << "],\n \"wall_s\": " << wall << ", \"violations\": " << nviol << ", \"replays\": [" << vjson << "]}\n";
  }
  cout << p.id << " " << a.tier << " seed " << a.seed << ": " << evals << " cases (" << nontriv << " non-trivial, " << distinct.size()
       << " distinct, " << disc << " discarded), " << fails.size() << " failing, " << wall << " s" << endl;
  if (getenv("PBT_LABELS"))
    for (auto &l : labels) cout << "   " << l.first << ": " << l.second << "\n";
  return nviol ? 1 : 0;
}
}  // namespace pbt
