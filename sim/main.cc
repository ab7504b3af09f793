// Batch runner, replay and minimiser.
#include "plan.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <chrono>
#include <unistd.h>
#include <poll.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>

using namespace sim;
using std::string;

extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:exitcode=99:abort_on_error=0:handle_abort=0:quarantine_size_mb=8:malloc_context_size=6:detect_stack_use_after_return=0:allocator_may_return_null=1:print_legend=0:color=never";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=99:color=never"; }

namespace sim { extern void (*g_on_execute)(const Plan &); }
static char *g_plan_shm;
static const size_t SHM = 4u << 20;
static void publish(const Plan &p) {
  string t = plan_text(p);
  if (t.size() + 1 > SHM) t = "";
  memcpy(g_plan_shm, t.c_str(), t.size() + 1);
}
static void on_cpu(int) { _exit(77); }
static void watchdog(int sec) {
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &it, nullptr);
}
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static string esc(const string &s) {
  string o;
  for (char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if ((unsigned char)c < 32) { o += ' '; }
    else o += c;
  }
  return o;
}
static string slurp(const string &p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void spit(const string &p, const string &d) { std::ofstream f(p); f << d; }

// Names a crash from what the sanitizer printed.
static void classify_crash(int status, const string &err, string &cls, string &msg) {
  if (WIFEXITED(status) && WEXITSTATUS(status) == 77) { cls = "hang"; msg = "a call does not return (CPU watchdog)"; return; }
  if (WIFSIGNALED(status)) { cls = "signal"; msg = "the process died of signal " + std::to_string(WTERMSIG(status)); }
  else { cls = "exit"; msg = "the process exited with status " + std::to_string(WEXITSTATUS(status)); }
  size_t a = err.find("AddressSanitizer: ");
  if (a != string::npos) {
    size_t b = err.find_first_of(" \n", a + 18);
    cls = "memory-error";
    msg = err.substr(a + 18, b - a - 18);
  } else if ((a = err.find("runtime error: ")) != string::npos) {
    size_t b = err.find('\n', a);
    cls = "undefined-behaviour";
    msg = err.substr(a + 15, b - a - 15);
  }
  // the frames inside the library
  int n = 0;
  size_t p = 0;
  string frames;
  if (a != string::npos) {  // only the first stack: where it happened
    size_t q = err.find("\n\n", a);
    if (q != string::npos && err.find(" in urkel_") < q) { const_cast<string &>(err).resize(q); }
  }
  while (n < 4 && (p = err.find(" in urkel_", p)) != string::npos) {
    size_t e = err.find_first_of(" \n", p + 4);
    frames += (n ? " < " : "") + err.substr(p + 4, e - p - 4);
    p = e == string::npos ? err.size() : e;
    n++;
    if (err.compare(p, 1, "\n") == 0 && n >= 4) break;
  }
  if (!frames.empty()) msg += " in " + frames;
}

struct Agg {
  uint64_t runs = 0, faulted = 0;
  Stats st;
  void add(const Result &r) {
    runs++;
    faulted += r.faulted > 0;
    for (int a = 0; a < A_NACT; a++) for (int c = 0; c < S_NCNT; c++) st.fired[a][c] += r.st.fired[a][c];
    st.power += r.st.power; st.damage += r.st.damage; st.tamper += r.st.tamper; st.crash_idle += r.st.crash_idle;
    st.syscalls += r.st.syscalls; st.switches += r.st.switches; st.lockops += r.st.lockops; st.accesses += r.st.accesses;
    st.preempt += r.st.preempt; st.ops += r.st.ops; st.simtime_us += r.st.simtime_us;
    for (auto &p : r.st.probes) st.probes[p.first] += p.second;
    st.tuples.insert(r.st.tuples.begin(), r.st.tuples.end());
  }
  string json() {
    std::ostringstream o;
    o << "{\"runs\":" << runs << ",\"faulted\":" << faulted << ",\"ops\":" << st.ops << ",\"syscalls\":" << st.syscalls << ",\"switches\":" << st.switches
      << ",\"preempt\":" << st.preempt << ",\"lockops\":" << st.lockops << ",\"accesses\":" << st.accesses << ",\"simtime_us\":" << st.simtime_us
      << ",\"power\":" << st.power << ",\"damage\":" << st.damage << ",\"tamper\":" << st.tamper << ",\"crash_idle\":" << st.crash_idle << ",\"fired\":{";
    bool first = true;
    for (int a = 0; a < A_NACT; a++) for (int c = 0; c < S_NCNT; c++) if (st.fired[a][c]) {
      o << (first ? "" : ",") << "\"" << act_name[a] << ":" << sys_name[c] << "\":" << st.fired[a][c];
      first = false;
    }
    o << "},\"probes\":{";
    first = true;
    for (auto &p : st.probes) { o << (first ? "" : ",") << "\"" << p.first << "\":" << p.second; first = false; }
    o << "},\"tuples\":[";
    first = true;
    for (uint64_t t : st.tuples) { o << (first ? "" : ",") << (t & 0xffffffffffffull); first = false; }
    o << "]}";
    return o.str();
  }
};

static void child_init(const string &errfile) {
  int fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd >= 0) { dup2(fd, 2); close(fd); }
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  signal(SIGPROF, on_cpu);
}

static bool write_all(int fd, const string &s) {
  size_t o = 0;
  while (o < s.size()) { ssize_t n = write(fd, s.data() + o, s.size() - o); if (n <= 0) return false; o += n; }
  return true;
}

// batch PROP BUILD TIER SEED FIRST STRIDE COUNT WALL OUTDIR TAG
static int batch(char **a) {
  string prop = a[0], build = a[1];
  int tier = atoi(a[2]);
  uint64_t seed = strtoull(a[3], nullptr, 10);
  long first = atol(a[4]), stride = atol(a[5]), count = atol(a[6]);
  double wall = atof(a[7]);
  string dir = a[8], tag = a[9];
  string errf = dir + "/err-" + tag;
  string out;
  FILE *of = fopen((dir + "/rec-" + tag).c_str(), "w");
  double t0 = now();
  long k = 0;
  int viols = 0;
  while (k < count && viols < 3 && now() - t0 < wall) {
    int pp[2];
    if (pipe(pp)) return 3;
    fflush(of);
    pid_t pid = fork();
    if (pid == 0) {
      close(pp[0]);
      child_init(errf);
      Agg agg;
      long done = 0;
      for (; k < count; k++) {
        if (now() - t0 >= wall) break;
        long i = first + k * stride;
        write_all(pp[1], "B " + std::to_string(k) + "\n");
        watchdog(20);
        double rt = now();
        Result dry;
        Plan p = generate(prop, mix(seed, (uint64_t)i), tier, build, &dry);
        Result r;
        if (dry.violated) r = dry;
        else r = execute(p, false);
        char buf[160];
        // non-trivial: a fault fired, callers were preempted, or the database was opened again
        auto op = r.st.probes.find("opens");
        int nt = r.faulted > 0 || r.st.preempt > 0 || r.st.power + r.st.damage + r.st.tamper + r.st.crash_idle > 0 || (op != r.st.probes.end() && op->second > 1);
        snprintf(buf, sizeof buf, "R %ld %llx %d %d %d\n", i, (unsigned long long)r.hash, r.faulted, r.violated ? 1 : 0, nt);
        if (!r.violated && i % 61 == 0) {
          Result q = execute(p, false);
          if (q.hash != r.hash) write_all(pp[1], "N " + std::to_string(i) + "\n");
          else write_all(pp[1], "D\n");
        }
        write_all(pp[1], buf);
        if (getenv("SIM_TIMES") && now() - rt > 0.3) { snprintf(buf, sizeof buf, "# slow %ld %.2f\n", i, now() - rt); write_all(pp[1], buf); }
        agg.add(r);
        if (r.violated) {
          char tn[64];
          snprintf(tn, sizeof tn, "/viol-%08ld.plan", i);
          spit(dir + tn, plan_text(p));
          write_all(pp[1], "V " + std::to_string(i) + " " + r.cls + " " + esc(r.msg) + "\n");
          k++;
          break;
        }
        if (++done % 400 == 0) { write_all(pp[1], "S " + agg.json() + "\n"); agg = Agg(); }
      }
      watchdog(0);
      write_all(pp[1], "S " + agg.json() + "\nE " + std::to_string(k) + "\n");
      _exit(0);
    }
    close(pp[1]);
    string buf;
    long cur_k = -1, end_k = -1;
    bool stuck = false;
    for (;;) {
      struct pollfd pf = {pp[0], POLLIN, 0};
      int pr = poll(&pf, 1, 150000);
      if (pr == 0) { stuck = true; kill(pid, SIGKILL); break; }
      char b[65536];
      ssize_t n = read(pp[0], b, sizeof b);
      if (n <= 0) break;
      buf.append(b, n);
      size_t p;
      while ((p = buf.find('\n')) != string::npos) {
        string l = buf.substr(0, p);
        buf.erase(0, p + 1);
        if (l[0] == 'B') cur_k = atol(l.c_str() + 2);
        else if (l[0] == 'E') end_k = atol(l.c_str() + 2);
        else { fprintf(of, "%s\n", l.c_str()); if (l[0] == 'V') viols++; }
      }
    }
    close(pp[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (end_k >= 0) { k = end_k; continue; }
    // the child died: the run in progress is the culprit
    if (cur_k < 0) { fprintf(of, "X child died before its first run\n"); break; }
    long i = first + cur_k * stride;
    if (stuck) { fprintf(of, "X run %ld made no progress in 150 s\n", i); break; }
    string cls, msg;
    classify_crash(st, slurp(errf), cls, msg);
    char tn[64];
    snprintf(tn, sizeof tn, "/viol-%08ld.plan", i);
    spit(dir + tn, g_plan_shm);
    fprintf(of, "R %ld 0 0 1 0\nV %ld %s %s\n", i, i, cls.c_str(), esc(msg).c_str());
    viols++;
    k = cur_k + 1;
  }
  fprintf(of, "T %.3f\n", now() - t0);
  fclose(of);
  unlink(errf.c_str());
  return 0;
}

struct Outcome { bool viol = false; string cls, msg; uint64_t hash = 0; std::map<uint64_t, int> taken; std::vector<string> log; };
static string g_tmp = "/tmp";

// Executes a plan in a child process.
static Outcome isolated(const Plan &p, int cpu, bool verbose = false) {
  Outcome o;
  string errf = g_tmp + "/err-" + std::to_string(getpid());
  int pp[2];
  if (pipe(pp)) exit(3);
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    close(pp[0]);
    child_init(errf);
    watchdog(cpu);
    Result r = execute(p, verbose);
    watchdog(0);
    std::ostringstream s;
    s << "R " << (r.violated ? 1 : 0) << " " << r.hash << "\n" << (r.cls.empty() ? "-" : r.cls) << "\n" << esc(r.msg) << "\n";
    for (auto &d : r.taken) s << "d " << d.first << " " << d.second << "\n";
    for (auto &l : r.log) s << "l " << l << "\n";
    s << "E\n";
    write_all(pp[1], s.str());
    _exit(0);
  }
  close(pp[1]);
  string buf;
  char b[65536];
  ssize_t n;
  while ((n = read(pp[0], b, sizeof b)) > 0) buf.append(b, n);
  close(pp[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (buf.size() < 2 || buf.compare(buf.size() - 2, 2, "E\n") != 0) {
    o.viol = true;
    classify_crash(st, slurp(errf), o.cls, o.msg);
    if (verbose) o.log.push_back(slurp(errf));
  } else {
    std::istringstream in(buf);
    string l, w;
    int v;
    in >> w >> v >> o.hash;
    o.viol = v;
    std::getline(in, l);
    std::getline(in, o.cls);
    std::getline(in, o.msg);
    while (std::getline(in, l)) {
      if (l[0] == 'd') { uint64_t s; int c; sscanf(l.c_str() + 2, "%llu %d", (unsigned long long *)&s, &c); o.taken[s] = c; }
      else if (l[0] == 'l') o.log.push_back(l.substr(2));
    }
  }
  unlink(errf.c_str());
  return o;
}

static bool load(const char *path, Plan &p) {
  if (!plan_parse(slurp(path), p)) { fprintf(stderr, "cannot parse %s\n", path); return false; }
  return true;
}

static int replay(const char *path, bool verbose) {
  Plan p;
  if (!load(path, p)) return 3;
  Outcome o = isolated(p, 30, verbose);
  for (auto &l : o.log) printf("%s\n", l.c_str());
  printf("RESULT violated=%d hash=%llx class=%s %s\n", o.viol ? 1 : 0, (unsigned long long)o.hash, o.viol ? o.cls.c_str() : "-", o.viol ? o.msg.c_str() : "");
  return o.viol ? 1 : 0;
}

// ddmin over operations, faults, knobs and schedule deviations
static int minimise(const char *in, const char *out, double budget) {
  Plan p;
  if (!load(in, p)) return 3;
  double t0 = now();
  int tries = 0;
  Outcome base = isolated(p, 20);
  if (!base.viol) { printf("NOT REPRODUCED\n"); return 2; }
  string cls = base.cls;
  auto over = [&] { return now() - t0 > budget || tries > 1500; };
  bool conc = false;
  for (auto &o : p.ops) if (o.client > 0) conc = true;
  auto test = [&](const Plan &q) {
    if (over()) return false;
    tries++;
    Outcome o = isolated(q, 6);
    return o.viol && o.cls == cls;
  };
  // tries a few schedules when operations are concurrent
  auto accept = [&](Plan &q) {
    if (test(q)) { p = q; return true; }
    if (conc && !q.sched.explicit_) {
      for (int s = 1; s <= 3; s++) { Plan r = q; r.sched.seed = mix(q.sched.seed, s); if (test(r)) { p = r; return true; } }
    }
    return false;
  };
  auto shrink_ops = [&] {
    for (size_t chunk = std::max<size_t>(1, p.ops.size() / 2); chunk >= 1 && !over(); chunk /= 2) {
      for (size_t at = 0; at < p.ops.size() && !over();) {
        Plan q = p;
        q.ops.erase(q.ops.begin() + at, q.ops.begin() + std::min(q.ops.size(), at + chunk));
        if (!accept(q)) at += chunk;
      }
      if (chunk == 1) break;
    }
  };
  shrink_ops();
  for (size_t i = 0; i < p.ops.size() && !over(); i++) {
    for (size_t f = 0; f < p.ops[i].faults.size() && !over();) {
      Plan q = p;
      q.ops[i].faults.erase(q.ops[i].faults.begin() + f);
      if (!accept(q)) f++;
    }
    for (auto &f : p.ops[i].faults) if (f.count > 1 && !over()) {
      Plan q = p;
      q.ops[i].faults[&f - &p.ops[i].faults[0]].count = 1;
      if (accept(q)) break;
    }
  }
  shrink_ops();
  auto knobs = p.knob;
  for (auto &k : knobs) {
    if (over()) break;
    if (k.first == "keyseed" || k.first == "keymode" || k.first == "nkeys" || k.first == "mp" || k.first == "lin" || k.first == "leak" || k.first == "chkopen" || k.first == "pathbad") continue;
    Plan q = p;
    q.knob.erase(k.first);
    accept(q);
  }
  for (size_t i = 0; i < p.ops.size() && !over(); i++)
    if (p.ops[i].kind == OP_FILL || p.ops[i].kind == OP_MANY) {
      while (p.ops[i].a[2] > 1 && !over()) { Plan q = p; q.ops[i].a[2] /= 2; if (!accept(q)) break; }
      while (p.ops[i].a[2] > 1 && !over()) { Plan q = p; q.ops[i].a[2] -= 1; if (!accept(q)) break; }
    }
  if (conc) {
    Outcome o = isolated(p, 20);
    Plan q = p;
    q.sched.explicit_ = true;
    q.sched.dev = o.taken;
    if (o.viol && o.cls == cls && test(q)) {
      p = q;
      for (size_t chunk = std::max<size_t>(1, p.sched.dev.size() / 2); chunk >= 1 && !over(); chunk /= 2) {
        std::vector<uint64_t> keys;
        for (auto &d : p.sched.dev) keys.push_back(d.first);
        for (size_t at = 0; at < keys.size() && !over(); at += chunk) {
          Plan r = p;
          for (size_t j = at; j < std::min(keys.size(), at + chunk); j++) r.sched.dev.erase(keys[j]);
          if (test(r)) p = r;
        }
        if (chunk == 1) break;
      }
      for (size_t at = 0; at < p.ops.size() && !over();) {
        Plan r = p;
        r.ops.erase(r.ops.begin() + at);
        if (test(r)) p = r; else at++;
      }
    }
  }
  Outcome fin = isolated(p, 20), fin2 = isolated(p, 20);
  if (!fin.viol || fin.cls != cls || !fin2.viol || fin2.hash != fin.hash) { load(in, p); fin = isolated(p, 20); }
  size_t faults = 0;
  for (auto &o : p.ops) faults += o.faults.size();
  std::ostringstream s;
  s << "# " << fin.cls << ": " << fin.msg << "\n# " << p.ops.size() << " operations, " << faults << " faults, " << p.sched.dev.size() << " context switches; found by minimising in " << tries << " runs\n";
  spit(out, s.str() + plan_text(p));
  printf("MINIMISED ops=%zu faults=%zu switches=%zu tries=%d class=%s hash=%llx\nMSG %s\n", p.ops.size(), faults, p.sched.dev.size(), tries, fin.cls.c_str(), (unsigned long long)fin.hash, fin.msg.c_str());
  return 0;
}

int main(int argc, char **argv) {
  g_plan_shm = (char *)mmap(nullptr, SHM, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_on_execute = publish;
  if (getenv("SIM_TMP")) g_tmp = getenv("SIM_TMP");
  signal(SIGPIPE, SIG_IGN);
  if (argc == 12 && !strcmp(argv[1], "batch")) return batch(argv + 2);
  if (argc >= 3 && !strcmp(argv[1], "replay")) return replay(argv[2], argc > 3 && !strcmp(argv[3], "-v"));
  if (argc >= 4 && !strcmp(argv[1], "min")) return minimise(argv[2], argv[3], argc > 4 ? atof(argv[4]) : 60);
  if (argc >= 6 && !strcmp(argv[1], "gen")) {
    Plan p = generate(argv[2], mix(strtoull(argv[4], nullptr, 10), strtoull(argv[5], nullptr, 10)), 0, argv[3], nullptr);
    printf("%s", plan_text(p).c_str());
    return 0;
  }
  fprintf(stderr, "usage: sim batch PROP BUILD TIER SEED FIRST STRIDE COUNT WALL OUTDIR TAG | replay FILE [-v] | min IN OUT [SEC] | gen PROP BUILD SEED INDEX\n");
  return 3;
}
