// Deterministic simulator for liburkel: core declarations.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <memory>
#include <functional>

namespace sim {

// ---------------------------------------------------------------- random
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 0) : s(seed * 0x9e3779b97f4a7c15ull + 0x1234567ull) { next(); next(); }
  uint64_t next() {  // splitmix64
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
  bool chance(int num, int den) { return (int64_t)below(den) < num; }
  Rng fork() { return Rng(next()); }
};
inline uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t z = a ^ (b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2));
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

// ---------------------------------------------------------------- faults
enum Sys {
  S_OPEN, S_STAT, S_READ, S_WRITE, S_SYNC, S_MMAP, S_TRUNC, S_UNLINK, S_RENAME,
  S_MKDIR, S_RMDIR, S_DIR, S_LOCK, S_CLOSE, S_SEEK, S_MUNMAP, S_MALLOC, S_NCLS,
  S_ANY = S_NCLS, S_NCNT
};
extern const char *sys_name[S_NCNT];
enum Act {
  A_ERR,          // fail with errno `arg`
  A_SHORT,        // transfer only `arg` bytes (>=1)
  A_TORN,         // write `arg` bytes, then the next write fails with EIO
  A_EINTR,        // fail with EINTR
  A_EAGAIN,       // fail with EAGAIN
  A_CRASH_BEFORE, // kill the process before the call
  A_CRASH_AFTER,  // kill the process after the call
  A_CRASH_PART,   // kill the process after `arg` bytes of a write
  A_FULL,         // disk accepts only `arg` more bytes until the op ends
  A_NACT
};
extern const char *act_name[A_NACT];
struct Fault {
  int cls = S_ANY, nth = 1, act = A_ERR;
  int64_t arg = 0;
  int count = 1;
};

// ---------------------------------------------------------------- results
struct Killed {};   // the simulated process of this client died
struct Abandon {};  // the run is over (violation recorded)
struct Violation { std::string cls, msg; };

struct Stats {
  uint64_t fired[A_NACT][S_NCNT] = {};
  uint64_t power = 0, damage = 0, tamper = 0, crash_idle = 0;
  uint64_t syscalls = 0, switches = 0, lockops = 0, accesses = 0, preempt = 0;
  uint64_t ops = 0, simtime_us = 0;
  std::map<std::string, uint64_t> probes;
  std::unordered_set<uint64_t> tuples;
};

// ---------------------------------------------------------------- fs
struct Inode;
struct Process;
struct MapReg {
  std::shared_ptr<Inode> ino; unsigned char *addr; size_t len; Process *proc; bool alive; bool big = false;
};
struct JOp { bool trunc; uint64_t off; std::string bytes; };
struct LockRec { int pid; void *ofd; int type; int space; };  // space 0: posix, 1: ofd, 2: flock
struct Inode {
  int id = 0;
  int kind = 0;  // 0 file, 1 dir, 2 urandom
  unsigned mode = 0640;
  uint64_t hole = 0;     // zero bytes before `data`, kept nowhere
  std::string data;
  uint64_t size() const { return hole + data.size(); }
  std::string durable;
  std::vector<JOp> jops;
  int refs = 0;
  std::vector<MapReg *> maps;
  std::vector<LockRec> locks;
  int last_writer = 0;
  bool protected_ = false;
};
struct Ofd { std::shared_ptr<Inode> ino; int flags = 0; int64_t pos = 0; int refs = 1; std::string path; bool written = false; };
struct DirOp { int kind; std::string path; std::shared_ptr<Inode> ino; };  // 0 add, 1 remove

struct Client;
struct World;

struct Process {
  int pid = 0;
  bool alive = true;
  bool oom = false;           // an allocation/mapping fault was injected
  std::map<int, Ofd *> fds;
  std::unordered_map<void *, size_t> heap;
  size_t heap_bytes = 0;
  std::vector<MapReg *> maps;
  std::set<void *> dirs;
  int fdlimit = 256;
  std::string out, err;       // captured stdout / stderr (CLI)
  std::map<std::string, std::string> env;
  std::string cwd = "/";      // working directory
  uint64_t cwd_ino = 0;       // 0: never changed
  int generation = 0;
  uint64_t writes = 0;
};

struct OpCtx {
  int cnt[S_NCNT] = {};
  const std::vector<Fault> *faults = nullptr;
  int fired = 0;          // faults that really changed an outcome
  int fired_hard = 0;     // ... excluding transparent ones
  int fired_oom = 0;      // malloc/mmap failures
  int64_t quota = -1;     // A_FULL
  int64_t rbytes = 0;     // bytes read by read calls
  bool torn_next = false;
  int op_id = -1;
  int op_kind = 0;
};

struct Lock {
  int readers = 0;
  Client *writer = nullptr;
  std::map<Client *, int> rd;
  int pid = 0;
  bool mutex = false;
};

struct Client {
  int id = 0;
  World *w = nullptr;
  Process *proc = nullptr;
  OpCtx op;
  // scheduling
  int state = 0;  // 0 idle, 1 runnable, 2 blocked, 3 done
  Lock *waiting = nullptr; int wait_kind = 0;
  std::function<bool()> wait_pred;
  std::vector<uint32_t> vc;
};

// how schedules are decided
struct Sched {
  uint64_t seed = 0;
  int permille = 0;       // switch probability at system calls and locks
  int mem_permille = 0;   // switch probability (per 100000) at memory accesses
  bool explicit_ = false; // use deviations only
  std::map<uint64_t, int> dev;  // step -> client
};

struct World {
  // configuration
  uint64_t seed = 1;
  bool track_power = false;
  int64_t capacity = -1;
  bool verbose = false;
  bool urandom = true;
  bool nommap = false;
  uint64_t dir_shuffle = 0;
  uint32_t listings = 0;
  // file system
  std::map<std::string, std::shared_ptr<Inode>> tree;
  std::map<std::string, std::shared_ptr<Inode>> durable_tree;
  std::vector<DirOp> dirops;
  int next_ino = 1;
  // inode numbers as the program sees them: distinct, in no useful order
  uint32_t ino_mul = 1;
  uint32_t show_ino(int id) const { return (uint32_t)id * ino_mul; }
  int64_t used = 0;
  Rng rnd{1};
  // processes & clients
  std::vector<std::unique_ptr<Process>> procs;
  std::vector<std::unique_ptr<Client>> clients;
  std::unordered_map<void *, std::unique_ptr<Lock>> locks;
  bool mt = false;
  bool abandon = false;
  bool has_viol = false;
  Violation viol;
  Sched sched;
  Rng srng{1};
  uint64_t step = 0;
  uint64_t max_steps = 3000000;
  std::map<uint64_t, int> taken;  // deviations actually taken
  // log
  uint64_t hash = 1469598103934665603ull;
  uint64_t events = 0;
  std::vector<std::string> log;
  Stats st;

  World();
  ~World();
  Process *new_process();
  Client *new_client(Process *p);
  void ev(const char *what, int64_t a = 0, int64_t b = 0, int64_t c = 0);
  void note(const std::string &s);  // verbose only, never hashed
  void violate(const std::string &cls, const std::string &msg);  // records
  [[noreturn]] void fail(const std::string &cls, const std::string &msg);  // records + throws Abandon
  void kill(Process *p);            // kernel side effects of death
  void reap(Process *p);            // frees the dead process' memory
  void power_loss(Rng &r, int mode);
  void run_clients(const std::vector<std::pair<Client *, std::function<void()>>> &bodies);
  // fs helpers for the driver (no faults, no events)
  bool exists(const std::string &p);
  std::string read_file(const std::string &p);
  uint64_t hole_of(const std::string &p);
  void set_hole(const std::string &p, uint64_t n);  // puts n zero bytes before its contents
  void write_file(const std::string &p, const std::string &d);
  bool mkdir(const std::string &p);
  void remove(const std::string &p);
  std::vector<std::string> list(const std::string &dir);
  void probe(const char *name) { st.probes[name]++; }
  void flush_all();                 // make everything durable
};

extern thread_local Client *cur;
void set_client(Client *c);
void yield_point(int kind);  // 0 syscall, 1 lock, 2 memory, 3 op

// race build interface (no-ops elsewhere)
void race_reset(World *w);
void race_spawn(Client *parent, Client *child);
void race_join(Client *parent, Client *child);
void race_acquire(Client *c, Lock *l, bool excl);
void race_release(Client *c, Lock *l, bool excl);
void race_access(const void *p, size_t n, bool write);  // on behalf of the kernel
void *heap_alloc(size_t n);
void heap_free(void *p, size_t n);
void mem_poison(void *p, size_t n);
void mem_unpoison(void *p, size_t n);
extern const bool is_race_build;

}  // namespace sim
