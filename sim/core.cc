// Deterministic simulator for liburkel: processes, file system, scheduler.
#include "sim.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <thread>
#include <semaphore.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/file.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <pthread.h>

#ifndef F_OFD_SETLK
#define F_OFD_GETLK 36
#define F_OFD_SETLK 37
#define F_OFD_SETLKW 38
#endif

namespace sim {

const char *sys_name[S_NCNT] = {"open", "stat", "read", "write", "sync", "mmap", "trunc",
  "unlink", "rename", "mkdir", "rmdir", "dir", "lock", "close", "seek", "munmap", "malloc", "any"};
const char *act_name[A_NACT] = {"err", "short", "torn", "eintr", "eagain", "crash_before",
  "crash_after", "crash_part", "full"};

thread_local Client *cur = nullptr;
void set_client(Client *c) { cur = c; }

World::World() {}
World::~World() {
  for (auto &p : procs) {
    if (p->alive) kill(p.get());
    reap(p.get());
  }
}

Process *World::new_process() {
  procs.emplace_back(new Process());
  procs.back()->pid = (int)procs.size();
  return procs.back().get();
}
Client *World::new_client(Process *p) {
  clients.emplace_back(new Client());
  Client *c = clients.back().get();
  c->id = (int)clients.size() - 1;
  c->w = this;
  c->proc = p;
  return c;
}

void World::ev(const char *what, int64_t a, int64_t b, int64_t c) {
  uint64_t h = hash;
  for (const char *p = what; *p; p++) h = (h ^ (unsigned char)*p) * 1099511628211ull;
  h = mix(h, (uint64_t)a); h = mix(h, (uint64_t)b); h = mix(h, (uint64_t)c);
  if (cur) h = mix(h, (uint64_t)cur->id);
  hash = h;
  events++;
  if (verbose) {
    char buf[256];
    snprintf(buf, sizeof buf, "[%llu c%d p%d op%d] %s %lld %lld %lld", (unsigned long long)events,
             cur ? cur->id : -1, cur ? cur->proc->pid : -1, cur ? cur->op.op_id : -1, what,
             (long long)a, (long long)b, (long long)c);
    log.push_back(buf);
  }
}
void World::note(const std::string &s) {
  if (verbose) log.push_back("      " + s);
}
void World::violate(const std::string &cls, const std::string &msg) {
  if (!has_viol) {
    has_viol = true;
    viol = {cls, msg};
    ev("VIOLATION");
    note(cls + ": " + msg);
  }
}
void World::fail(const std::string &cls, const std::string &msg) {
  violate(cls, msg);
  abandon = true;
  throw Abandon{};
}

// ------------------------------------------------------------- processes
static void ofd_close(World *, Process *p, Ofd *o) {
  Inode *ino = o->ino.get();
  // POSIX record locks: closing any descriptor of the file drops them.
  auto &L = ino->locks;
  L.erase(std::remove_if(L.begin(), L.end(), [&](const LockRec &r) {
    return r.space == 0 && r.pid == p->pid; }), L.end());
  if (--o->refs == 0) {
    L.erase(std::remove_if(L.begin(), L.end(), [&](const LockRec &r) {
      return r.space != 0 && r.ofd == o; }), L.end());
    delete o;
  }
}

void World::kill(Process *p) {
  if (!p->alive) return;
  ev("killed", p->pid);
  p->alive = false;
  for (auto &kv : p->fds) ofd_close(this, p, kv.second);
  p->fds.clear();
  for (MapReg *m : p->maps) {
    auto &v = m->ino->maps;
    v.erase(std::remove(v.begin(), v.end(), m), v.end());
  }
}

// Mappings of files with a hole are too large for the tracked heap.
static void map_free(MapReg *m) {
  if (!m->big) { heap_free(m->addr, m->len ? m->len : 1); return; }
  size_t page = std::min<size_t>((m->ino->hole) & ~(size_t)4095, m->len);
  mem_unpoison(m->addr + page, m->len - page);
  ::munmap(m->addr, m->len);
}

void World::reap(Process *p) {
  for (auto it = locks.begin(); it != locks.end();) {
    if (it->second->pid == p->pid) it = locks.erase(it); else ++it;
  }
  for (MapReg *m : p->maps) {
    if (m->alive) {
      auto &v = m->ino->maps;
      v.erase(std::remove(v.begin(), v.end(), m), v.end());
      map_free(m);
    }
    delete m;
  }
  p->maps.clear();
  for (void *d : p->dirs) ::free(d);
  p->dirs.clear();
  for (auto &kv : p->heap) heap_free(kv.first, kv.second);
  p->heap.clear();
  p->heap_bytes = 0;
}

// ------------------------------------------------------------- scheduler
struct Worker {
  std::thread th;
  sem_t go;
  std::function<void()> body;
  Client *client = nullptr;
};
static std::vector<Worker *> g_workers;
static sem_t g_main;
static bool g_main_init = false;
static std::vector<Client *> g_active;      // clients of the running phase
static std::unordered_map<Client *, Worker *> g_of;

static bool runnable(Client *c) {
  if (c->state == 1) return true;
  if (c->state == 2) {
    if (c->w->abandon || !c->proc->alive) return true;
    return c->wait_pred();
  }
  return false;
}

// Chooses the next client. `self` may be null (finished) or blocked.
static Client *choose(World *w, Client *self, int permille_x100) {
  std::vector<Client *> cand;
  for (Client *c : g_active) if (runnable(c)) cand.push_back(c);
  if (cand.empty()) return nullptr;
  bool self_ok = self && std::find(cand.begin(), cand.end(), self) != cand.end();
  uint64_t step = w->step++;
  Client *def = self_ok ? self : cand[0];
  Client *pick = def;
  if (w->sched.explicit_) {
    auto it = w->sched.dev.find(step);
    if (it != w->sched.dev.end())
      for (Client *c : cand) if (c->id == it->second) pick = c;
  } else {
    bool sw = !self_ok || (int64_t)w->srng.below(100000) < permille_x100;
    if (sw && cand.size() > 1) {
      if (self_ok) {
        size_t k = w->srng.below(cand.size() - 1);
        std::vector<Client *> o;
        for (Client *c : cand) if (c != self) o.push_back(c);
        pick = o[k];
      } else {
        pick = cand[w->srng.below(cand.size())];
      }
    }
  }
  if (pick != def) { w->taken[step] = pick->id; w->st.preempt++; }
  return pick;
}

static void hand_over(Client *to) { sem_post(&g_of[to]->go); }

static void check_unwind(Client *c) {
  if (c->w->abandon) throw Abandon{};
  if (!c->proc->alive) throw Killed{};
}

static void switch_from(Client *self, Client *to) {
  if (to == self) return;
  World *w = self->w;
  w->st.switches++;
  w->ev("switch", to->id);
  hand_over(to);
  sem_wait(&g_of[self]->go);
}

void yield_point(int kind) {
  Client *c = cur;
  if (!c) return;
  World *w = c->w;
  check_unwind(c);
  if (w->step + w->st.syscalls > w->max_steps) w->fail("stall", "step budget exhausted: a call does not terminate");
  if (!w->mt) return;
  int p = kind == 2 ? w->sched.mem_permille : w->sched.permille * 100;
  Client *n = choose(w, c, p);
  if (n && n != c) switch_from(c, n);
  c->state = 1;
  check_unwind(c);
}

// Blocks the current client until pred() holds.
static void block_until(World *w, Client *c, const char *why, std::function<bool()> pred) {
  while (!pred()) {
    w->ev("block", c->id);
    if (!w->mt) w->fail("deadlock", std::string("single caller blocks forever on ") + why);
    c->state = 2;
    c->wait_pred = pred;
    Client *n = choose(w, c, 0);
    if (!n) {
      std::string m = std::string("all callers blocked; last on ") + why;
      w->violate("deadlock", m);
      w->abandon = true;
      c->state = 1;
      throw Abandon{};
    }
    switch_from(c, n);
    c->state = 1;
    check_unwind(c);
  }
}

static void worker_main(Worker *wk) {
  for (;;) {
    sem_wait(&wk->go);
    Client *c = wk->client;
    World *w = c->w;
    cur = c;
    try {
      check_unwind(c);
      wk->body();
    } catch (Killed &) {
    } catch (Abandon &) {
    } catch (Violation &v) {
      w->violate(v.cls, v.msg);
      w->abandon = true;
    }
    c->state = 3;
    w->ev("client_done", c->id);
    cur = nullptr;
    Client *n = choose(w, nullptr, 0);
    if (!n) {
      bool blocked = false;
      for (Client *x : g_active) if (x->state != 3) blocked = true;
      if (blocked) {
        w->violate("deadlock", "remaining callers are all blocked");
        w->abandon = true;
        n = choose(w, nullptr, 0);
      }
    }
    if (n) hand_over(n); else sem_post(&g_main);
  }
}

void World::run_clients(const std::vector<std::pair<Client *, std::function<void()>>> &bodies) {
  if (!g_main_init) { sem_init(&g_main, 0, 0); g_main_init = true; }
  Client *saved = cur;
  g_active.clear();
  g_of.clear();
  while (g_workers.size() < bodies.size()) {
    Worker *wk = new Worker();
    sem_init(&wk->go, 0, 0);
    g_workers.push_back(wk);
    wk->th = std::thread(worker_main, wk);
    wk->th.detach();
  }
  for (size_t i = 0; i < bodies.size(); i++) {
    Client *c = bodies[i].first;
    c->state = 1;
    g_active.push_back(c);
    g_workers[i]->client = c;
    g_workers[i]->body = bodies[i].second;
    g_of[c] = g_workers[i];
    if (saved) race_spawn(saved, c);
  }
  mt = true;
  ev("mt_begin", bodies.size());
  Client *first = choose(this, nullptr, 0);
  hand_over(first);
  while (sem_wait(&g_main) != 0) {}
  mt = false;
  cur = saved;
  for (auto &b : bodies) if (saved) race_join(saved, b.first);
  ev("mt_end");
  if (abandon) throw Abandon{};
}

// ------------------------------------------------------------- faults
struct Dec { int act = -1; int64_t arg = 0; bool crash_after = false; };

static void die_now(Client *c) {
  c->w->kill(c->proc);
  throw Killed{};
}

static bool transparent(int act) { return act == A_SHORT || act == A_EINTR || act == A_EAGAIN; }

static void fired(Client *c, int act, int cls) {
  World *w = c->w;
  c->op.fired++;
  if (!transparent(act)) c->op.fired_hard++;
  w->st.fired[act][cls]++;
  w->st.tuples.insert(mix(mix(mix(act, cls), c->op.op_kind), c->op.cnt[cls]));
  w->ev(act_name[act], cls, c->op.cnt[cls]);
}

static bool applicable(int act, int cls) {
  switch (act) {
    case A_SHORT: return cls == S_READ || cls == S_WRITE;
    case A_TORN: case A_CRASH_PART: case A_FULL: return cls == S_WRITE;
    case A_EINTR: return cls == S_OPEN || cls == S_READ || cls == S_WRITE;
    case A_EAGAIN: return cls == S_READ || cls == S_WRITE;
    case A_ERR: return cls != S_CLOSE && cls != S_MUNMAP;
    default: return true;
  }
}

static Dec enter(int cls) {
  Client *c = cur;
  if (!c) { fprintf(stderr, "sim: library call outside a client\n"); ::abort(); }
  World *w = c->w;
  Dec d;
  if (cls != S_MALLOC) {
    yield_point(0);
    w->st.syscalls++;
    w->st.simtime_us += 20 + (w->hash & 63);
  } else {
    check_unwind(c);
  }
  OpCtx &op = c->op;
  op.cnt[cls]++;
  if (cls != S_MALLOC) op.cnt[S_ANY]++;
  if (op.torn_next && cls == S_WRITE) {
    op.torn_next = false;
    d.act = A_ERR; d.arg = EIO;
    fired(c, A_ERR, cls);
    return d;
  }
  if (op.faults) {
    for (const Fault &f : *op.faults) {
      int n;
      if (f.cls == S_ANY) { if (cls == S_MALLOC) continue; n = op.cnt[S_ANY]; }
      else { if (f.cls != cls) continue; n = op.cnt[cls]; }
      if (n < f.nth || n >= f.nth + f.count) continue;
      if (!applicable(f.act, cls)) {
        if (f.act == A_CRASH_PART) { fired(c, A_CRASH_BEFORE, cls); die_now(c); }
        continue;
      }
      switch (f.act) {
        case A_CRASH_BEFORE: fired(c, f.act, cls); die_now(c); break;
        case A_CRASH_AFTER: fired(c, f.act, cls); d.crash_after = true; return d;
        case A_FULL: if (op.quota < 0) { op.quota = f.arg; } return d;
        case A_ERR:
          fired(c, f.act, cls);
          if (cls == S_MALLOC || cls == S_MMAP) { c->proc->oom = true; op.fired_oom++; }
          d.act = A_ERR; d.arg = f.arg ? f.arg : EIO; return d;
        case A_EINTR: fired(c, f.act, cls); d.act = A_ERR; d.arg = EINTR; return d;
        case A_EAGAIN: fired(c, f.act, cls); d.act = A_ERR; d.arg = EAGAIN; return d;
        default: d.act = f.act; d.arg = f.arg; return d;
      }
    }
  }
  return d;
}

static void leave(const Dec &d) { if (d.crash_after) die_now(cur); }

// ------------------------------------------------------------- fs helpers
static bool cwd_gone(World *w, const Process *p) {
  if (!p->cwd_ino) return false;
  auto it = w->tree.find(p->cwd);
  return it == w->tree.end() || (uint64_t)it->second->id != p->cwd_ino;
}
static std::string norm(const char *path) {
  std::string s = path;
  if (s.empty() || s[0] != '/') s = (cur ? cur->proc->cwd : std::string()) + "/" + s;
  std::vector<std::string> parts;
  size_t i = 0;
  while (i < s.size()) {
    size_t j = s.find('/', i);
    if (j == std::string::npos) j = s.size();
    std::string c = s.substr(i, j - i);
    if (c == "..") { if (!parts.empty()) parts.pop_back(); }
    else if (!c.empty() && c != ".") parts.push_back(c);
    i = j + 1;
  }
  std::string o;
  for (auto &c : parts) o += "/" + c;
  return o.empty() ? "/" : o;
}
static std::string parent(const std::string &p) {
  size_t k = p.rfind('/');
  return k == 0 ? "/" : p.substr(0, k);
}
static int path_check(World *w, const char *path, std::string &out) {
  size_t n = strlen(path);
  if (n == 0) return ENOENT;
  if (n >= 4096) return ENAMETOOLONG;
  if (path[0] != '/' && cwd_gone(w, cur->proc)) return ENOENT;
  out = norm(path);
  size_t i = 0;
  while (i < out.size()) {
    size_t j = out.find('/', i);
    if (j == std::string::npos) j = out.size();
    if (j - i > 255) return ENAMETOOLONG;
    i = j + 1;
  }
  if (out != "/") {
    auto it = w->tree.find(parent(out));
    if (it == w->tree.end()) return ENOENT;
    if (it->second->kind != 1) return ENOTDIR;
    if (!(it->second->mode & 0100)) return EACCES;
  }
  return 0;
}
// Everything runs as the owner of the files.
static bool may_write_dir(World *w, const std::string &path) {
  auto it = w->tree.find(parent(path));
  return it == w->tree.end() || (it->second->mode & 0200);
}
static int64_t path_id(const std::string &p) {
  uint64_t h = 1469598103934665603ull;
  for (char c : p) h = (h ^ (unsigned char)c) * 1099511628211ull;
  return (int64_t)h;
}
static std::shared_ptr<Inode> mk_inode(World *w, int kind) {
  auto i = std::make_shared<Inode>();
  i->id = w->next_ino++;
  i->kind = kind;
  i->mode = kind == 1 ? 0750 : 0640;
  return i;
}
static void link_in(World *w, const std::string &p, std::shared_ptr<Inode> ino) {
  w->tree[p] = ino;
  if (w->track_power) w->dirops.push_back({0, p, ino});
}
static void link_out(World *w, const std::string &p) {
  if (w->track_power) w->dirops.push_back({1, p, nullptr});
  w->tree.erase(p);
}
static void sync_dirs(World *w) {
  for (auto &o : w->dirops) {
    if (o.kind == 0) w->durable_tree[o.path] = o.ino; else w->durable_tree.erase(o.path);
  }
  w->dirops.clear();
}
// The pages of a file that grew back under a mapping can be used again.
static void maps_grow(Inode *ino, size_t old) {
  size_t lo = (old + 4095) & ~(size_t)4095, hi = (ino->size() + 4095) & ~(size_t)4095;
  for (MapReg *m : ino->maps) {
    size_t a = std::min(lo, m->len), b = std::min(hi, m->len);
    if (a < b) { mem_unpoison(m->addr + a, b - a); memset(m->addr + a, 0, b - a); }
  }
}
static void inode_write(World *w, Inode *ino, uint64_t off, const unsigned char *p, size_t n) {
  if (n == 0) return;
  size_t old = ino->size();
  if (off < ino->hole) w->fail("written-behind", "a write at " + std::to_string(off) + " of a data file whose last commit lies behind " + std::to_string(ino->hole));
  if (off + n > old) ino->data.resize(off + n - ino->hole, '\0');
  memcpy(&ino->data[off - ino->hole], p, n);
  maps_grow(ino, old);
  w->used += (int64_t)ino->size() - (int64_t)old;
  if (w->track_power) ino->jops.push_back({false, off, std::string((const char *)p, n)});
  for (MapReg *m : ino->maps) {
    if (off < m->len) {
      size_t k = std::min<uint64_t>(n, m->len - off);
      memcpy(m->addr + off, p, k);
    }
  }
}
static void inode_trunc(World *w, Inode *ino, uint64_t size) {
  size_t old = ino->size();
  ino->hole = std::min(ino->hole, size);
  ino->data.resize(size - ino->hole, '\0');
  maps_grow(ino, old);
  w->used += (int64_t)size - (int64_t)old;
  if (w->track_power) ino->jops.push_back({true, size, ""});
  for (MapReg *m : ino->maps) {
    if (size < m->len) {
      size_t page = std::min<size_t>((size + 4095) & ~(size_t)4095, m->len);
      memset(m->addr + size, 0, page - size);
      if (page < m->len) mem_poison(m->addr + page, m->len - page);
    }
  }
}

bool World::exists(const std::string &p) { return tree.count(p) != 0; }
std::string World::read_file(const std::string &p) {
  auto it = tree.find(p);
  return it == tree.end() ? std::string() : it->second->data;
}
uint64_t World::hole_of(const std::string &p) {
  auto it = tree.find(p);
  return it == tree.end() ? 0 : it->second->hole;
}
void World::set_hole(const std::string &p, uint64_t n) { used += (int64_t)n - (int64_t)tree[p]->hole; tree[p]->hole = n; }
bool World::mkdir(const std::string &p) {
  if (tree.count(p)) return false;
  link_in(this, p, mk_inode(this, 1));
  return true;
}
void World::write_file(const std::string &p, const std::string &d) {
  auto it = tree.find(p);
  std::shared_ptr<Inode> i;
  if (it == tree.end()) { i = mk_inode(this, 0); link_in(this, p, i); } else i = it->second;
  inode_trunc(this, i.get(), 0);
  inode_write(this, i.get(), 0, (const unsigned char *)d.data(), d.size());
}
void World::remove(const std::string &p) { if (tree.count(p)) link_out(this, p); }
std::vector<std::string> World::list(const std::string &dir) {
  std::vector<std::string> out;
  std::string pre = dir == "/" ? "/" : dir + "/";
  for (auto &kv : tree)
    if (kv.first.size() > pre.size() && kv.first.compare(0, pre.size(), pre) == 0 &&
        kv.first.find('/', pre.size()) == std::string::npos)
      out.push_back(kv.first.substr(pre.size()));
  return out;
}
void World::flush_all() {
  sync_dirs(this);
  durable_tree = tree;
  for (auto &kv : tree) { kv.second->durable = kv.second->data; kv.second->jops.clear(); }
}

// Every process dies; what was not forced to disk may be lost.
// mode 0: lose everything unsynced, 1: random prefix, 2: prefix then zeros, 3: keep all
void World::power_loss(Rng &r, int mode) {
  ev("power_loss", mode);
  st.power++;
  for (auto &p : procs) if (p->alive) kill(p.get());
  size_t keep = mode == 0 ? 0 : mode == 3 ? dirops.size() : r.below(dirops.size() + 1);
  if (mode == 1 && r.chance(1, 2)) keep = dirops.size();
  for (size_t i = 0; i < keep; i++) {
    if (dirops[i].kind == 0) durable_tree[dirops[i].path] = dirops[i].ino;
    else durable_tree.erase(dirops[i].path);
  }
  dirops.clear();
  tree = durable_tree;
  for (auto &kv : tree) {
    Inode *ino = kv.second.get();
    if (ino->kind != 0) continue;
    if (mode == 3) { ino->durable = ino->data; ino->jops.clear(); continue; }
    std::string d = ino->durable;
    size_t n = ino->jops.size();
    size_t k = mode == 0 ? 0 : r.below(n + 1);
    if (mode == 2 && n > 0 && k == n) k = n - 1;
    for (size_t i = 0; i < k; i++) {
      JOp &o = ino->jops[i];
      if (o.trunc) d.resize(o.off, '\0');
      else { if (d.size() < o.off + o.bytes.size()) d.resize(o.off + o.bytes.size(), '\0'); memcpy(&d[o.off], o.bytes.data(), o.bytes.size()); }
    }
    if (k < n && mode != 0 && !ino->jops[k].trunc) {
      JOp &o = ino->jops[k];
      size_t part = r.below(o.bytes.size() + 1);
      if (part > 0 || mode == 2) {
        size_t full = mode == 2 ? o.bytes.size() : part;
        if (d.size() < o.off + full) d.resize(o.off + full, '\0');
        if (part) memcpy(&d[o.off], o.bytes.data(), part);
      }
    }
    ino->data = d;
    ino->durable = d;
    ino->jops.clear();
  }
  used = 0;
  for (auto &kv : tree) used += (int64_t)kv.second->size();
  for (auto &kv : tree) kv.second->locks.clear();
}

static Ofd *get_fd(int fd) {
  auto it = cur->proc->fds.find(fd);
  return it == cur->proc->fds.end() ? nullptr : it->second;
}
static int new_fd(Process *p, Ofd *o) {
  int n = 3;
  for (auto &kv : p->fds) { if (kv.first == n) n++; else if (kv.first > n) break; }
  p->fds[n] = o;
  return n;
}

static int do_open(const char *path, int flags, mode_t mode = 0) {
  Dec d = enter(S_OPEN);
  World *w = cur->w;
  Process *p = cur->proc;
  if (d.act == A_ERR) { errno = (int)d.arg; return -1; }
  std::string np;
  int e = path_check(w, path, np);
  w->ev("open", path_id(np), flags);
  w->note("open " + np);
  if (e) { errno = e; return -1; }
  if (np == "/dev/urandom" || np == "/dev/random") {
    if (!w->urandom) { errno = ENOENT; return -1; }
  }
  if ((int)p->fds.size() >= p->fdlimit) { cur->op.fired_hard++; w->probe("emfile"); errno = EMFILE; return -1; }
  auto it = w->tree.find(np);
  std::shared_ptr<Inode> ino;
  int acc = flags & O_ACCMODE;
  if (it == w->tree.end()) {
    if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
    if (w->capacity >= 0 && w->used >= w->capacity + 65536) { errno = ENOSPC; return -1; }
    if (!may_write_dir(w, np)) { errno = EACCES; return -1; }
    ino = mk_inode(w, 0);
    ino->mode = mode & 07777 & ~022;
    link_in(w, np, ino);
  } else {
    ino = it->second;
    if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    if (ino->kind == 1 && acc != O_RDONLY) { errno = EISDIR; return -1; }
    if (ino->kind != 2 && ((acc != O_WRONLY && !(ino->mode & 0400)) || (acc != O_RDONLY && !(ino->mode & 0200)))) { w->probe("no_permission"); errno = EACCES; return -1; }
    if ((flags & O_DIRECTORY) && ino->kind != 1) { errno = ENOTDIR; return -1; }
    if ((flags & O_TRUNC) && ino->kind == 0 && acc != O_RDONLY) inode_trunc(w, ino.get(), 0);
  }
  Ofd *o = new Ofd();
  o->ino = ino;
  o->flags = flags;
  o->path = np;
  int fd = new_fd(p, o);
  leave(d);
  return fd;
}

static void fill_stat(Inode *i, struct stat *st) {
  memset(st, 0, sizeof *st);
  st->st_dev = 1;
  st->st_ino = cur->w->show_ino(i->id);
  st->st_nlink = 1;
  st->st_size = i->kind == 0 ? (off_t)i->size() : 4096;
  st->st_blksize = 4096;
  st->st_blocks = (st->st_size + 511) / 512;
  st->st_mode = i->kind == 1 ? (S_IFDIR | i->mode) : i->kind == 2 ? (S_IFCHR | 0666) : (S_IFREG | i->mode);
}

static ssize_t do_pread(int fd, void *buf, size_t len, int64_t off, bool use_pos) {
  Dec d = enter(S_READ);
  World *w = cur->w;
  if (d.act == A_ERR) { errno = (int)d.arg; return -1; }
  Ofd *o = get_fd(fd);
  if (!o) { errno = EBADF; return -1; }
  if ((o->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
  Inode *i = o->ino.get();
  if (i->kind == 1) { errno = EISDIR; return -1; }
  size_t n;
  if (i->kind == 2) {
    n = len;
    if (d.act == A_SHORT && n > 1) { n = std::max<int64_t>(1, std::min<int64_t>(d.arg, n - 1)); fired(cur, A_SHORT, S_READ); }
    for (size_t k = 0; k < n; k++) ((unsigned char *)buf)[k] = (unsigned char)w->rnd.next();
  } else {
    int64_t pos = use_pos ? o->pos : off;
    if (pos < 0) { errno = EINVAL; return -1; }
    n = (uint64_t)pos >= i->size() ? 0 : std::min<size_t>(len, i->size() - pos);
    if (d.act == A_SHORT && n > 1) { n = std::max<int64_t>(1, std::min<int64_t>(d.arg, n - 1)); fired(cur, A_SHORT, S_READ); }
    if (n) {
      race_access(buf, n, true);
      size_t z = (uint64_t)pos < i->hole ? std::min<size_t>(n, i->hole - pos) : 0;
      memset(buf, 0, z);
      memcpy((char *)buf + z, i->data.data() + (pos + z - std::min<uint64_t>(i->hole, pos + z)), n - z);
    }
    if (use_pos) o->pos += n;
    w->ev("read", i->id, pos, n);
    cur->op.rbytes += n;
  }
  leave(d);
  return (ssize_t)n;
}

static ssize_t do_pwrite(int fd, const void *buf, size_t len, int64_t off, bool use_pos) {
  Dec d = enter(S_WRITE);
  Client *c = cur;
  World *w = c->w;
  if (d.act == A_ERR) { errno = (int)d.arg; return -1; }
  Ofd *o = get_fd(fd);
  if (!o || (o->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  Inode *i = o->ino.get();
  if (i->kind == 2) return (ssize_t)len;
  o->written = true;
  size_t n = len;
  int64_t pos = use_pos ? ((o->flags & O_APPEND) ? (int64_t)i->size() : o->pos) : off;
  if (!use_pos && (o->flags & O_APPEND)) pos = (int64_t)i->size();  // Linux semantics
  int64_t arg = d.arg;
  if (arg < 0) arg = (int64_t)len + arg;
  if (arg < 0) arg = 0;
  if (d.act == A_SHORT && n > 1) { n = std::max<int64_t>(1, std::min<int64_t>(arg, n - 1)); fired(c, A_SHORT, S_WRITE); }
  if (d.act == A_TORN) {
    n = std::min<int64_t>(arg, (int64_t)len - 1);
    fired(c, A_TORN, S_WRITE);
    if (n == 0) { errno = EIO; return -1; }
    c->op.torn_next = true;
  }
  bool crash = false;
  if (d.act == A_CRASH_PART) { n = std::min<int64_t>(arg, len); crash = true; fired(c, A_CRASH_PART, S_WRITE); }
  int64_t room = INT64_MAX;
  if (w->capacity >= 0) room = std::max<int64_t>(0, w->capacity - w->used);
  if (c->op.quota >= 0) room = std::min(room, c->op.quota);
  int64_t grow = std::max<int64_t>(0, pos + (int64_t)n - (int64_t)i->size());
  if (grow > room) {
    n = (size_t)std::max<int64_t>(0, (int64_t)n - (grow - room));
    if (!crash) {
      fired(c, A_FULL, S_WRITE);
      if (n == 0) { errno = ENOSPC; return -1; }
    }
  }
  if (c->op.quota >= 0) c->op.quota = std::max<int64_t>(0, c->op.quota - (int64_t)n);
  if (n) race_access(buf, n, false);
  inode_write(w, i, pos, (const unsigned char *)buf, n);
  i->last_writer = c->proc->pid;
  c->proc->writes++;
  w->ev("write", i->id, pos, n);
  if (w->verbose) w->note("write " + o->path + " @" + std::to_string(pos) + " +" + std::to_string(n) + "/" + std::to_string(len));
  if (use_pos) o->pos = pos + n;
  if (crash) die_now(c);
  leave(d);
  return (ssize_t)n;
}

static int do_sync(int fd) {
  Dec d = enter(S_SYNC);
  World *w = cur->w;
  if (d.act == A_ERR) { errno = (int)d.arg; return -1; }
  Ofd *o = get_fd(fd);
  if (!o) { errno = EBADF; return -1; }
  w->ev("sync", o->ino->id);
  if (w->verbose) w->note("sync " + o->path);
  if (w->track_power) {
    sync_dirs(w);
    o->ino->durable = o->ino->data;
    o->ino->jops.clear();
  }
  w->st.simtime_us += 3000;
  leave(d);
  return 0;
}

static bool lock_conflict(Inode *i, int pid, void *ofd, int space, int type) {
  for (auto &r : i->locks) {
    bool same_space = (r.space == 2) == (space == 2);
    if (!same_space) continue;
    bool mine = (r.space == 0 && space == 0) ? r.pid == pid : (r.space == space && space != 0 && r.ofd == ofd);
    if (mine) continue;
    if (r.type == F_WRLCK || type == F_WRLCK) return true;
  }
  return false;
}
static void lock_set(Inode *i, int pid, void *ofd, int space, int type) {
  auto &L = i->locks;
  L.erase(std::remove_if(L.begin(), L.end(), [&](const LockRec &r) {
    return r.space == space && (space == 0 ? r.pid == pid : r.ofd == ofd); }), L.end());
  if (type != F_UNLCK) L.push_back({pid, ofd, type, space});
}
static int do_lock(Ofd *o, int space, int type, bool wait) {
  Client *c = cur;
  Inode *i = o->ino.get();
  if (lock_conflict(i, c->proc->pid, o, space, type) && type != F_UNLCK) {
    if (!wait) { errno = EAGAIN; return -1; }
    std::shared_ptr<Inode> hold = o->ino;
    block_until(c->w, c, "a file lock", [=] { return !lock_conflict(hold.get(), c->proc->pid, o, space, type); });
  }
  lock_set(i, c->proc->pid, o, space, type);
  c->w->ev("flock", i->id, type, space);
  return 0;
}

struct SimDir { std::vector<std::pair<std::string, int>> names; std::vector<int> kinds; size_t pos; struct dirent de; };

// ------------------------------------------------------------- locks
static Lock *get_lock(void *a, bool mutex) {
  World *w = cur->w;
  auto &p = w->locks[a];
  if (!p) { p.reset(new Lock()); p->pid = cur->proc->pid; p->mutex = mutex; }
  return p.get();
}
static void lock_op(const char *what) { cur->w->st.lockops++; cur->w->ev(what); }

}  // namespace sim

using namespace sim;

// ================================================================ hooks
extern "C" {

static mode_t mode_arg(int flags, va_list ap) { return flags & O_CREAT ? (mode_t)va_arg(ap, int) : 0; }
int sim_open(const char *path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t m = mode_arg(flags, ap);
  va_end(ap);
  return do_open(path, flags, m);
}
int sim___open_2(const char *path, int flags) { return do_open(path, flags); }
int sim_creat(const char *path, unsigned mode) { return do_open(path, O_WRONLY | O_CREAT | O_TRUNC, mode); }
// paths relative to a directory descriptor
static std::string at_path(int at, const char *path) {
  if (path[0] == '/' || at == AT_FDCWD) return path;
  Ofd *o = get_fd(at);
  return o ? o->path + "/" + path : std::string("/nonexistent/") + path;
}
int sim_openat(int at, const char *path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t m = mode_arg(flags, ap);
  va_end(ap);
  return do_open(at_path(at, path).c_str(), flags, m);
}
int sim_close(int fd) {
  Dec d = enter(S_CLOSE);
  Process *p = cur->proc;
  auto it = p->fds.find(fd);
  cur->w->ev("close", fd);
  if (it == p->fds.end()) {
    cur->w->fail("bad-close", "close of a descriptor that is not open");
  }
  Ofd *o = it->second;
  p->fds.erase(it);
  ofd_close(cur->w, p, o);
  leave(d);
  return 0;
}
ssize_t sim_read(int fd, void *b, size_t n) { return do_pread(fd, b, n, 0, true); }
ssize_t sim_pread(int fd, void *b, size_t n, off_t o) { return do_pread(fd, b, n, o, false); }
static bool iov_gather(const struct iovec *v, int n, std::string &b) {
  if (n < 0 || n > 1024) { errno = EINVAL; return false; }
  for (int i = 0; i < n; i++) b.append((const char *)v[i].iov_base, v[i].iov_len);
  return true;
}
static ssize_t iov_read(int fd, const struct iovec *v, int n, off_t o, bool use_pos) {
  size_t len = 0;
  for (int i = 0; i < n; i++) len += v[i].iov_len;
  std::string b(len, '\0');
  ssize_t r = do_pread(fd, &b[0], len, o, use_pos);
  for (int i = 0, at = 0; i < n && at < r; i++) {
    size_t k = std::min<size_t>(v[i].iov_len, r - at);
    memcpy(v[i].iov_base, &b[at], k);
    at += (int)k;
  }
  return r;
}
ssize_t sim_readv(int fd, const struct iovec *v, int n) { return iov_read(fd, v, n, 0, true); }
ssize_t sim_preadv(int fd, const struct iovec *v, int n, off_t o) { return iov_read(fd, v, n, o, false); }
ssize_t sim_writev(int fd, const struct iovec *v, int n) { std::string b; return iov_gather(v, n, b) ? do_pwrite(fd, b.data(), b.size(), 0, true) : -1; }
ssize_t sim_pwritev(int fd, const struct iovec *v, int n, off_t o) { std::string b; return iov_gather(v, n, b) ? do_pwrite(fd, b.data(), b.size(), o, false) : -1; }
ssize_t sim_write(int fd, const void *b, size_t n) { return do_pwrite(fd, b, n, 0, true); }
ssize_t sim_pwrite(int fd, const void *b, size_t n, off_t o) { return do_pwrite(fd, b, n, o, false); }
int sim_fsync(int fd) { return do_sync(fd); }
int sim_fdatasync(int fd) { return do_sync(fd); }
off_t sim_lseek(int fd, off_t off, int wh) {
  Dec d = enter(S_SEEK);
  if (d.act == A_ERR) { errno = (int)d.arg; return -1; }
  Ofd *o = get_fd(fd);
  if (!o) { errno = EBADF; return -1; }
  int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? o->pos : (int64_t)o->ino->size();
  if (base + off < 0) { errno = EINVAL; return -1; }
  o->pos = base + off;
  cur->w->ev("lseek", o->ino->id, o->pos);
  leave(d);
  return o->pos;
}
// What a failed call leaves in its output is unspecified.
static void spoil(void *p, size_t n) {
  switch (cur->w->events % 3) {
    case 0: return;
    case 1: memset(p, 0, n); return;
    case 2: memset(p, 0xa5, n); return;
  }
}
int sim_fstat(int fd, struct stat *st) {
  Dec d = enter(S_STAT);
  if (d.act == A_ERR) { spoil(st, sizeof *st); errno = (int)d.arg; return -1; }
  Ofd *o = get_fd(fd);
  if (!o) { errno = EBADF; return -1; }
  fill_stat(o->ino.get(), st);
  cur->w->ev("fstat", o->ino->id, st->st_size);
  leave(d);
  return 0;
}
int sim_stat(const char *path, struct stat *st) {
  Dec d = enter(S_STAT);
  if (d.act == A_ERR) { spoil(st, sizeof *st); errno = (int)d.arg; return -1; }
  std::string np;
  int e = path_check(cur->w, path, np);
  cur->w->ev("stat", path_id(np));
  if (e) { errno = e; return -1; }
  auto it = cur->w->tree.find(np);
  if (it == cur->w->tree.end()) { errno = ENOENT; return -1; }
  fill_stat(it->second.get(), st);
  leave(d);
  return 0;
}
int sim_lstat(const char *path, struct stat *st) { return sim_stat(path, st); }
int sim_access(const char *path, int how) {
  struct stat st;
  int r = sim_stat(path, &st);
  if (r == 0 && (st.st_mode & ((how & 7) << 6)) != ((mode_t)(how & 7) << 6)) { errno = EACCES; return -1; }
  return r;
}
int sim_faccessat(int at, const char *path, int how, int) { return sim_access(at_path(at, path).c_str(), how); }
int sim_fstatat(int at, const char *path, struct stat *st, int) { return sim_stat(at_path(at, path).c_str(), st); }
int sim_ftruncate(int fd, off_t n) {
  Dec d = enter(S_TRUNC);
  if (d.act == A_ERR) { errno = (int)d.arg; return -1; }
  Ofd *o = get_fd(fd);
  if (!o || (o->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  if (n < 0) { errno = EINVAL; return -1; }
  cur->w->ev("ftruncate", o->ino->id, n);
  if (cur->w->verbose) cur->w->note("ftruncate " + o->path + " " + std::to_string(o->ino->size()) + " -> " + std::to_string(n));
  inode_trunc(cur->w, o->ino.get(), n);
  cur->proc->writes++;
  o->ino->last_writer = cur->proc->pid;
  leave(d);
  return 0;
}
int sim_truncate(const char *path, off_t n) {
  Dec d = enter(S_TRUNC);
  if (d.act == A_ERR) { errno = (int)d.arg; return -1; }
  std::string np;
  int e = path_check(cur->w, path, np);
  if (e) { errno = e; return -1; }
  auto it = cur->w->tree.find(np);
  if (it == cur->w->tree.end()) { errno = ENOENT; return -1; }
  if (n < 0 || it->second->kind != 0) { errno = EINVAL; return -1; }
  if (!(it->second->mode & 0200)) { errno = EACCES; return -1; }
  cur->w->ev("truncate", it->second->id, n);
  inode_trunc(cur->w, it->second.get(), n);
  leave(d);
  return 0;
}
int sim_posix_fallocate(int, off_t, off_t) { return EOPNOTSUPP; }
int sim_fallocate(int, int, off_t, off_t) { errno = EOPNOTSUPP; return -1; }
int sim_posix_fadvise(int, off_t, off_t, int) { return 0; }
int sim_posix_madvise(void *, size_t, int) { return 0; }
int sim_madvise(void *, size_t, int) { return 0; }
int sim_unlink(const char *path) {
  Dec d = enter(S_UNLINK);
  World *w = cur->w;
  if (d.act == A_ERR) { errno = (int)d.arg; return -1; }
  std::string np;
  int e = path_check(w, path, np);
  w->ev("unlink", path_id(np));
  w->note("unlink " + np);
  if (e) { errno = e; return -1; }
  auto it = w->tree.find(np);
  if (it == w->tree.end()) { errno = ENOENT; return -1; }
  if (!may_write_dir(w, np)) { errno = EACCES; return -1; }
  if (it->second->kind == 1) { errno = EISDIR; return -1; }
  if (it->second->protected_) w->fail("foreign-file", "a file that is not part of the database was unlinked: " + np);
  w->used -= (int64_t)it->second->size();
  it->second->last_writer = cur->proc->pid;
  cur->proc->writes++;
  link_out(w, np);
  leave(d);
  return 0;
}
int sim_rmdir(const char *path);
int sim_remove(const char *path) { return sim_unlink(path) == 0 ? 0 : errno == EISDIR ? sim_rmdir(path) : -1; }
int sim_unlinkat(int at, const char *path, int flags) { return (flags & AT_REMOVEDIR) ? sim_rmdir(at_path(at, path).c_str()) : sim_unlink(at_path(at, path).c_str()); }
int sim_link(const char *a, const char *b) {
  Dec d = enter(S_RENAME);
  World *w = cur->w;
  if (d.act == A_ERR) { errno = (int)d.arg; return -1; }
  std::string na, nb;
  int e = path_check(w, a, na);
  if (!e) e = path_check(w, b, nb);
  w->ev("link", path_id(na), path_id(nb));
  if (e) { errno = e; return -1; }
  auto it = w->tree.find(na);
  if (it == w->tree.end()) { errno = ENOENT; return -1; }
  if (w->tree.count(nb)) { errno = EEXIST; return -1; }
  link_in(w, nb, it->second);
  leave(d);
  return 0;
}
int sim_rename(const char *a, const char *b) {
  Dec d = enter(S_RENAME);
  World *w = cur->w;
  if (d.act == A_ERR) { errno = (int)d.arg; return -1; }
  std::string na, nb;
  int e = path_check(w, a, na);
  if (!e) e = path_check(w, b, nb);
  w->ev("rename", path_id(na), path_id(nb));
  if (e) { errno = e; return -1; }
  auto it = w->tree.find(na);
  if (it == w->tree.end()) { errno = ENOENT; return -1; }
  auto ino = it->second;
  if (!may_write_dir(w, na) || !may_write_dir(w, nb)) { errno = EACCES; return -1; }
  if (w->tree.count(nb)) w->used -= (int64_t)w->tree[nb]->size();
  // atomic: one journal entry replaces the target
  link_in(w, nb, ino);
  link_out(w, na);
  leave(d);
  return 0;
}
int sim_mkdir(const char *path, mode_t mode) {
  Dec d = enter(S_MKDIR);
  World *w = cur->w;
  if (d.act == A_ERR) { errno = (int)d.arg; return -1; }
  std::string np;
  int e = path_check(w, path, np);
  w->ev("mkdir", path_id(np));
  if (e) { errno = e; return -1; }
  if (w->tree.count(np)) { errno = EEXIST; return -1; }
  if (!may_write_dir(w, np)) { errno = EACCES; return -1; }
  auto ino = mk_inode(w, 1);
  ino->mode = mode & 07777 & ~022;
  link_in(w, np, ino);
  leave(d);
  return 0;
}
int sim_rmdir(const char *path) {
  Dec d = enter(S_RMDIR);
  World *w = cur->w;
  if (d.act == A_ERR) { errno = (int)d.arg; return -1; }
  std::string np;
  int e = path_check(w, path, np);
  w->ev("rmdir", path_id(np));
  if (e) { errno = e; return -1; }
  auto it = w->tree.find(np);
  if (it == w->tree.end()) { errno = ENOENT; return -1; }
  if (it->second->kind != 1) { errno = ENOTDIR; return -1; }
  if (!w->list(np).empty()) { errno = ENOTEMPTY; return -1; }
  if (!may_write_dir(w, np)) { errno = EACCES; return -1; }
  link_out(w, np);
  leave(d);
  return 0;
}
int sim_renameat(int a, const char *p, int b, const char *q) { return sim_rename(at_path(a, p).c_str(), at_path(b, q).c_str()); }
int sim_mkdirat(int at, const char *path, mode_t m) { return sim_mkdir(at_path(at, path).c_str(), m); }
void sim_sync(void) {
  Dec d = enter(S_SYNC);
  World *w = cur->w;
  w->ev("sync_all");
  if (w->track_power) { sync_dirs(w); for (auto &kv : w->tree) { kv.second->durable = kv.second->data; kv.second->jops.clear(); } }
  leave(d);
}
int sim_dup(int fd) {
  Dec d = enter(S_OPEN);
  if (d.act == A_ERR) { errno = (int)d.arg; return -1; }
  Ofd *o = get_fd(fd);
  if (!o) { errno = EBADF; return -1; }
  if ((int)cur->proc->fds.size() >= cur->proc->fdlimit) { cur->op.fired_hard++; cur->w->probe("emfile"); errno = EMFILE; return -1; }
  o->refs++;
  int n = new_fd(cur->proc, o);
  cur->w->ev("dup", fd, n);
  leave(d);
  return n;
}
int sim_chmod(const char *path, mode_t mode) {
  std::string np;
  int e = path_check(cur->w, path, np);
  if (!e && !cur->w->tree.count(np)) e = ENOENT;
  if (e) { errno = e; return -1; }
  cur->w->tree[np]->mode = mode & 07777;
  return 0;
}
int sim_fchmod(int fd, mode_t mode) {
  Ofd *o = get_fd(fd);
  if (!o) { errno = EBADF; return -1; }
  o->ino->mode = mode & 07777;
  return 0;
}
DIR *sim_opendir(const char *path) {
  Dec d = enter(S_DIR);
  World *w = cur->w;
  if (d.act == A_ERR) { errno = (int)d.arg; return nullptr; }
  std::string np;
  int e = path_check(w, path, np);
  w->ev("opendir", path_id(np));
  if (e) { errno = e; return nullptr; }
  auto it = w->tree.find(np);
  if (it == w->tree.end()) { errno = ENOENT; return nullptr; }
  if (it->second->kind != 1) { errno = ENOTDIR; return nullptr; }
  if (!(it->second->mode & 0400)) { errno = EACCES; return nullptr; }
  if ((int)cur->proc->fds.size() >= cur->proc->fdlimit) { cur->op.fired_hard++; w->probe("emfile"); errno = EMFILE; return nullptr; }
  void *mem = ::malloc(sizeof(SimDir *));
  SimDir *sd = new SimDir();
  *(SimDir **)mem = sd;
  sd->pos = 0;
  sd->names.push_back({".", 1});
  sd->names.push_back({"..", 2});
  for (auto &n : w->list(np)) sd->names.push_back({n, (int)w->tree[(np == "/" ? "" : np) + "/" + n]->id});
  Rng r(w->dir_shuffle ^ (uint64_t)path_id(np) ^ ((uint64_t)++w->listings << 32));
  if (w->dir_shuffle)
    for (size_t i = sd->names.size(); i > 1; i--) std::swap(sd->names[i - 1], sd->names[r.below(i)]);
  cur->proc->dirs.insert(mem);
  leave(d);
  return (DIR *)mem;
}
struct dirent *sim_readdir(DIR *dir) {
  Dec d = enter(S_DIR);
  if (d.act == A_ERR) { errno = (int)d.arg; return nullptr; }
  SimDir *sd = *(SimDir **)dir;
  if (sd->pos >= sd->names.size()) return nullptr;
  auto &n = sd->names[sd->pos++];
  memset(&sd->de, 0, sizeof sd->de);
  sd->de.d_ino = cur->w->show_ino(n.second);
  sd->de.d_type = DT_REG;
  sd->de.d_reclen = sizeof sd->de;
  strncpy(sd->de.d_name, n.first.c_str(), sizeof sd->de.d_name - 1);
  leave(d);
  return &sd->de;
}
void sim_rewinddir(DIR *dir) { (*(SimDir **)dir)->pos = 0; }
int sim_closedir(DIR *dir) {
  Dec d = enter(S_CLOSE);
  if (!cur->proc->dirs.erase(dir)) cur->w->fail("bad-close", "closedir of a directory that is not open");
  delete *(SimDir **)dir;
  ::free(dir);
  leave(d);
  return 0;
}
char *sim_getcwd(char *buf, size_t n) {
  Dec d = enter(S_STAT);
  if (d.act == A_ERR) { errno = (int)d.arg; return nullptr; }
  if (cwd_gone(cur->w, cur->proc)) { errno = ENOENT; leave(d); return nullptr; }
  if (n < cur->proc->cwd.size() + 1) { errno = ERANGE; leave(d); return nullptr; }
  strcpy(buf, cur->proc->cwd.c_str());
  leave(d);
  return buf;
}
int sim_chdir(const char *path) {
  Dec d = enter(S_STAT);
  if (d.act == A_ERR) { errno = (int)d.arg; return -1; }
  std::string np;
  int e = path_check(cur->w, path, np);
  if (!e) {
    auto it = cur->w->tree.find(np);
    if (it == cur->w->tree.end()) e = ENOENT;
    else if (it->second->kind != 1) e = ENOTDIR;
    else { cur->proc->cwd = np; cur->proc->cwd_ino = (uint64_t)it->second->id; }
  }
  leave(d);
  if (e) { errno = e; return -1; }
  return 0;
}
int sim_fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  void *arg = va_arg(ap, void *);
  va_end(ap);
  Dec d = enter(S_LOCK);
  if (d.act == A_ERR) { errno = (int)d.arg; return -1; }
  Ofd *o = get_fd(fd);
  if (!o) { errno = EBADF; return -1; }
  int r = 0;
  switch (cmd) {
    case F_GETFD: r = o->flags & O_CLOEXEC ? FD_CLOEXEC : 0; break;
    case F_SETFD: o->flags = (o->flags & ~O_CLOEXEC) | ((long)arg & FD_CLOEXEC ? O_CLOEXEC : 0); break;
    case F_GETFL: r = o->flags; break;
    case F_SETFL: break;
    case F_SETLK: case F_SETLKW: {
      struct flock *fl = (struct flock *)arg;
      r = do_lock(o, 0, fl->l_type, cmd == F_SETLKW);
      break;
    }
    case F_OFD_SETLK: case F_OFD_SETLKW: {
      struct flock *fl = (struct flock *)arg;
      if (fl->l_pid != 0) { errno = EINVAL; return -1; }
      r = do_lock(o, 1, fl->l_type, cmd == F_OFD_SETLKW);
      break;
    }
    case F_GETLK: case F_OFD_GETLK: {
      struct flock *fl = (struct flock *)arg;
      if (!lock_conflict(o->ino.get(), cur->proc->pid, o, cmd == F_GETLK ? 0 : 1, fl->l_type)) fl->l_type = F_UNLCK;
      break;
    }
    default: errno = EINVAL; return -1;
  }
  leave(d);
  return r;
}
int sim_flock(int fd, int opn) {
  Dec d = enter(S_LOCK);
  if (d.act == A_ERR) { errno = (int)d.arg; return -1; }
  Ofd *o = get_fd(fd);
  if (!o) { errno = EBADF; return -1; }
  int t = (opn & LOCK_UN) ? F_UNLCK : (opn & LOCK_SH) ? F_RDLCK : F_WRLCK;
  int r = do_lock(o, 2, t, !(opn & LOCK_NB));
  leave(d);
  return r;
}
int sim_lockf(int fd, int cmd, off_t) {
  Dec d = enter(S_LOCK);
  if (d.act == A_ERR) { errno = (int)d.arg; return -1; }
  Ofd *o = get_fd(fd);
  if (!o) { errno = EBADF; return -1; }
  int r = do_lock(o, 0, cmd == F_ULOCK ? F_UNLCK : F_WRLCK, cmd == F_LOCK);
  leave(d);
  return r;
}
void *sim_mmap(void *, size_t len, int, int flags, int fd, off_t off) {
  Dec d = enter(S_MMAP);
  World *w = cur->w;
  if (d.act == A_ERR) { errno = (int)d.arg; return MAP_FAILED; }
  if (flags & MAP_ANONYMOUS) { errno = ENODEV; return MAP_FAILED; }
  Ofd *o = get_fd(fd);
  if (!o) { errno = EBADF; return MAP_FAILED; }
  if (len == 0 || off != 0) { errno = EINVAL; return MAP_FAILED; }
  // Knob: no map space for what has been written through this descriptor,
  // so that it is read with read calls.
  if (w->nommap && o->written) { w->ev("mmap-refused"); errno = ENOMEM; return MAP_FAILED; }
  Inode *i = o->ino.get();
  bool big = i->hole > (1 << 20);
  unsigned char *a;
  if (big) {
    a = (unsigned char *)::mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (a == MAP_FAILED) { errno = ENOMEM; return a; }
  } else a = (unsigned char *)heap_alloc(len);
  size_t n = std::min(len, (size_t)i->size()), z = std::min(n, (size_t)i->hole);
  if (!big) memset(a, 0, z);
  memcpy(a + z, i->data.data(), n - z);
  if (n < len) {
    size_t page = std::min<size_t>((n + 4095) & ~(size_t)4095, len);
    memset(a + n, 0, page - n);
    if (page < len) mem_poison(a + page, len - page);
  }
  MapReg *m = new MapReg{o->ino, a, len, cur->proc, true, big};
  i->maps.push_back(m);
  cur->proc->maps.push_back(m);
  w->ev("mmap", i->id, len);
  leave(d);
  return a;
}
int sim_munmap(void *a, size_t len) {
  Dec d = enter(S_MUNMAP);
  Process *p = cur->proc;
  for (size_t k = 0; k < p->maps.size(); k++) {
    MapReg *m = p->maps[k];
    if (m->alive && m->addr == a) {
      if (m->len != len) cur->w->fail("bad-munmap", "munmap with a length that differs from the mapping");
      auto &v = m->ino->maps;
      v.erase(std::remove(v.begin(), v.end(), m), v.end());
      map_free(m);
      p->maps.erase(p->maps.begin() + k);
      delete m;
      cur->w->ev("munmap", len);
      leave(d);
      return 0;
    }
  }
  cur->w->fail("bad-munmap", "munmap of an address that is not mapped");
}
int sim_msync(void *, size_t, int) { return 0; }
int sim_gettimeofday(struct timeval *tv, void *) {
  uint64_t t = 1600000000ull * 1000000 + cur->w->st.simtime_us;
  tv->tv_sec = t / 1000000; tv->tv_usec = t % 1000000;
  return 0;
}
int sim_clock_gettime(int, struct timespec *ts) {
  uint64_t t = 1600000000ull * 1000000 + cur->w->st.simtime_us;
  ts->tv_sec = t / 1000000; ts->tv_nsec = (t % 1000000) * 1000;
  return 0;
}
time_t sim_time(time_t *t) { time_t r = 1600000000 + cur->w->st.simtime_us / 1000000; if (t) *t = r; return r; }
int sim_usleep(unsigned us) { cur->w->st.simtime_us += us; yield_point(0); return 0; }
int sim_nanosleep(const struct timespec *ts, struct timespec *) { cur->w->st.simtime_us += ts->tv_sec * 1000000 + ts->tv_nsec / 1000; yield_point(0); return 0; }
int sim_sched_yield(void) { yield_point(0); return 0; }
pid_t sim_getpid(void) { return cur->proc->pid; }
ssize_t sim_getrandom(void *b, size_t n, unsigned) {
  Dec d = enter(S_READ);
  if (d.act == A_ERR) { errno = (int)d.arg; return -1; }
  if (!cur->w->urandom) { errno = ENOSYS; return -1; }
  for (size_t k = 0; k < n; k++) ((unsigned char *)b)[k] = (unsigned char)cur->w->rnd.next();
  return (ssize_t)n;
}

int sim_getentropy(void *b, size_t n) { ssize_t r = sim_getrandom(b, n, 0); return r < 0 ? -1 : 0; }
uint32_t sim_arc4random(void) { return (uint32_t)cur->w->rnd.next(); }
void sim_arc4random_buf(void *b, size_t n) { for (size_t k = 0; k < n; k++) ((unsigned char *)b)[k] = (unsigned char)cur->w->rnd.next(); }
int sim_rand(void) { return (int)(cur->w->rnd.next() & 0x7fffffff); }
long sim_random(void) { return (long)(cur->w->rnd.next() & 0x7fffffff); }
void sim_srand(unsigned) {}
void sim_srandom(unsigned) {}
long sim_clock(void) { return (long)cur->w->st.simtime_us; }

// ---------------------------------------------------------------- memory
static void garbage(void *p, size_t n) { memset(p, 0xa5, n); }
void *sim_malloc(size_t n) {
  Dec d = enter(S_MALLOC);
  if (d.act == A_ERR) { errno = ENOMEM; return nullptr; }
  size_t k = n ? n : 1;
  if (k > ((size_t)1 << 30)) { errno = ENOMEM; return nullptr; }
  if (cur->proc->heap_bytes + k > ((size_t)1 << 30)) cur->w->fail("runaway-memory", "the process has allocated more than 1 GB");
  void *p = heap_alloc(k);
  garbage(p, k);
  cur->proc->heap[p] = k;
  cur->proc->heap_bytes += k;
  return p;
}
void *sim_calloc(size_t a, size_t b) {
  if (b && a > SIZE_MAX / b) { errno = ENOMEM; return nullptr; }
  void *p = sim_malloc(a * b);
  if (p) memset(p, 0, a * b);
  return p;
}
void sim_free(void *p) {
  if (!p) return;
  if (!cur) { fprintf(stderr, "sim: free outside a client\n"); ::abort(); }
  auto it = cur->proc->heap.find(p);
  if (it == cur->proc->heap.end()) cur->w->fail("bad-free", "free of a block that is not allocated (double free or wild pointer)");
  size_t n = it->second;
  cur->proc->heap.erase(it);
  cur->proc->heap_bytes -= n;
  heap_free(p, n);
}
void *sim_realloc(void *p, size_t n) {
  if (!p) return sim_malloc(n);
  auto it = cur->proc->heap.find(p);
  if (it == cur->proc->heap.end()) cur->w->fail("bad-free", "realloc of a block that is not allocated");
  size_t old = it->second;
  void *q = sim_malloc(n);
  if (!q) return nullptr;
  memcpy(q, p, std::min(old, n));
  sim_free(p);
  return q;
}
int sim_posix_memalign(void **out, size_t, size_t n) { void *p = sim_malloc(n); if (!p) return ENOMEM; *out = p; return 0; }
void *sim_aligned_alloc(size_t, size_t n) { return sim_malloc(n); }
void *sim_memalign(size_t, size_t n) { return sim_malloc(n); }
void *sim_reallocarray(void *p, size_t a, size_t b) {
  if (b && a > SIZE_MAX / b) { errno = ENOMEM; return nullptr; }
  return sim_realloc(p, a * b);
}
char *sim_strndup(const char *s, size_t m) {
  size_t n = strnlen(s, m);
  char *p = (char *)sim_malloc(n + 1);
  if (p) { memcpy(p, s, n); p[n] = 0; }
  return p;
}
char *sim_strdup(const char *s) {
  size_t n = strlen(s) + 1;
  char *p = (char *)sim_malloc(n);
  if (p) memcpy(p, s, n);
  return p;
}
void sim_abort(void) {
  Client *c = cur;
  c->w->ev("abort");
  if (c->proc->oom) { c->w->probe("abort_after_oom"); die_now(c); }
  std::string m = c->proc->err.empty() ? "abort() called" : c->proc->err;
  c->w->fail("abort", "the library aborted the process: " + m);
}
void sim_exit(int code);
void sim__exit(int code) { sim_exit(code); }
void sim_exit(int code) { cur->w->ev("exit", code); die_now(cur); }
void sim___stack_chk_fail(void) { cur->w->fail("stack-smash", "stack protector failure"); }
void sim___assert_fail(const char *e, const char *f, unsigned l, const char *) {
  (void)f; (void)l;
  cur->proc->err = std::string("assertion ") + e;
  sim_abort();
}

// ---------------------------------------------------------------- stdio
static void put(FILE *f, const char *s, size_t n) {
  if (!cur) return;
  if (f == stdout) cur->proc->out.append(s, n); else cur->proc->err.append(s, n);
}
static int vput(FILE *f, const char *fmt, va_list ap) {
  char buf[4096];
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  if (n > 0) put(f, buf, std::min<size_t>(n, sizeof buf - 1));
  return n;
}
int sim_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = vput(stdout, fmt, ap); va_end(ap); return n; }
int sim_fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = vput(f, fmt, ap); va_end(ap); return n; }
int sim___printf_chk(int, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = vput(stdout, fmt, ap); va_end(ap); return n; }
int sim___fprintf_chk(FILE *f, int, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int n = vput(f, fmt, ap); va_end(ap); return n; }
int sim_vfprintf(FILE *f, const char *fmt, va_list ap) { return vput(f, fmt, ap); }
int sim_vprintf(const char *fmt, va_list ap) { return vput(stdout, fmt, ap); }
void sim_perror(const char *s) { sim_fprintf(stderr, "%s: error %d\n", s, errno); }
int sim_puts(const char *s) { put(stdout, s, strlen(s)); put(stdout, "\n", 1); return 1; }
int sim_putchar(int c) { char ch = (char)c; put(stdout, &ch, 1); return c; }
int sim_fputs(const char *s, FILE *f) { put(f, s, strlen(s)); return 1; }
int sim_fputc(int c, FILE *f) { char ch = (char)c; put(f, &ch, 1); return c; }
int sim_putc(int c, FILE *f) { return sim_fputc(c, f); }
size_t sim_fwrite(const void *p, size_t a, size_t b, FILE *f) { put(f, (const char *)p, a * b); return b; }
int sim_fflush(FILE *) { return 0; }
char *sim_getenv(const char *n) {
  auto it = cur->proc->env.find(n);
  return it == cur->proc->env.end() ? nullptr : (char *)it->second.c_str();
}

// ---------------------------------------------------------------- locks
static bool g_lock_yield = true;
int sim_pthread_rwlock_init(pthread_rwlock_t *l, const void *) {
  cur->w->locks.erase(l);
  get_lock(l, false);
  lock_op("rw_init");
  return 0;
}
int sim_pthread_rwlock_destroy(pthread_rwlock_t *l) {
  lock_op("rw_destroy");
  Lock *k = get_lock(l, false);
  if (k->readers || k->writer) cur->w->fail("lock-misuse", "a held lock is destroyed");
  cur->w->locks.erase(l);
  return 0;
}
int sim_pthread_rwlock_rdlock(pthread_rwlock_t *l) {
  if (g_lock_yield) yield_point(1);
  Client *c = cur;
  Lock *k = get_lock(l, false);
  if (k->writer == c) c->w->fail("deadlock", "read lock requested by the holder of the write lock");
  block_until(c->w, c, "a read lock", [k] { return k->writer == nullptr; });
  k->readers++;
  k->rd[c]++;
  race_acquire(c, k, false);
  lock_op("rdlock");
  return 0;
}
int sim_pthread_rwlock_wrlock(pthread_rwlock_t *l) {
  if (g_lock_yield) yield_point(1);
  Client *c = cur;
  Lock *k = get_lock(l, false);
  if (k->writer == c || k->rd.count(c)) c->w->fail("deadlock", "write lock requested by a thread that already holds the lock");
  block_until(c->w, c, "a write lock", [k] { return k->writer == nullptr && k->readers == 0; });
  k->writer = c;
  race_acquire(c, k, true);
  lock_op("wrlock");
  return 0;
}
int sim_pthread_rwlock_unlock(pthread_rwlock_t *l) {
  Client *c = cur;
  Lock *k = get_lock(l, false);
  if (k->writer == c) {
    race_release(c, k, true);
    k->writer = nullptr;
  } else if (k->rd.count(c)) {
    race_release(c, k, false);
    k->readers--;
    if (--k->rd[c] == 0) k->rd.erase(c);
  } else {
    c->w->fail("lock-misuse", "a lock is released by a thread that does not hold it");
  }
  lock_op("rwunlock");
  if (g_lock_yield) yield_point(1);
  return 0;
}
int sim_pthread_rwlock_tryrdlock(pthread_rwlock_t *l) {
  yield_point(1);
  Lock *k = get_lock(l, false);
  if (k->writer) return EBUSY;
  return sim_pthread_rwlock_rdlock(l);
}
int sim_pthread_rwlock_trywrlock(pthread_rwlock_t *l) {
  yield_point(1);
  Lock *k = get_lock(l, false);
  if (k->writer || k->readers) return EBUSY;
  return sim_pthread_rwlock_wrlock(l);
}
int sim_pthread_mutex_init(pthread_mutex_t *l, const void *) {
  cur->w->locks.erase(l);
  get_lock(l, true);
  lock_op("mx_init");
  return 0;
}
int sim_pthread_mutex_destroy(pthread_mutex_t *l) {
  lock_op("mx_destroy");
  Lock *k = get_lock(l, true);
  if (k->writer) cur->w->fail("lock-misuse", "a held mutex is destroyed");
  cur->w->locks.erase(l);
  return 0;
}
int sim_pthread_mutex_lock(pthread_mutex_t *l) {
  if (g_lock_yield) yield_point(1);
  Client *c = cur;
  Lock *k = get_lock(l, true);
  if (k->writer == c) c->w->fail("deadlock", "mutex requested by its holder");
  block_until(c->w, c, "a mutex", [k] { return k->writer == nullptr; });
  k->writer = c;
  race_acquire(c, k, true);
  lock_op("mxlock");
  return 0;
}
int sim_pthread_mutex_trylock(pthread_mutex_t *l) {
  yield_point(1);
  Lock *k = get_lock(l, true);
  if (k->writer) return EBUSY;
  return sim_pthread_mutex_lock(l);
}
int sim_pthread_mutex_unlock(pthread_mutex_t *l) {
  Client *c = cur;
  Lock *k = get_lock(l, true);
  if (k->writer != c) c->w->fail("lock-misuse", "a mutex is released by a thread that does not hold it");
  race_release(c, k, true);
  k->writer = nullptr;
  lock_op("mxunlock");
  if (g_lock_yield) yield_point(1);
  return 0;
}

}  // extern "C"
