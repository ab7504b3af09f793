// Executes a plan against the real library inside the simulator and checks it
// against the reference model.
#include "plan.h"
#include "model.h"
#include "lin.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <functional>
#include <fcntl.h>
#include "urkel.h"

extern "C" int urkel_cli_main(int argc, char **argv);
extern "C" void sim_free(void *);
// limits behind the URKEL_SIM hook in store.c (0 = shipped value)
extern "C" {
unsigned long urkel_sim_max_file_size = 0;
unsigned long urkel_sim_max_open_files = 0;
unsigned long urkel_sim_write_buffer = 0;
unsigned long urkel_sim_read_buffer = 0;
}

namespace sim {
using model::Bytes;
using model::KV;
using model::KVp;
using std::string;

static string hex(const Bytes &b, size_t n = 8) {
  static const char *d = "0123456789abcdef";
  string o;
  for (size_t i = 0; i < b.size() && i < n; i++) { o += d[(unsigned char)b[i] >> 4]; o += d[b[i] & 15]; }
  return o;
}
static string hexall(const Bytes &b) { return hex(b, b.size()); }

struct Commit {
  Bytes root;
  KVp kv;
  std::vector<std::pair<string, std::pair<int, size_t>>> extent;  // path -> inode, size
  bool failed = false;
  bool acked = true;             // false: found after a crash, never acknowledged
};
struct DirM {
  string path;
  std::vector<Commit> chain;
  std::vector<Commit> pending;   // failed or in-flight after chain.back()
  std::vector<std::pair<size_t, Commit>> ghosts;  // failed commits later ones were built upon: after how many commits
  std::map<Bytes, KVp> may;      // roots that may still be found
  bool partial_destroy = false;  // a destroy started and did not finish
  int destroying = 0;
  int destroys = 0;             // destroys begun
  int left = 0;                 // owners that went away
  int owner_live = 0;            // live handles (open succeeded, close not begun)
  int busy = 0;                  // live handles + attempts in progress
  uint64_t last_begin = 0;
  size_t low = 0;                // candidates: chain[low..]
  bool use_low = false;
  int opens = 0;                 // successful opens so far
  bool broken_ok = false;        // opening may fail (foreign state)
  std::map<string, string> foreign;
  KVp base() const { return chain.empty() ? std::make_shared<KV>() : chain.back().kv; }
};
struct HandleM {
  bool unmatched = false;        // its root has not been looked at yet
  int destroying0 = 0, destroys0 = 0;  // as they were before it was opened
  urkel_t *db = nullptr;
  int proc = 0, dir = 0, gen = 0;
  KVp visible;
  bool revert = false;
  bool faulty = false;           // a call of its failed
  size_t carry = 0;              // what failed commits may have left to be written
  size_t largest = 0;            // bytes of its largest commit
  bool reverted = false;         // inject was used at least once
  bool open = false;
};
struct TxM { std::set<Bytes> touched; KVp base; bool removed = false, uncosted = false; urkel_tx_t *tx = nullptr; int h = -1; KVp kv; bool limbo = false; bool open = false; bool gen_conc = false; };
struct ItM {
  urkel_iter_t *it = nullptr; int h = -1, t = -1; KVp kv; bool open = false, ended = false, errored = false;
  bool limbo = false;
  Bytes last; bool any = false;
  KV seen; LinRec rec;
};

static const int NH = 8, NT = 8, NI = 6, NP = 6;

struct Exec {
  const Plan &p;
  World w;
  Result &res;
  Process *proc[NP] = {};
  int gen[NP] = {};
  std::vector<Client *> cl;
  DirM dir[2];
  HandleM hd[NH];
  TxM tx[NT];
  ItM it[NI];
  KVp empty = std::make_shared<KV>();
  int keymode, valmode;
  uint64_t keyseed;
  int nkeys;
  bool leak, lin, sync_build, strict_model = true, damaged_run = false;
  bool concurrent = false;   // inside a concurrent phase
  int expect_damage = -1;    // index in chain (+1), 0 = empty
  bool expect_damage_set = false;
  bool last_killed = false;
  bool mp = false;           // concurrent phases run several processes
  bool lin_lost = false;
  int64_t lim_file = 0, lim_open = 0;   // data-file limit (largest so far), open-file limit
  uint64_t clock_ = 0;
  bool mh = false;           // ... or callers of one process, each with a database of its own
  std::map<int, KVp> inflight;  // handle -> contents being committed
  LinSpec spec;

  Exec(const Plan &pl, Result &r) : p(pl), res(r) {}

  // ---------------------------------------------------------------- data
  Bytes rnd32(uint64_t a, uint64_t b) {
    Bytes o;
    Rng r(mix(mix(keyseed, a), b));
    while (o.size() < 32) { uint64_t x = r.next(); for (int i = 0; i < 8; i++) o += (char)(x >> (8 * i)); }
    return o;
  }
  static void setbit(Bytes &k, int i, int v) {
    char m = (char)(0x80 >> (i & 7));
    if (v) k[i >> 3] |= m; else k[i >> 3] &= (char)~m;
  }
  // A random trie: each key leaves an earlier one at a chosen bit; runs of
  // shared bits of every length occur, those near encoding limits often.
  Bytes tree_key(int64_t i) {
    static const int runs[] = {0, 1, 6, 7, 8, 9, 63, 64, 120, 126, 127, 128, 129, 130, 135, 136, 200, 248, 253, 254, 255};
    while ((int64_t)tkeys.size() <= i) {
      int64_t n = (int64_t)tkeys.size();
      Bytes o = rnd32(6, n);
      int d = -1;
      if (n > 0) {
        Rng r(mix(mix(keyseed, 7), n));
        int64_t q = (int64_t)r.below(n);
        const Bytes &b = tkeys[q];
        int from = r.chance(1, 2) ? 0 : tdepth[q] + 1;
        d = from + (r.chance(2, 3) ? runs[r.below(sizeof runs / sizeof *runs)] : (int)r.below(256));
        if (d > 255) d = (int)r.below(256);
        for (int k = 0; k < d; k++) setbit(o, k, model::bit(b, k));
        setbit(o, d, !model::bit(b, d));
        for (size_t e = 0; e < tkeys.size(); e++) if (tkeys[e] == o) { o = rnd32(8, n); d = 0; }
      }
      tkeys.push_back(o);
      tdepth.push_back(d);
    }
    return tkeys[(size_t)i];
  }
  std::vector<Bytes> tkeys;
  std::vector<int> tdepth;
  Bytes key(int64_t i) {
    if (nkeys > 0) i = ((i % nkeys) + nkeys) % nkeys;
    int mode = keymode;
    if (mode == 4) { mode = (i % 3 == 0) ? 0 : 1; }
    switch (mode) {
      case 0: return rnd32(1, i);
      case 1: {  // clusters: shared prefix of `keyprefix` bits
        Bytes b = rnd32(2, (i >> 3) & 1), o = rnd32(3, i);
        int pre = (int)p.k("keyprefix", 60);
        for (int k = 0; k < pre && k < 256; k++) setbit(o, k, model::bit(b, k));
        if (pre > 248) {  // keep keys distinct in the few remaining bits
          for (int k = 0; k < 4; k++) setbit(o, 255 - k, (i >> k) & 1);
        }
        return o;
      }
      case 2: {  // chain: key i leaves the base at bit i*stride
        Bytes b = rnd32(4, 0);
        int stride = (int)p.k("keystride", 1);
        int64_t d = i * stride + p.k("keyoff", 0);
        if (d >= 256) { if (i == 0 || (i - 1) * stride < 256) return b; d %= 256; }
        Bytes o = rnd32(5, i);
        for (int k = 0; k < d; k++) setbit(o, k, model::bit(b, k));
        setbit(o, (int)d, !model::bit(b, (int)d));
        return o;
      }
      case 5: return tree_key(i);
      default: {
        Bytes o(32, '\0');
        o[31] = (char)(i & 255);
        o[0] = (char)(i >> 8);
        return o;
      }
    }
  }
  Bytes val(int64_t v) {
    static const int edges[] = {0, 1, 2, 31, 32, 33, 37, 38, 39, 127, 128, 254, 255, 256, 257, 258, 300, 511, 512, 513, 767, 768, 1000, 1022, 1023};
    Rng r(mix(keyseed ^ 0x5555, v));
    size_t n;
    int mode = valmode;
    if (mode == 4) mode = (int)r.below(4);
    switch (mode) {
      case 0: n = r.below(41); break;
      case 1: n = edges[r.below(sizeof edges / sizeof *edges)]; break;
      case 2: n = r.below(1024); break;
      case 5: n = 4; break;
      case 6: return sibling(v);
      default: n = 114 + r.below(910); break;
    }
    Bytes o;
    if (mode == 3) {  // imitates commit records
      size_t phase = r.below(38);
      o.assign(phase, 'x');
      while (o.size() < n) o += fake_meta(r);
      o.resize(n);
      return o;
    }
    while (o.size() < n) { uint64_t x = r.next(); for (int i = 0; i < 8 && o.size() < n; i++) o += (char)(x >> (8 * i)); }
    for (int i = 0; i < 4 && i < (int)n; i++) o[i] = (char)(v >> (8 * i));
    return o;
  }
  // Values that differ from each other in few places, many zero bytes included.
  Bytes sibling(int64_t v) {
    static const int len[] = {0, 1, 2, 5, 31, 32, 33, 64, 127, 128, 255, 256, 257, 511, 512, 1023};
    uint64_t base = (uint64_t)v % 5, variant = (uint64_t)v / 5 % 7;
    Rng b(mix(keyseed ^ 0x7777, base));
    size_t n = len[b.below(sizeof len / sizeof *len)];
    Bytes o;
    for (size_t i = 0; i < n; i++) o += b.chance(1, 3) ? '\0' : (char)b.next();
    if (variant && n) {
      Rng q(mix(mix(keyseed ^ 0x8888, base), variant));
      size_t at = q.chance(1, 3) ? n - 1 : q.chance(1, 4) ? 0 : q.below(n);
      o[at] ^= (char)(q.chance(1, 3) ? 0x80 : 1 + q.below(255));
      if (q.chance(1, 4) && n > 1) o.resize(n - 1);
    }
    return o;
  }
  static Bytes fake_meta(Rng &r) {
    Bytes m;
    uint32_t magic = 0x6d726b6c;
    for (int i = 0; i < 4; i++) m += (char)(magic >> (8 * i));
    bool zero = r.chance(1, 2);
    for (int i = 0; i < 14; i++) m += zero ? '\0' : (char)r.next();
    // checksums a stranger could compute
    switch (r.below(4)) {
      case 0: m += Bytes(20, '\0'); break;
      case 1: m += model::blake2b(m, 20); break;
      case 2: m += model::blake2b(m, 20, Bytes(32, '\0')); break;
      default: for (int i = 0; i < 20; i++) m += (char)r.next();
    }
    return m;
  }

  // ---------------------------------------------------------------- misc
  Process *P(int i) {
    i = ((i % NP) + NP) % NP;
    if (!proc[i] || !proc[i]->alive) {
      if (proc[i] && !concurrent) w.reap(proc[i]);
      proc[i] = w.new_process();
      proc[i]->fdlimit = (int)p.k("fdlimit", 256);
      proc[i]->env["URKEL_PATH"] = dir[0].path;
      gen[i]++;
    }
    return proc[i];
  }
  bool alive(const HandleM &h) { return h.open && proc[h.proc] && proc[h.proc]->alive && gen[h.proc] == h.gen; }
  HandleM *H(int64_t i) {
    HandleM &h = hd[((i % NH) + NH) % NH];
    return alive(h) ? &h : nullptr;
  }
  int HI(int64_t i) { return (int)(((i % NH) + NH) % NH); }
  TxM *T(int64_t i) {
    TxM &t = tx[((i % NT) + NT) % NT];
    if (!t.open || t.h < 0 || !alive(hd[t.h])) return nullptr;
    return &t;
  }
  ItM *I(int64_t i) {
    ItM &x = it[((i % NI) + NI) % NI];
    if (!x.open || x.h < 0 || !alive(hd[x.h])) return nullptr;
    return &x;
  }
  bool has_iters(int h) { for (auto &x : it) if (x.open && x.h == h) return true; return false; }
  bool tx_iters(int t) { for (auto &x : it) if (x.open && x.t == t) return true; return false; }

  [[noreturn]] void bad(const string &cls, const string &msg) { w.fail(cls, msg); }

  static const char *ename(int e) {
    static const char *n[] = {"0", "EHASHMISMATCH", "ESAMEKEY", "ESAMEPATH", "ENEGDEPTH", "EPATHMISMATCH", "ETOODEEP",
      "EINVAL", "ENOTFOUND", "ECORRUPTION", "ENOUPDATE", "EBADWRITE", "EBADOPEN", "EITEREND"};
    return e >= 0 && e <= 13 ? n[e] : "?";
  }
  static bool is_io_error(int e) { return e == URKEL_ECORRUPTION || e == URKEL_EBADWRITE || e == URKEL_EBADOPEN; }

  // Runs a library call on behalf of an operation. Returns false when the
  // simulated process died inside it.
  struct CallInfo { int err = 0; int hard = 0; int any = 0; bool killed = false; int cnt[S_NCNT] = {}; int64_t rbytes = 0; };
  CallInfo call(const Op &op, int op_id, Process *pr, const std::function<void()> &f) {
    Client *c = cur;
    CallInfo ci;
    c->proc = pr;
    c->op = OpCtx();
    c->op.faults = op.faults.empty() ? nullptr : &op.faults;
    c->op.op_id = op_id;
    c->op.op_kind = op.kind;
    urkel_errno = 0;
    string cwd0 = pr->cwd;
    try {
      yield_point(3);
      f();
      yield_point(3);
      ci.err = urkel_errno;
    } catch (Killed &) {
      ci.killed = true;
    }
    ci.hard = c->op.fired_hard;
    ci.any = c->op.fired;
    if (!concurrent && pr->cwd != cwd0) bad("working-directory", "the process's working directory was changed");
    if (!concurrent && !ci.any)
      for (auto &kv : pr->fds)
        if (!(kv.second->flags & O_CLOEXEC)) bad("inherited-descriptor", "a descriptor of " + kv.second->path + " stays open in programs the process starts");
    for (int i = 0; i < S_NCNT; i++) ci.cnt[i] = c->op.cnt[i];
    bool quiet = op.kind == OP_FILL || op.kind == OP_ITNEW || op.kind == OP_ITDB || op.kind == OP_ITNEXT || op.kind == OP_DRAIN || op.kind == OP_ITDEL || op.kind == OP_AUDIT;
    if (quiet && !concurrent && !ci.any && p.k("cost", 0) && (ci.cnt[S_WRITE] || ci.cnt[S_TRUNC]))
      bad("cost", string(op_name[op.kind]) + " wrote to the database");
    ci.rbytes = c->op.rbytes;
    if (op_id >= 0 && (size_t)op_id < res.counts.size()) {
      std::vector<int> v(c->op.cnt, c->op.cnt + S_NCNT);
      auto &dst = res.counts[op_id];
      if (dst.size() < v.size()) dst.resize(v.size(), 0);
      for (size_t i = 0; i < v.size(); i++) dst[i] = std::max(dst[i], v[i]);
    }
    c->op.faults = nullptr;
    c->op.quota = -1;
    c->op.torn_next = false;
    last_killed = ci.killed;
    return ci;
  }

  std::vector<std::pair<string, std::pair<int, size_t>>> extents(const DirM &d) {
    std::vector<std::pair<string, std::pair<int, size_t>>> v;
    for (auto &n : w.list(d.path)) {
      if (!data_name(n)) continue;
      auto ino = w.tree[d.path + "/" + n];
      v.push_back({d.path + "/" + n, {ino->id, ino->size()}});
    }
    return v;
  }
  // ------------------------------------------------------- costs
  size_t total(const DirM &d) { size_t n = 0; for (auto &e : extents(d)) n += e.second.second; return n; }
  // Bytes behind the last acknowledged commit, and the files they are in.
  size_t tail_of(const DirM &d, size_t *files) {
    size_t n = 0;
    *files = 0;
    if (d.chain.empty()) { auto e = extents(d); *files = e.size(); return total(d); }
    auto &old = d.chain.back().extent;
    for (auto &e : extents(d)) {
      size_t was = 0;
      for (auto &o : old) if (o.first == e.first && o.second.first == e.second.first) was = o.second.second;
      if (e.second.second > was) { n += e.second.second - was; ++*files; }
    }
    return n;
  }
  std::pair<KVp, model::Np> built_[6];
  int built_at_ = 0;
  const model::Np &built(const KVp &kv) {
    for (auto &b : built_) if (b.first == kv) return b.second;
    auto &b = built_[built_at_++ % 6];
    b = {kv, model::build(*kv)};
    return b.second;
  }
  void cost_open(const CallInfo &ci, size_t files, size_t tail) {
    int64_t chunk = std::max<int64_t>(38, p.k("rbuf", 0));
    if (p.k("rbuf", 0) <= 0) return;
    int64_t lim = (int64_t)tail + (int64_t)(files + 2) * chunk + 2048;
    if (ci.rbytes > lim) bad("cost", "opening read " + std::to_string(ci.rbytes) + " bytes, though only " + std::to_string(tail) + " lie behind the last commit");
    if (ci.cnt[S_OPEN] > (int)(files + 8)) bad("cost", "opening opened files " + std::to_string(ci.cnt[S_OPEN]) + " times, though only " + std::to_string(files) + " files hold something behind the last commit");
    w.probe("cost_open");
  }
  static void walk(const model::Np &root, const Bytes &k, const std::function<void(const model::Np &)> &f) {
    model::Np n = root;
    unsigned at = 0;
    for (;;) {
      if (n->type == 0) return;
      f(n);
      if (n->type == 1) return;
      for (size_t i = 0; i < n->prefix.size(); i++) if (n->prefix[i] != model::bit(k, at + i)) return;
      at += n->prefix.size();
      n = model::bit(k, at) ? n->r : n->l;
      at++;
    }
  }
  // What a commit of these contents has to write if these keys were changed.
  size_t commit_cost(const KVp &kv, const KVp &base, const std::set<Bytes> &touched, bool removed) {
    model::Np root = built(kv);
    std::set<Bytes> old;
    std::function<void(const model::Np &)> all = [&](const model::Np &x) { if (x->type == 2) { old.insert(x->hash); all(x->l); all(x->r); } };
    if (base) all(built(base));
    std::set<const model::Node *> seen;
    size_t n = 38 + 37;
    auto node = [&](const model::Np &x) {
      if (!seen.insert(x.get()).second) return;
      if (x->type == 2) n += 1 + (x->prefix.empty() ? 0 : 1 + (x->prefix.size() + 7) / 8) + 78;
      else if (x->type == 1) n += 40;
    };
    for (auto &k : touched) {
      walk(root, k, [&](const model::Np &x) {
        node(x);
        // A new key shortens the prefix of what becomes its sibling; a
        // removed one lengthens it, and another may shorten it again.
        if (x->type == 2) for (auto &c : {x->l, x->r}) if (c->type == 2 && (removed || !old.count(c->hash))) node(c);
      });
    }
    for (auto &k : touched) { auto i = kv->find(k); if (i != kv->end()) n += i->second.size(); }
    return n;
  }
  void cost_commit(HandleM &h, const CallInfo &ci, size_t before, const KVp &kv, const KVp &base, const std::set<Bytes> &touched, bool removed) {
    size_t after = total(dir[h.dir]), lim = commit_cost(kv, base, touched, removed) + h.carry;
    h.carry = 0;
    (void)ci;
    h.largest = std::max(h.largest, lim);
    if (after > before && after - before > lim)
      bad("cost", "a commit that changed " + std::to_string(touched.size()) + " of " + std::to_string(kv->size()) + " keys appended " + std::to_string(after - before) + " bytes; the changed values, paths and the record take " + std::to_string(lim));
    w.probe("cost_commit");
  }
  void cost_lookup(const char *what, const CallInfo &ci, const KVp &kv, const Bytes &k, int more = 0, bool rolls = false) {
    int n = more;
    walk(built(kv), k, [&](const model::Np &) { n++; });
    if (ci.cnt[S_READ] > n + 2) bad("cost", string(what) + " of a key with " + std::to_string(n) + " nodes on its path made " + std::to_string(ci.cnt[S_READ]) + " reads");
    if (!rolls && ci.cnt[S_OPEN] > n + 2) bad("cost", string(what) + " of a key with " + std::to_string(n) + " nodes on its path opened " + std::to_string(ci.cnt[S_OPEN]) + " files");
    if (ci.cnt[S_READ] > 0) w.probe("cost_lookup");
  }
  void cost_memory(HandleM &h) {
    if (h.faulty) return;
    int hi = (int)(&h - hd);
    for (auto &x : it) if (x.open && x.h == hi) return;
    for (auto &o : hd) if (&o != &h && alive(o) && o.proc == h.proc) return;
    size_t roots = dir[h.dir].chain.size() + dir[h.dir].may.size() + dir[h.dir].pending.size();
    size_t slab = p.k("wbuf", 0) > 0 ? std::min(h.largest, (size_t)p.k("wbuf", 0) + 1200) : h.largest;
    size_t lim = 8192 + 2 * slab + 512 * roots + 512 * extents(dir[h.dir]).size(), n = 0;
    for (auto &t : tx) {
      if (!t.open || t.h != hi) continue;
      if (t.uncosted || t.limbo) return;
      // Its changes are in memory: their values and the nodes around their paths.
      n++;
      lim += 2048;
      if (t.touched.empty()) continue;
      model::Np root = built(t.kv);
      for (auto &k : t.touched) {
        size_t m = 1;
        walk(root, k, [&](const model::Np &) { m++; });
        auto i = t.kv->find(k);
        lim += 1024 * m + (i == t.kv->end() ? 0 : 2 * i->second.size());
      }
    }
    if (proc[h.proc]->heap_bytes > lim)
      bad("cost", "with " + std::to_string(n) + " transactions and no iterator, the database holds " + std::to_string(proc[h.proc]->heap_bytes) + " bytes of memory; its largest commit took " + std::to_string(h.largest) + ", it has " + std::to_string(roots) + " roots, and everything else should take less than " + std::to_string(lim));
    w.probe(n ? "cost_memory_tx" : "cost_memory");
  }
  static bool data_name(const string &n) {
    if (n.size() != 10) return false;
    for (char c : n) if (c < '0' || c > '9') return false;
    return true;
  }

  void check_sizes(const DirM &d) {
    int64_t mx = lim_file ? lim_file : 0x7fffffff;  // positions have 31 bits
    for (auto &e : extents(d))
      if ((int64_t)e.second.second > mx)
        bad("file-too-big", "data file " + e.first + " grew to " + std::to_string(e.second.second) + " > limit " + std::to_string(mx));
  }

  // ------------------------------------------------------- root references
  // returns the hash; sets kind: 0 must exist (kv set), 1 must be refused, 2 either
  struct Ref { bool null = false; Bytes hash; int kind = 0; KVp kv; };
  Ref ref(const HandleM &h, int64_t r, uint64_t salt) {
    Ref o;
    const DirM &d = dir[h.dir];
    if (r == -1) { o.null = true; o.kv = h.visible; return o; }
    if (r == -2) { o.hash = rnd32(77, salt); }
    else if (r == -3) { o.hash = Bytes(32, '\0'); }
    else if (r == -4) { o.hash = model::root_of(h.visible); }
    else if (r <= -5 && r > -5 - NT) {
      TxM *t = T(-5 - r);
      o.hash = t ? model::root_of(t->kv) : rnd32(78, salt);
    } else if (r <= -13 && r >= -20) {  // a root of the other database
      const DirM &x = dir[h.dir ^ 1];
      size_t j = (size_t)(-13 - r);
      o.hash = j < x.chain.size() ? x.chain[x.chain.size() - 1 - j].root : rnd32(80, salt);
    } else if (r <= -1000) {  // a node of the current tree, most likely no root
      std::vector<Bytes> v;
      std::function<void(const model::Np &)> all = [&](const model::Np &x) { if (x->type == 0) return; v.push_back(x->hash); if (x->type == 2) { all(x->l); all(x->r); } };
      all(built(h.visible));
      o.hash = v.empty() ? rnd32(81, salt) : v[(size_t)(-1000 - r) % v.size()];
    } else if (r < -20) {  // one bit away from a real root
      if (d.chain.empty()) o.hash = rnd32(79, salt);
      else { o.hash = d.chain[(size_t)(-r) % d.chain.size()].root; o.hash[(size_t)(-r) % 32] ^= (char)(1 << ((-r) & 7)); }
    } else {
      if (d.chain.empty()) o.hash = Bytes(32, '\0');
      else o.hash = d.chain[(size_t)r % d.chain.size()].root;
    }
    classify(d, o);
    return o;
  }
  void classify(const DirM &d, Ref &o) {
    if (o.hash == Bytes(32, '\0')) { o.kind = 0; o.kv = empty; return; }
    for (auto &c : d.chain) if (c.root == o.hash) { o.kind = 0; o.kv = c.kv; return; }
    for (auto &c : d.pending) if (c.root == o.hash) { o.kind = 2; o.kv = c.kv; return; }
    auto m = d.may.find(o.hash);
    if (m != d.may.end()) { o.kind = 2; o.kv = m->second; return; }
    o.kind = 1;
  }
  static const unsigned char *U(const Bytes &b) { return (const unsigned char *)b.data(); }

  // Buffers with exact sizes so that overruns are caught.
  struct Buf {
    unsigned char *p; size_t n;
    explicit Buf(size_t k) : p((unsigned char *)::malloc(k ? k : 1)), n(k) { memset(p, 0xee, k); }
    Buf(const Bytes &b) : p((unsigned char *)::malloc(b.size() ? b.size() : 1)), n(b.size()) { memcpy(p, b.data(), b.size()); }
    ~Buf() { ::free(p); }
    Buf(const Buf &) = delete;
    Bytes str(size_t k) const { return Bytes((const char *)p, k); }
  };

  // ---------------------------------------------------------- checks
  // Lookup result against expected contents.
  void check_lookup(const char *what, const KVp &kv, const Bytes &k, int ret, int err, const Bytes *value,
                    bool relax) {
    auto i = kv->find(k);
    if (ret == 1) {
      if (i == kv->end()) bad("phantom-key", string(what) + " found key " + hex(k) + " that is not in this snapshot");
      if (value && *value != i->second)
        bad("wrong-value", string(what) + " returned a wrong value for key " + hex(k) + ": got " + std::to_string(value->size()) +
            " bytes, expected " + std::to_string(i->second.size()));
      return;
    }
    if (relax && is_io_error(err)) return;
    if (i != kv->end())
      bad("lost-key", string(what) + " failed with " + ename(err) + " for key " + hex(k) + " that is in this snapshot");
    if (err != URKEL_ENOTFOUND) bad("wrong-error", string(what) + " of an absent key reported " + ename(err) + " instead of ENOTFOUND");
  }

  // ret for calls that resolve a root (non-null result expected if kind==0)
  // returns true if the call got a usable root
  bool check_ref(const char *what, const Ref &r, bool got, int err, bool relax) {
    if (got) {
      if (r.kind == 1) bad("unknown-root", string(what) + " accepted root " + hex(r.hash) + " that was never committed");
      return true;
    }
    if (relax && is_io_error(err)) return false;
    if (r.kind == 2 && (err == URKEL_ENOTFOUND || is_io_error(err))) return false;
    if (r.kind == 0) bad("lost-root", string(what) + " refused committed root " + hex(r.null ? Bytes() : r.hash) + " with " + ename(err));
    if (err != URKEL_ENOTFOUND) bad("wrong-error", string(what) + " of an unknown root reported " + ename(err) + " instead of ENOTFOUND");
    return false;
  }

  void check_proof(const char *what, const KVp &kv, const Bytes &k, const Bytes &raw) {
    Bytes root = model::root_of(kv);
    Buf pb(raw), kb(k), rb(root), vb(1023);
    int exists = -1;
    size_t n = 0;
    urkel_errno = 0;
    int ok = urkel_verify(&exists, vb.p, &n, pb.p, pb.n, kb.p, rb.p);
    if (!ok) bad("proof-rejected", string(what) + ": the proof for key " + hex(k) + " does not verify: " + ename(urkel_errno));
    auto i = kv->find(k);
    if ((exists != 0) != (i != kv->end())) bad("proof-wrong", string(what) + ": the proof claims the wrong existence for key " + hex(k));
    if (exists && vb.str(n) != i->second) bad("proof-wrong", string(what) + ": the proof carries a wrong value");
    bool e2; Bytes v2;
    int r2 = model::verify(raw, k, root, &e2, &v2);
    if (r2 != 0 || e2 != (exists != 0) || (e2 && v2 != i->second)) bad("proof-wrong", string(what) + ": the independent verifier rejects the proof");
  }

  // Iterates to the end and compares. Returns false on a tolerated error.
  bool check_full_iter(const char *what, urkel_iter_t *x, const KVp &kv, bool relax, bool values = true) {
    auto e = kv->begin();
    size_t n = 0;
    for (;;) {
      Buf kb(32), vb(1023);
      size_t sz = 0;
      urkel_errno = 0;
      int r = values ? urkel_iter_next(x, kb.p, vb.p, &sz) : urkel_iter_next(x, kb.p, nullptr, nullptr);
      if (!r) {
        int err = urkel_errno;
        if (err == URKEL_EITEREND) break;
        if (relax && is_io_error(err)) return false;
        bad("iter-error", string(what) + " stopped with " + ename(err) + " after " + std::to_string(n) + " of " + std::to_string(kv->size()) + " pairs");
      }
      if (e == kv->end()) bad("iter-extra", string(what) + " yields more pairs than the snapshot has (key " + hex(kb.str(32)) + ")");
      if (kb.str(32) != e->first) bad("iter-order", string(what) + " yields key " + hex(kb.str(32)) + " where " + hex(e->first) + " is next");
      if (values && vb.str(sz) != e->second) bad("wrong-value", string(what) + " yields a wrong value for key " + hex(e->first));
      ++e; n++;
    }
    if (e != kv->end()) bad("iter-missing", string(what) + " ended after " + std::to_string(n) + " of " + std::to_string(kv->size()) + " pairs");
    return true;
  }
  void check_iter_end(urkel_iter_t *x) {
    for (int k = 0; k < 2; k++) {
      Buf kb(32), vb(1023); size_t sz;
      urkel_errno = 0;
      if (urkel_iter_next(x, kb.p, vb.p, &sz) || urkel_errno != URKEL_EITEREND)
        bad("iter-end", "an exhausted iterator does not keep reporting the end");
    }
  }

  void committed(HandleM &h, KVp kv, int fired) {
    DirM &d = dir[h.dir];
    (void)fired;
    Commit c;
    c.root = model::root_of(kv);
    c.kv = kv;
    c.extent = extents(d);
    for (auto &q : d.pending) { d.may[q.root] = q.kv; d.ghosts.push_back({d.chain.size(), q}); }
    d.pending.clear();
    d.chain.push_back(c);
    h.visible = kv;
    h.revert = false;
    int hi = (int)(&h - hd);
    for (auto &t : tx) if (t.open && t.h == hi) t.limbo = false;
    check_sizes(d);
    if (lim_open > 0 && p.k("chkopen", 0)) {
      std::set<string> open;
      Process *pr = proc[h.proc];
      for (auto &f : pr->fds) if (data_name(f.second->path.substr(f.second->path.rfind('/') + 1))) open.insert(f.second->path);
      std::set<Inode *> maps;
      for (MapReg *m : pr->maps) maps.insert(m->ino.get());
      for (auto &f : pr->fds) if (data_name(f.second->path.substr(f.second->path.rfind('/') + 1))) maps.insert(f.second->ino.get());
      if ((int64_t)maps.size() > std::max<int64_t>(1, lim_open))
        bad("too-many-open", std::to_string(maps.size()) + " data files are open after a commit, limit " + std::to_string(lim_open));
      w.probe("open_files_checked");
    }
  }
  void pending(HandleM &h, KVp kv) {
    Commit c;
    c.root = model::root_of(kv);
    c.kv = kv;
    c.failed = true;
    dir[h.dir].pending.push_back(c);
  }
  // The handle's process died: forget what it held.
  void died(int pi) {
    for (auto f = inflight.begin(); f != inflight.end();) {
      if (hd[f->first].proc != pi) { ++f; continue; }
      if (!proc[pi] || !proc[pi]->alive) pending(hd[f->first], f->second);
      f = inflight.erase(f);
    }
    for (int i = 0; i < NH; i++) {
      if (hd[i].open && hd[i].proc == pi && (!proc[pi] || !proc[pi]->alive)) {
        hd[i].open = false;
        DirM &d = dir[hd[i].dir];
        // killed before anyone saw whether a destroy that ran meanwhile had
        // emptied the database
        if (hd[i].unmatched && (hd[i].destroying0 > 0 || d.destroys != hd[i].destroys0)) d.partial_destroy = true;
        if (d.owner_live > 0) { d.owner_live--; d.left++; }
        if (d.busy > 0) d.busy--;
        d.last_begin = ++clock_;
        for (auto &t : tx) if (t.open && t.h == i) t.open = false;
        for (auto &x : it) if (x.open && x.h == i) x.open = false;
      }
    }
  }

  // ---------------------------------------------------------------- open
  void do_open(const Op &op, int id) {
    int hi = HI(op.a[0]);
    if (hd[hi].open && alive(hd[hi])) return;
    int pi = (int)(((op.a[1] % NP) + NP) % NP);
    int di = (int)(op.a[2] & 1);
    DirM &d = dir[di];
    Process *pr = P(pi);
    int g = gen[pi];
    uint64_t begin = ++clock_;
    bool overlapped = d.busy > 0;
    d.busy++;
    d.last_begin = begin;
    int destroying0 = d.destroying, destroys0 = d.destroys, left0 = d.left;
    urkel_t *db = nullptr;
    string path = d.path;
    if (op.a[3]) path = variant_path(d.path, op.a[3], pr);
    bool owned0 = d.owner_live > 0;
    auto before = snapshot(d, owned0);
    size_t files0 = 0, tail0 = tail_of(d, &files0);
    CallInfo ci = call(op, id, pr, [&] { db = urkel_open(path.c_str()); });
    res.faulted += ci.any > 0;
    if (ci.killed) { d.busy--; d.last_begin = ++clock_; died(pi); return; }
    if (d.last_begin > begin) overlapped = true;
    if (!db) {
      d.busy--;
      d.last_begin = ++clock_;
      if (ci.err != URKEL_EBADOPEN) bad("wrong-error", string("a failed open reported ") + ename(ci.err));
      if (leak && !concurrent) leak_check(pr, "after a failed open");
      if (owned0 && d.left == left0) { w.probe("open_refused"); compare_snapshot(d, before, "open"); return; }
      if (d.owner_live > 0) { w.probe("open_refused"); return; }
      if (ci.hard) { w.probe("open_failed_fault"); return; }
      if (overlapped) { w.probe("open_refused_race"); return; }
      if (d.partial_destroy || d.broken_ok) { w.probe("open_partial_destroy"); return; }
      if (!w.exists(parent_of(d.path))) return;
      bad("open-failed", "opening a healthy, unowned database failed");
    }
    if (p.k("cost", 0) && !concurrent && ci.any == 0) cost_open(ci, files0, tail0);
    d.broken_ok = false;
    if (d.owner_live > 0) bad("two-owners", "a second handle on the same database was opened while one is live");
    HandleM &h = hd[hi];
    h = HandleM();
    h.db = db; h.proc = pi; h.dir = di; h.gen = g; h.open = true;
    h.unmatched = true; h.destroying0 = destroying0; h.destroys0 = destroys0;
    d.owner_live++;
    d.opens++;
    w.probe("opens");
    Buf rb(32);
    Op noop; noop.kind = op.kind; noop.client = op.client;
    CallInfo c2 = call(noop, -1, pr, [&] { urkel_root(db, rb.p); });
    if (c2.killed) { died(pi); return; }
    h.unmatched = false;
    match_root(d, h, rb.str(32), destroying0 > 0 || d.destroys != destroys0);
    d.partial_destroy = false;
  }
  // What a refused attempt must leave alone.
  std::map<string, string> snapshot(const DirM &d, bool want) {
    std::map<string, string> m;
    if (!want || concurrent) return m;
    for (auto &n : w.list(d.path)) m[n] = n == "lock" ? "" : w.read_file(d.path + "/" + n);
    return m;
  }
  void compare_snapshot(const DirM &d, const std::map<string, string> &before, const char *what) {
    if (concurrent || d.owner_live == 0) return;
    if (snapshot(d, true) != before) bad("refused-but-changed", string("a refused ") + what + " changed the files of the owner");
  }
  static string parent_of(const string &s) { size_t k = s.rfind('/'); return k == 0 ? "/" : s.substr(0, k); }
  static std::vector<string> comps(const string &s) {
    std::vector<string> v;
    string c;
    for (char x : s + "/") { if (x != '/') c += x; else if (!c.empty()) { v.push_back(c); c.clear(); } }
    return v;
  }
  bool cwd_there(Process *pr) {
    if (!pr->cwd_ino) return true;
    auto f = w.tree.find(pr->cwd);
    return f != w.tree.end() && (uint64_t)f->second->id == pr->cwd_ino;
  }
  // The path from the process's working directory; `up` leaves out shared leading parts.
  string relative(const string &s, Process *pr, size_t up) {
    auto a = comps(pr->cwd), b = comps(s);
    size_t c = 0;
    while (c < a.size() && c < b.size() && a[c] == b[c]) c++;
    c -= std::min(c, up);
    string o;
    for (size_t i = c; i < a.size(); i++) o += "../";
    for (size_t i = c; i < b.size(); i++) o += b[i] + "/";
    if (o.empty()) return ".";
    o.pop_back();
    return o;
  }
  // Another way to write the same path.
  string variant_path(const string &s, int64_t v, Process *pr) {
    switch (v & 3) {
      case 1: if (v < 4) return s + "/"; break;
      case 2: if (v < 4) return cwd_there(pr) ? relative(s, pr, 0) : s; break;
      case 3: if (v < 4) return "/." + s + "/x/.."; break;
    }
    if (v < 4) return s;
    Rng r(mix((uint64_t)v, 77));
    bool rel = (v & 1) && cwd_there(pr);
    string o = rel ? relative(s, pr, (size_t)r.below(3)) : s;
    string n;
    if (rel && r.chance(1, 3)) n = "./";
    if (!rel && r.chance(1, 3)) n = r.chance(1, 2) ? "/dev/.." : "/..";
    for (char c : o) {
      n += c;
      if (c != '/') continue;
      int x = (int)r.below(8);
      if (x == 0) n += "/";
      if (x == 1) n += "./";
      if (x == 2) n += ".//.///";
    }
    int x = (int)r.below(6);
    if (x == 0) n += "/";
    if (x == 1) n += "/.";
    if (x == 2 && w.exists(s) && !comps(s).empty()) n += "/../" + comps(s).back();
    if (v & 1) w.probe("path_relative");
    w.probe("path_spelled");
    return n;
  }
  // Nothing appears outside the directories named.
  void stray_check() {
    std::set<string> ok = {"/", "/dev", "/dev/urandom", "/x"};
    string t = dir[0].path;
    for (size_t i = 0; i <= t.size(); i++) if (i == t.size() || t[i] == '/') ok.insert(t.substr(0, i));
    ok.insert(dir[1].path);
    for (auto &e : w.tree) {
      if (ok.count(e.first)) continue;
      bool in = false;
      for (auto &d : dir) in |= e.first.compare(0, d.path.size() + 1, d.path + "/") == 0;
      if (!in) bad("stray-file", "a file appeared outside the database directory: " + e.first);
    }
  }
  static void prune_ghosts(DirM &d) {
    size_t n = d.chain.size();
    d.ghosts.erase(std::remove_if(d.ghosts.begin(), d.ghosts.end(), [&](const std::pair<size_t, Commit> &g) { return g.first > n; }), d.ghosts.end());
  }
  // Decides which commit a freshly opened database shows.
  void match_root(DirM &d, HandleM &h, const Bytes &root, bool maybe_destroyed) {
    Bytes zero(32, '\0');
    if (expect_damage_set && &d == &dir[0]) {
      Bytes want = expect_damage == 0 ? zero : d.chain[expect_damage - 1].root;
      expect_damage_set = false;
      if (root != want) {
        int found = -1;
        for (size_t i = 0; i < d.chain.size(); i++) if (d.chain[i].root == root) found = (int)i;
        bad("wrong-recovery", "after tail damage the database shows " +
            (root == zero ? string("nothing") : found >= 0 ? "commit " + std::to_string(found + 1) : string("an unknown state")) +
            " instead of the newest intact commit " + std::to_string(expect_damage));
      }
      for (size_t i = expect_damage; i < d.chain.size(); i++) d.may[d.chain[i].root] = d.chain[i].kv;
      d.chain.resize(expect_damage);
      d.pending.clear();
      h.visible = d.base();
      return;
    }
    size_t n = d.chain.size();
    if ((maybe_destroyed || d.partial_destroy) && root == zero) {
      d.chain.clear(); d.pending.clear(); d.may.clear(); d.ghosts.clear();
      d.partial_destroy = false;
      d.use_low = false;
      h.visible = empty;
      return;
    }
    // The acknowledged commits that may be the survivor. Equal roots cannot be
    // told apart: only what the oldest candidate implies is then required.
    size_t low = d.use_low ? d.low : n;  // number of commits that must survive
    if (d.partial_destroy) low = 0;
    // (A failed commit that later ones were built upon sits between the
    // acknowledged ones around it.)
    for (size_t k = low; k <= n; k++) {
      Bytes want = k == 0 ? zero : d.chain[k - 1].root;
      const Commit *ghost = nullptr;
      if (want != root) {
        if (d.use_low)
          for (auto &g : d.ghosts) if (!ghost && g.first == k && g.second.root == root) ghost = &g.second;
        if (!ghost) continue;
      }
      Commit c;
      if (ghost) c = *ghost;
      for (size_t i = k; i < n; i++) d.may[d.chain[i].root] = d.chain[i].kv;
      for (auto &q : d.pending) d.may[q.root] = q.kv;
      d.pending.clear();
      if (k < n) w.probe("rolled_back_unsynced");
      d.chain.resize(k);
      prune_ghosts(d);
      if (ghost) {
        c.failed = false;
        c.acked = false;
        c.extent = extents(d);
        d.chain.push_back(c);
        w.probe("recovered_unacked");
      }
      d.use_low = false;
      h.visible = ghost ? c.kv : d.base();
      return;
    }
    for (size_t i = d.pending.size(); i-- > 0;) {
      if (d.pending[i].root == root) {
        Commit c = d.pending[i];
        c.failed = false;
        c.acked = false;
        c.extent = extents(d);
        for (auto &q : d.pending) d.may[q.root] = q.kv;
        size_t at = d.chain.size();
        for (size_t j = 0; j < i; j++) d.ghosts.push_back({at, d.pending[j]});
        d.pending.clear();
        d.chain.push_back(c);
        d.use_low = false;
        h.visible = c.kv;
        w.probe("recovered_unacked");
        return;
      }
    }
    int found = -1;
    for (size_t i = 0; i < n; i++) if (d.chain[i].root == root) found = (int)i;
    bad("lost-commit", "after opening, the database shows " +
        (root == zero ? string("nothing") : found >= 0 ? "old commit " + std::to_string(found + 1) : "an unknown root " + hex(root)) +
        ", but commit " + std::to_string(low) + " of " + std::to_string(n) + " was acknowledged" +
        (d.use_low ? " and forced to disk" : ""));
  }

  void close_handle(const Op &op, int id, HandleM &h) {
    int hi = (int)(&h - hd);
    DirM &d = dir[h.dir];
    Process *pr = proc[h.proc];
    int pi = h.proc;
    bool released = false;
    CallInfo ci = call(op, id, pr, [&] {
      for (auto &x : it) if (x.open && x.h == hi) { x.open = false; urkel_iter_destroy(x.it); }
      for (auto &t : tx) if (t.open && t.h == hi) { t.open = false; urkel_tx_destroy(t.tx); }
      // from here on another process may legitimately become the owner
      h.open = false;
      released = true;
      d.owner_live--;
      d.left++;
      urkel_close(h.db);
    });
    // A handle whose process was killed first is accounted for in died().
    if (released) d.busy--;
    d.last_begin = ++clock_;
    if (ci.killed) { died(pi); return; }
    if (leak && !concurrent) leak_check(pr, "after closing the database");
    if (!concurrent && !ci.hard && w.exists(d.path + "/lock")) bad("lock-left", "the lock file remains after closing");
  }
  void leak_check(Process *pr, const string &when) {
    for (auto &h : hd) if (alive(h) && proc[h.proc] == pr) return;
    if (!pr->fds.empty()) bad("leak-fd", std::to_string(pr->fds.size()) + " file descriptor(s) remain open " + when + " (" + pr->fds.begin()->second->path + ")");
    if (!pr->dirs.empty()) bad("leak-fd", "a directory stream remains open " + when);
    if (!pr->maps.empty()) bad("leak-map", std::to_string(pr->maps.size()) + " file mapping(s) remain " + when);
    if (!pr->heap.empty()) bad("leak-heap", std::to_string(pr->heap.size()) + " heap block(s) remain allocated " + when);
    for (auto &kv : w.locks) if (kv.second->pid == pr->pid && (kv.second->readers || kv.second->writer)) bad("leak-lock", "a lock remains held " + when);
    w.probe("leak_checks");
  }

  void audit(const Op &op, int id, HandleM &h, int level) {
    int hi = (int)(&h - hd);
    if (has_iters(hi)) return;
    Process *pr = proc[h.proc];
    DirM &d = dir[h.dir];
    int limit = pr->fdlimit;   // audits run without the shortage
    pr->fdlimit = 256;
    call(op, id, pr, [&] {
      Buf rb(32);
      urkel_root(h.db, rb.p);
      if (rb.str(32) != model::root_of(h.visible)) bad("wrong-root", "the database reports root " + hex(rb.str(32)) + ", its contents have root " + hex(model::root_of(h.visible)));
      urkel_iter_t *x = urkel_iterate(h.db, nullptr);
      if (!x) bad("iter-error", string("iterate failed with ") + ename(urkel_errno));
      check_full_iter("iteration of the current state", x, h.visible, false);
      urkel_iter_destroy(x);
      int64_t n = std::min<int64_t>(nkeys, 12);
      for (int64_t i = 0; i < n; i++) {
        int64_t ki = nkeys <= 12 ? i : (int64_t)(mix(id, i) % nkeys);
        Buf kb(key(ki)), vb(1023);
        size_t sz = 0;
        urkel_errno = 0;
        int r = urkel_get(h.db, vb.p, &sz, kb.p, nullptr);
        Bytes v = r ? vb.str(sz) : Bytes();
        check_lookup("get", h.visible, kb.str(32), r, urkel_errno, &v, false);
      }
      if (level >= 2) {
        std::vector<size_t> order;
        for (size_t i = 0; i < d.chain.size(); i++) order.push_back(i);
        Rng r(mix(id, 99));
        for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
        if (level == 2 && order.size() > 8) order.resize(8);
        for (size_t i : order) {
          Buf rr(d.chain[i].root);
          urkel_errno = 0;
          urkel_iter_t *y = urkel_iterate(h.db, rr.p);
          if (!y) bad("lost-root", "committed root " + std::to_string(i + 1) + " of " + std::to_string(d.chain.size()) + " is not readable: " + ename(urkel_errno));
          check_full_iter("iteration of a historic root", y, d.chain[i].kv, false);
          urkel_iter_destroy(y);
        }
        Buf un(rnd32(80, id)), kb(key(0)), vb(1023);
        size_t sz;
        urkel_errno = 0;
        int g = urkel_get(h.db, vb.p, &sz, kb.p, un.p);
        if (g || urkel_errno != URKEL_ENOTFOUND) bad("unknown-root", string("a lookup at a root that never existed gave ") + (g ? "a value" : ename(urkel_errno)));
      }
    });
    pr->fdlimit = limit;
    w.probe("audits");
  }

  void do_destroy(const Op &op, int id);
  void do_power(const Op &op);
  void kill_proc(int pi);
  void list_check(DirM &d);
  void peek(int di);
  void do_damage(const Op &op);
  void do_import(const Op &op);
  void do_copy(const Op &op);
  void do_limits(const Op &op);
  void check_stored(DirM &d);
  void do_forge(const Op &op, int id);
  void do_cli(const Op &op, int id);
  void do_chdir(const Op &op, Process *pr);
  void exec_op(const Op &op, int id);
  LinRec exec_conc(const Op &op, int id);
  void run_phase(size_t from, size_t to);
  void setup();
  void run();
};

#include "exec_ops.inc"

void (*g_on_execute)(const Plan &) = nullptr;
Result execute(const Plan &p, bool verbose) {
  if (g_on_execute) g_on_execute(p);
  Result res;
  res.counts.resize(p.ops.size());
  model::clear_memo();
  {
    Exec e(p, res);
    e.w.verbose = verbose;
    try {
      e.setup();
      e.run();
    } catch (Abandon &) {
    } catch (Killed &) {
    } catch (Violation &v) {
      e.w.violate(v.cls, v.msg);
    }
    res.violated = e.w.has_viol;
    res.cls = e.w.viol.cls;
    res.msg = e.w.viol.msg;
    res.hash = e.w.hash;
    res.events = e.w.events;
    res.st = e.w.st;
    res.taken = e.w.taken;
    res.log = std::move(e.w.log);
    cur = nullptr;
  }
  model::clear_memo();
  return res;
}
}  // namespace sim
