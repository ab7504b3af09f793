// Seeded plan generation per property.
#include "plan.h"
#include <cerrno>
#include <algorithm>

namespace sim {
namespace {

struct G {
  Rng r;
  Plan p;
  int tier;
  bool txs[8] = {};
  G(const std::string &prop, uint64_t seed, int t, const std::string &build) : r(seed), tier(t) {
    p.prop = prop;
    p.build = build;
    p.knob["keyseed"] = (int64_t)(r.next() & 0x7fffffff);
    p.knob["final"] = 1;
  }
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + r.below(l.size())); }
  bool ch(int pct) { return r.chance(pct, 100); }
  Op &add(int kind, int64_t a0 = 0, int64_t a1 = 0, int64_t a2 = 0, int64_t a3 = 0, int64_t a4 = 0, int client = 0) {
    Op o;
    o.kind = kind; o.client = client;
    o.a[0] = a0; o.a[1] = a1; o.a[2] = a2; o.a[3] = a3; o.a[4] = a4;
    p.ops.push_back(o);
    return p.ops.back();
  }
  void set(const char *k, int64_t v) { p.knob[k] = v; }
  int nkeys() { return (int)p.k("nkeys", 16); }

  // ------------------------------------------------------------ settings
  void keys(int wide = 0) {
    int m = pick({0, 0, 0, 1, 1, 2, 2, 3, 4, 4, 5, 5, 5});
    set("keymode", m);
    int n = pick({3, 6, 10, 16, 24, 40});
    if (wide) n = pick({40, 80, 150, 260});
    if (m == 1) set("keyprefix", pick({7, 8, 9, 15, 60, 127, 200, 247, 250, 254}));
    if (m == 2) {
      int st = pick({1, 1, 2, 5, 8, 16, 40});
      set("keystride", st);
      if (st > 8) n = std::min(n, 256 / st + 1);
      if (ch(30)) set("keyoff", pick({1, 100, 200, 250}));
    }
    set("nkeys", n);
    set("valmode", pick({0, 0, 1, 1, 2, 3, 4, 5, 6, 6}));
  }
  // size limits; bounded below by the largest record
  void limits(int pct) {
    if (ch(pct)) {
      int vm = (int)p.k("valmode", 0);
      int64_t lo = (vm == 0 || vm == 5) ? 152 : 1100;
      int64_t m = pick<int64_t>({152, 160, 190, 228, 256, 300, 456, 500, 1000, 1100, 1140, 1500, 2000, 3000, 5000, 12000, 40000});
      set("maxfile", std::max(lo, m + (int64_t)r.below(40)));
      if (ch(60)) set("maxopen", pick({1, 2, 3, 4, 8}));
    }
    if (ch(pct / 2)) set("wbuf", pick({1, 50, 200, 500, 1500, 4000}));
    if (ch(pct / 2)) set("rbuf", pick({38, 50, 76, 100, 380, 1000, 4096}));
    int id = atoi(p.prop.c_str() + 1);
    if (ch(id == 6 || id == 10 ? 45 : 15)) set("nommap", 1);
  }
  void sched(int lo = 5, int hi = 600) {
    p.sched.seed = r.next() & 0xffffffff;
    p.sched.permille = (int)pick<int64_t>({lo, 20, 60, 120, 250, hi});
  }

  // ------------------------------------------------------------ pieces
  int64_t k() { return (int64_t)r.below(nkeys()); }
  int64_t v() {
    if (ch(4)) return -1;
    return (int64_t)r.below(1u << 30);
  }
  int64_t ref(int hist = 30) {
    int x = (int)r.below(100);
    if (x < 100 - hist) return -1;
    if (p.prop == "C24" && ch(30)) return -13 - (int64_t)r.below(4);
    x = (int)r.below(20);
    if (x < 13) return (int64_t)r.below(40);
    if (x < 15) return -2;
    if (x < 16) return -3;
    if (x < 17) return -4;
    if (x < 18) return -5 - (int64_t)r.below(3);
    if (x < 19) return -1000 - (int64_t)r.below(400);
    return -21 - (int64_t)r.below(300);
  }
  void open(int h = 0, int proc = 0, int dir = 0) { add(OP_OPEN, h, proc, dir); }
  void reopen(int h = 0, int proc = -1) {
    if (ch(50)) add(OP_CLOSE, h); else add(OP_KILL, proc < 0 ? 0 : proc);
    for (auto &t : txs) t = false;
    open(h, proc < 0 ? 0 : proc);
  }
  void tx(int t, int h = 0) { if (!txs[t]) { add(OP_TXNEW, t, h, ch(80) ? -1 : ref(100)); txs[t] = true; } }
  void commit_one(int h = 0) {
    switch (r.below(6)) {
      case 0: case 1: add(OP_INSERT, h, k(), v()); break;
      case 2: add(OP_REMOVE, h, k()); break;
      default: {
        int t = (int)r.below(2);
        if (!txs[t] || ch(30)) { add(OP_TXDEL, t); txs[t] = false; add(OP_TXNEW, t, h, -1); txs[t] = true; }
        if (ch(40)) add(OP_FILL, t, k(), 1 + r.below(ch(20) ? 60 : 10), r.below(1000000));
        int n = 1 + (int)r.below(4);
        for (int i = 0; i < n; i++) if (ch(70)) add(OP_TXINS, t, k(), v()); else add(OP_TXREM, t, k());
        add(OP_TXCOMMIT, t);
      }
    }
  }
  void read_one(int h, int hist) {
    switch (r.below(8)) {
      case 0: case 1: case 2: add(OP_GET, h, k(), ref(hist)); break;
      case 3: add(OP_HAS, h, k(), ref(hist)); break;
      case 4: add(OP_PROVE, h, k(), ref(hist)); break;
      case 5: add(OP_ITER, h, ref(hist), ch(30) ? 1 + r.below(5) : 0); break;
      case 6: add(OP_ROOT, h); break;
      default: add(OP_AUDIT, h, 1);
    }
  }
  void tx_one(int t, int h) {
    tx(t, h);
    switch (r.below(20)) {
      case 0: case 1: case 2: case 3: case 4: case 5: add(OP_TXINS, t, k(), v()); break;
      case 6: case 7: case 8: add(OP_TXREM, t, k()); break;
      case 9: case 10: add(OP_TXGET, t, k()); break;
      case 11: add(OP_TXHAS, t, k()); break;
      case 12: add(OP_TXPROVE, t, k()); break;
      case 13: add(OP_TXROOT, t); break;
      case 14: add(OP_TXFULL, t); break;
      case 15: add(OP_TXCOMMIT, t); break;
      case 16: add(OP_TXINJ, t, ref(100)); break;
      case 17: add(OP_TXCLEAR, t); break;
      case 18: add(OP_FILL, t, k(), 1 + r.below(12), r.below(1000000)); break;
      default: add(OP_TXDEL, t); txs[t] = false;
    }
  }
  void iter_one(int h) {
    int i = (int)r.below(3);
    if (ch(50)) { tx(0, h); add(OP_ITNEW, i, 0); } else add(OP_ITDB, i, h, ref(40));
    int n = 1 + (int)r.below(4);
    for (int j = 0; j < n; j++) {
      if (ch(60)) add(OP_ITNEXT, i, 1 + r.below(6), ch(20) ? 1 : 0);
      else read_one(h, 10);
    }
    if (ch(50)) add(OP_DRAIN, i, 0, ch(20) ? 1 : 0);
    add(OP_ITDEL, i);
  }
  // a long history, in few of the runs
  void many(int pct, int h = 0) {
    if (!ch(pct)) return;
    if (ch(70)) { set("nkeys", pick({2, 3, 5, 8, 16})); set("valmode", pick({0, 5})); }
    add(OP_MANY, h, 0, 40 + (int64_t)r.below(ch(30) ? 900 : 300), (int64_t)r.below(1u << 30));
  }
  void mixed(int n, int h = 0, int hist = 30) {
    for (int i = 0; i < n; i++) {
      int x = (int)r.below(100);
      if (x < 22) commit_one(h);
      else if (x < 42) read_one(h, hist);
      else if (x < 85) tx_one((int)r.below(4), h);
      else if (x < 92) iter_one(h);
      else if (x < 96) { add(OP_INJECT, h, ref(100)); }
      else add(OP_AUDIT, h, 1 + r.below(2));
    }
  }
  // concurrent phase on handle h; at most 62 calls
  void phase(int h, int nc, int per, bool writes, bool inject, bool iters = true) {
    // some phases consist of a few kinds of calls only
    uint64_t only = ~0ull;
    int shared = 50;
    if (ch(35)) {
      only = 0;
      int m = 1 + (int)r.below(3);
      for (int i = 0; i < m; i++) only |= 1ull << pick({OP_INSERT, OP_REMOVE, OP_TXCOMMIT, OP_TXINS, OP_TXREM, OP_GET, OP_TXGET, OP_ITER, OP_PROVE, OP_TXPROVE, OP_TXPROVE, OP_ROOT, OP_TXROOT, OP_TXFULL, OP_HAS, OP_TXHAS, OP_TXCLEAR, OP_TXINJ, OP_TXNEW, OP_INJECT, OP_ITDB, OP_ITNEW});
      if (ch(60)) shared = 95;
    }
    int tries = 0;
    for (int i = 0; i < nc * per; i++) {
      if (i > 0 && !(only >> p.ops.back().kind & 1) && p.ops.back().kind != OP_ITNEXT && p.ops.back().kind != OP_ITDEL && ++tries < 2000) { p.ops.pop_back(); i--; }
      int c = 1 + (int)r.below(nc);
      int t = ch(shared) ? (int)r.below(2) : 1 + c;
      int x = (int)r.below(100);
      auto A = [&](int kind, int64_t a0 = 0, int64_t a1 = 0, int64_t a2 = 0) { add(kind, a0, a1, a2, 0, 0, c); };
      if (writes && x < 18) A(OP_INSERT, h, k(), v());
      else if (writes && x < 26) A(OP_REMOVE, h, k());
      else if (writes && x < 34) A(OP_TXCOMMIT, t);
      else if (x < 44) A(OP_TXINS, t, k(), v());
      else if (x < 49) A(OP_TXREM, t, k());
      else if (x < 56) A(OP_GET, h, k(), ref(25));
      else if (x < 60) A(OP_TXGET, t, k());
      else if (x < 63) A(OP_ITER, h, ref(25), 0);
      else if (x < 66) A(OP_PROVE, h, k(), ref(25));
      else if (x < 69) A(OP_TXPROVE, t, k());
      else if (x < 73) A(OP_ROOT, h);
      else if (x < 77) A(OP_TXROOT, t);
      else if (x < 80) A(OP_TXFULL, t);
      else if (x < 82) A(OP_HAS, h, k(), ref(25));
      else if (x < 84) A(OP_TXHAS, t, k());
      else if (x < 86) A(OP_TXCLEAR, t);
      else if (x < 88) A(OP_TXINJ, t, ref(100));
      else if (x < 91) A(OP_TXNEW, 1 + c, h, ref(25));
      else if (x < 92) A(OP_TXDEL, 1 + c);
      else if (x < 94 && inject) A(OP_INJECT, h, (int64_t)r.below(8));
      else if (iters) {
        if (ch(50)) A(OP_ITDB, 0, h, -1); else A(OP_ITNEW, 0, t);
        A(OP_ITNEXT, 0, 1 + (int64_t)r.below(4));
        if (ch(70)) A(OP_ITDEL, 0);
      } else A(OP_GET, h, k(), -1);
    }
  }

  // ------------------------------------------------------------ faults
  Result dry() { return execute(p, false); }
  int cnt(const Result &d, size_t i, int cls) { return i < d.counts.size() && (size_t)cls < d.counts[i].size() ? d.counts[i][cls] : 0; }
  // candidates: operations for which want() holds and that made system calls
  template <class F> std::vector<size_t> cand(const Result &d, F want) {
    std::vector<size_t> v;
    for (size_t i = 0; i < p.ops.size(); i++) if (want(p.ops[i]) && cnt(d, i, S_ANY) > 0) v.push_back(i);
    return v;
  }
  // position within the calls of one operation: anywhere, but the ends more often
  int pos(int n) {
    if (n <= 1) return 1;
    int x = (int)r.below(10);
    if (x == 0) return n;
    if (x == 1) return 1;
    return 1 + (int)r.below(n);
  }
  void crash(const Result &d, size_t i) {
    Fault f;
    int w = cnt(d, i, S_WRITE);
    if (w > 0 && ch(45)) {
      f.cls = S_WRITE; f.nth = pos(w);
      f.act = pick({A_CRASH_BEFORE, A_CRASH_AFTER, A_CRASH_PART, A_CRASH_PART, A_CRASH_PART});
      f.arg = part();
    } else {
      f.cls = S_ANY; f.nth = pos(cnt(d, i, S_ANY));
      f.act = pick({A_CRASH_BEFORE, A_CRASH_AFTER, A_CRASH_PART});
      f.arg = part();
    }
    p.ops[i].faults.push_back(f);
  }
  int64_t part() {
    switch (r.below(4)) {
      case 0: return (int64_t)r.below(3);
      case 1: return (int64_t)r.below(60);
      case 2: return -(int64_t)r.below(90);      // counted from the end
      default: return (int64_t)r.below(2500);
    }
  }
  bool transient(const Result &d, size_t i) {
    int cls = pick({(int)S_READ, (int)S_WRITE, (int)S_WRITE, (int)S_OPEN});
    int n = cnt(d, i, cls);
    if (n == 0) { cls = S_WRITE; n = cnt(d, i, cls); }
    if (n == 0) { cls = S_OPEN; n = cnt(d, i, cls); }
    if (n == 0) { cls = S_READ; n = cnt(d, i, cls); }
    if (n == 0) return false;
    Fault f;
    f.cls = cls; f.nth = pos(n);
    f.count = ch(40) ? 1 + (int)r.below(4) : 1;
    if (cls == S_OPEN) f.act = A_EINTR;
    else { f.act = pick({A_EINTR, A_EAGAIN, A_SHORT, A_SHORT}); f.arg = 1 + (int64_t)r.below(ch(50) ? 4 : 200); }
    if (f.act == A_SHORT && ch(30)) f.count = 1 + (int)r.below(12);
    p.ops[i].faults.push_back(f);
    return true;
  }
  bool hard(const Result &d, size_t i, std::initializer_list<int> classes, bool late = false) {
    std::vector<int> have;
    for (int c : classes) if (cnt(d, i, c) > 0) have.push_back(c);
    if (have.empty()) return false;
    Fault f;
    f.cls = have[r.below(have.size())];
    f.nth = pos(cnt(d, i, f.cls));
    if (late) f.nth = std::max(f.nth, pos(cnt(d, i, f.cls)));
    f.act = A_ERR;
    f.count = ch(25) ? 1 + (int)r.below(3) : ch(10) ? 1000 : 1;
    switch (f.cls) {
      case S_WRITE:
        f.act = pick({A_ERR, A_TORN, A_TORN, A_FULL});
        f.arg = f.act == A_ERR ? pick({EIO, ENOSPC, EDQUOT}) : part();
        if (f.act == A_FULL) { f.arg = std::abs(f.arg); f.count = 1000; }
        break;
      case S_OPEN: f.arg = pick({EMFILE, EIO, EACCES, ENFILE}); break;
      case S_STAT: f.arg = pick({EIO, EACCES, ENOMEM}); break;
      case S_MMAP: f.arg = pick({ENOMEM, ENODEV, EAGAIN}); break;
      case S_LOCK: f.arg = pick({ENOLCK, EAGAIN, EIO}); break;
      case S_MALLOC: f.arg = ENOMEM; break;
      default: f.arg = pick({EIO, EIO, EACCES});
    }
    p.ops[i].faults.push_back(f);
    return true;
  }
};

bool is_commit(const Op &o) { return o.kind == OP_INSERT || o.kind == OP_REMOVE || o.kind == OP_TXCOMMIT; }
bool is_read(const Op &o) {
  return o.kind == OP_GET || o.kind == OP_HAS || o.kind == OP_PROVE || o.kind == OP_ITER || o.kind == OP_TXGET || o.kind == OP_TXHAS ||
         o.kind == OP_TXPROVE || o.kind == OP_TXFULL || o.kind == OP_ITNEXT || o.kind == OP_DRAIN || o.kind == OP_ITDB || o.kind == OP_ITNEW ||
         o.kind == OP_TXINS || o.kind == OP_TXREM || o.kind == OP_INJECT || o.kind == OP_TXINJ || o.kind == OP_TXNEW || o.kind == OP_TXROOT;
}
}  // namespace

Plan generate(const std::string &prop, uint64_t seed, int tier, const std::string &build, Result *dry) {
  G g(prop, seed, tier, build);
  auto &p = g.p;
  Rng &r = g.r;
  int id = atoi(prop.c_str() + 1);
  bool need_dry = false;
  std::function<void(const Result &)> place;
  g.keys();
  switch (id) {
    case 1: case 2: case 5: {
      bool c2 = id == 2, c5 = id == 5;
      g.limits(55);
      if (c2) g.set("power", 1);
      if (g.ch(25)) g.set("dirshuffle", 1 + r.below(1000));
      bool conc = id == 1 && g.ch(15);
      if (conc) { g.sched(); g.set("nkeys", std::min(g.nkeys(), 6)); g.set("valmode", 5); }
      int segs = 1 + (int)r.below(4);
      bool first = c2 && g.ch(20);
      if (first) {   // the creation itself will be cut short
        g.open(0, 2);
        if (g.ch(25)) g.add(OP_POWER, r.below(4), r.next() & 0xffffff);
        if (g.ch(25)) g.open(0, 2);
        g.limits(80);
      }
      for (int s = 0; s < segs; s++) {
        g.open(0, s & 1);
        for (auto &t : g.txs) t = false;
        if (s == 0 && !conc) g.many(2);
        if (s && g.ch(70)) g.add(OP_AUDIT, 0, g.ch(50) ? 2 : 1);
        int n = (int)r.below(8);
        if (s == 0 && n == 0 && g.ch(70)) n = 2;
        for (int i = 0; i < n; i++) {
          if (g.ch(85)) g.commit_one();
          else if (g.ch(40)) g.tx_one((int)r.below(2), 0);
          else if (g.ch(50) && !conc) { g.add(OP_INJECT, 0, g.ref(100)); }
          else g.read_one(0, 40);
        }
        if (conc && g.ch(70)) g.phase(0, 2 + (int)r.below(2), 2 + (int)r.below(3), true, false);
        if (c2) {
          if (g.ch(75)) g.add(OP_POWER, r.below(4), r.next() & 0xffffff);
          else if (g.ch(50)) g.add(OP_CLOSE, 0);
          else g.add(OP_KILL, s & 1);
        } else if (g.ch(50)) g.add(OP_CLOSE, 0);
        else g.add(OP_KILL, s & 1);
        if (c5 && g.ch(80)) {   // attempts that will be disturbed
          int tries = 1 + (int)r.below(3);
          for (int q = 0; q < tries; q++) { g.open(0, 2); g.add(OP_CLOSE, 0); }
        }
      }
      if (g.ch(60)) { g.open(0, 3); g.commit_one(); g.add(OP_AUDIT, 0, 2); }
      if (c2) { if (g.ch(50)) g.add(OP_POWER, r.below(4), r.next() & 0xffffff); }
      else if (g.ch(10)) g.set("dirshuffle", 3);
      if (c5 && g.ch(15)) g.set("fdlimit", 1 + r.below(6));
      need_dry = true;
      place = [&, c2, c5, first](const Result &d) {
        if (first) g.crash(d, 0);
        if (c5) {
          auto co = g.cand(d, [](const Op &o) { return o.kind == OP_OPEN; });
          int n = 1 + (int)r.below(3);
          for (int i = 0; i < n && !co.empty(); i++)
            g.hard(d, co[r.below(co.size())], {S_OPEN, S_OPEN, S_STAT, S_STAT, S_READ, S_READ, S_DIR, S_LOCK, S_TRUNC, S_UNLINK, S_WRITE, S_MKDIR, S_SYNC, S_SEEK, S_MMAP});
          auto cc = g.cand(d, [](const Op &o) { return is_commit(o); });
          if (!cc.empty() && g.ch(40)) g.crash(d, cc[r.below(cc.size())]);
          if (!co.empty() && g.ch(15)) g.crash(d, co[r.below(co.size())]);
          return;
        }
        auto cc = g.cand(d, [](const Op &o) { return is_commit(o); });
        auto ca = g.cand(d, [](const Op &o) { return o.kind == OP_OPEN || o.kind == OP_CLOSE || is_commit(o) || o.kind == OP_TXCLEAR || o.kind == OP_GET; });
        int n = c2 ? (int)r.below(2) : 1 + (int)r.below(3);
        for (int i = 0; i < n; i++) {
          if (!cc.empty() && g.ch(70)) g.crash(d, cc[r.below(cc.size())]);
          else if (!ca.empty()) g.crash(d, ca[r.below(ca.size())]);
        }
        if (!cc.empty() && g.ch(15)) g.transient(d, cc[r.below(cc.size())]);
        if (c2 && !cc.empty() && g.ch(12)) g.hard(d, cc[r.below(cc.size())], {S_SYNC, S_WRITE});
      };
      break;
    }
    case 3: {
      g.limits(60);
      if (g.ch(50)) g.set("valmode", 3);
      if (g.ch(60)) g.set("rbuf", g.pick({38, 76, 114, 200, 380, 1500, 4096}));
      if (p.k("maxfile", 0) && p.k("maxfile") < 1100) g.set("maxfile", 1100 + r.below(4000));
      if (g.ch(3)) { g.set("bigtail", 1); g.set("maxfile", 0); g.set("rbuf", 0); }
      int rounds = 1 + (int)r.below(3);
      for (int s = 0; s < rounds; s++) {
        g.open(0, 0);
        for (auto &t : g.txs) t = false;
        int n = 1 + (int)r.below(7);
        for (int i = 0; i < n; i++) g.commit_one();
        if (g.ch(50)) g.add(OP_CLOSE, 0); else g.add(OP_KILL, 0);
        g.add(OP_DAMAGE, p.k("bigtail", 0) && g.ch(70) ? 3 : (int)r.below(7), r.next() & 0xffffff);
        g.open(0, 0);
        g.add(OP_AUDIT, 0, 2);
      }
      if (g.ch(40)) { g.mixed(3); }
      break;
    }
    case 4: case 20: case 17: {
      bool oom = id == 20, res = id == 17;
      g.limits(60);
      if (oom) g.set("leak", 1);
      bool many = oom && g.ch(15);   // more files than a short list of names holds
      if (many) { if (g.ch(50)) { g.set("valmode", g.pick({0, 5})); g.set("maxfile", 152 + r.below(300)); } else g.set("maxfile", 1100 + r.below(300)); }
      if (res) { g.set("leak", 1); g.set("chkopen", 1); if (g.ch(40)) g.set("maxopen", g.pick({1, 2, 3, 4})); }
      if (!oom && g.ch(12)) g.set("fdlimit", 3 + r.below(6));
      if (!oom && !res && g.ch(15)) g.set("capacity", 200 + r.below(6000));
      g.open(0, 0);
      int n = 4 + (int)r.below(14);
      bool conc = res && g.ch(18);
      if (conc) {   // callers that open the same files at the same time
        g.sched();
        g.set("lin", 0);
        g.set("fdlimit", 256);   // the check after a phase is not to run out itself
        g.set("nkeys", g.pick({2, 3, 5, 8}));
        if (!p.k("maxfile", 0)) g.set("maxfile", 1100 + r.below(2000));
        n = 2 + (int)r.below(8);
      }
      for (int i = 0; i < n; i++) {
        int x = (int)r.below(100);
        if (x < 50) g.commit_one();
        else if (x < 68) g.tx_one((int)r.below(3), 0);
        else if (x < 78) g.read_one(0, 40);
        else if (x < 82) g.iter_one(0);
        else if (x < 86) { int t = (int)r.below(2); g.tx(t); g.add(OP_TXCOMMIT, t); g.add(OP_TXCOMMIT, t); }
        else if (x < 89) { int t = (int)r.below(2); g.tx(t); g.add(OP_TXCOMMIT, t); g.add(OP_TXCLEAR, t); g.add(OP_TXFULL, t); }
        else if (x < 92) g.add(OP_INJECT, 0, g.ref(100));
        else if (x < 95) g.add(OP_AUDIT, 0, 2);
        else g.reopen();
      }
      if (conc) {
        int ph = 1 + (int)r.below(3);
        for (int f = 0; f < ph; f++) {
          if (g.ch(80)) { g.add(OP_CLOSE, 0); for (auto &t : g.txs) t = false; g.open(0, 0); }
          g.add(OP_TXDEL, 0); g.add(OP_TXNEW, 0, 0, -1); g.txs[0] = true;
          g.phase(0, 2 + (int)r.below(3), 2 + (int)r.below(5), g.ch(60), g.ch(30));
        }
      }
      if (res && g.ch(60)) { g.add(OP_CLOSE, 0); g.open(0, 0); g.add(OP_CLOSE, 0); if (g.ch(30)) g.add(OP_DESTROY, 1, 0); if (g.ch(50)) g.open(0, 1); }
      if (many) for (int i = 0; i < 3; i++) { for (int j = 2 + (int)r.below(4); j > 0; j--) g.commit_one(); g.open(0, 0); g.reopen(); }
      if (oom) { g.open(0, 0); for (int i = 0; i < 4; i++) { g.commit_one(); g.open(0, 0); } g.add(OP_AUDIT, 0, 2); }
      if (!res && g.ch(30)) { g.add(OP_KILL, 0); g.open(0, 1); g.add(OP_AUDIT, 0, 2); }
      need_dry = true;
      place = [&, oom, res, many](const Result &d) {
        auto cc = g.cand(d, [](const Op &o) { return is_commit(o); });
        auto ca = g.cand(d, [](const Op &o) { return o.kind != OP_AUDIT && o.kind != OP_KILL; });
        int n = 1 + (int)r.below(4);
        for (int i = 0; i < n; i++) {
          if (many && g.ch(50)) {
            auto co = g.cand(d, [](const Op &q) { return q.kind == OP_OPEN || q.kind == OP_DESTROY; });
            std::vector<size_t> cm;
            for (size_t q : co) if (g.cnt(d, q, S_MALLOC) > 0) cm.push_back(q);
            if (!cm.empty()) { size_t lo = cm.size() / 2; if (g.hard(d, cm[lo + r.below(cm.size() - lo)], {S_MALLOC})) continue; }
          }
          if (oom) {
            std::vector<size_t> cm;
            for (size_t q = 0; q < p.ops.size(); q++) if (p.ops[q].kind != OP_AUDIT && g.cnt(d, q, S_MALLOC) > 0) cm.push_back(q);
            if (g.ch(60) && !cm.empty()) g.hard(d, cm[r.below(cm.size())], {S_MALLOC});
            else if (!ca.empty()) { if (!g.hard(d, ca[r.below(ca.size())], {S_MMAP})) { auto cx = g.cand(d, [](const Op &o) { return o.kind == OP_OPEN || is_commit(o); }); if (!cx.empty()) g.hard(d, cx[r.below(cx.size())], {S_MMAP}); } }
            continue;
          }
          if (res) {
            if (!ca.empty()) {
              size_t o = ca[r.below(ca.size())];
              if (g.ch(15)) { auto co = g.cand(d, [](const Op &q) { return q.kind == OP_OPEN || q.kind == OP_DESTROY; }); o = co.empty() ? o : co[r.below(co.size())]; }
              // most failing allocations end the process: only those it survives can leak
              if (g.ch(20)) { if (g.hard(d, o, {S_MALLOC})) continue; }
              g.hard(d, o, {S_OPEN, S_STAT, S_READ, S_WRITE, S_DIR, S_LOCK, S_MMAP, S_TRUNC, S_UNLINK, S_SYNC, S_MKDIR, S_RMDIR, S_SEEK});
            }
            continue;
          }
          if (cc.empty()) break;
          size_t o = cc[r.below(cc.size())];
          g.hard(d, o, {S_WRITE, S_WRITE, S_WRITE, S_OPEN, S_STAT, S_MMAP, S_TRUNC, S_SYNC, S_SEEK, S_READ});
          if (g.ch(10)) g.transient(d, o);
        }
        if (!oom && !res && g.ch(20) && !cc.empty()) g.crash(d, cc[r.below(cc.size())]);
      };
      break;
    }
    case 6: {
      g.limits(50);
      g.open(0, 0);
      int n = 2 + (int)r.below(7);
      for (int i = 0; i < n; i++) g.commit_one();
      if (g.ch(80)) { g.add(OP_CLOSE, 0); for (auto &t : g.txs) t = false; g.open(0, 0); }
      n = 5 + (int)r.below(16);
      for (int i = 0; i < n; i++) {
        int x = (int)r.below(100);
        if (x < 45) g.read_one(0, 55);
        else if (x < 70) g.tx_one((int)r.below(3), 0);
        else if (x < 82) g.iter_one(0);
        else if (x < 86) g.add(OP_INJECT, 0, g.ref(100));
        else if (x < 92) g.commit_one();
        else { g.add(OP_CLOSE, 0); for (auto &t : g.txs) t = false; g.open(0, 0); }
      }
      need_dry = true;
      place = [&](const Result &d) {
        auto ca = g.cand(d, [](const Op &o) { return is_read(o) || o.kind == OP_TXCLEAR || o.kind == OP_INSERT || o.kind == OP_REMOVE; });
        int n = 1 + (int)r.below(5);
        for (int i = 0; i < n && !ca.empty(); i++) {
          size_t o = ca[r.below(ca.size())];
          g.hard(d, o, {S_READ, S_READ, S_READ, S_OPEN, S_OPEN, S_STAT, S_MMAP}, g.ch(30));
          if (g.ch(15)) g.transient(d, o);
        }
      };
      break;
    }
    case 7: {
      g.limits(60);
      if (g.ch(6)) { g.set("maxfile", 0); g.add(OP_IMPORT, 0, r.next() & 0xffffff, 1 + r.below(4), 128 + r.below(4), 0); }
      g.open(0, 0);
      g.many(3);
      int n = 6 + (int)r.below(tier ? 40 : 20);
      for (int i = 0; i < n; i++) {
        int x = (int)r.below(100);
        if (x < 45) g.commit_one();
        else if (x < 75) g.read_one(0, 90);
        else if (x < 80) { g.add(OP_TXDEL, 0); g.add(OP_TXNEW, 0, 0, g.ref(100)); g.txs[0] = true; g.add(OP_TXFULL, 0); }
        else if (x < 84) { g.tx(1); g.add(OP_TXINJ, 1, g.ref(100)); g.add(OP_TXROOT, 1); }
        else if (x < 89) { g.add(OP_INJECT, 0, g.ref(100)); g.read_one(0, 30); }
        else if (x < 92) { g.tx(1); g.tx_one(1, 0); }
        else if (x < 97) g.reopen();
        else g.add(OP_AUDIT, 0, 2);
      }
      g.add(OP_AUDIT, 0, 3);
      g.set("endaudit", 3);
      if (g.ch(40)) {
        need_dry = true;
        place = [&](const Result &d) {
          auto ca = g.cand(d, [](const Op &o) { return o.kind == OP_GET || o.kind == OP_HAS || o.kind == OP_ITER || o.kind == OP_TXNEW || o.kind == OP_INJECT || o.kind == OP_TXINJ || o.kind == OP_PROVE; });
          int n = 1 + (int)r.below(2);
          for (int i = 0; i < n && !ca.empty(); i++) g.hard(d, ca[r.below(ca.size())], {S_READ, S_OPEN, S_STAT});
          auto cc = g.cand(d, [](const Op &o) { return is_commit(o); });
          if (!cc.empty() && g.ch(30)) g.hard(d, cc[r.below(cc.size())], {S_WRITE});
        };
      }
      break;
    }
    case 8: case 9: case 11: {
      if (id == 11 && g.ch(35)) g.keys(1);
      if (id == 9 && g.ch(15)) g.keys(1);
      g.limits(35);
      g.open(0, 0);
      if (id == 8) g.many(2);
      int n = 8 + (int)r.below(tier ? 60 : 30);
      if (id == 11) {
        g.add(OP_TXNEW, 0, 0, -1); g.txs[0] = true;
        g.add(OP_FILL, 0, 0, g.ch(60) ? g.nkeys() : (int64_t)r.below(g.nkeys()), r.below(100000));
        if (g.ch(60)) g.add(OP_TXCOMMIT, 0);
        if (g.ch(40)) { g.add(OP_CLOSE, 0); g.txs[0] = false; g.open(0, 0); }
        n = 3 + (int)r.below(8);
        for (int i = 0; i < n; i++) { if (g.ch(60)) g.iter_one(0); else if (g.ch(60)) g.tx_one((int)r.below(2), 0); else g.commit_one(); }
      } else if (id == 8) {
        for (int i = 0; i < n; i++) {
          int x = (int)r.below(100);
          if (x < 70) g.tx_one((int)r.below(4), 0);
          else if (x < 80) g.commit_one();
          else if (x < 86) g.read_one(0, 20);
          else if (x < 90) g.add(OP_INJECT, 0, g.ref(100));
          else if (x < 93) g.iter_one(0);
          else if (x < 95) g.add(OP_TXINS, (int64_t)r.below(4), g.k(), g.ch(50) ? -2 : -3);
          else if (x < 96) g.add(OP_INSERT, 0, g.k(), -2);
          else if (x < 98) g.reopen();
          else g.add(OP_AUDIT, 0, 1);
        }
      } else {
        // the same contents by many routes
        for (int i = 0; i < n; i++) {
          int x = (int)r.below(100);
          int t = (int)r.below(3);
          if (x < 20) { g.tx(t); g.add(OP_FILL, t, g.k(), 1 + r.below(g.nkeys()), r.below(3) * 1000); g.add(OP_TXROOT, t); }
          else if (x < 45) { g.tx(t); int m = 1 + (int)r.below(6); for (int q = 0; q < m; q++) g.add(OP_TXREM, t, g.k()); g.add(OP_TXROOT, t); }
          else if (x < 65) { g.tx(t); g.add(OP_TXINS, t, g.k(), (int64_t)r.below(5)); g.add(OP_TXROOT, t); }
          else if (x < 75) { g.tx(t); g.add(OP_TXCOMMIT, t); g.add(OP_ROOT, 0); }
          else if (x < 85) { g.commit_one(); g.add(OP_ROOT, 0); }
          else if (x < 90) { g.add(OP_TXDEL, t); g.txs[t] = false; g.tx(t); }
          else if (x < 95) { g.reopen(); g.add(OP_ROOT, 0); }
          else { g.tx(t); for (int q = 0; q < g.nkeys() && q < 300; q++) g.add(OP_TXREM, t, q); g.add(OP_TXROOT, t); }
        }
      }
      if (g.ch(35)) {
        need_dry = true;
        place = [&](const Result &d) {
          auto ca = g.cand(d, [](const Op &o) { return o.kind != OP_AUDIT && o.kind != OP_KILL; });
          int n = 1 + (int)r.below(4);
          for (int i = 0; i < n && !ca.empty(); i++) {
            if (g.ch(60)) g.transient(d, ca[r.below(ca.size())]);
            else g.hard(d, ca[r.below(ca.size())], {S_READ, S_WRITE, S_OPEN});
          }
        };
      }
      break;
    }
    case 10: {
      g.limits(20);
      g.open(0, 0);
      int n = 2 + (int)r.below(8);
      for (int i = 0; i < n; i++) g.commit_one();
      if (g.ch(40)) { g.add(OP_CLOSE, 0); for (auto &t : g.txs) t = false; g.open(0, 0); }
      n = 4 + (int)r.below(8);
      for (int i = 0; i < n; i++) {
        int x = (int)r.below(10);
        if (x < 6) g.add(OP_FORGE, 0, g.k(), r.next() & 0xffffffff, g.ch(60) ? -1 : (int64_t)r.below(20), tier ? 60 : 30);
        else if (x < 8) g.add(OP_PROVE, 0, g.k(), g.ref(40));
        else if (x < 9) { g.tx(0); g.add(OP_TXINS, 0, g.k(), g.v()); g.add(OP_TXPROVE, 0, g.k()); }
        else g.commit_one();
      }
      if (g.ch(30)) {
        need_dry = true;
        place = [&](const Result &d) {
          auto ca = g.cand(d, [](const Op &o) { return o.kind == OP_PROVE || o.kind == OP_TXPROVE; });
          int n = 1 + (int)r.below(2);
          for (int i = 0; i < n && !ca.empty(); i++) { if (g.ch(50)) g.transient(d, ca[r.below(ca.size())]); else g.hard(d, ca[r.below(ca.size())], {S_READ, S_OPEN}); }
        };
      }
      break;
    }
    case 12: case 13: case 14: {
      g.limits(35);
      bool race = build == "race";
      g.sched();
      if (race && g.ch(60)) p.sched.mem_permille = (int)g.pick<int64_t>({20, 100, 400, 1500});
      g.set("nkeys", g.pick({2, 3, 4, 6, 10}));
      if (id == 12 && g.ch(70)) g.set("valmode", g.pick({0, 5}));
      if (p.k("maxfile", 0) && p.k("maxfile") < 1100 && p.k("valmode") != 0 && p.k("valmode") != 5) g.set("maxfile", 1500);
      bool faults = id != 12 && g.ch(45);
      bool crashes = id == 12 && g.ch(10);
      g.open(0, 0);
      int n = (int)r.below(5);
      for (int i = 0; i < n; i++) g.commit_one();
      if (g.ch(50)) { g.add(OP_CLOSE, 0); g.open(0, 0); }
      for (auto &t : g.txs) t = false;
      g.add(OP_TXDEL, 0); g.add(OP_TXDEL, 1);
      g.add(OP_TXNEW, 0, 0, -1);
      if (g.ch(60)) g.add(OP_TXINS, 0, g.k(), g.v());
      if (g.ch(60)) { g.add(OP_TXNEW, 1, 0, -1); g.add(OP_TXINS, 1, g.k(), g.v()); }
      int phases = 1 + (int)r.below(2);
      for (int f = 0; f < phases; f++) {
        int nc = 2 + (int)r.below(g.ch(30) ? 4 : 2);
        int per = 2 + (int)r.below(nc > 3 ? 3 : 5);
        g.phase(0, nc, per, g.ch(85), !crashes && g.ch(40));
        if (g.ch(40)) g.add(OP_AUDIT, 0, 1);
        if (f + 1 < phases) { g.add(OP_TXNEW, 0, 0, -1); g.add(OP_TXINS, 0, g.k(), g.v()); }
      }
      if (faults) g.set("lin", 0);
      if (faults || crashes || g.ch(20)) {
        need_dry = true;
        place = [&, faults, crashes](const Result &d) {
          auto ca = g.cand(d, [](const Op &o) { return o.client > 0; });
          int n = 1 + (int)r.below(3);
          for (int i = 0; i < n && !ca.empty(); i++) {
            size_t o = ca[r.below(ca.size())];
            if (crashes) { g.crash(d, o); break; }
            if (faults && g.ch(80)) g.hard(d, o, {S_READ, S_WRITE, S_OPEN, S_STAT, S_SYNC, S_MMAP});
            else g.transient(d, o);
          }
        };
      }
      break;
    }
    case 15: case 16: {
      bool destroy = id == 16;
      g.limits(25);
      g.set("mp", 1);
      g.sched();
      if (g.ch(20)) g.set("dirshuffle", 1 + r.below(100));
      if (g.ch(20)) g.set("power", 0);
      int rounds = 1 + (int)r.below(3);
      bool two = destroy && g.ch(60);
      if (two) { g.open(5, 3, 1); g.add(OP_INSERT, 5, g.k(), g.v()); if (g.ch(50)) g.add(OP_CLOSE, 5); }
      for (int s = 0; s < rounds; s++) {
        g.open(0, 0, 0);
        int n = (int)r.below(4);
        for (int i = 0; i < n; i++) g.add(OP_INSERT, 0, g.k(), g.v());
        if (destroy && g.ch(25)) g.add(OP_FOREIGN, 0, r.below(16));
        if (g.ch(30)) { g.open(1, g.ch(50) ? 0 : 1, 0); g.add(OP_INSERT, 1, g.k(), g.v()); }
        if (g.ch(destroy ? 40 : 30)) g.add(OP_DESTROY, g.ch(60) ? 1 : 0, 0, g.ch(30) ? (int64_t)r.below(4) : 0);
        if (g.ch(20)) g.add(OP_OPEN, 2, 2, 0, r.below(4));
        if (g.ch(60)) { if (g.ch(60)) g.add(OP_CLOSE, 0); else g.add(OP_KILL, 0); }
        if (g.ch(30)) g.add(OP_CLOSE, 1);
        if (g.ch(30)) g.add(OP_CLOSE, 2);
        if (g.ch(destroy ? 50 : 80)) {
          int nc = 2 + (int)r.below(3);
          int per = 2 + (int)r.below(4);
          for (int i = 0; i < nc * per; i++) {
            int c = 1 + (int)r.below(nc);
            int pr = g.ch(25) ? 1 : c;           // sometimes several callers in one process
            int x = (int)r.below(100);
            if (x < 40) g.add(OP_OPEN, c, pr, 0, g.ch(10) ? (int64_t)r.below(4) : 0, 0, c);
            else if (x < 65) g.add(OP_CLOSE, c, 0, 0, 0, 0, c);
            else if (x < 78) g.add(OP_INSERT, c, g.k(), g.v(), 0, 0, c);
            else if (x < 83) g.add(OP_KILL, pr, 0, 0, 0, 0, c);
            else if (x < (destroy ? 96 : 88)) g.add(OP_DESTROY, pr, 0, 0, 0, 0, c);
            else g.add(OP_GET, c, g.k(), -1, 0, 0, c);
          }
          for (int c = 1; c <= nc; c++) g.add(OP_CLOSE, c);
        } else if (destroy) {
          g.add(OP_DESTROY, 1, 0);
          if (g.ch(60)) g.add(OP_DESTROY, 1, 0);
          if (g.ch(30)) { g.open(0, 0); g.add(OP_AUDIT, 0, 1); g.add(OP_CLOSE, 0); }
          if (g.ch(30)) g.add(OP_LISTCHK, 0);
        }
      }
      if (g.ch(destroy ? 70 : 50)) {
        need_dry = true;
        place = [&, destroy](const Result &d) {
          auto cd = g.cand(d, [destroy](const Op &o) { return destroy ? o.kind == OP_DESTROY : (o.kind == OP_OPEN || o.kind == OP_CLOSE || o.kind == OP_DESTROY || o.kind == OP_INSERT); });
          int n = 1 + (int)r.below(2);
          for (int i = 0; i < n && !cd.empty(); i++) {
            size_t o = cd[r.below(cd.size())];
            if (!destroy && g.ch(40)) {   // attempts that fail must leave nothing behind
              auto cx = g.cand(d, [](const Op &o) { return o.kind == OP_DESTROY || o.kind == OP_OPEN; });
              auto cy = g.cand(d, [](const Op &o) { return o.kind == OP_DESTROY; });
              if (!cy.empty() && g.ch(60)) cx = cy;
              if (!cx.empty()) { g.hard(d, cx[r.below(cx.size())], {S_OPEN, S_DIR, S_DIR, S_UNLINK, S_RMDIR, S_LOCK, S_STAT, S_READ, S_MMAP, S_MALLOC}); continue; }
            }
            if (g.ch(50)) g.crash(d, o);
            else if (destroy || g.ch(50)) g.hard(d, o, {S_OPEN, S_UNLINK, S_UNLINK, S_RMDIR, S_DIR, S_LOCK, S_STAT});
            else g.transient(d, o);
          }
        };
      }
      break;
    }
    case 18: {
      g.limits(100);
      g.set("chkopen", 1);
      if (g.ch(50)) g.set("maxopen", g.pick({1, 2, 3}));
      if (g.ch(10)) {
        g.set("pathlen", g.pick({100, 500, 1000, 1009, 1010, 1011, 1012, 1013, 1014, 1015, 1016, 1020, 1023, 1024, 1030}));
        if (p.k("pathlen") > 1000) g.set("pathbad", 1);
      }
      if (g.ch(10)) g.set("nourandom", 0);
      if (g.ch(7)) { g.set("maxfile", 0); g.add(OP_IMPORT, 0, r.next() & 0xffffff, 1 + r.below(4), 128 + r.below(4), 0); }
      g.open(0, 0);
      if (p.k("pathlen", 0)) {   // what can be opened can be destroyed, and nothing overruns
        g.add(OP_INSERT, 0, g.k(), g.v());
        g.add(OP_CLOSE, 0);
        g.add(OP_DESTROY, 0);
        g.open(0, 0);
      }
      if (!p.k("pathlen", 0)) g.many(3);
      g.mixed(10 + (int)r.below(tier ? 60 : 25));
      if (g.ch(35) && !p.k("pathbad", 0)) {   // another build goes on
        g.add(OP_CLOSE, 0);
        for (auto &t : g.txs) t = false;
        auto save = p.knob;
        g.limits(100);
        g.add(OP_LIMITS, p.k("maxfile"), p.k("maxopen"), p.k("wbuf"), p.k("rbuf"));
        p.knob = save;
        g.open(0, 0);
        g.mixed(4 + (int)r.below(10));
      }
      if (g.ch(60)) { g.reopen(); g.add(OP_AUDIT, 0, 3); g.mixed(5); }
      break;
    }
    case 19: {
      g.limits(50);
      g.open(0, 0);
      g.mixed(6 + (int)r.below(20));
      if (g.ch(60)) { g.reopen(); g.add(OP_AUDIT, 0, 2); g.mixed(4); }
      if (g.ch(10)) { g.add(OP_CLOSE, 0); g.add(OP_DESTROY, 1, 0); g.open(0, 1); }
      need_dry = true;
      place = [&](const Result &d) {
        auto ca = g.cand(d, [](const Op &) { return true; });
        int n = 2 + (int)r.below(12);
        for (int i = 0; i < n && !ca.empty(); i++) g.transient(d, ca[r.below(ca.size())]);
        auto cc = g.cand(d, [](const Op &o) { return is_commit(o) || o.kind == OP_OPEN; });
        for (int i = 0; i < n && !cc.empty(); i++) g.transient(d, cc[r.below(cc.size())]);
      };
      break;
    }
    case 21: {
      g.limits(60);
      int n = 4 + (int)r.below(14);
      if (g.ch(70)) g.add(OP_CLI, 0, 0, 0, -1, r.below(4) & 2);
      for (int i = 0; i < n; i++) {
        int act = g.pick({0, 1, 2, 2, 3, 3, 4, 4, 5, 5, 5, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9});
        if (act == 1 && g.ch(70)) act = 5;
        int64_t fl = (g.ch(30) ? 1 : 0) | (g.ch(50) ? 2 : 0) | (g.ch(40) ? 4 : 0) | (g.ch(4) ? 8 : 0) | (g.ch(20) ? 16 : 0);
        if (g.ch(50)) fl |= (int64_t)r.below(8) << 5;
        if (g.ch(15)) fl |= (1 + (int64_t)r.below(8)) << 8;
        if (g.ch(85)) g.add(OP_CLI, act, g.k(), (int64_t)r.below(100000), g.ref(35), fl);
        else if (g.ch(50)) { g.open(0, 0); g.commit_one(); if (g.ch(40)) g.add(OP_CLI, act, g.k(), 5, -1, fl); g.add(OP_CLOSE, 0); for (auto &t : g.txs) t = false; }
        else if (g.ch(20)) g.add(OP_FOREIGN, 0, r.below(16));
        else { g.open(0, 0); g.add(OP_AUDIT, 0, 2); g.add(OP_KILL, 0); }
      }
      if (g.ch(50)) {
        need_dry = true;
        place = [&](const Result &d) {
          auto ca = g.cand(d, [](const Op &o) { return o.kind == OP_CLI; });
          int n = 1 + (int)r.below(3);
          for (int i = 0; i < n && !ca.empty(); i++) {
            size_t o = ca[r.below(ca.size())];
            int x = (int)r.below(12);
            if (x < 4) g.crash(d, o);
            else if (x < 6) {   // once the database is open
              auto cl = g.cand(d, [](const Op &o) { return o.kind == OP_CLI && o.a[0] != 0 && o.a[0] != 1; });
              if (!cl.empty()) g.hard(d, cl[r.below(cl.size())], {S_OPEN, S_READ, S_STAT, S_MMAP}, true);
            }
            else if (x < 10) g.hard(d, o, {S_OPEN, S_READ, S_WRITE, S_STAT, S_DIR, S_LOCK, S_UNLINK, S_TRUNC, S_MMAP, S_RMDIR, S_MKDIR});
            else g.transient(d, o);
          }
        };
      }
      break;
    }
    case 26: {   // the path of a database, and the working directory
      g.limits(100);
      if (g.ch(60)) g.set("maxopen", g.pick({1, 2, 3}));
      if (g.ch(40)) g.set("samebase", 1);
      if (g.ch(20)) g.set("predir", 1);
      bool conc = g.ch(25);
      if (conc) { g.sched(); g.set("nkeys", std::min(g.nkeys(), 6)); g.set("valmode", 5); g.set("lin", g.ch(40)); }
      auto chdir = [&](int proc, int client = 0) { g.add(OP_CHDIR, proc, r.below(5), 0, 0, 0, client); };
      auto spell = [&]() -> int64_t { return g.ch(20) ? (int64_t)r.below(4) : 4 + (int64_t)r.below(1u << 20); };
      int segs = 1 + (int)r.below(4);
      for (int s = 0; s < segs; s++) {
        int proc = (int)r.below(2), di = g.ch(30);
        for (auto &t : g.txs) t = false;
        if (g.ch(75)) chdir(proc);
        g.add(OP_OPEN, 0, proc, di, spell());
        bool two = g.ch(25);
        if (two) { if (g.ch(50)) chdir(proc); g.add(OP_OPEN, 1, g.ch(60) ? proc : 1 - proc, 1 - di, spell()); }
        int n = 1 + (int)r.below(5);
        for (int i = 0; i < n; i++) {
          if (g.ch(70)) chdir(proc);
          if (g.ch(20)) { int other = 2 + (int)r.below(2); if (g.ch(60)) chdir(other); if (g.ch(60)) g.add(OP_OPEN, 2, other, di, spell()); else g.add(OP_DESTROY, other, di, spell()); }
          g.mixed(1 + (int)r.below(7), two && g.ch(40) ? 1 : 0);
        }
        if (conc && !two) {
          size_t b = p.ops.size();
          g.phase(0, 2 + (int)r.below(2), 2 + (int)r.below(3), true, false);
          std::vector<Op> ph(p.ops.begin() + (long)b, p.ops.end());
          p.ops.resize(b);
          for (auto &o : ph) { if (g.ch(20)) chdir(proc, o.client); p.ops.push_back(o); }
        }
        if (g.ch(50)) chdir(proc);
        if (two) g.add(OP_CLOSE, 1);
        if (g.ch(70)) g.add(OP_CLOSE, 0); else { g.add(OP_KILL, 0); g.add(OP_KILL, 1); }
        if (g.ch(20)) { int q = (int)r.below(3); if (g.ch(70)) chdir(q); g.add(OP_DESTROY, q, di, spell()); }
        if (g.ch(15)) g.add(OP_CLI, r.below(10), g.k(), (int64_t)r.below(100000), -1, (g.ch(50) ? 2 : 0) | (int64_t)r.below(8) << 5);
      }
      if (conc) for (auto &o : p.ops) if (o.kind == OP_INJECT) { o.kind = OP_ROOT; o.a[1] = 0; }
      if (g.ch(30)) {
        need_dry = true;
        place = [&](const Result &d) {
          auto ca = g.cand(d, [](const Op &o) { return o.kind == OP_OPEN || o.kind == OP_DESTROY; });
          auto cb = g.cand(d, [](const Op &o) { return o.client <= 0 && (is_commit(o) || o.kind == OP_OPEN || o.kind == OP_CLOSE || o.kind == OP_DESTROY); });
          if (!ca.empty() && g.ch(60)) g.hard(d, ca[r.below(ca.size())], {S_STAT, S_STAT, S_MALLOC, S_OPEN, S_DIR});
          if (!cb.empty() && g.ch(60)) g.crash(d, cb[r.below(cb.size())]);
        };
      }
      break;
    }
    case 24: {
      g.limits(50);
      g.set("stored", 1);
      bool side[2] = {false, false};     // handles of both directories
      auto other_limits = [&] {
        Plan &q = g.p;
        auto save = q.knob;
        g.limits(90);
        g.add(OP_LIMITS, q.k("maxfile"), q.k("maxopen"), q.k("wbuf"), q.k("rbuf"));
        q.knob = save;
      };
      if (g.ch(55)) {
        int vm = (int)p.k("valmode", 0);
        int64_t mf = g.ch(50) ? 0 : ((vm == 0 || vm == 5) ? 152 : 1100) + (int64_t)r.below(3000);
        int64_t style = (int64_t)r.below(16) | (g.ch(8) ? 16 : 0) | (g.ch(5) ? 32 : 0) | (g.ch(30) ? 64 : 0) | (g.ch(22) ? 128 : 0);
        if (style & 160) mf = 0;
        g.add(OP_IMPORT, 0, r.next() & 0xffffff, 1 + r.below(g.ch(20) ? 30 : 6), style, mf);
      }
      int segs = 1 + (int)r.below(4);
      for (int s = 0; s < segs; s++) {
        if (g.ch(60)) other_limits();
        for (int h = 0; h < 2; h++) if ((h == 0 ? !side[0] : side[1] == false && g.ch(60) && s > 0)) { g.open(h, s & 1, h); side[h] = true; }
        if (s == 0) g.many(2);
        if (g.ch(40)) g.add(OP_AUDIT, 0, 3);
        int n = 1 + (int)r.below(8);
        for (int i = 0; i < n; i++) {
          int h = side[1] && g.ch(50) ? 1 : 0;
          int x = (int)r.below(100);
          if (x < 50) g.commit_one(h);
          else if (x < 62) g.tx_one((int)r.below(2), h);
          else if (x < 75) g.read_one(h, 60);
          else if (x < 80) g.add(OP_INJECT, h, g.ref(100));
          else if (x < 86) g.add(OP_STORED, h);
          else if (x < 90) g.add(OP_COPY, 0, r.below(2));
          else if (x < 95) { g.add(OP_CLOSE, h); for (auto &t : g.txs) t = false; g.open(h, s & 1, h); }
          else g.add(OP_AUDIT, h, 2);
        }
        if (g.ch(75)) {
          for (int h = 0; h < 2; h++) {
            if (!side[h]) continue;
            if (g.ch(60)) g.add(OP_CLOSE, h); else { g.add(OP_KILL, s & 1); }
          }
          g.add(OP_CLOSE, 0); g.add(OP_CLOSE, 1);
          side[0] = side[1] = false;
          for (auto &t : g.txs) t = false;
          g.add(OP_STORED, 0);
        }
        if (g.ch(50)) g.add(OP_COPY, g.ch(80) ? 0 : 1, r.below(2));
      }
      g.set("endaudit", 3);
      if (g.ch(35)) {
        need_dry = true;
        place = [&](const Result &d) {
          auto cc = g.cand(d, [](const Op &o) { return is_commit(o) || o.kind == OP_OPEN; });
          int n = 1 + (int)r.below(2);
          for (int i = 0; i < n && !cc.empty(); i++) {
            size_t o = cc[r.below(cc.size())];
            if (g.ch(50)) g.crash(d, o);
            else if (g.ch(50)) g.transient(d, o);
            else g.hard(d, o, {S_WRITE, S_WRITE, S_OPEN, S_SYNC, S_READ});
          }
        };
      }
      break;
    }
    case 25: {
      g.limits(50);
      if (g.ch(60)) g.set("nommap", 1);
      if (p.k("rbuf", 0) == 0) g.set("rbuf", g.pick({38, 76, 200, 400, 1000}));
      g.set("cost", 1);
      g.open(0, 0);
      g.many(2);
      g.add(OP_TXNEW, 0, 0, -1); g.txs[0] = true;
      int n = 6 + (int)r.below(tier ? 50 : 22);
      if (g.ch(10)) {
        // many keys, a few at a time
        int64_t m = g.pick({10, 20, 40}), c = 8 + r.below(16);
        g.set("valmode", g.pick({0, 5}));
        g.set("nkeys", m * c);
        for (int64_t i = 0; i < c; i++) { g.add(OP_FILL, 0, i * m, m, r.below(100000)); g.add(OP_TXCOMMIT, 0); }
        n = 5;
      } else {
        g.add(OP_FILL, 0, 0, g.ch(70) ? g.nkeys() : (int64_t)r.below(g.nkeys()), r.below(100000));
        g.add(OP_TXCOMMIT, 0);
      }
      for (int i = 0; i < n; i++) {
        int x = (int)r.below(100);
        if (x < 40) g.commit_one();
        else if (x < 60) g.read_one(0, 25);
        else if (x < 72) g.tx_one((int)r.below(3), 0);
        else if (x < 77) { for (int t = 0; t < 4; t++) if (g.txs[t]) { g.add(OP_TXDEL, t); g.txs[t] = false; } g.read_one(0, 0); }
        else if (x < 82) g.iter_one(0);
        else if (x < 86) g.add(OP_INJECT, 0, g.ref(100));
        else if (x < 96) g.reopen();
        else g.add(OP_AUDIT, 0, 2);
      }
      if (g.ch(25)) {
        need_dry = true;
        place = [&](const Result &d) {
          auto cc = g.cand(d, [](const Op &o) { return is_commit(o) || o.kind == OP_OPEN; });
          if (cc.empty()) return;
          size_t o = cc[r.below(cc.size())];
          if (g.ch(60)) g.crash(d, o); else g.hard(d, o, {S_WRITE, S_OPEN});
        };
      }
      break;
    }
    case 27: {   // two databases in one process, each used by a caller of its own
      g.limits(50);
      g.set("mp", 2);
      g.sched();
      if (build == "race" && g.ch(60)) p.sched.mem_permille = (int)g.pick<int64_t>({20, 100, 400, 1500});
      g.set("samebase", g.ch(50));
      bool race = build == "race";
      if (race || g.ch(60)) g.set("nkeys", g.pick({2, 3, 4, 6, 10}));
      if (g.ch(race ? 85 : 40)) g.set("valmode", g.pick({0, 5}));
      if (p.k("maxfile", 0) && p.k("maxfile") < 1100 && p.k("valmode") != 0 && p.k("valmode") != 5) g.set("maxfile", 1500);
      bool faults = g.ch(25), crashes = !faults && g.ch(25);
      std::vector<Op> all;
      int phases = 1 + (int)r.below(race ? 2 : 3);
      auto body = [&](int c, int client, int n, bool keep) {
        p.ops.clear();
        for (auto &t : g.txs) t = false;
        int h = c - 1;
        g.open(h, 0, h);
        for (int i = 0; i < n; i++) {
          int x = (int)r.below(100);
          if (x < 66) g.mixed(1, h, 25);
          else if (x < 72) { g.add(OP_TXNEW, 0, h, -1); g.add(OP_FILL, 0, g.k(), 1 + r.below(g.nkeys()), r.below(100000)); g.add(OP_TXCOMMIT, 0); g.txs[0] = true; }
          else if (x < (race ? 75 : 80)) g.add(OP_FORGE, h, g.k(), r.below(1000000), g.ref(20), 1 + r.below(race ? 1 : 3));
          else if (x < 92) { g.add(OP_CLOSE, h); for (auto &t : g.txs) t = false; g.open(h, 0, h); }
          else if (x < 95) { g.add(OP_CLOSE, h); for (auto &t : g.txs) t = false; g.add(OP_DESTROY, 0, h); g.open(h, 0, h); }
          else g.commit_one(h);
        }
        if (!keep && g.ch(30)) g.add(OP_CLOSE, h);
        std::vector<Op> v;
        for (auto &o : p.ops) {
          if (crashes && client && (o.kind == OP_AUDIT || o.kind == OP_FORGE)) continue;
          o.client = client;
          int off = 4 * h, ioff = 3 * h;
          switch (o.kind) {
            case OP_TXNEW: case OP_TXDEL: case OP_TXCLEAR: case OP_TXROOT: case OP_TXINJ: case OP_TXGET: case OP_TXHAS: case OP_TXINS:
            case OP_TXREM: case OP_TXPROVE: case OP_TXCOMMIT: case OP_TXFULL: case OP_FILL: o.a[0] = o.a[0] % 4 + off; break;
            case OP_ITNEW: o.a[1] = o.a[1] % 4 + off; o.a[0] = o.a[0] % 3 + ioff; break;
            case OP_ITDB: case OP_ITNEXT: case OP_DRAIN: case OP_ITDEL: o.a[0] = o.a[0] % 3 + ioff; break;
          }
          v.push_back(o);
        }
        return v;
      };
      for (int f = 0; f < phases; f++) {
        if (g.ch(60)) for (int c = 1; c <= 2; c++) for (auto &o : body(c, 0, 1 + (int)r.below(4), true)) all.push_back(o);
        for (int c = 1; c <= 2; c++) for (auto &o : body(c, c, 2 + (int)r.below(tier ? 20 : 8), false)) all.push_back(o);
        Op sep; sep.kind = OP_AUDIT; sep.a[0] = 0; sep.a[1] = 1; sep.client = 0;
        all.push_back(sep);
        sep.a[0] = 1;
        all.push_back(sep);
      }
      p.ops = all;
      if (faults || crashes || g.ch(20)) {
        need_dry = true;
        place = [&, faults, crashes](const Result &d) {
          auto ca = g.cand(d, [](const Op &o) { return o.client > 0 && o.kind != OP_AUDIT && o.kind != OP_FORGE; });
          int n = 1 + (int)r.below(3);
          for (int i = 0; i < n && !ca.empty(); i++) {
            size_t o = ca[r.below(ca.size())];
            if (crashes) { g.crash(d, o); break; }
            if (faults && g.ch(80)) g.hard(d, o, {S_READ, S_WRITE, S_OPEN, S_STAT, S_SYNC, S_MMAP});
            else g.transient(d, o);
          }
        };
      }
      break;
    }
    default: g.open(0, 0); g.mixed(10);
  }
  if (need_dry) {
    Result d = g.dry();
    if (dry) *dry = d;
    if (!d.violated) place(d);
  }
  return p;
}
}  // namespace sim
