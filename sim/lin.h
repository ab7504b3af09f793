// Linearizability: recorded concurrent history vs. the sequential map model.
#pragma once
#include "model.h"
#include "plan.h"
#include <unordered_set>
#include <algorithm>

namespace sim {
struct LinRec {
  int client = 0, op = 0;
  uint64_t inv = 0, resp = 0;
  bool pending = false;      // the caller died inside: may or may not have happened
  bool skip = false;
  int kind = 0, slot = -1;
  model::Bytes key, val, out;
  bool hasval = false;
  int kv = -1;               // interned contents: target of INJECT/TXINJ/TXNEW, result of ITER
  int ret = 0, err = 0;
  std::string desc;
};

struct LinSpec {
  using KV = model::KV;
  using KVp = model::KVp;
  using Bytes = model::Bytes;
  std::vector<KVp> kvs;
  std::map<KV, int> ids;
  std::map<std::pair<int, std::pair<Bytes, Bytes>>, int> ins;
  std::map<std::pair<int, Bytes>, int> rem;
  std::map<std::pair<int, std::pair<Bytes, Bytes>>, bool> prv;
  int intern(const KV &kv) {
    auto i = ids.find(kv);
    if (i != ids.end()) return i->second;
    int id = (int)kvs.size();
    kvs.push_back(std::make_shared<KV>(kv));
    ids[kv] = id;
    return id;
  }
  int insert(int s, const Bytes &k, const Bytes &v) {
    auto key = std::make_pair(s, std::make_pair(k, v));
    auto i = ins.find(key);
    if (i != ins.end()) return i->second;
    KV kv = *kvs[s];
    kv[k] = v;
    return ins[key] = intern(kv);
  }
  int remove(int s, const Bytes &k) {
    auto key = std::make_pair(s, k);
    auto i = rem.find(key);
    if (i != rem.end()) return i->second;
    KV kv = *kvs[s];
    kv.erase(k);
    return rem[key] = intern(kv);
  }
  bool proof_ok(int s, const Bytes &k, const Bytes &raw) {
    auto key = std::make_pair(s, std::make_pair(k, raw));
    auto i = prv.find(key);
    if (i != prv.end()) return i->second;
    bool e; Bytes v;
    int r = model::verify(raw, k, model::root_of(kvs[s]), &e, &v);
    auto f = kvs[s]->find(k);
    bool ok = r == 0 && e == (f != kvs[s]->end()) && (!e || v == f->second);
    return prv[key] = ok;
  }
  // state[0] = visible contents, state[1 + t] = transaction t (-1: none)
  using State = std::vector<int>;
  int state_kind(int kind) { return kind; }
  bool look(int s, const LinRec &r) {
    auto f = kvs[s]->find(r.key);
    if (r.ret) return f != kvs[s]->end() && (!r.hasval || f->second == r.out);
    return f == kvs[s]->end() && r.err == 8 /* ENOTFOUND */;
  }
  // Applies r to st; false if the recorded result is impossible there.
  bool apply(State &st, const LinRec &r) {
    int *x = &st[0];
    bool p = r.pending;
    switch (r.kind) {
      case OP_TXGET: case OP_TXHAS: case OP_TXINS: case OP_TXREM: case OP_TXROOT: case OP_TXPROVE:
      case OP_TXFULL: case OP_TXINJ: case OP_TXCLEAR:
        x = &st[1 + r.slot];
        if (*x < 0) return false;
    }
    switch (r.kind) {
      case OP_GET: case OP_TXGET: case OP_HAS: case OP_TXHAS: return p || look(*x, r);
      case OP_INSERT: case OP_TXINS:
        if (!p && !r.ret) return false;
        *x = insert(*x, r.key, r.val);
        return true;
      case OP_REMOVE: case OP_TXREM: {
        bool has = kvs[*x]->count(r.key) != 0;
        if (!p) {
          if (r.ret != (has ? 1 : 0)) return false;
          if (!r.ret && r.err != 8) return false;
        }
        if (has) *x = remove(*x, r.key);
        return true;
      }
      case OP_ROOT: case OP_TXROOT: return p || model::root_of(kvs[*x]) == r.out;
      case OP_PROVE: case OP_TXPROVE: return p || (r.ret && proof_ok(*x, r.key, r.out));
      case OP_ITER: case OP_TXFULL: return p || r.kv == *x;
      case OP_INJECT: case OP_TXINJ: if (!p && !r.ret) return false; *x = r.kv; return true;
      case OP_TXNEW: if (!p && !r.ret) return false; st[1 + r.slot] = r.kv >= 0 ? r.kv : st[0]; return true;
      case OP_TXDEL: st[1 + r.slot] = -1; return true;
      case OP_TXCLEAR: *x = st[0]; return true;
      case OP_TXCOMMIT:
        if (st[1 + r.slot] < 0) return false;
        if (!p && !r.ret) return false;
        st[0] = st[1 + r.slot];
        return true;
    }
    return true;
  }
  struct H { size_t operator()(const std::vector<int> &v) const { uint64_t h = 7; for (int x : v) h = mix(h, (uint64_t)x); return h; } };
  // Searches a linearization. order receives record indices.
  uint64_t explored = 0;
  int check(const std::vector<LinRec> &h, const State &init, std::vector<int> &order, State &fin, uint64_t budget) {
    size_t n = h.size();
    std::unordered_set<std::vector<int>, H> memo;
    explored = 0;
    uint64_t required = 0;
    if (n > 62) return -1;
    for (size_t i = 0; i < n; i++) if (!h[i].pending) required |= 1ull << i;
    std::vector<int> path;
    bool over = false;
    std::function<bool(uint64_t, const State &)> go = [&](uint64_t done, const State &st) -> bool {
      if ((done & required) == required) { fin = st; order = path; return true; }
      std::vector<int> m(st);
      m.push_back((int)(done & 0xffffffff));
      m.push_back((int)(done >> 32));
      if (!memo.insert(m).second) return false;
      if (++explored > budget) { over = true; return false; }
      uint64_t minresp = UINT64_MAX;
      for (size_t i = 0; i < n; i++) if (!(done >> i & 1) && !h[i].pending) minresp = std::min(minresp, h[i].resp);
      for (size_t i = 0; i < n && !over; i++) {
        if (done >> i & 1) continue;
        if (h[i].inv > minresp) continue;
        State s2 = st;
        if (!apply(s2, h[i])) continue;
        path.push_back((int)i);
        if (go(done | (1ull << i), s2)) return true;
        path.pop_back();
      }
      return false;
    };
    if (go(0, init)) return 1;
    return over ? -1 : 0;
  }
};
}  // namespace sim
