// Operations of a plan (included by exec.cc).
using CallInfo = Exec::CallInfo;
using Ref = Exec::Ref;
using Buf = Exec::Buf;
struct IO {
  CallInfo ci;
  int ret = 0;
  Bytes key, val, out;
  bool hasout = false, toobig = false;
  int h = -1, t = -1;
  Ref r;
  bool iter_ok = true;     // iteration reached the end
  int iter_err = 0;
  size_t stop = 0;
  std::vector<std::pair<Bytes, Bytes>> list;
};

static bool is_db_op(int k) {
  return k == OP_ROOT || k == OP_GET || k == OP_HAS || k == OP_INSERT || k == OP_REMOVE || k == OP_PROVE || k == OP_ITER || k == OP_INJECT;
}
static bool is_tx_op(int k) {
  return k == OP_TXDEL || k == OP_TXCLEAR || k == OP_TXROOT || k == OP_TXINJ || k == OP_TXGET || k == OP_TXHAS || k == OP_TXINS ||
         k == OP_TXREM || k == OP_TXPROVE || k == OP_TXCOMMIT || k == OP_TXFULL;
}

// Performs the library call of a simple operation. False: not applicable now.
static bool perform(Exec &e, const Op &op, int id, IO &o) {
  int k = op.kind;
  bool conc = e.concurrent && !e.mh;
  int me = cur->id;
  Process *pr;
  urkel_t *db = nullptr;
  urkel_tx_t *tx = nullptr;
  int64_t rsel = -1;
  if (is_db_op(k)) {
    HandleM *h = e.H(op.a[0]);
    if (!h) return false;
    o.h = (int)(h - e.hd);
    db = h->db;
    if (k == OP_GET || k == OP_HAS || k == OP_PROVE) rsel = op.a[2];
    if (k == OP_ITER || k == OP_INJECT) rsel = op.a[1];
  } else if (k == OP_TXNEW) {
    TxM &t = e.tx[((op.a[0] % NT) + NT) % NT];
    o.t = (int)(&t - e.tx);
    if (t.open && t.h >= 0 && e.alive(e.hd[t.h])) return false;
    HandleM *h = e.H(op.a[1]);
    if (!h) return false;
    o.h = (int)(h - e.hd);
    db = h->db;
    rsel = op.a[2];
  } else if (is_tx_op(k)) {
    TxM *t = e.T(op.a[0]);
    if (!t) return false;
    o.t = (int)(t - e.tx);
    o.h = t->h;
    tx = t->tx;
    if (k == OP_TXINJ) rsel = op.a[1];
  } else return false;
  HandleM &hm = e.hd[o.h];
  pr = e.proc[hm.proc];
  // An iterator holds read locks: the thread that owns it must not write.
  bool own_it;
  if (conc) { ItM &x = e.it[me % NI]; own_it = x.open; }
  else own_it = e.has_iters(o.h);
  if (own_it) {
    bool tree_write = k == OP_INSERT || k == OP_REMOVE || k == OP_INJECT || k == OP_TXCOMMIT || k == OP_TXINJ || k == OP_TXCLEAR ||
                      ((k == OP_GET || k == OP_HAS || k == OP_PROVE || k == OP_ITER || k == OP_TXNEW) && (rsel != -1 || hm.reverted));
    if (tree_write) return false;
    if (conc && k != OP_TXGET && k != OP_TXHAS) return false;
    // nor wait for another thread's commit of a transaction
    if (conc && o.t < 2 && e.it[me % NI].t != o.t) return false;
    if (o.t >= 0 && !conc && e.tx_iters(o.t) &&
        (k == OP_TXINS || k == OP_TXREM || k == OP_TXDEL || k == OP_TXROOT || k == OP_TXPROVE)) return false;
  }
  if (conc && !e.mp && o.t >= 2 && o.t != 1 + me) return false;          // private transactions
  if (conc && !e.mp && o.t < 2 && (k == OP_TXDEL || k == OP_TXNEW) ) return false;  // shared ones stay
  if (k == OP_GET || k == OP_HAS || k == OP_PROVE || k == OP_ITER || k == OP_INJECT || k == OP_TXNEW || k == OP_TXINJ) {
    if (conc && !e.mp && rsel < -3) rsel = -2;
    o.r = e.ref(hm, rsel, mix(id, 5));
  }
  switch (k) {
    case OP_GET: case OP_HAS: case OP_INSERT: case OP_REMOVE: case OP_PROVE:
    case OP_TXGET: case OP_TXHAS: case OP_TXINS: case OP_TXREM: case OP_TXPROVE: o.key = e.key(op.a[1]);
  }
  if (k == OP_INSERT || k == OP_TXINS) {
    if (op.a[2] == -1) {
      const KVp &kv = k == OP_INSERT ? hm.visible : e.tx[o.t].kv;
      bool known = kv && kv->count(o.key);
      auto i = known ? kv->find(o.key) : KV::const_iterator();
      o.val = !known ? e.val(0) : i->second;
    } else if (op.a[2] <= -2) { o.val = Bytes(op.a[2] == -2 ? 1024 : 5000, 'z'); o.toobig = true; }
    else o.val = e.val(op.a[2]);
  }
  std::unique_ptr<Buf> rb;
  if (!o.r.null && rsel != -1) rb.reset(new Buf(o.r.hash));
  const unsigned char *root = rb ? rb->p : nullptr;
  std::unique_ptr<Buf> kb(new Buf(o.key)), vb(new Buf(o.val)), big(new Buf((size_t)1023));
  size_t sz = 12345;
  // What a failed call must overwrite.
  static unsigned char poison[1];
  unsigned char *praw = poison;
  size_t plen = 12345;
  urkel_tx_t *ntx = nullptr;
  // in-flight commit, for deaths caused by others
  KVp inflight;
  if (conc && !e.mp) {}
  else if (k == OP_INSERT && !o.toobig) { auto n = std::make_shared<KV>(*hm.visible); (*n)[o.key] = o.val; inflight = n; }
  else if (k == OP_REMOVE && hm.visible->count(o.key)) { auto n = std::make_shared<KV>(*hm.visible); n->erase(o.key); inflight = n; }
  else if (k == OP_TXCOMMIT) inflight = e.tx[o.t].kv;
  if (inflight) e.inflight[o.h] = inflight;
  auto iterate = [&](urkel_iter_t *x) {
    for (;;) {
      Buf k2(32), v2(1023);
      size_t n = 0;
      urkel_errno = 0;
      if (!urkel_iter_next(x, k2.p, v2.p, &n)) {
        o.iter_err = urkel_errno;
        o.iter_ok = o.iter_err == URKEL_EITEREND;
        break;
      }
      if (n > 1023) e.bad("wrong-value", "the iterator reports a value of " + std::to_string(n) + " bytes");
      o.list.push_back({k2.str(32), v2.str(n)});
      if (o.stop && o.list.size() >= o.stop) break;
      if (o.list.size() > 20000) e.bad("iter-extra", "the iterator does not end");
    }
    if (o.iter_ok && !o.stop) e.check_iter_end(x);
    urkel_iter_destroy(x);
    urkel_errno = o.iter_err;
  };
  o.ci = e.call(op, id, pr, [&] {
    switch (k) {
      case OP_ROOT: urkel_root(db, big->p); o.ret = 1; o.out = big->str(32); break;
      case OP_GET: o.ret = urkel_get(db, big->p, &sz, kb->p, root); break;
      case OP_HAS: o.ret = urkel_has(db, kb->p, root); break;
      case OP_INSERT: o.ret = urkel_insert(db, kb->p, vb->p, o.val.size()); break;
      case OP_REMOVE: o.ret = urkel_remove(db, kb->p); break;
      case OP_PROVE: o.ret = urkel_prove(db, &praw, &plen, kb->p, root); break;
      case OP_INJECT: o.ret = urkel_inject(db, root); break;
      case OP_ITER: {
        urkel_iter_t *x = urkel_iterate(db, root);
        o.ret = x != nullptr;
        o.stop = op.a[2] > 0 ? (size_t)op.a[2] : 0;
        if (x) iterate(x);
        break;
      }
      case OP_TXNEW: ntx = urkel_tx_create(db, root); o.ret = ntx != nullptr; break;
      case OP_TXDEL: urkel_tx_destroy(tx); o.ret = 1; break;
      case OP_TXCLEAR: urkel_tx_clear(tx); o.ret = 1; break;
      case OP_TXROOT: urkel_tx_root(tx, big->p); o.ret = 1; o.out = big->str(32); break;
      case OP_TXINJ: o.ret = urkel_tx_inject(tx, root); break;
      case OP_TXGET: o.ret = urkel_tx_get(tx, big->p, &sz, kb->p); break;
      case OP_TXHAS: o.ret = urkel_tx_has(tx, kb->p); break;
      case OP_TXINS: o.ret = urkel_tx_insert(tx, kb->p, vb->p, o.val.size()); break;
      case OP_TXREM: o.ret = urkel_tx_remove(tx, kb->p); break;
      case OP_TXPROVE: o.ret = urkel_tx_prove(tx, &praw, &plen, kb->p); break;
      case OP_TXCOMMIT: o.ret = urkel_tx_commit(tx); break;
      case OP_TXFULL: {
        urkel_iter_t *x = urkel_iter_create(tx);
        o.ret = x != nullptr;
        if (x) iterate(x);
        break;
      }
    }
    if ((k == OP_PROVE || k == OP_TXPROVE) && o.ret && praw == poison) e.bad("proof-wrong", "a proof was not delivered");
    if (praw && praw != poison) {
      int keep = urkel_errno;
      if (plen > 100000) e.bad("proof-wrong", "a proof of absurd size");
      o.out = Bytes((const char *)praw, plen);
      urkel_free(praw);
      praw = nullptr;
      urkel_errno = keep;
    }
  });
  if (k == OP_TXNEW && o.ret && !o.ci.killed) { TxM &t = e.tx[o.t]; t = TxM(); t.tx = ntx; t.h = o.h; t.open = true; t.gen_conc = conc; }
  if (k == OP_TXDEL) e.tx[o.t].open = false;
  if (o.ci.killed) return true;
  e.inflight.erase(o.h);
  if (k == OP_GET || k == OP_TXGET) {
    if (o.ret) {
      if (sz > 1023) e.bad("wrong-value", string(op_name[k]) + " reports a value of " + std::to_string(sz) + " bytes");
      o.out = big->str(sz);
      o.hasout = true;
    } else if (sz != 0) e.bad("wrong-error", string(op_name[k]) + " failed but left a non-zero size");
  }
  if ((k == OP_PROVE || k == OP_TXPROVE) && !o.ret && (plen != 0 || praw != nullptr)) e.bad("wrong-error", "a failed proof left a length or a pointer");
  return true;
}

// Checks the recorded pairs of a full or partial iteration.
static void check_list(Exec &e, const char *what, const IO &o, const KVp &kv, bool relax) {
  auto i = kv->begin();
  for (auto &p : o.list) {
    if (i == kv->end()) e.bad("iter-extra", string(what) + " yields more pairs than the snapshot has (key " + hex(p.first) + ")");
    if (p.first != i->first) e.bad("iter-order", string(what) + " yields key " + hex(p.first) + " where " + hex(i->first) + " is next");
    if (p.second != i->second) e.bad("wrong-value", string(what) + " yields a wrong value for key " + hex(p.first));
    ++i;
  }
  if (!o.iter_ok) {
    if (relax && Exec::is_io_error(o.iter_err)) return;
    e.bad("iter-error", string(what) + " stopped with " + Exec::ename(o.iter_err) + " after " + std::to_string(o.list.size()) + " of " + std::to_string(kv->size()) + " pairs");
  }
  if (o.stop && o.list.size() >= o.stop) return;
  if (i != kv->end()) e.bad("iter-missing", string(what) + " ended after " + std::to_string(o.list.size()) + " of " + std::to_string(kv->size()) + " pairs");
}

// Sequential execution with exact checks.
void Exec::exec_op(const Op &op, int id) {
  w.st.ops++;
  int k = op.kind;
  if (w.verbose) {
    string s = "== op " + std::to_string(id) + " " + op_name[k];
    for (int64_t v : op.a) s += " " + std::to_string(v);
    for (auto &f : op.faults) s += string(" [") + sys_name[f.cls] + "#" + std::to_string(f.nth) + " " + act_name[f.act] + " " + std::to_string(f.arg) + " x" + std::to_string(f.count) + "]";
    w.note(s);
  }
  w.ev("op", k, id);
  if (is_db_op(k) || is_tx_op(k) || k == OP_TXNEW) {
    IO o;
    bool cost = p.k("cost", 0) != 0;
    size_t size0[2] = {cost ? total(dir[0]) : 0, cost ? total(dir[1]) : 0};
    if (!perform(*this, op, id, o)) return;
    HandleM &h = hd[o.h];
    DirM &d = dir[h.dir];
    if (o.ci.killed) {
      // the death already recorded any commit in flight
      int pi = h.proc;
      died(pi);
      return;
    }
    TxM *t = o.t >= 0 ? &tx[o.t] : nullptr;
    bool relax = o.ci.hard > 0 || (t && t->limbo);
    int err = o.ci.err;
    res.faulted += o.ci.any > 0;
    if (o.ci.any) h.faulty = true;
    if (cost && !o.ci.any) {
      bool writes = k == OP_INSERT || k == OP_REMOVE || k == OP_TXCOMMIT;
      if (!writes && (total(d) != size0[h.dir] || o.ci.cnt[S_WRITE] || o.ci.cnt[S_TRUNC])) bad("cost", string(op_name[k]) + " wrote to the database");
      bool plain = o.r.null && !h.reverted;
      if (plain && (k == OP_GET || k == OP_HAS || k == OP_PROVE)) cost_lookup(op_name[k], o.ci, o.r.kv, o.key);
      if (k == OP_TXGET || k == OP_TXHAS || k == OP_TXPROVE) cost_lookup(op_name[k], o.ci, t->kv, o.key);
      // A removal may have to look at the sibling that moves up.
      if (!h.reverted && (k == OP_INSERT || k == OP_REMOVE)) cost_lookup(op_name[k], o.ci, h.visible, o.key, 1, true);
      if (k == OP_TXINS || k == OP_TXREM) cost_lookup(op_name[k], o.ci, t->kv, o.key, 1);
      if ((k == OP_ITER && plain) || k == OP_TXFULL) {
        size_t n = k == OP_ITER ? o.r.kv->size() : t->kv->size();
        if ((size_t)o.ci.cnt[S_READ] > 3 * n + 2) bad("cost", "an iteration over " + std::to_string(n) + " keys made " + std::to_string(o.ci.cnt[S_READ]) + " reads");
      }
    }
    if (t && (k == OP_TXNEW || k == OP_TXCLEAR || (k == OP_TXINJ && o.ret))) { t->touched.clear(); t->removed = t->uncosted = false; }
    if (t && o.ret && (k == OP_TXINS || k == OP_TXREM)) t->touched.insert(o.key);
    if (t && o.ret && k == OP_TXREM) t->removed = true;
    if (!o.ret && (k == OP_INSERT || k == OP_REMOVE)) h.carry += commit_cost(h.visible, h.visible, {o.key}, true) + o.val.size() + 500;
    if (!o.ret && k == OP_TXCOMMIT) h.carry += commit_cost(t->kv, t->base, t->touched, t->removed);
    switch (k) {
      case OP_ROOT:
        if (o.out != model::root_of(h.visible)) bad("wrong-root", "the database reports root " + hex(o.out) + ", its contents have root " + hex(model::root_of(h.visible)));
        break;
      case OP_GET: case OP_HAS:
        if (!o.r.null && (o.r.kind != 0)) {
          if (o.ret) { if (o.r.kind == 1) bad("unknown-root", "a lookup at a root that was never committed succeeded"); check_lookup(op_name[k], o.r.kv, o.key, o.ret, err, o.hasout ? &o.out : nullptr, false); }
          else if (!(err == URKEL_ENOTFOUND || (relax && is_io_error(err)) || (o.r.kind == 2 && is_io_error(err)))) bad("wrong-error", string("a lookup at an unknown root reported ") + ename(err));
          break;
        }
        check_lookup(op_name[k], o.r.kv, o.key, o.ret, err, o.hasout ? &o.out : nullptr, relax);
        break;
      case OP_PROVE: case OP_TXPROVE: {
        Ref r = o.r;
        if (k == OP_TXPROVE) { r.null = true; r.kv = t->kv; r.kind = 0; }
        if (o.ret) {
          if (r.kind == 1) bad("unknown-root", "a proof at a root that was never committed was produced");
          check_proof(op_name[k], r.kv, o.key, o.out);
        } else {
          if (relax && is_io_error(err)) break;
          if (r.kind == 0) bad("proof-failed", string(op_name[k]) + " of key " + hex(o.key) + " failed with " + ename(err));
          if (err != URKEL_ENOTFOUND && !(r.kind == 2 && is_io_error(err))) bad("wrong-error", string("a proof at an unknown root reported ") + ename(err));
        }
        break;
      }
      case OP_ITER:
        if (!check_ref("iterate", o.r, o.ret, err, relax)) break;
        check_list(*this, "an iteration", o, o.r.kv, relax || o.r.kind == 2);
        break;
      case OP_INJECT:
        if (check_ref("inject", o.r, o.ret, err, relax)) { h.visible = o.r.kv; h.revert = true; h.reverted = true; }
        break;
      case OP_INSERT: case OP_REMOVE: {
        bool has = h.visible->count(o.key) != 0;
        if (k == OP_INSERT && o.toobig) {
          if (o.ret || (err != URKEL_EINVAL && !(relax && is_io_error(err)))) bad("wrong-error", string("an oversized value gave ") + (o.ret ? "success" : ename(err)));
          break;
        }
        auto kv = std::make_shared<KV>(*h.visible);
        if (k == OP_INSERT) (*kv)[o.key] = o.val; else kv->erase(o.key);
        if (o.ret) {
          if (k == OP_REMOVE && !has) bad("phantom-key", "removing an absent key succeeded");
          if (cost && !o.ci.any) cost_commit(h, o.ci, size0[h.dir], kv, h.visible, {o.key}, false);
          committed(h, kv, o.ci.any);
        } else if (k == OP_REMOVE && !has && err == URKEL_ENOTFOUND) {
        } else {
          if (!(relax && is_io_error(err))) bad(k == OP_REMOVE && has ? "lost-key" : "write-failed", string(op_name[k]) + " of key " + hex(o.key) + " failed with " + ename(err));
          if (err == URKEL_EBADWRITE) { pending(h, kv); w.probe("commit_failed"); }
        }
        break;
      }
      case OP_TXNEW: {
        bool got = check_ref("transaction creation", o.r, o.ret, err, relax);
        if (got) t->kv = t->base = o.r.kv;
        break;
      }
      case OP_TXDEL: break;
      case OP_TXCLEAR: t->kv = t->base = h.visible; t->limbo = false; break;
      case OP_TXROOT:
        if (o.out != model::root_of(t->kv)) bad("wrong-root", "a transaction reports root " + hex(o.out) + ", its contents have root " + hex(model::root_of(t->kv)));
        break;
      case OP_TXINJ:
        if (check_ref("transaction inject", o.r, o.ret, err, relax)) { t->kv = t->base = o.r.kv; t->limbo = false; }
        break;
      case OP_TXGET: case OP_TXHAS:
        check_lookup(op_name[k], t->kv, o.key, o.ret, err, o.hasout ? &o.out : nullptr, relax);
        break;
      case OP_TXINS: case OP_TXREM: {
        bool has = t->kv->count(o.key) != 0;
        if (k == OP_TXINS && o.toobig) {
          if (o.ret || err != URKEL_EINVAL) bad("wrong-error", string("an oversized value gave ") + (o.ret ? "success" : ename(err)));
          break;
        }
        if (!o.ret) {
          if (k == OP_TXREM && !has && err == URKEL_ENOTFOUND) break;
          if (relax && is_io_error(err)) break;
          bad(k == OP_TXREM && has ? "lost-key" : "write-failed", string(op_name[k]) + " of key " + hex(o.key) + " failed with " + ename(err));
        }
        if (k == OP_TXREM && !has) bad("phantom-key", "removing an absent key succeeded");
        auto kv = std::make_shared<KV>(*t->kv);
        if (k == OP_TXINS) (*kv)[o.key] = o.val; else kv->erase(o.key);
        t->kv = kv;
        break;
      }
      case OP_TXCOMMIT:
        if (o.ret) {
          if (cost && !o.ci.any && !t->uncosted) cost_commit(h, o.ci, size0[h.dir], t->kv, t->base, t->touched, t->removed);
          else h.carry += total(d) - std::min(total(d), size0[h.dir]);
          t->touched.clear();
          t->removed = false;
          t->base = t->kv;
          t->uncosted = false;
          committed(h, t->kv, o.ci.any);
          break;
        }
        t->uncosted = true;
        if (!relax || err != URKEL_EBADWRITE) bad("commit-failed", string("commit failed with ") + ename(err) + (relax ? "" : " though nothing went wrong"));
        pending(h, t->kv);
        t->limbo = true;
        w.probe("commit_failed");
        break;
      case OP_TXFULL:
        check_list(*this, "an iteration of a transaction", o, t->kv, relax);
        break;
    }
    if (cost) cost_memory(h);
    (void)d;
    return;
  }
  switch (k) {
    case OP_OPEN: do_open(op, id); break;
    case OP_CLOSE: { HandleM *h = H(op.a[0]); if (h) close_handle(op, id, *h); break; }
    case OP_DESTROY: do_destroy(op, id); break;
    case OP_KILL: {
      int pi = (int)(((op.a[0] % NP) + NP) % NP);
      if (!proc[pi] || !proc[pi]->alive) break;
      if (concurrent && !mp) break;
      w.st.crash_idle++;
      kill_proc(pi);
      break;
    }
    case OP_POWER: if (!concurrent) do_power(op); break;
    case OP_DAMAGE: if (!concurrent) do_damage(op); break;
    case OP_FORGE: do_forge(op, id); break;
    case OP_CLI: do_cli(op, id); break;
    case OP_FILL: {
      TxM *t = T(op.a[0]);
      if (!t || tx_iters((int)(t - tx))) break;
      Process *pr = proc[hd[t->h].proc];
      auto kv = std::make_shared<KV>(*t->kv);
      CallInfo ci = call(op, id, pr, [&] {
        for (int64_t i = 0; i < op.a[2]; i++) {
          Bytes ks = key(op.a[1] + i), vs = val(op.a[3] + i);
          Buf kb(ks), vb(vs);
          urkel_errno = 0;
          if (!urkel_tx_insert(t->tx, kb.p, vb.p, vb.n)) {
            if (cur->op.fired_hard && is_io_error(urkel_errno)) continue;
            if (t->limbo && is_io_error(urkel_errno)) continue;
            bad("write-failed", string("insert into a transaction failed with ") + ename(urkel_errno));
          }
          (*kv)[ks] = vs;
          t->touched.insert(ks);
        }
      });
      if (ci.killed) { died(hd[t->h].proc); break; }
      if (ci.any) hd[t->h].faulty = true;
      t->kv = kv;
      break;
    }
    case OP_MANY: {  // a long history of small commits
      if (concurrent) break;
      Rng q(mix((uint64_t)op.a[3], 4711));
      for (int64_t i = 0; i < op.a[2] && H(op.a[0]); i++) {
        Op o;
        int x = (int)q.below(100);
        o.kind = x < 60 ? OP_INSERT : x < 80 ? OP_REMOVE : x < 90 ? OP_GET : x < 95 ? OP_ROOT : OP_HAS;
        o.a[0] = op.a[0];
        o.a[1] = op.a[1] + (int64_t)q.below(1 + (uint64_t)nkeys);
        o.a[2] = (int64_t)q.below(1u << 30);
        if (o.kind == OP_GET || o.kind == OP_HAS) o.a[2] = q.chance(1, 2) ? (int64_t)q.below(1000) : -1;
        exec_op(o, -1);
      }
      break;
    }
    case OP_ITNEW: case OP_ITDB: {
      ItM &x = it[((op.a[0] % NI) + NI) % NI];
      if (I(op.a[0])) break;
      x = ItM();
      if (k == OP_ITNEW) {
        TxM *t = T(op.a[1]);
        if (!t) break;
        CallInfo ci = call(op, id, proc[hd[t->h].proc], [&] { x.it = urkel_iter_create(t->tx); });
        if (ci.killed) { died(hd[t->h].proc); break; }
        x.kv = t->kv; x.h = t->h; x.t = (int)(t - tx); x.limbo = t->limbo;
        x.open = x.it != nullptr;
        break;
      }
      HandleM *h = H(op.a[1]);
      if (!h) break;
      if (has_iters((int)(h - hd)) && (op.a[2] != -1 || h->reverted)) break;
      Ref r = ref(*h, op.a[2], mix(id, 6));
      Buf rb(r.null ? Bytes(32, '\0') : r.hash);
      CallInfo ci = call(op, id, proc[h->proc], [&] { x.it = urkel_iterate(h->db, r.null ? nullptr : rb.p); });
      if (ci.killed) { died(h->proc); break; }
      res.faulted += ci.any > 0;
      if (check_ref("iterate", r, x.it != nullptr, ci.err, ci.hard > 0)) {
        x.kv = r.kv; x.h = (int)(h - hd); x.open = true; x.limbo = r.kind == 2;
      }
      break;
    }
    case OP_ITNEXT: case OP_DRAIN: {
      ItM *x = I(op.a[0]);
      if (!x) break;
      int64_t n = k == OP_DRAIN ? INT64_MAX : op.a[1];
      CallInfo ci = call(op, id, proc[hd[x->h].proc], [&] {
        auto i = x->any ? x->kv->upper_bound(x->last) : x->kv->begin();
        for (int64_t j = 0; j < n; j++) {
          Buf kb(32), vb(1023);
          size_t sz = 0;
          urkel_errno = 0;
          bool keyonly = op.a[2] == 1;
          int r = keyonly ? urkel_iter_next(x->it, kb.p, nullptr, nullptr) : urkel_iter_next(x->it, kb.p, vb.p, &sz);
          if (!r) {
            int err = urkel_errno;
            if (err == URKEL_EITEREND) {
              if (!x->ended && i != x->kv->end()) bad("iter-missing", string("an iterator ended early") + (x->errored ? " after an earlier read error" : "") + ": key " + hex(i->first) + " was not yielded");
              x->ended = true;
              check_iter_end(x->it);
              break;
            }
            if (!is_io_error(err) || !(cur->op.fired_hard || x->limbo)) bad("iter-error", string("an iterator stopped with ") + ename(err));
            x->errored = true;
            break;
          }
          if (x->ended) bad("iter-extra", "an iterator went on after reporting the end");
          if (i == x->kv->end()) bad("iter-extra", "an iterator yields more pairs than its snapshot has");
          if (kb.str(32) != i->first) bad("iter-order", string("an iterator yields key ") + hex(kb.str(32)) + " where " + hex(i->first) + " is next" + (x->errored ? " (after an earlier read error)" : ""));
          if (!keyonly && vb.str(sz) != i->second) bad("wrong-value", "an iterator yields a wrong value for key " + hex(i->first));
          x->last = i->first;
          x->any = true;
          ++i;
        }
      });
      res.faulted += ci.any > 0;
      if (ci.killed) died(hd[x->h].proc);
      break;
    }
    case OP_ITDEL: {
      ItM *x = I(op.a[0]);
      if (!x) break;
      int pi = hd[x->h].proc;
      x->open = false;
      CallInfo ci = call(op, id, proc[pi], [&] { urkel_iter_destroy(x->it); });
      if (ci.killed) died(pi);
      break;
    }
    case OP_AUDIT: { HandleM *h = H(op.a[0]); if (h && (!concurrent || mh)) audit(op, id, *h, (int)op.a[1]); break; }
    case OP_FOREIGN: {
      static const char *names[] = {"notes.txt", "0000000001.bak", "meta2", "000000001", "00000000001", "lock.old", "-000000001", "000000000a", ".hidden", "META", "4294967296", "99999999999999999999", "4294967297", "9999999999", "00000000010", "0000000001~"};
      DirM &d = dir[op.a[0] & 1];
      if (!w.exists(d.path)) break;
      string n = names[(size_t)op.a[1] % (sizeof names / sizeof *names)];
      if (d.foreign.count(n)) break;
      string c = "foreign " + n + string((size_t)(op.a[1] * 7 % 50), '#');
      w.write_file(d.path + "/" + n, c);
      w.tree[d.path + "/" + n]->protected_ = true;
      d.foreign[n] = c;
      break;
    }
    case OP_LISTCHK: list_check(dir[op.a[0] & 1]); break;
    case OP_LIMITS: if (!concurrent) do_limits(op); break;
    case OP_IMPORT: if (!concurrent) do_import(op); break;
    case OP_COPY: if (!concurrent) do_copy(op); break;
    case OP_STORED: if (!concurrent) check_stored(dir[op.a[0] & 1]); break;
    case OP_CHDIR: do_chdir(op, P((int)op.a[0])); break;
    case OP_NOP: default: break;
  }
}

void Exec::do_chdir(const Op &op, Process *pr) {
  static const char *fixed[] = {"/", "/x", "/dev"};
  int64_t x = ((op.a[1] % 5) + 5) % 5;
  string to = x < 3 ? fixed[x] : dir[x - 3].path;
  if (!w.exists(to)) return;
  pr->cwd = to;
  pr->cwd_ino = (uint64_t)w.tree[to]->id;
  w.ev("chdir", x);
  w.probe("chdir");
}

void Exec::list_check(DirM &d) {
  for (auto &f : d.foreign) {
    if (!w.exists(d.path + "/" + f.first)) bad("foreign-file", "a file that is not part of the database disappeared: " + f.first);
    if (w.read_file(d.path + "/" + f.first) != f.second) bad("foreign-file", "a file that is not part of the database was changed: " + f.first);
  }
}

void Exec::kill_proc(int pi) {
  Process *pr = proc[pi];
  w.kill(pr);
  died(pi);
}

void Exec::do_destroy(const Op &op, int id) {
  int pi = (int)(((op.a[0] % NP) + NP) % NP);
  DirM &d = dir[op.a[1] & 1];
  Process *pr = P(pi);
  string path = op.a[2] ? variant_path(d.path, op.a[2], pr) : d.path;
  bool owned0 = d.owner_live > 0;
  auto before = snapshot(d, owned0);
  bool overlapped = d.busy > 0;
  uint64_t begin = ++clock_;
  d.busy++;
  d.destroying++;
  d.destroys++;
  int left0 = d.left;
  d.last_begin = begin;
  bool existed = w.exists(d.path);
  int opens0 = d.opens;
  int ret = 0;
  CallInfo ci = call(op, id, pr, [&] { ret = urkel_destroy(path.c_str()); });
  d.busy--;
  d.destroying--;
  if (d.last_begin > begin) overlapped = true;
  d.last_begin = ++clock_;
  res.faulted += ci.any > 0;
  list_check(d);
  // Unless one owner was there all the time, this call may have removed
  // something; an owner that opened meanwhile has seen the outcome.
  bool held = owned0 && d.left == left0;
  if (ci.killed) { if (!held && d.owner_live == 0) d.partial_destroy = true; died(pi); return; }
  if (ret) {
    if (leak && !concurrent) leak_check(pr, "after destroying a database");
    if (held) bad("destroyed-open", "a database that is open was destroyed");
    if (d.opens == opens0 && !overlapped) {
      if (w.exists(d.path)) bad("destroy-incomplete", "destroy succeeded but the directory is still there");
      d.chain.clear(); d.pending.clear(); d.may.clear(); d.ghosts.clear();
      d.partial_destroy = false;
      d.use_low = false;
      expect_damage_set = false;
    } else if (d.owner_live == 0) { d.partial_destroy = true; }
    w.probe("destroyed");
    return;
  }
  if (ci.err != URKEL_EBADOPEN) bad("wrong-error", string("a failed destroy reported ") + ename(ci.err));
  if (leak && !concurrent) leak_check(pr, "after a failed destroy");
  if (held) { w.probe("destroy_refused"); compare_snapshot(d, before, "destroy"); return; }
  if (overlapped || owned0) { if (d.owner_live == 0) d.partial_destroy = true; w.probe("destroy_refused_race"); return; }
  if (!existed) return;
  if (ci.hard || !d.foreign.empty() || d.broken_ok) { d.partial_destroy = true; w.probe("destroy_partial"); return; }
  bad("destroy-failed", "destroying an unowned database failed");
}

void Exec::do_power(const Op &op) {
  Rng r((uint64_t)op.a[1]);
  std::map<string, std::pair<int, string>> before;
  for (auto &d : dir)
    for (auto &n : w.list(d.path))
      if (data_name(n)) { auto i = w.tree[d.path + "/" + n]; before[d.path + "/" + n] = {i->id, i->data}; }
  for (int i = 0; i < NP; i++) if (proc[i] && proc[i]->alive) kill_proc(i);
  w.power_loss(r, (int)(((op.a[0] % 4) + 4) % 4));
  for (auto &d : dir) {
    size_t low = 0;
    for (size_t i = d.chain.size(); i-- > 0;) {
      bool all = true;
      for (auto &x : d.chain[i].extent) {
        auto t = w.tree.find(x.first);
        auto b = before.find(x.first);
        if (t == w.tree.end() || b == before.end() || t->second->id != x.second.first || t->second->size() < x.second.second ||
            t->second->data.compare(0, x.second.second, b->second.second, 0, x.second.second) != 0) { all = false; break; }
      }
      if (all) { low = i + 1; break; }
    }
    if (d.use_low) low = std::min(low, d.low);
    if (sync_build) {
      if (low < d.chain.size()) w.probe("acked_bytes_lost");
      size_t acked = d.chain.size();
      while (acked > 0 && !d.chain[acked - 1].acked) acked--;
      low = std::max(low, acked);
    }
    d.low = low;
    d.use_low = true;
    for (auto f = d.foreign.begin(); f != d.foreign.end();) { if (!w.exists(d.path + "/" + f->first)) f = d.foreign.erase(f); else { f->second = w.read_file(d.path + "/" + f->first); ++f; } }
  }
}

void Exec::do_damage(const Op &op) {
  DirM &d = dir[0];
  for (int i = 0; i < NP; i++) if (proc[i] && proc[i]->alive) kill_proc(i);
  if (!d.pending.empty() || d.partial_destroy || d.use_low || expect_damage_set) return;
  Rng r((uint64_t)op.a[1]);
  std::vector<string> files;
  for (auto &n : w.list(d.path)) if (data_name(n)) files.push_back(d.path + "/" + n);
  if (files.empty()) return;
  size_t nc = d.chain.size();
  // where the damage begins
  size_t f = files.size() - 1, cut = 0;
  auto size_of = [&](size_t i) { return w.tree[files[i]]->data.size(); };
  int kind = (int)(((op.a[0] % 7) + 7) % 7);
  if (kind == 3 || nc == 0) {
    cut = size_of(f);
  } else {
    size_t c = r.below(std::min<size_t>(nc, 4));
    auto &ext = d.chain[nc - 1 - c].extent;
    if (ext.empty()) return;
    string fn = ext.back().first;
    for (size_t i = 0; i < files.size(); i++) if (files[i] == fn) f = i;
    int64_t end = (int64_t)ext.back().second.second;
    static const int off[] = {0, 0, 1, 2, 19, 20, 37, 38, 39, 40, 76, 100};
    int64_t o = r.chance(1, 4) ? (int64_t)r.below(end + 1) : end - off[r.below(sizeof off / sizeof *off)];
    if (r.chance(1, 6)) o = end + (int64_t)r.below(40);
    cut = (size_t)std::max<int64_t>(0, std::min<int64_t>(o, (int64_t)size_of(f)));
  }
  // newest commit wholly before it
  size_t keep = 0;
  for (size_t i = nc; i-- > 0;) {
    auto &ext = d.chain[i].extent;
    string fn = ext.empty() ? "" : ext.back().first;
    bool ok = !ext.empty() && (fn < files[f] || (fn == files[f] && ext.back().second.second <= cut));
    if (ok) { keep = i + 1; break; }
  }
  auto put = [&](size_t i, const string &data) {
    bool prot = false; (void)prot;
    w.write_file(files[i], data);
  };
  string cur_data = w.tree[files[f]]->data;
  string head = cur_data.substr(0, cut), tail = cur_data.substr(cut);
  string junk;
  switch (kind) {
    case 0: junk = ""; break;
    case 1: for (size_t i = 0; i < tail.size(); i++) junk += (char)(tail[i] ^ (1 + r.below(255))); break;
    case 2: junk = string(tail.size(), '\0');
      // a zero that was there before is no damage: make sure later records die
      break;
    case 3: {
      if (p.k("bigtail", 0)) {   // longer than the shipped read buffer
        size_t n = (1u << 20) * (size_t)r.below(3) + r.below(1u << 20);
        bool zero = r.chance(1, 3);
        uint64_t x = r.next();
        junk.resize(n, '\0');
        if (!zero) for (size_t i = 0; i < n; i++) { if (i % 8 == 0) x = x * 6364136223846793005ull + 1442695040888963407ull; junk[i] = (char)(x >> (i % 8 * 8)); }
        w.probe("tail_over_read_buffer");
        break;
      }
      size_t n = 1 + r.below(200); for (size_t i = 0; i < n; i++) junk += (char)r.next(); break;
    }
    default: break;
  }
  if (kind >= 4 || (kind == 3 && r.chance(1, 2))) {
    // records that imitate a commit: real ones with something changed, and fakes
    size_t n = 1 + r.below(6);
    size_t misal = r.chance(2, 3) ? (38 - (head.size() + junk.size()) % 38) % 38 : r.below(40);
    junk += string(misal, r.chance(1, 2) ? '\0' : 'j');
    for (size_t i = 0; i < n; i++) {
      Bytes m;
      if (r.chance(1, 2) && nc > 0) {
        size_t ci = r.below(nc);
        auto &ext = d.chain[ci].extent;
        string whole;
        for (size_t q = 0; q < files.size(); q++) if (!ext.empty() && files[q] == ext.back().first) whole = q == f ? cur_data : w.tree[files[q]]->data;
        size_t end = ext.empty() ? 0 : ext.back().second.second;
        if (end >= 38 && whole.size() >= end) {
          m = whole.substr(end - 38, 38);
          switch (r.below(6)) {
            case 5: m = m.substr(0, 18) + model::blake2b(m.substr(0, 18), 20, Bytes(32, '\0')); break;
            case 0: m[r.below(38)] ^= (char)(1 << r.below(8)); break;
            case 1: for (int q = 18; q < 38; q++) m[q] = (char)r.next(); break;
            case 2: for (int q = 18; q < 38; q++) m[q] = 0; break;
            case 3: m[4 + r.below(14)] ^= (char)(1 + r.below(255)); break;
            default: {  // an unkeyed checksum a stranger could compute
              Bytes sum = model::blake2b(m.substr(0, 18), 20);
              m = m.substr(0, 18) + sum;
              break;
            }
          }
        }
      }
      if (m.size() != 38) m = fake_meta(r);
      junk += m;
      if (r.chance(1, 4)) junk += string(r.below(50), 'q');
    }
  }
  if (kind == 6) {  // an additional file full of imitations
    junk += string((38 - (head.size() + junk.size()) % 38) % 38, '\0');
  }
  // Destroy the record of every commit that is not wholly before the damage.
  string now = head + junk;
  for (size_t i = keep; i < nc; i++) {
    auto &ext = d.chain[i].extent;
    if (ext.empty() || ext.back().first != files[f]) continue;
    size_t end = ext.back().second.second;
    if (end > now.size()) continue;
    size_t a = end - 38;
    if (now.compare(a, 38, cur_data, a, 38) == 0) {
      size_t lo = std::max(a, cut);
      if (lo >= end) continue;
      now[lo + r.below(end - lo)] ^= (char)(1 + r.below(255));
    }
  }
  put(f, now);
  for (size_t i = f + 1; i < files.size(); i++) {
    // files behind the damage: gone, emptied or garbage
    bool gone = kind == 0 || kind == 4 || (kind != 3 && r.chance(1, 2));
    if (gone) { for (size_t j = i; j < files.size(); j++) w.remove(files[j]); break; }
    string g;
    size_t n = r.chance(1, 3) ? 0 : r.below(300);
    for (size_t q = 0; q < n; q++) g += (char)r.next();
    put(i, g);
  }
  w.st.damage++;
  w.ev("damage", kind, (int64_t)f, (int64_t)cut);
  if (w.verbose) w.note("damage kind " + std::to_string(kind) + " file " + files[f] + " from " + std::to_string(cut) + ", expect commit " + std::to_string(keep) + " of " + std::to_string(nc));
  w.flush_all();
  expect_damage = (int)keep;
  expect_damage_set = true;
  damaged_run = true;
}

// ---------------------------------------------------------------- stored format
// Other limits, as another build would have them, for all later openings.
void Exec::do_limits(const Op &op) {
  for (auto &h : hd) if (alive(h)) return;
  urkel_sim_max_file_size = (unsigned long)op.a[0];
  urkel_sim_max_open_files = (unsigned long)op.a[1];
  urkel_sim_write_buffer = (unsigned long)op.a[2];
  urkel_sim_read_buffer = (unsigned long)op.a[3];
  lim_file = lim_file && op.a[0] ? std::max(lim_file, op.a[0]) : 0;
  lim_open = op.a[1];
  w.ev("limits", op.a[0], op.a[1]);
  w.probe("limits_changed");
}
// A database written by another program.
void Exec::do_import(const Op &op) {
  DirM &d = dir[op.a[0] & 1];
  if (w.exists(d.path) || d.busy || d.owner_live || !d.chain.empty() || !d.pending.empty() || !w.exists(parent_of(d.path))) return;
  Rng r((uint64_t)op.a[1]);
  model::Writer wr;
  wr.key = rnd32(91, (uint64_t)op.a[1]);
  wr.state = r.next();
  wr.maxfile = (size_t)op.a[4];
  wr.shuffle = op.a[3] & 1; wr.gaps = op.a[3] & 2; wr.share = !(op.a[3] & 4); wr.junkpad = op.a[3] & 8;
  if (op.a[3] & 16) {  // data that no commit refers to any more, in files of its own
    size_t n = 1 + r.below(r.chance(1, 3) ? 600 : 20);
    for (size_t i = 0; i < n; i++) { wr.append(string(r.below(40), 'f')); wr.files.push_back(model::File()); }
  }
  if (op.a[3] & 32) wr.append(string(r.chance(1, 5) ? (1 << 22) + r.below(1 << 23) : 1000 + r.below(140000), 'g'));
  if (op.a[3] & 128) {  // up to the real limit of a file's size
    uint64_t lim = 0x7ffff000, n = r.chance(1, 2) ? lim - r.below(6000) : r.chance(1, 2) ? (1ull << (21 + r.below(10))) - r.below(3000) : (1 << 21) + r.below(lim - (1 << 21));
    wr.files.back().hole = n;
    wr.files.back().b.clear();
    wr.maxfile = lim;
    w.probe("imported_large");
  }
  if ((op.a[3] & 176) && lim_file) lim_file = 0;
  w.mkdir(d.path);
  w.write_file(d.path + "/meta", wr.key);
  auto kv = std::make_shared<KV>();
  for (int64_t i = 0; i < op.a[2]; i++) {
    auto next = std::make_shared<KV>(*kv);
    size_t m = r.below(r.chance(1, 4) ? 40 : 6);
    for (size_t j = 0; j < m; j++) { Bytes k = key((int64_t)r.below(nkeys)); if (r.chance(1, 4)) next->erase(k); else (*next)[k] = val((int64_t)r.below(1u << 30)); }
    if (r.chance(1, 25)) next->clear();
    kv = next;
    wr.commit(*kv);
    Commit c;
    c.kv = kv;
    c.root = model::root_of(kv);
    d.chain.push_back(c);
  }
  if ((op.a[3] & 64) && !d.chain.empty()) wr.append(string(r.below(100), 't'));  // what a killed commit leaves
  for (size_t i = 0; i < wr.files.size(); i++) {
    char name[16];
    snprintf(name, sizeof name, "/%010u", (unsigned)(i + 1));
    w.write_file(d.path + name, wr.files[i].b);
    w.set_hole(d.path + name, wr.files[i].hole);
    if (lim_file && (int64_t)wr.files[i].size() > lim_file) lim_file = (int64_t)wr.files[i].size();
  }
  w.flush_all();
  w.ev("import", (int64_t)d.chain.size(), (int64_t)wr.files.size());
  w.probe("imported");
}
// cp -a of the directory, open or not; what was at the destination is gone.
void Exec::do_copy(const Op &op) {
  DirM &s = dir[op.a[0] & 1], &t = dir[(op.a[0] & 1) ^ 1];
  if (t.owner_live || t.busy || t.destroying || s.destroying || s.partial_destroy || t.partial_destroy || expect_damage_set || s.broken_ok || !w.exists(s.path)) return;
  if (!t.foreign.empty() || !s.foreign.empty()) return;
  if (w.exists(t.path)) for (auto &n : w.list(t.path)) w.remove(t.path + "/" + n);
  else if (!w.mkdir(t.path)) return;
  for (auto &n : w.list(s.path)) {
    if (n == "lock" && !(op.a[1] & 1)) continue;
    w.write_file(t.path + "/" + n, w.read_file(s.path + "/" + n));
    w.set_hole(t.path + "/" + n, w.hole_of(s.path + "/" + n));
  }
  string path = t.path;
  t = s;
  t.path = path;
  t.owner_live = t.busy = t.destroying = t.destroys = t.left = 0;
  for (auto &c : t.chain) for (auto &e : c.extent) e.first = path + e.first.substr(s.path.size());
  w.flush_all();
  w.ev("copy", (int64_t)s.owner_live, (int64_t)t.chain.size());
  w.probe(s.owner_live ? "copied_open" : "copied_closed");
}
// Reads the files without the library.
void Exec::check_stored(DirM &d) {
  if (!d.pending.empty() || d.use_low || d.partial_destroy || d.destroying || (expect_damage_set && &d == &dir[0])) return;
  if (!w.exists(d.path) || d.chain.empty()) return;
  std::vector<Bytes> names;
  std::vector<model::File> files;
  for (auto &n : w.list(d.path)) if (data_name(n)) names.push_back(n);
  std::sort(names.begin(), names.end());
  for (size_t i = 0; i < names.size(); i++) {
    if (names[i].size() != 10 || strtoul(names[i].c_str(), nullptr, 10) != i + 1) bad("stored-format", "the data files are not numbered 1, 2, ...: " + names[i]);
    model::File f;
    f.b = w.read_file(d.path + "/" + names[i]);
    f.hole = w.hole_of(d.path + "/" + names[i]);
    files.push_back(f);
  }
  if (!w.exists(d.path + "/meta")) bad("stored-format", "the key file is missing");
  Bytes k = w.read_file(d.path + "/meta");
  if (k.size() != 32) bad("stored-format", "the key file has " + std::to_string(k.size()) + " bytes");
  model::Stored s = model::read_stored(k, files);
  if (!s.err.empty()) bad("stored-format", "a reader of the established format fails: " + s.err);
  if (s.roots.empty()) bad("stored-format", "a reader of the established format finds no commit, but there are " + std::to_string(d.chain.size()));
  // every acknowledged commit, in order; equal neighbours count once
  size_t at = 0;
  for (size_t i = d.chain.size(); i-- > 0;) {
    if (i + 1 < d.chain.size() && d.chain[i].root == d.chain[i + 1].root) continue;
    while (at < s.roots.size() && s.roots[at] != d.chain[i].root) at++;
    if (at == s.roots.size()) bad("stored-format", "a reader of the established format does not find commit " + std::to_string(i + 1) + " of " + std::to_string(d.chain.size()));
  }
  if (s.roots[0] != d.chain.back().root) bad("stored-format", "a reader of the established format finds another commit than the last one as the newest");
  w.probe("stored_read");
}

// ---------------------------------------------------------------- forged proofs
static bool path_leaf_at(const model::Np &, const Bytes &) { return true; }
void Exec::do_forge(const Op &op, int id) {
  HandleM *h = H(op.a[0]);
  if (!h) return;
  (void)path_leaf_at;
  Rng r(mix((uint64_t)op.a[2], 17));
  Ref rf = ref(*h, op.a[3], mix(id, 8));
  if (!rf.kv || rf.kind != 0) return;
  KVp kv = rf.kv;
  model::Np root = model::build(*kv);
  Bytes rooth = root->hash;
  std::vector<Bytes> keys;
  for (auto &x : *kv) keys.push_back(x.first);
  Bytes k0 = key(op.a[1]);
  auto pick = [&]() -> Bytes { return keys.empty() || r.chance(1, 4) ? key((int64_t)r.below(1000)) : keys[r.below(keys.size())]; };
  auto path = [&](const Bytes &k) {
    std::vector<model::Np> v;
    model::Np n = root;
    unsigned d = 0;
    for (;;) {
      v.push_back(n);
      if (n->type != 2) break;
      bool m = true;
      for (size_t i = 0; i < n->prefix.size(); i++) if (n->prefix[i] != model::bit(k, d + i)) m = false;
      if (!m) break;
      d += n->prefix.size();
      n = model::bit(k, d) ? n->r : n->l;
      d++;
    }
    return v;
  };
  int count = (int)op.a[4];
  if (count <= 0) count = 24;
  call(op, id, proc[h->proc], [&] {
    for (int i = 0; i < count; i++) {
      Bytes k = r.chance(1, 3) ? pick() : k0;
      Bytes against = rooth;
      KVp akv = kv;
      model::Proof p = model::prove(root, k);
      Bytes raw = model::encode(p);
      size_t b0 = raw.size();
      int strat = (int)r.below(20);
      switch (strat) {
        case 0: break;  // the honest proof
        case 1: raw = model::encode(model::prove(root, pick())); break;
        case 2: { int n = 1 + (int)r.below(3); for (int q = 0; q < n; q++) raw[r.below(raw.size())] ^= (char)(1 << r.below(8)); break; }
        case 3: raw.resize(r.below(raw.size())); break;
        case 4: { size_t n = 1 + r.below(40); for (size_t q = 0; q < n; q++) raw += (char)(r.chance(1, 2) ? 0 : r.next()); break; }
        case 5: if (!p.nodes.empty()) { size_t q = r.below(p.nodes.size()); p.nodes.insert(p.nodes.begin() + q, p.nodes[q]); if (r.chance(1, 2)) p.depth += 1 + p.nodes[q].prefix.size(); raw = model::encode(p); } break;
        case 6: if (!p.nodes.empty()) { size_t q = r.below(p.nodes.size()); unsigned ps = 1 + p.nodes[q].prefix.size(); p.nodes.erase(p.nodes.begin() + q); if (r.chance(1, 2) && p.depth >= ps) p.depth -= ps; raw = model::encode(p); } break;
        case 7: if (p.nodes.size() >= 2) { size_t q = r.below(p.nodes.size() - 1); std::swap(p.nodes[q], p.nodes[q + 1]); raw = model::encode(p); } break;
        case 8: if (p.type == 3) { switch (r.below(4)) { case 0: p.value.clear(); break; case 1: p.value += 'x'; break; case 2: if (!p.value.empty()) p.value[r.below(p.value.size())] ^= 1; break; default: if (!keys.empty()) p.value = kv->at(keys[r.below(keys.size())]); } if (p.value.size() > 1023) p.value.resize(1023); raw = model::encode(p); } break;
        case 9: if (p.type == 3) { p.hash = model::blake2b(p.value, 32); p.key = k; p.type = 2; raw = model::encode(p); } break;
        case 10: case 11: {  // claim absence at an inner node on the path
          auto v = path(k);
          size_t q = r.below(v.size());
          model::Np n = v[q];
          if (n->type != 2) break;
          if (p.nodes.size() < q) break;
          p.nodes.resize(q);
          p.depth = 0;
          for (auto &x : p.nodes) p.depth += 1 + x.prefix.size();
          if (strat == 10) { p.type = 1; p.prefix = n->prefix; if (p.prefix.empty()) p.prefix.push_back((int)r.below(2)); p.left = n->l->hash; p.right = n->r->hash; }
          else p.type = 0;
          raw = model::encode(p);
          break;
        }
        case 12: {  // claim existence with a made-up value
          p.type = 3; p.value = val((int64_t)r.below(1000)); raw = model::encode(p); break;
        }
        case 13: {  // another leaf's record in place of this one
          if (keys.empty()) break;
          Bytes o2 = keys[r.below(keys.size())];
          p.type = 2; p.key = o2; p.hash = model::blake2b(kv->at(o2), 32); raw = model::encode(p); break;
        }
        case 14: {  // right proof, other root
          DirM &d = dir[h->dir];
          if (d.chain.empty()) break;
          auto &c = d.chain[r.below(d.chain.size())];
          against = c.root; akv = c.kv;
          break;
        }
        case 15: { raw.clear(); size_t n = r.below(200); for (size_t q = 0; q < n; q++) raw += (char)r.next(); break; }
        case 16: case 17: {  // a walk to another key's leaf, with the depth shifted until this key's bits agree
          Bytes k2 = pick();
          if (k2 == k) break;
          p = model::prove(root, k2);
          std::vector<int> dirs;
          unsigned d2 = 0;
          for (auto &x : p.nodes) { d2 += x.prefix.size(); dirs.push_back(model::bit(k2, d2)); d2++; }
          if (p.type == 3) { p.type = 2; p.key = k2; p.hash = model::blake2b(p.value, 32); }
          unsigned base = p.depth;
          bool placed = false;
          for (int sh = 1; sh < 200 && !placed; sh++) {
            unsigned dd = 0; bool ok = true;
            for (size_t q = 0; q < p.nodes.size() && ok; q++) {
              for (size_t z = 0; z < p.nodes[q].prefix.size() && ok; z++) if (sh + dd + z < 256 && model::bit(k, sh + dd + z) != p.nodes[q].prefix[z]) ok = false;
              dd += p.nodes[q].prefix.size();
              if (sh + dd > 255 || model::bit(k, sh + dd) != dirs[q]) ok = false;
              dd++;
            }
            if (ok && base + sh <= 256) { p.depth = base + sh; placed = true; w.probe("shifted_walk"); }
          }
          raw = model::encode(p);
          break;
        }
        case 18: {  // headers out of range
          if (raw.size() < 4) break;
          switch (r.below(5)) { case 0: raw[0] = (char)r.next(); raw[1] = (char)((raw[1] & 0xc0) | r.below(0x40)); break; case 1: raw[2] = (char)r.next(); raw[3] = (char)r.below(4); break; case 2: raw[1] ^= (char)0x40; break; case 3: raw[1] ^= (char)0x80; break; default: raw[2] = raw[2] + 1; }
          break;
        }
        default: {  // the proof from another snapshot
          DirM &d = dir[h->dir];
          if (d.chain.empty()) break;
          auto &c = d.chain[r.below(d.chain.size())];
          raw = model::encode(model::prove(model::build(*c.kv), k));
        }
      }
      (void)b0;
      bool e2; Bytes v2;
      int m = model::verify(raw, k, against, &e2, &v2);
      Buf pb(raw), kb(k), rb(against), vb(1023);
      int exists = -1;
      size_t n = 12345, heap0 = cur->proc->heap.size();
      urkel_errno = 0;
      int ok = urkel_verify(&exists, vb.p, &n, pb.p, pb.n, kb.p, rb.p);
      int err = urkel_errno;
      if (!ok && (exists != 0 || n != 0)) bad("wrong-error", "a rejected proof left a result");
      if (!concurrent && cur->proc->heap.size() != heap0) bad("leak-heap", "verifying a proof leaks memory");
      auto f = akv->find(k);
      if (ok) {
        bool has = f != akv->end();
        if (exists) {
          if (!has) bad("forged-proof", "a forged proof (strategy " + std::to_string(strat) + ") convinced the verifier that absent key " + hex(k) + " is present");
          if (n > 1023 || vb.str(n) != f->second) bad("forged-proof", "a forged proof (strategy " + std::to_string(strat) + ") convinced the verifier of a wrong value for key " + hex(k));
        } else if (has) bad("forged-proof", "a forged proof (strategy " + std::to_string(strat) + ") convinced the verifier that present key " + hex(k) + " is absent");
        w.probe("forge_true_claim");
      } else {
        if (m == 0 && strat == 0) bad("proof-rejected", string("an honest proof was rejected with ") + ename(err));
        if (err < 1 || err > 13) bad("wrong-error", "a rejected proof reports error " + std::to_string(err));
        w.probe((string("forge_rejected_") + ename(err)).c_str());
      }
      w.st.tamper++;
    }
    {  // no root at all
      Bytes raw = model::encode(model::prove(root, k0));
      Buf pb(raw), kb(k0), vb(1023);
      int exists = -1;
      size_t n = 12345;
      urkel_errno = 0;
      int ok = urkel_verify(&exists, vb.p, &n, pb.p, pb.n, kb.p, nullptr);
      if (ok) bad("forged-proof", "a proof was accepted without a root");
      if (exists != 0 || n != 0) bad("wrong-error", "a rejected proof left a result");
      if (urkel_errno != URKEL_EINVAL) bad("wrong-error", string("verifying without a root reports ") + ename(urkel_errno));
    }
  });
}

// ---------------------------------------------------------------- command line
static Bytes unhex(const string &s) {
  Bytes o;
  for (size_t i = 0; i + 1 < s.size(); i += 2) o += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16);
  return o;
}
// Makes a command line that has no meaning; returns what is wrong with it.
static string misuse(int kind, std::vector<string> &posn, bool keyhex, size_t kpos, size_t vpos, bool &useroot, string &roothex, bool verify, Rng &r) {
  auto spoil = [&](string &s, bool fixed) {
    static const char bad[] = "gG/:@`zZ \x7f\x80\xff\xb0.xO-";
    int x = (int)r.below(fixed ? 5 : 3);
    if (s.empty()) { s = "0"; return; }
    if (x == 0) { size_t at = (size_t)r.below(s.size()); if (at == 0 && s.size() > 1) at = 1; s[at] = bad[r.below(sizeof bad - 1)]; if (s[0] == '-') s = "zz"; }
    else if (x == 1) s.pop_back();
    else if (x == 2) s += "0";
    else if (x == 3) s += "00";
    else s = s.substr(0, s.size() - 2);
  };
  switch (kind % 8) {
    case 1: if (!kpos) break; if (!keyhex) { posn.resize(kpos); return "no key"; } spoil(posn[kpos], true); return "a key that is not 32 bytes of hexadecimal";
    case 2: if (!vpos) break; spoil(posn[vpos], false); return "data that is not hexadecimal";
    case 3: if (!useroot) break; spoil(roothex, true); return "a root that is not 32 bytes of hexadecimal";
    case 4: if (!kpos) break; posn.resize(r.chance(1, 2) || !vpos ? kpos : vpos); return posn.size() == kpos ? "no key" : "no data";
    case 5: { static const char *no[] = {"gets", "ge", "", "Get", "destro", "create ", "verify-"}; posn[0] = no[r.below(7)]; return "an unknown command"; }
    case 6: return "an unknown option";
    case 7: { if (r.chance(1, 3)) { posn.clear(); return "no command"; } if (r.chance(1, 2)) return "help"; return "an option without its value"; }
    default: if (verify) { useroot = false; return "no root"; } break;
  }
  while (posn.size() < 33) posn.push_back("extra");
  return "too many arguments";
}
void Exec::do_cli(const Op &op, int id) {
  static const char *acts[] = {"create", "destroy", "info", "root", "get", "insert", "remove", "list", "prove", "verify"};
  int act = (int)(((op.a[0] % 10) + 10) % 10);
  DirM &d = dir[0];
  if (d.owner_live == 0 && (!d.pending.empty() || d.use_low || d.partial_destroy || expect_damage_set) && act != 2 && act != 3 && act != 9 && act != 1) peek(0);
  int flags = (int)op.a[4];
  int pi = NP - 1 - ((flags >> 4) & 1);
  if (proc[pi] && proc[pi]->alive) return;
  Process *pr = P(pi);
  cl[cur->id]->proc = pr;
  std::vector<string> args = {"urkel"};
  bool hashed = flags & 1;
  string kname = "key" + std::to_string(nkeys ? op.a[1] % nkeys : op.a[1]);
  Bytes k = hashed ? model::blake2b(kname, 32) : key(op.a[1]);
  Bytes v = val(op.a[2]);
  if (flags & 8) v = Bytes(1024 + (op.a[2] & 1), 'x');
  HandleM fake; fake.dir = 0; fake.visible = d.base();
  Ref r = ref(fake, op.a[3], mix(id, 11));
  KVp base = d.base();
  bool useroot = !r.null && (act == 2 || act == 4 || act == 7 || act == 8 || act == 9);
  if (!useroot) { r.null = true; r.kv = base; r.kind = 0; }
  string proof_hex;
  bool proof_true = false;
  if (act == 9) {
    useroot = true;
    r = ref(fake, op.a[3] < 0 ? (d.chain.empty() ? -3 : (int64_t)d.chain.size() - 1) : op.a[3], 0);
    model::Np n = model::build(*r.kv);
    Bytes raw = model::encode(model::prove(n, k));
    Rng rr(mix(id, 12));
    proof_true = true;
    if (flags & 4) { raw[rr.below(raw.size())] ^= (char)(1 << rr.below(8)); bool e2; Bytes v2; proof_true = model::verify(raw, k, r.hash, &e2, &v2) == 0; }
    proof_hex = hexall(raw);
  }
  int style = (flags >> 5) & 7, broken = (flags >> 8) & 31;
  string path = d.path;
  if (style & 1) {   // started in some directory
    Op o; o.a[1] = style == 3 ? 3 : (style >> 1) & 1;
    do_chdir(o, pr);
    if (style == 3 && pr->cwd == path) path = "";       // the default is the current directory
    else path = variant_path(path, style == 7 ? 5 : 2, pr);
  }
  bool named = (flags & 2) && !path.empty();
  pr->env.erase("URKEL_PATH");
  if (named) { if (style & 4) pr->env["URKEL_PATH"] = "/nowhere"; }
  else if (!path.empty()) pr->env["URKEL_PATH"] = path;
  // positional arguments, and options at any place between them
  std::vector<string> posn = {acts[act]};
  size_t kpos = 0, vpos = 0;
  if (act == 4 || act == 5 || act == 6 || act == 8 || act == 9) { kpos = 1; posn.push_back(hashed ? kname : hexall(k)); }
  if (act == 5) { vpos = 2; posn.push_back(hexall(v)); }
  if (act == 9) { vpos = 2; posn.push_back(proof_hex); }
  string roothex = hexall(r.hash);
  Rng ra(mix(flags, 5 + (uint64_t)id));
  auto upper = [&](string &s) { for (auto &c : s) if (ra.chance(1, 2)) c = (char)toupper(c); };
  if (style & 2) {
    if (kpos && !hashed) upper(posn[kpos]);
    if (vpos) upper(posn[vpos]);
    upper(roothex);
  }
  string why = broken ? misuse(broken, posn, kpos && !hashed, kpos, vpos, useroot, roothex, act == 9, ra) : "";
  std::vector<std::vector<string>> opts;
  if (named) opts.push_back({style & 2 ? "--path" : "-p", path});
  if (hashed) opts.push_back({style & 2 ? "--hash" : "-H"});
  if (useroot) opts.push_back({style & 2 ? "-r" : "--root", roothex});
  if (why == "an unknown option") opts.push_back({ra.chance(1, 2) ? "-x" : "--rot"});
  if (why == "help") opts.push_back({ra.chance(1, 2) ? "-h" : "--help"});
  bool dangling = why == "an option without its value";
  bool last = style == 0 || dangling;
  for (size_t i = 0, o = 0; i < posn.size() || o < opts.size();) {
    bool opt = i >= posn.size() || (o < opts.size() && !last && ra.chance(1, 3));
    if (opt) { for (auto &x : opts[o]) args.push_back(x); o++; }
    else args.push_back(posn[i++]);
  }
  if (dangling) args.push_back(ra.chance(1, 2) ? "-p" : "--root");
  std::vector<char *> argv;
  for (auto &s : args) argv.push_back(&s[0]);
  argv.push_back(nullptr);
  bool owned = d.owner_live > 0, overlapped = d.busy > 0;
  uint64_t begin = ++clock_;
  KVp nkv;
  if (act == 5 && v.size() <= 1023) { auto n = std::make_shared<KV>(*base); (*n)[k] = v; nkv = n; }
  if (act == 6 && base->count(k)) { auto n = std::make_shared<KV>(*base); n->erase(k); nkv = n; }
  bool existed = w.exists(d.path);
  if (!why.empty()) nkv = nullptr;
  auto before = snapshot(d, true);
  int rc = -1;
  d.busy++;
  d.last_begin = begin;
  if (act == 1) d.destroying++;
  CallInfo ci = call(op, id, pr, [&] { rc = urkel_cli_main((int)args.size(), argv.data()); });
  d.busy--;
  if (act == 1) d.destroying--;
  if (d.last_begin > begin) overlapped = true;
  d.last_begin = ++clock_;
  res.faulted += ci.any > 0;
  string out = pr->out;
  size_t fds_left = pr->fds.size();
  (void)fds_left;
  if (pr->alive) w.kill(pr);     // the invocation ends
  auto pend = [&](KVp kv) { Commit c; c.root = model::root_of(kv); c.kv = kv; c.failed = true; d.pending.push_back(c); };
  if (!why.empty() && !ci.killed) {   // a command line that means nothing does nothing
    w.probe("cli_misuse");
    if (why == "help" ? rc != 0 : rc == 0) bad("cli-misuse", "a command line with " + why + " exited with status " + std::to_string(rc));
    if (why != "help" && why != "no command" && !out.empty()) bad("cli-misuse", "a command line with " + why + " printed '" + out.substr(0, 40) + "'");
    if (w.exists(d.path) != existed) bad("cli-misuse", "a command line with " + why + " created or removed the database");
    compare_snapshot(d, before, "a misused command");
    return;
  }
  if (ci.killed && !why.empty()) return;
  if (ci.killed) {
    if (nkv && !owned) pend(nkv);
    if (act == 1 && !owned) d.partial_destroy = true;
    return;
  }
  if (act == 9) {  // no database involved
    auto f = r.kv->find(k);
    string want = proof_true && f != r.kv->end() ? hexall(f->second) + "\n" : "";
    if (rc == 0 && !proof_true) bad("cli-verify", "the tool accepted a proof that does not verify");
    if (rc != 0 && proof_true && !ci.hard) bad("cli-verify", "the tool rejected a valid proof");
    if (rc == 0 && out != want) bad("cli-output", "verify printed '" + out.substr(0, 40) + "'");
    return;
  }
  if (owned) {
    if (rc == 0) bad("two-owners", string("'") + acts[act] + "' succeeded while the database was open elsewhere");
    return;
  }
  if (rc != 0) {
    bool expect = (act == 4 && !r.kv) || (act == 4 && r.kv && !r.kv->count(k)) || (act == 6 && !base->count(k)) || (act == 5 && v.size() > 1023) ||
                  r.kind != 0 || (act == 1 && (!existed || !d.foreign.empty())) || d.partial_destroy || overlapped;
    if (!expect && !ci.hard) bad("cli-failed", string("'") + acts[act] + "' exited with status " + std::to_string(rc) + ": " + pr->err);
    if (nkv && ci.hard) pend(nkv);
    if (act == 1) { d.partial_destroy = true; }
    list_check(d);
    return;
  }
  // the tool opened the database: settle which commit it saw
  auto settle = [&](const Bytes &seen_root) {
    HandleM tmp; tmp.dir = 0;
    match_root(d, tmp, seen_root, false);
    return tmp.visible;
  };
  bool open_question = !d.pending.empty() || d.use_low || d.partial_destroy || expect_damage_set;
  switch (act) {
    case 0: break;
    case 1:
      if (w.exists(d.path)) bad("destroy-incomplete", "destroy succeeded but the directory is still there");
      d.chain.clear(); d.pending.clear(); d.may.clear(); d.ghosts.clear(); d.partial_destroy = false; d.use_low = false; expect_damage_set = false;
      break;
    case 2: {
      size_t ip = out.find("Root:  ");
      if (ip == string::npos) bad("cli-output", "info printed no root");
      Bytes rt = unhex(out.substr(ip + 7, 64));
      KVp b = settle(rt);
      KVp s = r.null ? b : r.kv;
      if (r.kind == 1) bad("unknown-root", "info at a root that was never committed succeeded");
      size_t bytes = 0;
      for (auto &x : *s) bytes += 32 + x.second.size();
      string want = "Items: " + std::to_string(s->size()) + "\nSize:  " + std::to_string(bytes) + "\nRoot:  " + hexall(rt) + "\n";
      if (out != want) bad("cli-output", "info printed '" + out + "', expected '" + want + "'");
      break;
    }
    case 3: {
      if (out.size() != 65) bad("cli-output", "root printed '" + out + "'");
      settle(unhex(out.substr(0, 64)));
      break;
    }
    case 4: case 7: case 8: {
      KVp s = r.null ? base : r.kv;
      if (r.kind == 1) bad("unknown-root", "a command at a root that was never committed succeeded");
      if (open_question && r.null) break;   // which commit was seen is unknown
      if (act == 4) {
        auto f = s->find(k);
        if (f == s->end()) bad("phantom-key", "get printed a value for an absent key");
        if (out != hexall(f->second) + "\n") bad("cli-output", "get printed a wrong value");
      } else if (act == 7) {
        string want;
        for (auto &x : *s) want += hexall(x.first) + "\n";
        if (out != want) bad("cli-output", "list printed the wrong keys");
      } else {
        if (out.size() < 3) bad("cli-output", "prove printed nothing");
        check_proof("prove", s, k, unhex(out.substr(0, out.size() - 1)));
      }
      break;
    }
    case 5: case 6: {
      if (act == 5 && v.size() > 1023) bad("cli-output", "inserting an oversized value succeeded");
      if (act == 6 && !base->count(k)) bad("phantom-key", "removing an absent key succeeded");
      Commit c;
      c.root = model::root_of(nkv); c.kv = nkv; c.extent = extents(d);
      d.chain.push_back(c);
      break;
    }
  }
  if (!w.exists(d.path)) return;
  if (w.exists(d.path + "/lock") && !ci.hard && !overlapped && act != 9) bad("lock-left", "the lock file remains after the command ended");
}

// Opens and closes the database without faults, to learn which commit it shows.
void Exec::peek(int di) {
  DirM &d = dir[di];
  Op o; o.kind = OP_OPEN; o.a[0] = 6; o.a[1] = 3; o.a[2] = di;
  if (alive(hd[6]) || (proc[3] && proc[3]->alive && hd[6].open)) return;
  (void)d;
  exec_op(o, -1);
  Op c; c.kind = OP_CLOSE; c.a[0] = 6;
  exec_op(c, -1);
}

// ---------------------------------------------------------------- concurrency
static int lin_kind(int k) { return k; }
LinRec Exec::exec_conc(const Op &op, int id) {
  LinRec rec;
  rec.skip = true;
  rec.client = cur->id;
  rec.op = id;
  (void)lin_kind;
  int k = op.kind;
  w.st.ops++;
  w.ev("op", k, id);
  if (w.verbose) {
    string s = "== c" + std::to_string(cur->id) + " op " + std::to_string(id) + " " + op_name[k];
    for (int64_t v : op.a) s += " " + std::to_string(v);
    w.note(s);
  }
  rec.inv = ++clock_;
  if (is_db_op(k) || is_tx_op(k) || k == OP_TXNEW) {
    IO o;
    if (!perform(*this, op, id, o)) return rec;
    rec.resp = ++clock_;
    rec.skip = false;
    rec.kind = k;
    rec.slot = o.t;
    rec.key = o.key; rec.val = o.val; rec.out = o.out; rec.hasval = o.hasout;
    rec.ret = o.ret; rec.err = o.ci.err;
    rec.pending = o.ci.killed;
    res.faulted += o.ci.any > 0;
    if (w.verbose) w.note("   c" + std::to_string(cur->id) + " op " + std::to_string(id) + " -> ret " + std::to_string(o.ret) + " err " + ename(o.ci.err) + (o.ci.killed ? " (killed)" : ""));
    if (!lin) {
      rec.skip = true;
      if (o.ci.killed) return rec;
      if (!o.ret && (o.ci.err < 1 || o.ci.err > 13)) bad("wrong-error", string(op_name[k]) + " failed without an error code");
      return rec;
    }
    bool explicit_root = (k == OP_GET || k == OP_HAS || k == OP_PROVE || k == OP_ITER || k == OP_INJECT || k == OP_TXNEW || k == OP_TXINJ) && !o.r.null;
    if (o.toobig && !o.ci.killed) {
      if (o.ret || o.ci.err != URKEL_EINVAL) bad("wrong-error", string("an oversized value gave ") + (o.ret ? "success" : ename(o.ci.err)));
      rec.skip = true;
      return rec;
    }
    if (explicit_root && !o.ci.killed) {
      if (!check_ref(op_name[k], o.r, k == OP_GET || k == OP_HAS ? o.r.kind == 0 : o.ret, o.ci.err, false)) { rec.skip = true; return rec; }
      if (k == OP_GET || k == OP_HAS) { check_lookup(op_name[k], o.r.kv, o.key, o.ret, o.ci.err, o.hasout ? &o.out : nullptr, false); rec.skip = true; return rec; }
      if (k == OP_PROVE) { check_proof("prove", o.r.kv, o.key, o.out); rec.skip = true; return rec; }
      if (k == OP_ITER) { check_list(*this, "an iteration", o, o.r.kv, false); rec.skip = true; return rec; }
      rec.kv = spec.intern(*o.r.kv);
    } else if (explicit_root) { if (o.r.kv) rec.kv = spec.intern(*o.r.kv); else rec.skip = true; }
    if ((k == OP_ITER || k == OP_TXFULL) && !o.ci.killed) {
      if (!o.ret || !o.iter_ok) bad("iter-error", string("an iteration stopped with ") + ename(o.ret ? o.iter_err : o.ci.err));
      KV kv;
      Bytes last;
      for (auto &x : o.list) {
        if (!kv.empty() && x.first <= last) bad("iter-order", "an iteration yields keys out of order");
        last = x.first;
        kv[x.first] = x.second;
      }
      if (o.stop) { rec.skip = true; return rec; }
      rec.kv = spec.intern(kv);
    }
    return rec;
  }
  int me = cur->id;
  ItM &x = it[me % NI];
  switch (k) {
    case OP_CHDIR: yield_point(3); do_chdir(op, cur->proc); break;
    case OP_ITDB: case OP_ITNEW: {
      if (x.open) break;
      HandleM *h = H(op.a[1]);
      TxM *t = nullptr;
      int slot = -1;
      if (k == OP_ITNEW) { t = T(op.a[1]); if (!t) break; slot = (int)(t - tx); if (slot >= 2 && slot != 1 + me) break; h = &hd[t->h]; }
      if (!h) break;
      x = ItM();
      urkel_iter_t *n = nullptr;
      CallInfo ci = call(op, id, proc[h->proc], [&] { n = t ? urkel_iter_create(t->tx) : urkel_iterate(h->db, nullptr); });
      if (ci.killed) break;
      if (!n) { if (lin) bad("iter-error", string("iterate failed with ") + ename(ci.err)); break; }
      x.it = n; x.open = true; x.h = (int)(h - hd); x.t = slot;
      x.seen.clear();
      x.rec = rec;
      x.rec.kind = k == OP_ITNEW ? OP_TXFULL : OP_ITER;
      x.rec.slot = slot;
      x.rec.resp = ++clock_;
      break;
    }
    case OP_ITNEXT: case OP_ITDEL: {
      if (!x.open) break;
      Process *pr = proc[hd[x.h].proc];
      bool failed = false;
      int64_t n = k == OP_ITDEL ? (op.a[2] ? 0 : 100000) : op.a[1];
      CallInfo ci = call(op, id, pr, [&] {
        for (int64_t j = 0; j < n && !x.ended; j++) {
          Buf kb(32), vb(1023);
          size_t sz = 0;
          urkel_errno = 0;
          if (!urkel_iter_next(x.it, kb.p, vb.p, &sz)) {
            yield_point(3);
            if (urkel_errno == URKEL_EITEREND) x.ended = true; else { if (lin) bad("iter-error", string("an iterator stopped with ") + ename(urkel_errno)); failed = true; }
            break;
          }
          if (!x.seen.empty() && !(x.seen.rbegin()->first < kb.str(32))) bad("iter-order", "an iterator yields keys out of order");
          x.seen[kb.str(32)] = vb.str(sz);
        }
        if (k == OP_ITDEL) { x.open = false; urkel_iter_destroy(x.it); }
      });
      if (ci.killed) break;
      if (k == OP_ITDEL && x.ended && lin) { rec = x.rec; rec.kv = spec.intern(x.seen); rec.ret = 1; rec.skip = false; rec.op = id; }
      (void)failed;
      break;
    }
    default: break;
  }
  return rec;
}

void Exec::run_phase(size_t from, size_t to) {
  std::map<int, std::vector<size_t>> by;
  for (size_t i = from; i < to; i++) by[1 + ((p.ops[i].client - 1) % 5)].push_back(i);
  for (auto &x : it) if (x.open) { Op o; o.kind = OP_ITDEL; o.a[0] = &x - it; exec_op(o, -1); }
  if (!mp) {
    // Callers share one process.
    HandleM *h = nullptr;
    for (auto &q : hd) if (alive(q)) { h = &q; break; }
    if (!h) return;
  }
  std::map<int, std::vector<LinRec>> recs;
  LinSpec::State init(1 + NT, -1);
  int hi = -1;
  if (!mp) {
    for (auto &q : hd) if (alive(q)) { hi = (int)(&q - hd); break; }
    if (lin) {
      init[0] = spec.intern(*hd[hi].visible);
      for (int t = 0; t < NT; t++) if (tx[t].open && tx[t].h == hi && T(t)) init[1 + t] = spec.intern(*tx[t].kv);
    }
  }
  bool injected = false;
  std::vector<std::pair<Client *, std::function<void()>>> bodies;
  for (auto &b : by) {
    Client *c = cl[b.first];
    int ci = b.first;
    std::vector<size_t> ids = b.second;
    if (!mp) c->proc = proc[hd[hi].proc];
    else c->proc = mh ? P(0) : P(ci);
    bodies.push_back({c, [this, c, ci, ids, &recs, &injected] {
      for (size_t i : ids) {
        if (mp) {
          if (mh && !c->proc->alive) return;
          if (!c->proc->alive) c->proc = P(((int)p.ops[i].a[1] % NP + NP) % NP);
          try { exec_op(p.ops[i], (int)i); } catch (Killed &) {}
          continue;
        }
        Op op = p.ops[i];
        if (op.kind == OP_INJECT) injected = true;
        LinRec r = exec_conc(op, (int)i);
        if (!r.skip) recs[ci].push_back(r);
        if (!c->proc->alive) return;
      }
      if (!mp && c->proc->alive) {
        ItM &x = it[ci % NI];
        if (x.open) { Op o; o.kind = OP_ITDEL; LinRec r = exec_conc(o, -1); if (!r.skip) recs[ci].push_back(r); }
      }
    }});
  }
  for (auto &b : bodies) recs[b.first->id];
  concurrent = true;
  try { w.run_clients(bodies); } catch (...) { concurrent = false; throw; }
  concurrent = false;
  set_client(cl[0]);
  w.probe("concurrent_phases");
  if (mp) { for (int i = 0; i < NP; i++) if (proc[i] && !proc[i]->alive) died(i); return; }
  // ---- what state is it in now?
  HandleM &h = hd[hi];
  int pi = h.proc, di = h.dir;
  DirM &d = dir[di];
  bool dead = !proc[pi]->alive;
  uint64_t fin_inv = ++clock_;
  Op none; none.kind = OP_NOP;
  if (dead) {
    died(pi);
    for (auto &x : it) x.open = false;
    Process *pr = P(pi);
    urkel_t *db = nullptr;
    CallInfo ci = call(none, -1, pr, [&] { db = urkel_open(d.path.c_str()); });
    if (!db) bad("open-failed", string("the database cannot be opened after a crash: ") + ename(ci.err));
    h = HandleM();
    h.db = db; h.proc = pi; h.dir = di; h.gen = gen[pi]; h.open = true;
    d.owner_live++;
    d.busy++;
    d.opens++;
  }
  KV now;
  Bytes root;
  call(none, -1, proc[pi], [&] {
    Buf rb(32);
    urkel_root(h.db, rb.p);
    root = rb.str(32);
    urkel_errno = 0;
    urkel_iter_t *x = urkel_iterate(h.db, nullptr);
    if (!x) bad("iter-error", string("iterate failed with ") + ename(urkel_errno));
    for (;;) {
      Buf kb(32), vb(1023);
      size_t sz = 0;
      urkel_errno = 0;
      if (!urkel_iter_next(x, kb.p, vb.p, &sz)) {
        if (urkel_errno != URKEL_EITEREND) bad("iter-error", string("iteration stopped with ") + ename(urkel_errno));
        break;
      }
      now[kb.str(32)] = vb.str(sz);
    }
    urkel_iter_destroy(x);
  });
  KVp nowp = std::make_shared<KV>(now);
  if (model::root_of(nowp) != root) bad("wrong-root", "after concurrent calls the root " + hex(root) + " does not match the contents");
  if (lin) {
    std::vector<LinRec> hist;
    for (auto &r : recs) for (auto &x : r.second) hist.push_back(x);
    LinRec f;
    f.kind = OP_ITER; f.inv = fin_inv; f.resp = ++clock_; f.ret = 1; f.kv = spec.intern(now); f.client = 0;
    hist.push_back(f);
    if (!dead)
      for (int t = 0; t < NT; t++) {
        if (!T(t) || tx[t].h != hi) continue;
        LinRec g;
        g.kind = OP_TXROOT; g.slot = t; g.inv = ++clock_; g.ret = 1;
        call(none, -1, proc[pi], [&] { Buf rb(32); urkel_tx_root(tx[t].tx, rb.p); g.out = rb.str(32); });
        g.resp = ++clock_;
        hist.push_back(g);
      }
    std::vector<int> order;
    LinSpec::State fin;
    int ok = spec.check(hist, init, order, fin, 400000);
    if (w.verbose)
      for (auto &r : hist) w.note("history c" + std::to_string(r.client) + " op" + std::to_string(r.op) + " " + op_name[r.kind] + " slot " + std::to_string(r.slot) + " [" + std::to_string(r.inv) + "," + std::to_string(r.resp) + "] key " + hex(r.key, 4) + " val " + hex(r.val, 4) + " out " + hex(r.out, 4) + " ret " + std::to_string(r.ret) + " err " + ename(r.err) + (r.pending ? " pending" : ""));
    if (ok == 0) {
      // name an operation whose result cannot be explained
      string who;
      for (auto &r : hist) who += string(who.empty() ? "" : ", ") + "c" + std::to_string(r.client) + ":" + op_name[r.kind] + "=" + std::to_string(r.ret) + (r.ret ? "" : string("/") + ename(r.err));
      bad("not-linearizable", "no sequential order explains the results of " + std::to_string(hist.size()) + " concurrent calls: " + who.substr(0, 600));
    }
    if (ok < 0) { w.probe("lin_budget"); lin_lost = true; }
    else {
      w.probe("lin_histories");
      LinSpec::State st = init;
      for (int i : order) {
        const LinRec &r = hist[i];
        spec.apply(st, r);
        if ((r.kind == OP_INSERT || r.kind == OP_REMOVE || r.kind == OP_TXCOMMIT) && (r.ret || r.pending)) {
          Commit g; g.kv = spec.kvs[st[0]]; g.root = model::root_of(g.kv);
          d.may[g.root] = g.kv;
          d.ghosts.push_back({d.chain.size(), g});
        }
      }
      if (!dead)
        for (int t = 0; t < NT; t++) if (T(t) && tx[t].h == hi && fin[1 + t] >= 0) tx[t].kv = spec.kvs[fin[1 + t]];
    }
  }
  // whatever happened, this is the state now
  bool lost = !lin || lin_lost;
  if (d.chain.empty() ? !now.empty() : d.chain.back().root != root) {
    Commit c; c.root = root; c.kv = nowp; c.extent = extents(d);
    d.may[root] = nowp;
    if (!injected) d.chain.push_back(c);
  }
  for (auto &q : d.pending) d.may[q.root] = q.kv;
  d.pending.clear();
  h.visible = nowp;
  if (injected) h.reverted = true;
  if (lost) {
    for (int t = 0; t < NT; t++) if (tx[t].open && tx[t].h == hi) {
      tx[t].open = false;
      if (!dead) call(none, -1, proc[pi], [&] { urkel_tx_destroy(tx[t].tx); });
    }
  }
  if (injected || lost) {
    // make the last commit known again
    Op o; o.kind = OP_INSERT; o.a[0] = hi; o.a[1] = 0; o.a[2] = 777;
    if (lost) {
      Bytes kk = key(0), vv = val(777);
      Buf kb(kk), vb(vv);
      int r = 0;
      call(none, -1, proc[pi], [&] { r = urkel_insert(h.db, kb.p, vb.p, vb.n); });
      if (!r) bad("write-failed", "after concurrent calls with faults a plain insert fails");
      auto kv = std::make_shared<KV>(now);
      (*kv)[kk] = vv;
      committed(h, kv, 0);
    } else exec_op(o, -1);
  }
}

// ---------------------------------------------------------------- run
void Exec::setup() {
  keymode = (int)p.k("keymode", 0);
  valmode = (int)p.k("valmode", 0);
  keyseed = (uint64_t)p.k("keyseed", 1);
  nkeys = (int)p.k("nkeys", 16);
  leak = p.k("leak", 0) != 0;
  lin = p.k("lin", 1) != 0;
  mp = p.k("mp", 0) != 0;
  mh = p.k("mp", 0) == 2;
  sync_build = p.build == "fsync";
  w.seed = keyseed;
  w.rnd = Rng(mix(keyseed, 31337));
  w.track_power = p.k("power", 0) != 0;
  for (auto &o : p.ops) if (o.kind == OP_POWER) w.track_power = true;
  w.urandom = p.k("nourandom", 0) == 0;
  w.nommap = p.k("nommap", 0) != 0;
  {
    // directory listings come in any order, and inode numbers say nothing
    uint64_t ks = (uint64_t)p.k("keyseed", 0);
    w.dir_shuffle = (uint64_t)p.k("dirshuffle", ks & 1 ? (int64_t)ks : 0);
    w.ino_mul = ks & 2 ? (uint32_t)(ks * 2654435761u) | 1 : 1;
  }
  w.capacity = p.k("capacity", -1);
  w.sched = p.sched;
  w.srng = Rng(p.sched.seed);
  w.max_steps = (uint64_t)p.k("maxsteps", 3000000);
  urkel_sim_max_file_size = (unsigned long)p.k("maxfile", 0);
  urkel_sim_max_open_files = (unsigned long)p.k("maxopen", 0);
  lim_file = p.k("maxfile", 0);
  lim_open = p.k("maxopen", 0);
  urkel_sim_write_buffer = (unsigned long)p.k("wbuf", 0);
  urkel_sim_read_buffer = (unsigned long)p.k("rbuf", 0);
  auto root = std::make_shared<Inode>();
  root->id = w.next_ino++; root->kind = 1; root->mode = 0755;
  w.tree["/"] = root;
  w.mkdir("/dev");
  w.write_file("/dev/urandom", "");
  w.tree["/dev/urandom"]->kind = 2; w.tree["/dev/urandom"]->mode = 0666;
  w.mkdir("/x");
  string base = "/db";
  int64_t pl = p.k("pathlen", 0);
  if (pl > 10) {
    string s;
    while ((int64_t)s.size() < pl) {
      int64_t left = pl - (int64_t)s.size();
      int64_t n = std::min<int64_t>(left - 1, 200);
      if (left - 1 - n == 1) n--;
      if (n < 1) break;
      s += "/" + string((size_t)n, 'p');
      if ((int64_t)s.size() < pl) w.mkdir(s);
    }
    base = s;
  }
  dir[0].path = base;
  dir[0].broken_ok = p.k("pathbad", 0) != 0;
  dir[1].path = p.k("samebase", 0) ? "/x/db" : "/x/e";
  if (p.k("predir", 0)) w.mkdir(dir[0].path);
  w.flush_all();
  race_reset(&w);
  Process *p0 = P(0);
  for (int i = 0; i < 6; i++) { Client *c = w.new_client(p0); cl.push_back(c); }
  set_client(cl[0]);
}

void Exec::run() {
  size_t n = p.ops.size();
  for (size_t i = 0; i < n;) {
    if (p.ops[i].client <= 0) { exec_op(p.ops[i], (int)i); i++; continue; }
    size_t j = i;
    while (j < n && p.ops[j].client > 0) j++;
    run_phase(i, j);
    i = j;
  }
  // ---- orderly end, then look at everything once more
  Op none; none.kind = OP_NOP;
  for (auto &x : it) if (x.open && I(&x - it)) { Op o; o.kind = OP_ITDEL; o.a[0] = &x - it; exec_op(o, -1); }
  for (auto &t : tx) if (t.open && T(&t - tx)) { Op o; o.kind = OP_TXDEL; o.a[0] = &t - tx; exec_op(o, -1); }
  for (auto &h : hd) if (alive(h)) { Op o; o.kind = OP_CLOSE; o.a[0] = &h - hd; exec_op(o, -1); }
  for (int i = 0; i < NP; i++) if (proc[i] && proc[i]->alive && p.k("killend", 0) == 0 && leak) leak_check(proc[i], "at the end");
  stray_check();
  if (!p.k("final", 1)) return;
  for (int di = 0; di < 2; di++) {
    DirM &d = dir[di];
    list_check(d);
    if (d.chain.empty() && d.pending.empty() && !d.partial_destroy && !w.exists(d.path)) continue;
    if (!w.exists(parent_of(d.path)) || d.broken_ok) continue;
    if (d.partial_destroy) {
      // running destroy again must finish the job
      Op o; o.kind = OP_DESTROY; o.a[0] = 4; o.a[1] = di;
      exec_op(o, -1);
      if (d.foreign.empty() && w.exists(d.path)) bad("destroy-failed", "running destroy again does not finish the job");
      d.chain.clear(); d.pending.clear(); d.may.clear(); d.ghosts.clear(); d.partial_destroy = false; d.use_low = false;
      expect_damage_set = expect_damage_set && di != 0;
    }
    w.capacity = -1;
    w.urandom = true;
    for (int round = 0; round < 2; round++) {
      Op o; o.kind = OP_OPEN; o.a[0] = 7; o.a[1] = 4 + (round & 1); o.a[2] = di;
      P((int)o.a[1])->fdlimit = 256;
      exec_op(o, -1);
      if (!alive(hd[7])) bad("open-failed", "the database cannot be opened at the end of the run");
      audit(none, -1, hd[7], round == 0 ? (int)p.k("endaudit", 2) : 1);
      if (round == 0) {
        Op q; q.kind = OP_INSERT; q.a[0] = 7; q.a[1] = 1; q.a[2] = 999;
        exec_op(q, -1);
        audit(none, -1, hd[7], 1);
      }
      Op c; c.kind = OP_CLOSE; c.a[0] = 7;
      exec_op(c, -1);
      if (leak) leak_check(proc[o.a[1]], "at the end");
    }
    if (p.k("stored", 0)) check_stored(d);
  }
}
