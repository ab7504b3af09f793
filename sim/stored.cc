// Independent reader and writer of the stored format (values, nodes, pointers
// and commit records as the pinned version lays them out).
#include "model.h"
#include <algorithm>
#include <unordered_map>

namespace model {
static const size_t META = 38, PTR = 7;
static const uint32_t MAGIC = 0x6d726b6c;

static uint64_t le(const Bytes &b, size_t at, size_t n) {
  uint64_t v = 0;
  for (size_t i = n; i-- > 0;) v = (v << 8) | (unsigned char)b[at + i];
  return v;
}
static void put(Bytes &o, uint64_t v, size_t n) { for (size_t i = 0; i < n; i++) o += (char)(v >> (8 * i)); }
static Ptr get_ptr(const Bytes &b, size_t at) {
  Ptr p;
  uint64_t a = le(b, at, 2), c = le(b, at + 2, 4);
  p.index = (uint32_t)(a >> 1);
  p.pos = c >> 1;
  p.size = ((a & 1) << 9) | ((c & 1) << 8) | le(b, at + 6, 1);
  return p;
}
static void put_ptr(Bytes &o, const Ptr &p) {
  put(o, (p.index << 1) | ((p.size >> 9) & 1), 2);
  put(o, (p.pos << 1) | ((p.size >> 8) & 1), 4);
  put(o, p.size & 255, 1);
}
static Bytes at_ptr(const Ptr &p) { return "file " + std::to_string(p.index) + " position " + std::to_string(p.pos) + " size " + std::to_string(p.size); }

namespace {
struct Reader {
  const std::vector<File> &files;
  Bytes err;
  std::unordered_map<uint64_t, Bytes> memo;
  bool fetch(const Ptr &p, Bytes &out, const char *what) {
    if (p.index == 0 || p.index > files.size() || p.pos < files[p.index - 1].hole || p.pos + p.size > files[p.index - 1].size()) {
      err = Bytes("the pointer to ") + what + " leads nowhere: " + at_ptr(p);
      return false;
    }
    out = files[p.index - 1].b.substr(p.pos - files[p.index - 1].hole, p.size);
    return true;
  }
  // hash of the node at p
  bool node(const Ptr &p, Bytes &hash, int depth) {
    uint64_t id = ((uint64_t)p.index << 42) ^ (p.pos << 10) ^ p.size;
    auto m = memo.find(id);
    if (m != memo.end()) { hash = m->second; return true; }
    Bytes b;
    if (depth > 256) { err = "the stored tree is too deep"; return false; }
    if (!fetch(p, b, "a node")) return false;
    if (b.empty()) { err = "an empty node record at " + at_ptr(p); return false; }
    int type = b[0] & 15, flags = (b[0] >> 4) & 15;
    size_t i = 1;
    if (type == 2) {
      Bytes v;
      if (flags || b.size() != 1 + PTR + 32) { err = "a leaf record of a wrong shape at " + at_ptr(p); return false; }
      Ptr vp = get_ptr(b, 1);
      if (vp.size > 1023) { err = "a value of " + std::to_string(vp.size) + " bytes at " + at_ptr(p); return false; }
      if (vp.size > 0 && !fetch(vp, v, "a value")) return false;
      hash = hash_leaf(b.substr(1 + PTR, 32), blake2b(v, 32));
    } else if (type == 1) {
      std::vector<int> prefix;
      if (flags > 1) { err = "a node record with unknown flags at " + at_ptr(p); return false; }
      if (flags == 1) {
        size_t n = b.size() > 1 ? (unsigned char)b[1] : 0;
        if (n == 0 || b.size() < 2 + (n + 7) / 8) { err = "a node record of a wrong shape at " + at_ptr(p); return false; }
        for (size_t k = 0; k < n; k++) prefix.push_back(((unsigned char)b[2 + (k >> 3)] >> (7 - (k & 7))) & 1);
        i = 2 + (n + 7) / 8;
      }
      if (b.size() != i + 2 * (PTR + 32)) { err = "a node record of a wrong length at " + at_ptr(p); return false; }
      Bytes h[2], want;
      for (int s = 0; s < 2; s++, i += PTR + 32) {
        if (!node(get_ptr(b, i), h[s], depth + 1)) return false;
        want = b.substr(i + PTR, 32);
        if (h[s] != want) { err = "the hash of a child does not match at " + at_ptr(p); return false; }
      }
      hash = hash_internal(prefix, h[0], h[1]);
    } else { err = "an unknown kind of node record at " + at_ptr(p); return false; }
    memo[id] = hash;
    return true;
  }
};
bool record(const Bytes &key, const File &f, size_t at, Ptr &prev, Ptr &root) {
  if (at < f.hole || at + META > f.size() || le(f.b, at - f.hole, 4) != MAGIC) return false;
  Bytes b = f.b.substr(at - f.hole, META);
  if (blake2b(b.substr(0, 18), 20, key) != b.substr(18)) return false;
  prev = get_ptr(b, 4);
  root = get_ptr(b, 11);
  return true;
}
}  // namespace

Stored read_stored(const Bytes &key, const std::vector<File> &files) {
  Stored s;
  Reader r{files, Bytes(), {}};
  Ptr prev, root;
  bool found = false;
  for (size_t f = files.size(); f-- > 0 && !found;)
    for (size_t at = files[f].size() / META; at-- > files[f].hole / META && !found;) found = record(key, files[f], at * META, prev, root);
  while (found) {
    Bytes h(32, '\0');
    if (root.index != 0 && !r.node(root, h, 0)) { s.err = r.err + " (commit " + std::to_string(s.roots.size()) + " before the last)"; return s; }
    s.roots.push_back(h);
    if (prev.index == 0) return s;
    if (prev.index > files.size() || prev.pos % META || !record(key, files[prev.index - 1], prev.pos, prev, root)) {
      s.err = "the link to the previous commit record is broken after " + std::to_string(s.roots.size()) + " commits";
      return s;
    }
    if (s.roots.size() > 1000000) { s.err = "the commit records form a cycle"; return s; }
  }
  return s;
}

// ------------------------------------------------------------------ writer
size_t Writer::rnd(size_t n) {
  state = state * 6364136223846793005ull + 1442695040888963407ull;
  return n ? (size_t)((state >> 33) % n) : 0;
}
Ptr Writer::alloc(size_t n) {
  if (gaps && rnd(3) == 0) {
    size_t k = rnd(9);
    if (!maxfile || files.back().size() + k <= maxfile) for (size_t i = 0; i < k; i++) files.back().b += (char)rnd(256);
  }
  if (maxfile && files.back().size() + n > maxfile) files.push_back(File());
  Ptr p;
  p.index = (uint32_t)files.size();
  p.pos = files.back().size();
  p.size = n;
  files.back().b.append(n, '\0');
  return p;
}
void Writer::commit(const KV &kv) {
  Np root = build(kv);
  struct Item { Np n; bool value; };
  std::vector<Item> todo;
  std::map<Bytes, Ptr> fresh, values;
  std::vector<Np> stack{root};
  std::vector<Np> order;
  while (!stack.empty()) {
    Np n = stack.back();
    stack.pop_back();
    if (n->type == 0) continue;
    if (share && nodes.count(n->hash)) continue;
    order.push_back(n);
    if (n->type == 2) { stack.push_back(n->l); stack.push_back(n->r); }
  }
  for (size_t i = order.size(); i-- > 0;) {
    if (order[i]->type == 1) todo.push_back({order[i], true});
    todo.push_back({order[i], false});
  }
  if (shuffle) for (size_t i = todo.size(); i > 1; i--) std::swap(todo[i - 1], todo[rnd(i)]);
  for (auto &t : todo) {
    if (t.value) { values[t.n->hash] = alloc(t.n->value.size()); continue; }
    size_t n = 1 + PTR + 32;
    if (t.n->type == 2) n = 1 + (t.n->prefix.empty() ? 0 : 1 + (t.n->prefix.size() + 7) / 8) + 2 * (PTR + 32);
    fresh[t.n->hash] = alloc(n);
  }
  auto where = [&](const Np &n) { auto f = fresh.find(n->hash); return f != fresh.end() ? f->second : nodes[n->hash]; };
  for (auto &t : todo) {
    Bytes b;
    Ptr p;
    if (t.value) { b = t.n->value; p = values[t.n->hash]; }
    else if (t.n->type == 1) {
      p = fresh[t.n->hash];
      b += '\x02';
      put_ptr(b, values[t.n->hash]);
      b += t.n->key;
    } else {
      p = fresh[t.n->hash];
      b += t.n->prefix.empty() ? '\x01' : '\x11';
      if (!t.n->prefix.empty()) {
        b += (char)t.n->prefix.size();
        Bytes bits((t.n->prefix.size() + 7) / 8, '\0');
        for (size_t i = 0; i < t.n->prefix.size(); i++) if (t.n->prefix[i]) bits[i >> 3] |= (char)(0x80 >> (i & 7));
        b += bits;
      }
      put_ptr(b, where(t.n->l)); b += t.n->l->hash;
      put_ptr(b, where(t.n->r)); b += t.n->r->hash;
    }
    files[p.index - 1].b.replace(p.pos - files[p.index - 1].hole, b.size(), b);
  }
  for (auto &f : fresh) nodes[f.first] = f.second;
  // the record
  File &f = files.back();
  size_t pad = (META - f.size() % META) % META;
  if (!maxfile || f.size() + pad <= maxfile) for (size_t i = 0; i < pad; i++) f.b += junkpad ? (char)rnd(256) : '\0';
  if (files.back().size() % META || (maxfile && files.back().size() + META > maxfile)) files.push_back(File());
  Bytes m;
  put(m, MAGIC, 4);
  put_ptr(m, last);
  Ptr rp;
  if (root->type != 0) rp = where(root);
  put_ptr(m, rp);
  m += blake2b(m, 20, key);
  last.index = (uint32_t)files.size();
  last.pos = files.back().size();
  last.size = 0;
  files.back().b += m;
}
}  // namespace model
