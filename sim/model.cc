#include "model.h"
#include <cstring>
#include <unordered_map>

namespace model {

// BLAKE2b (RFC 7693)
static const uint64_t IV[8] = {
  0x6a09e667f3bcc908ull, 0xbb67ae8584caa73bull, 0x3c6ef372fe94f82bull, 0xa54ff53a5f1d36f1ull,
  0x510e527fade682d1ull, 0x9b05688c2b3e6c1full, 0x1f83d9abfb41bd6bull, 0x5be0cd19137e2179ull};
static const uint8_t SG[10][16] = {
  {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15}, {14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},
  {11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4}, {7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},
  {9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13}, {2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},
  {12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11}, {13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},
  {6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5}, {10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0}};
static inline uint64_t rotr(uint64_t x, int n) { return (x >> n) | (x << (64 - n)); }
static void compress(uint64_t h[8], const uint8_t *b, uint64_t t, bool last) {
  uint64_t v[16], m[16];
  for (int i = 0; i < 8; i++) { v[i] = h[i]; v[i + 8] = IV[i]; }
  v[12] ^= t;
  if (last) v[14] = ~v[14];
  for (int i = 0; i < 16; i++) { uint64_t x = 0; for (int j = 7; j >= 0; j--) x = (x << 8) | b[i * 8 + j]; m[i] = x; }
  auto G = [&](int a, int bb, int c, int d, uint64_t x, uint64_t y) {
    v[a] += v[bb] + x; v[d] = rotr(v[d] ^ v[a], 32); v[c] += v[d]; v[bb] = rotr(v[bb] ^ v[c], 24);
    v[a] += v[bb] + y; v[d] = rotr(v[d] ^ v[a], 16); v[c] += v[d]; v[bb] = rotr(v[bb] ^ v[c], 63);
  };
  for (int r = 0; r < 12; r++) {
    const uint8_t *s = SG[r % 10];
    G(0, 4, 8, 12, m[s[0]], m[s[1]]); G(1, 5, 9, 13, m[s[2]], m[s[3]]);
    G(2, 6, 10, 14, m[s[4]], m[s[5]]); G(3, 7, 11, 15, m[s[6]], m[s[7]]);
    G(0, 5, 10, 15, m[s[8]], m[s[9]]); G(1, 6, 11, 12, m[s[10]], m[s[11]]);
    G(2, 7, 8, 13, m[s[12]], m[s[13]]); G(3, 4, 9, 14, m[s[14]], m[s[15]]);
  }
  for (int i = 0; i < 8; i++) h[i] ^= v[i] ^ v[i + 8];
}
Bytes blake2b(const Bytes &in, size_t outlen, const Bytes &key) {
  uint64_t h[8];
  for (int i = 0; i < 8; i++) h[i] = IV[i];
  h[0] ^= 0x01010000u ^ (key.size() << 8) ^ outlen;
  Bytes data;
  if (!key.empty()) { data = key; data.resize(128, '\0'); }
  data += in;
  size_t n = data.size(), off = 0;
  uint8_t blk[128];
  while (n - off > 128) { compress(h, (const uint8_t *)data.data() + off, off + 128, false); off += 128; }
  memset(blk, 0, sizeof blk);
  memcpy(blk, data.data() + off, n - off);
  compress(h, blk, n, true);
  Bytes out(outlen, '\0');
  for (size_t i = 0; i < outlen; i++) out[i] = (char)(h[i / 8] >> (8 * (i % 8)));
  return out;
}

static Bytes pack(const std::vector<int> &b) {
  Bytes o((b.size() + 7) / 8, '\0');
  for (size_t i = 0; i < b.size(); i++) if (b[i]) o[i >> 3] |= (char)(0x80 >> (i & 7));
  return o;
}
Bytes hash_leaf(const Bytes &key, const Bytes &vhash) { return blake2b(Bytes(1, '\0') + key + vhash, 32); }
Bytes hash_internal(const std::vector<int> &p, const Bytes &l, const Bytes &r) {
  if (p.empty()) return blake2b(Bytes(1, '\x01') + l + r, 32);
  Bytes s(1, '\x02');
  s += (char)(p.size() & 255); s += (char)(p.size() >> 8);
  return blake2b(s + pack(p) + l + r, 32);
}

static Np make(std::vector<std::pair<const Bytes *, const Bytes *>> &v, size_t a, size_t b, unsigned depth) {
  auto n = std::make_shared<Node>();
  n->depth = depth;
  if (a == b) { n->type = 0; n->hash = Bytes(32, '\0'); return n; }
  if (b - a == 1) {
    n->type = 1; n->key = *v[a].first; n->value = *v[a].second;
    n->hash = hash_leaf(n->key, blake2b(n->value, 32));
    return n;
  }
  n->type = 2;
  unsigned d = depth;
  const Bytes &x = *v[a].first, &y = *v[b - 1].first;
  while (bit(x, d) == bit(y, d)) { n->prefix.push_back(bit(x, d)); d++; }
  size_t m = a;
  while (m < b && bit(*v[m].first, d) == 0) m++;
  n->l = make(v, a, m, d + 1);
  n->r = make(v, m, b, d + 1);
  n->hash = hash_internal(n->prefix, n->l->hash, n->r->hash);
  return n;
}
Np build(const KV &kv) {
  std::vector<std::pair<const Bytes *, const Bytes *>> v;
  for (auto &e : kv) v.push_back({&e.first, &e.second});
  return make(v, 0, v.size(), 0);
}
static std::unordered_map<const KV *, std::pair<KVp, Bytes>> g_memo;
void clear_memo() { g_memo.clear(); }
Bytes root_of(const KVp &kv) {
  auto it = g_memo.find(kv.get());
  if (it != g_memo.end()) return it->second.second;
  Bytes h = build(*kv)->hash;
  g_memo[kv.get()] = {kv, h};
  return h;
}

static bool match(const std::vector<int> &p, const Bytes &key, unsigned d) {
  if (d + p.size() > 256) return false;
  for (size_t i = 0; i < p.size(); i++) if (p[i] != bit(key, d + i)) return false;
  return true;
}
Proof prove(const Np &root, const Bytes &key) {
  Proof p;
  Np n = root;
  unsigned d = 0;
  for (;;) {
    p.depth = d;
    if (n->type == 0) { p.type = 0; return p; }
    if (n->type == 1) {
      if (n->key == key) { p.type = 3; p.value = n->value; }
      else { p.type = 2; p.key = n->key; p.hash = blake2b(n->value, 32); }
      return p;
    }
    if (!match(n->prefix, key, d)) { p.type = 1; p.prefix = n->prefix; p.left = n->l->hash; p.right = n->r->hash; return p; }
    d += n->prefix.size();
    int b = bit(key, d);
    p.nodes.push_back({n->prefix, b ? n->l->hash : n->r->hash});
    n = b ? n->r : n->l;
    d++;
  }
}
static void w16(Bytes &o, unsigned v) { o += (char)(v & 255); o += (char)(v >> 8); }
static void wbits(Bytes &o, const std::vector<int> &b) {
  if (b.size() >= 0x80) o += (char)(0x80 | (b.size() >> 8));
  o += (char)(b.size() & 255);
  o += pack(b);
}
Bytes encode(const Proof &p) {
  Bytes o;
  w16(o, ((unsigned)p.type << 14) | p.depth);
  w16(o, p.nodes.size());
  Bytes map((p.nodes.size() + 7) / 8, '\0');
  for (size_t i = 0; i < p.nodes.size(); i++) if (!p.nodes[i].prefix.empty()) map[i >> 3] |= (char)(0x80 >> (i & 7));
  o += map;
  for (auto &n : p.nodes) { if (!n.prefix.empty()) wbits(o, n.prefix); o += n.hash; }
  switch (p.type) {
    case 1: wbits(o, p.prefix); o += p.left; o += p.right; break;
    case 2: o += p.key; o += p.hash; break;
    case 3: w16(o, p.value.size()); o += p.value; break;
  }
  return o;
}
struct Rd {
  const Bytes &s; size_t i = 0; bool ok = true;
  unsigned u8() { if (i >= s.size()) { ok = false; return 0; } return (unsigned char)s[i++]; }
  unsigned u16() { unsigned a = u8(); return a | (u8() << 8); }
  Bytes take(size_t n) { if (s.size() - i < n) { ok = false; return Bytes(n, '\0'); } Bytes r = s.substr(i, n); i += n; return r; }
  // raw prefix bytes are hashed verbatim, so keep trailing bits too
  bool bits(std::vector<int> &b, Bytes &raw) {
    unsigned n = u8();
    if (!ok) return false;
    if (n & 0x80) { n = ((n & 0x7f) << 8) | u8(); if (!ok || n < 0x80) return false; }
    if (n > 256) return false;
    raw = take((n + 7) / 8);
    if (!ok) return false;
    b.clear();
    for (unsigned k = 0; k < n; k++) b.push_back(((unsigned char)raw[k >> 3] >> (7 - (k & 7))) & 1);
    return true;
  }
};
struct Raw { Proof p; std::vector<Bytes> praw; Bytes sraw; };
static bool parse(Raw &r, const Bytes &raw) {
  Rd in{raw};
  if (raw.size() < 4) return false;
  unsigned f = in.u16(), count = in.u16();
  r.p.type = f >> 14; r.p.depth = f & 0x3fff;
  if (r.p.depth > 256 || count > 256) return false;
  Bytes map = in.take((count + 7) / 8);
  if (!in.ok) return false;
  for (unsigned i = 0; i < count; i++) {
    PNode n; Bytes pr;
    if (((unsigned char)map[i >> 3] >> (7 - (i & 7))) & 1) {
      if (!in.bits(n.prefix, pr) || n.prefix.empty()) return false;
    }
    n.hash = in.take(32);
    if (!in.ok) return false;
    r.p.nodes.push_back(n);
    r.praw.push_back(pr);
  }
  switch (r.p.type) {
    case 0: break;
    case 1: if (!in.bits(r.p.prefix, r.sraw) || r.p.prefix.empty()) return false;
      r.p.left = in.take(32); r.p.right = in.take(32); break;
    case 2: r.p.key = in.take(32); r.p.hash = in.take(32); break;
    case 3: { unsigned n = in.u16(); if (!in.ok || n > 1023) return false; r.p.value = in.take(n); break; }
  }
  return in.ok && in.i == raw.size();
}
bool decode(Proof &p, const Bytes &raw) { Raw r; if (!parse(r, raw)) return false; p = r.p; return true; }

static Bytes hash_raw(const std::vector<int> &p, const Bytes &praw, const Bytes &l, const Bytes &r) {
  if (p.empty()) return hash_internal(p, l, r);
  Bytes s(1, '\x02');
  s += (char)(p.size() & 255); s += (char)(p.size() >> 8);
  return blake2b(s + praw + l + r, 32);
}
int verify(const Bytes &raw, const Bytes &key, const Bytes &root, bool *exists, Bytes *value) {
  Raw r;
  *exists = false;
  value->clear();
  if (!parse(r, raw)) return -1;
  const Proof &p = r.p;
  Bytes h;
  switch (p.type) {
    case 0: h = Bytes(32, '\0'); break;
    case 1: if (match(p.prefix, key, p.depth)) return -2; h = hash_raw(p.prefix, r.sraw, p.left, p.right); break;
    case 2: if (p.key == key) return -3; h = hash_leaf(p.key, p.hash); break;
    case 3: h = hash_leaf(key, blake2b(p.value, 32)); break;
  }
  unsigned d = p.depth;
  for (size_t i = p.nodes.size(); i-- > 0;) {
    const PNode &n = p.nodes[i];
    if (d < n.prefix.size() + 1) return -4;
    d--;
    h = bit(key, d) ? hash_raw(n.prefix, r.praw[i], n.hash, h) : hash_raw(n.prefix, r.praw[i], h, n.hash);
    d -= n.prefix.size();
    if (!match(n.prefix, key, d)) return -5;
  }
  if (d != 0) return -6;
  if (h != root) return -7;
  if (p.type == 3) { *exists = true; *value = p.value; }
  return 0;
}
}  // namespace model
