// Reference model: BLAKE2b, canonical tree roots, proofs. Independent of /repo.
#pragma once
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <cstdint>

namespace model {
using Bytes = std::string;
using KV = std::map<Bytes, Bytes>;       // 32-byte key -> value
using KVp = std::shared_ptr<const KV>;

Bytes blake2b(const Bytes &in, size_t outlen, const Bytes &key = Bytes());
inline int bit(const Bytes &k, unsigned d) { return ((unsigned char)k[d >> 3] >> (7 - (d & 7))) & 1; }

// A materialised reference tree.
struct Node {
  int type;             // 0 null, 1 leaf, 2 internal
  Bytes hash;           // 32 bytes
  Bytes key, value;     // leaf
  std::vector<int> prefix;  // internal: bits
  unsigned depth = 0;   // depth at which the node hangs
  std::shared_ptr<Node> l, r;
};
using Np = std::shared_ptr<Node>;
Np build(const KV &kv);
Bytes root_of(const KVp &kv);   // memoised per pointer
Bytes hash_leaf(const Bytes &key, const Bytes &vhash);
Bytes hash_internal(const std::vector<int> &prefix, const Bytes &l, const Bytes &r);
void clear_memo();

struct PNode { std::vector<int> prefix; Bytes hash; };
struct Proof {
  int type = 0;  // 0 deadend 1 short 2 collision 3 exists
  unsigned depth = 0;
  std::vector<PNode> nodes;
  std::vector<int> prefix; Bytes left, right;  // short
  Bytes key, hash;                              // collision
  Bytes value;                                  // exists
};
Proof prove(const Np &root, const Bytes &key);
Bytes encode(const Proof &p);
bool decode(Proof &p, const Bytes &raw);
// returns 0 if it verifies; *exists/value describe the claim
int verify(const Bytes &raw, const Bytes &key, const Bytes &root, bool *exists, Bytes *value);

// ---- the stored format, as the pinned version writes it
struct Ptr { uint32_t index = 0; uint64_t pos = 0; size_t size = 0; };
// A data file: `hole` zero bytes, then `b`.
struct File { Bytes b; uint64_t hole = 0; uint64_t size() const { return hole + b.size(); } };
// Reads data files (files[0] is file 1): roots of all commits, newest first.
// An inconsistency is described in err.
struct Stored { Bytes err; std::vector<Bytes> roots; };
Stored read_stored(const Bytes &key, const std::vector<File> &files);
// Appends commits to data files in a layout of its own choice.
struct Writer {
  Bytes key;
  std::vector<File> files{File()};
  uint64_t state = 1;         // of the random choices
  size_t maxfile = 0;         // 0: no limit
  bool shuffle = false, gaps = false, share = true, junkpad = false;
  Ptr last;                   // of the last commit record
  std::map<Bytes, Ptr> nodes; // by hash
  void commit(const KV &kv);
  void append(const Bytes &b) { files.back().b += b; }
  size_t rnd(size_t n);
  Ptr alloc(size_t n);
};
}  // namespace model
