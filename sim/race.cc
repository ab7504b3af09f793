// Race build: the library is compiled with -fsanitize=thread, but every hook
// lands here. Accesses are scheduling points, and a vector-clock detector
// (happens-before through the locks the library takes) checks each of them.
#include "sim.h"
#include <cstdlib>
#include <cstdio>
#include <unistd.h>
#include <sys/mman.h>
#include <unordered_map>

extern "C" { extern char __data_start, _end; }

namespace sim {
static const int NC = 8;
// Only accesses made while several callers run are recorded: everything else
// happens before or after them by the callers' creation and joining.
struct Cell {             // per byte
  uint32_t w;             // clock of the last write
  uint8_t wt, pad[3];     // its client
  uint32_t r[NC - 1];     // clock of the last read per client
};
static const size_t ARENA = 96u << 20;
static unsigned char *g_arena;
static Cell *g_shadow;
static uint8_t *g_state;   // per byte: 0 never, 1 live, 2 freed, 3 beyond end of file
static size_t g_top, g_high, g_lo = ARENA, g_hi;
static std::unordered_map<uintptr_t, Cell> g_glob;
struct LockVC { std::vector<uint32_t> w, r; };
static std::unordered_map<Lock *, LockVC> g_lvc;
static std::unordered_map<uintptr_t, std::vector<uint32_t>> g_atomic;
static World *g_w;

const bool is_race_build = true;

static void join(std::vector<uint32_t> &a, const std::vector<uint32_t> &b) {
  if (a.size() < NC) a.resize(NC, 0);
  for (size_t i = 0; i < b.size(); i++) if (a[i] < b[i]) a[i] = b[i];
}
static std::vector<uint32_t> &vc(Client *c) {
  if (c->vc.size() < NC) { c->vc.resize(NC, 0); c->vc[c->id] = 1; }
  return c->vc;
}
void race_reset(World *w) {
  g_w = w;
  if (!g_arena) {
    g_arena = (unsigned char *)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_shadow = (Cell *)mmap(nullptr, ARENA * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_state = (uint8_t *)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (g_arena == MAP_FAILED || g_shadow == MAP_FAILED || g_state == MAP_FAILED) { fprintf(stderr, "race: no memory\n"); _exit(3); }
  } else if (g_high) {
    if (g_hi > g_lo) {
      if (g_hi - g_lo < (64u << 10)) memset((void *)(g_shadow + g_lo), 0, (g_hi - g_lo) * sizeof(Cell));
      else { uintptr_t b = (uintptr_t)(g_shadow + g_lo) & ~(uintptr_t)4095; madvise((void *)b, (uintptr_t)(g_shadow + g_hi) - b, MADV_DONTNEED); }
    }
    memset(g_state, 0, g_high);
  }
  g_top = g_high = 0;
  g_lo = ARENA; g_hi = 0;
  g_glob.clear();
  g_lvc.clear();
  g_atomic.clear();
}
void race_spawn(Client *p, Client *c) { join(vc(c), vc(p)); vc(p)[p->id]++; vc(c)[c->id]++; }
void race_join(Client *p, Client *c) { join(vc(p), vc(c)); vc(c)[c->id]++; }
void race_acquire(Client *c, Lock *l, bool excl) {
  auto &k = g_lvc[l];
  join(vc(c), k.w);
  if (excl) join(vc(c), k.r);
}
void race_release(Client *c, Lock *l, bool excl) {
  auto &k = g_lvc[l];
  if (excl) { join(k.w, vc(c)); join(k.r, vc(c)); } else join(k.r, vc(c));
  vc(c)[c->id]++;
}
static void touch(size_t at, size_t n) { if (at < g_lo) g_lo = at; if (at + n > g_hi) g_hi = at + n; }
void *heap_alloc(size_t n) {
  size_t k = (n + 15) & ~(size_t)15;
  if (!g_arena || g_top + k + 32 > ARENA) { void *p = ::malloc(n); if (!p) ::abort(); return p; }
  size_t at = g_top + 16;
  g_top = at + k + 16;
  g_high = g_top;
  memset(g_state + at, 1, n);
  if (cur && cur->w && cur->w->mt) {
    touch(at, n);
    for (size_t i = 0; i < n; i++) { Cell &c = g_shadow[at + i]; c.w = vc(cur)[cur->id]; c.wt = (uint8_t)cur->id; }
  }
  return g_arena + at;
}
static bool in_arena(const void *p) { return (unsigned char *)p >= g_arena && (unsigned char *)p < g_arena + ARENA; }
static const char *what(uint8_t s) { return s == 2 ? "freed memory" : s == 3 ? "a page beyond the end of the mapped file" : "memory out of bounds"; }
static void check(const void *p, size_t n, bool write, bool freeing = false) {
  Client *c = cur;
  if (!c || !c->w || c->w->has_viol || n == 0) return;
  World *w = c->w;
  uintptr_t a = (uintptr_t)p;
  bool ar = in_arena(p);
  bool gl = !ar && a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end;
  if (!ar && !gl) return;
  auto &v = vc(c);
  if (ar) {
    size_t at = (unsigned char *)p - g_arena;
    if (at + n > ARENA) n = ARENA - at;
    if (!freeing)
      for (size_t i = 0; i < n; i++)
        if (g_state[at + i] != 1) w->fail("memory-error", std::string(write ? "write to " : "read of ") + what(g_state[at + i]));
    if (!w->mt) return;
    touch(at, n);
  } else if (!w->mt) return;
  for (size_t i = 0; i < n; i++) {
    Cell *x;
    if (ar) {
      size_t at = (unsigned char *)p - g_arena + i;
      if (freeing && g_state[at] != 1) break;
      x = &g_shadow[at];
    } else {
      x = &g_glob[a + i];
    }
    if (x->w && x->wt != c->id && x->w > v[x->wt])
      w->fail("data-race", std::string(write ? (freeing ? "free" : "write") : "read") + " by caller " + std::to_string(c->id) + " of " + (gl ? "a global variable" : "memory") +
              " written by caller " + std::to_string(x->wt) + " without synchronisation");
    if (write) {
      for (int t = 0; t < NC - 1; t++)
        if (t != c->id && x->r[t] > v[t])
          w->fail("data-race", std::string(freeing ? "free" : "write") + " by caller " + std::to_string(c->id) + " of " + (gl ? "a global variable" : "memory") +
                  " read by caller " + std::to_string(t) + " without synchronisation");
      x->w = v[c->id];
      x->wt = (uint8_t)c->id;
    } else if (c->id < NC - 1) x->r[c->id] = v[c->id];
  }
}
void heap_free(void *p, size_t n) {
  if (!in_arena(p)) { ::free(p); return; }
  if (cur) check(p, n, true, true);
  size_t at = (unsigned char *)p - g_arena;
  for (size_t i = 0; i < n && at + i < ARENA; i++) g_state[at + i] = 2;
}
void mem_poison(void *p, size_t n) {
  if (!in_arena(p)) return;
  size_t at = (unsigned char *)p - g_arena;
  for (size_t i = 0; i < n; i++) g_state[at + i] = 3;
}
void mem_unpoison(void *p, size_t n) {
  if (!in_arena(p)) return;
  size_t at = (unsigned char *)p - g_arena;
  for (size_t i = 0; i < n; i++) g_state[at + i] = 1;
}
void race_access(const void *p, size_t n, bool write) { check(p, n, write); }

static inline void access(const void *p, size_t n, bool write) {
  Client *c = cur;
  if (!c) return;
  World *w = c->w;
  w->st.accesses++;
  if (w->mt && w->sched.mem_permille) {
    uintptr_t a = (uintptr_t)p;
    if (in_arena(p) || (a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end)) yield_point(2);
  }
  check(p, n, write);
}
static void sync_atomic(const void *p) {
  Client *c = cur;
  if (!c) return;
  yield_point(1);
  auto &k = g_atomic[(uintptr_t)p];
  join(vc(c), k);
  join(k, vc(c));
  vc(c)[c->id]++;
}
}  // namespace sim

using namespace sim;
extern "C" {
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
#define RW(n) \
  void __tsan_read##n(void *p) { access(p, n, false); } \
  void __tsan_write##n(void *p) { access(p, n, true); } \
  void __tsan_unaligned_read##n(void *p) { access(p, n, false); } \
  void __tsan_unaligned_write##n(void *p) { access(p, n, true); } \
  void __tsan_volatile_read##n(void *p) { access(p, n, false); } \
  void __tsan_volatile_write##n(void *p) { access(p, n, true); } \
  void __tsan_read##n##_pc(void *p, void *) { access(p, n, false); } \
  void __tsan_write##n##_pc(void *p, void *) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, false); }
void __tsan_write_range(void *p, size_t n) { access(p, n, true); }
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define AT(n, T) \
  T __tsan_atomic##n##_load(const volatile T *p, int) { sync_atomic((void *)p); return *p; } \
  void __tsan_atomic##n##_store(volatile T *p, T v, int) { sync_atomic((void *)p); *p = v; } \
  T __tsan_atomic##n##_exchange(volatile T *p, T v, int) { sync_atomic((void *)p); T o = *p; *p = v; return o; } \
  T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int) { sync_atomic((void *)p); T o = *p; *p = o + v; return o; } \
  T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int) { sync_atomic((void *)p); T o = *p; *p = o - v; return o; } \
  T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int) { sync_atomic((void *)p); T o = *p; *p = o & v; return o; } \
  T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int) { sync_atomic((void *)p); T o = *p; *p = o | v; return o; } \
  T __tsan_atomic##n##_fetch_xor(volatile T *p, T v, int) { sync_atomic((void *)p); T o = *p; *p = o ^ v; return o; } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { sync_atomic((void *)p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *e, T v, int a, int b) { return __tsan_atomic##n##_compare_exchange_strong(p, e, v, a, b); } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T e, T v, int, int) { sync_atomic((void *)p); T o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
// memory functions the instrumentation does not see
void *sim_memcpy(void *d, const void *s, size_t n) { access(s, n, false); access(d, n, true); return ::memcpy(d, s, n); }
void *sim_memmove(void *d, const void *s, size_t n) { access(s, n, false); access(d, n, true); return ::memmove(d, s, n); }
void *sim_memset(void *d, int c, size_t n) { access(d, n, true); return ::memset(d, c, n); }
int sim_memcmp(const void *a, const void *b, size_t n) {
  size_t k = 0;
  while (k < n && ((const unsigned char *)a)[k] == ((const unsigned char *)b)[k]) k++;
  if (k < n) k++;
  access(a, k, false); access(b, k, false);
  return ::memcmp(a, b, n);
}
size_t sim_strlen(const char *s) { size_t n = ::strlen(s); access(s, n + 1, false); return n; }
}
