// Plain and AddressSanitizer builds: no race detection.
#include "sim.h"
#include <cstdlib>
#include <deque>
#include <map>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define POISON(p, n) __asan_poison_memory_region(p, n)
#define UNPOISON(p, n) __asan_unpoison_memory_region(p, n)
#else
#define POISON(p, n) (void)0
#define UNPOISON(p, n) (void)0
#endif
namespace sim {
void race_reset(World *) {}
void race_spawn(Client *, Client *) {}
void race_join(Client *, Client *) {}
void race_acquire(Client *, Lock *, bool) {}
void race_release(Client *, Lock *, bool) {}
void race_access(const void *, size_t, bool) {}
// Large blocks are recycled here, poisoned in between: mapping fresh pages for
// them again and again is what a run would spend most of its time on.
static std::map<size_t, std::deque<void *>> g_pool;
static size_t g_pooled;
void *heap_alloc(size_t n) {
  if (n >= 32768) {
    auto &q = g_pool[n];
    if (q.size() > 1) {
      void *p = q.front();
      q.pop_front();
      g_pooled -= n;
      UNPOISON(p, n);
      return p;
    }
  }
  void *p = ::malloc(n);
  if (!p) ::abort();
  return p;
}
void heap_free(void *p, size_t n) {
  if (n >= 32768 && g_pooled + n < ((size_t)64 << 20)) {
    POISON(p, n);
    g_pool[n].push_back(p);
    g_pooled += n;
    return;
  }
  UNPOISON(p, n);
  ::free(p);
}
void mem_unpoison(void *p, size_t n) { (void)p; (void)n; UNPOISON(p, n); }
void mem_poison(void *p, size_t n) { (void)p; (void)n; POISON(p, n); }
const bool is_race_build = false;
}  // namespace sim
