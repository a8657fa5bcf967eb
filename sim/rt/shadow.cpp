// Callbacks of compile-time access instrumentation (-fsanitize=thread code generation, own runtime):
// every memory access is a scheduling point, is checked against heap/ownership state, and feeds a
// vector-clock race detector.
#include <string.h>
#include <stdio.h>
#include <malloc.h>
#include <sys/mman.h>
#include "simint.hpp"

namespace sim {
bool haveShadow() { return true; }

struct Cell {
  uint32_t w;      // tid << 24 | clock of the last write
  uint32_t r[2];   // last reads by (up to) two threads
};
constexpr size_t kPage = 4096;
struct Page {
  Cell c[kPage];
};
constexpr size_t kMap = 1 << 16;
struct PEnt {
  uintptr_t key;
  Page* p;
};
static PEnt* g_map = nullptr;
static uintptr_t g_last_key = 0;
static Page* g_last = nullptr;

static Page* page(uintptr_t key, bool create) {
  if (key == g_last_key && g_last) return g_last;
  if (!g_map) g_map = static_cast<PEnt*>(mmap(nullptr, sizeof(PEnt) * kMap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  size_t i = (key * 0x9E3779B97F4A7C15ull) >> 48;
  size_t probes = 0;
  while (g_map[i].p) {
    if (g_map[i].key == key) {
      g_last_key = key;
      return g_last = g_map[i].p;
    }
    i = (i + 1) & (kMap - 1);
    if (++probes > kMap - 16) internalError("shadow map full");
  }
  if (!create) return nullptr;
  g_map[i].key = key;
  g_map[i].p = static_cast<Page*>(mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (g_map[i].p == MAP_FAILED) internalError("shadow page");
  g_last_key = key;
  return g_last = g_map[i].p;
}
void shadowFresh(uintptr_t a, size_t n) {
  if (!g_map) return;
  while (n) {
    const size_t off = a & (kPage - 1);
    size_t k = kPage - off;
    if (k > n) k = n;
    if (Page* p = page(a / kPage, false)) memset(p->c + off, 0, k * sizeof(Cell));
    a += k;
    n -= k;
  }
}
// memory that the code under test gets from malloc (Eigen's allocator of PCL points) can be recycled by another thread
extern "C" void __real_free(void*);
extern "C" void __wrap_free(void* p) {
  if (p && g_active && t_self) shadowFresh(reinterpret_cast<uintptr_t>(p), malloc_usable_size(p));
  __real_free(p);
}
static inline bool hb(uint32_t e, const SThread* t) {  // did epoch e happen before t's current point?
  if (!e) return true;
  const uint32_t id = e >> 24;
  if (int(id) == t->id) return true;
  return (e & 0xFFFFFF) <= t->vc[id];
}
static void race(uintptr_t a, bool w1, bool w2, uint32_t e) {
  char m[200];
  snprintf(m, sizeof m, "thread %d %ss memory (%s) that thread %u %s without synchronisation", t_self->id, w1 ? "write" : "read",
           inArena(a) ? "heap" : "stack/global", e >> 24, w2 ? "wrote" : "read");
  violation(w1 && w2 ? "race:write-write" : "race:read-write", m);
}
static inline void track(uintptr_t a, size_t n, bool write) {
  SThread* t = t_self;
  const uint32_t me = (uint32_t(t->id) << 24) | (t->vc[t->id] & 0xFFFFFF);
  while (n) {
    const size_t off = a & (kPage - 1);
    size_t k = kPage - off;
    if (k > n) k = n;
    Cell* c = page(a / kPage, true)->c + off;
    for (size_t i = 0; i < k; ++i) {
      Cell& x = c[i];
      if (write) {
        if (x.w == me && !(x.r[0] | x.r[1])) continue;
        if (!hb(x.w, t)) race(a + i, true, true, x.w);
        if (!hb(x.r[0], t)) race(a + i, true, false, x.r[0]);
        if (!hb(x.r[1], t)) race(a + i, true, false, x.r[1]);
        x.w = me;
        x.r[0] = x.r[1] = 0;
      } else {
        if (x.r[0] == me) continue;
        if (!hb(x.w, t)) race(a + i, false, true, x.w);
        if ((x.r[0] >> 24) == uint32_t(t->id) || hb(x.r[0], t)) x.r[0] = me;
        else x.r[1] = me;
      }
    }
    a += k;
    n -= k;
  }
}
static inline void access(const void* p, size_t n, bool write) {
  if (!g_active || !t_self) return;
  pointAcc();
  const uintptr_t a = reinterpret_cast<uintptr_t>(p);
  if (inArena(a)) heapAccess(a, n, write, "library");
  if (g_live) track(a, n, write);
}
void checkAccess(const void* p, size_t n, bool write, const char* who) {
  if (!g_active || !t_self || !n) return;
  const uintptr_t a = reinterpret_cast<uintptr_t>(p);
  if (inArena(a)) heapAccess(a, n, write, who);
  if (g_live) track(a, n, write);
}
static struct Init {
  Init() { g_shadow = true; }
} g_init;
}  // namespace sim

using sim::access;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n)                                                        \
  void __tsan_read##n(void* p) { access(p, n, false); }              \
  void __tsan_write##n(void* p) { access(p, n, true); }              \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false); }    \
  void __tsan_unaligned_write##n(void* p) { access(p, n, true); }    \
  void __tsan_read_write##n(void* p) { access(p, n, true); }         \
  void __tsan_unaligned_read_write##n(void* p) { access(p, n, true); } \
  void __tsan_volatile_read##n(void* p) { access(p, n, false); }     \
  void __tsan_volatile_write##n(void* p) { access(p, n, true); }     \
  void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false); } \
  void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true); }
void __tsan_vptr_update(void** p, void*) { access(p, sizeof(void*), true); }
void __tsan_vptr_read(void** p) { access(p, sizeof(void*), false); }
void* __tsan_memcpy(void* d, const void* s, size_t n) {
  if (n) {
    access(s, n, false);
    access(d, n, true);
  }
  return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
  if (n) {
    access(s, n, false);
    access(d, n, true);
  }
  return memmove(d, s, n);
}
void* __tsan_memset(void* d, int v, size_t n) {
  if (n) access(d, n, true);
  return memset(d, v, n);
}
}
// atomics: a scheduling point, happens-before through the location, no race tracking
namespace {
inline void atomPoint() {
  if (sim::g_active && sim::t_self) sim::pointSync();
}
inline void acq(const volatile void* p, int mo) {
  if (mo != 0 && mo != 3 && sim::g_active && sim::t_self) sim::vcAcquire(const_cast<const void*>(p));
}
inline void rel(const volatile void* p, int mo) {
  if (mo >= 3 && sim::g_active && sim::t_self) sim::vcRelease(const_cast<const void*>(p));
}
inline void heap(const volatile void* p, size_t n, bool w) {
  if (sim::g_active && sim::t_self && sim::inArena(reinterpret_cast<uintptr_t>(p)))
    sim::heapAccess(reinterpret_cast<uintptr_t>(p), n, w, "library");
}
}  // namespace
extern "C" {
#define ATOM(T, B)                                                                                     \
  T __tsan_atomic##B##_load(const volatile T* a, int mo) {                                             \
    atomPoint(); heap(a, sizeof(T), false);                                                            \
    T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); acq(a, mo); return v; }                                \
  void __tsan_atomic##B##_store(volatile T* a, T v, int mo) {                                          \
    atomPoint(); heap(a, sizeof(T), true); rel(a, mo); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); }     \
  T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) {                                          \
    atomPoint(); heap(a, sizeof(T), true); acq(a, mo); rel(a, mo);                                     \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); }                                              \
  T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) {                                         \
    atomPoint(); heap(a, sizeof(T), true); acq(a, mo); rel(a, mo);                                     \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); }                                               \
  T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) {                                         \
    atomPoint(); heap(a, sizeof(T), true); acq(a, mo); rel(a, mo);                                     \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); }                                               \
  T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) {                                         \
    atomPoint(); heap(a, sizeof(T), true); acq(a, mo); rel(a, mo);                                     \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); }                                               \
  T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) {                                          \
    atomPoint(); heap(a, sizeof(T), true); acq(a, mo); rel(a, mo);                                     \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); }                                                \
  T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) {                                         \
    atomPoint(); heap(a, sizeof(T), true); acq(a, mo); rel(a, mo);                                     \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); }                                               \
  T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int mo) {                                        \
    atomPoint(); heap(a, sizeof(T), true); acq(a, mo); rel(a, mo);                                     \
    return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); }                                              \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int) {              \
    atomPoint(); heap(a, sizeof(T), true); acq(a, mo); rel(a, mo);                                     \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }          \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int) {                \
    atomPoint(); heap(a, sizeof(T), true); acq(a, mo); rel(a, mo);                                     \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }          \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int mo, int) {                    \
    atomPoint(); heap(a, sizeof(T), true); acq(a, mo); rel(a, mo);                                     \
    __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOM(uint8_t, 8) ATOM(uint16_t, 16) ATOM(uint32_t, 32) ATOM(uint64_t, 64)
void __tsan_atomic_thread_fence(int) { atomPoint(); }
void __tsan_atomic_signal_fence(int) {}
}
