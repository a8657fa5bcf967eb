// operator new/delete: counting, failure injection, fill pattern, and (shadow builds) an arena with
// red zones, quarantine and ownership marks checked at every instrumented access.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <malloc.h>
#include <new>
#include "simint.hpp"
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SIM_ASAN 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#define SIM_ASAN 1
#endif

namespace sim {

uint64_t g_alloc_cap = 256ull << 20;
static bool g_armed = false;
static int64_t g_fail_at = -1;
static bool g_fail_once = true;
static uint64_t g_fired = 0;
static AllocStats g_st;

// side table of live armed blocks
struct Ent {
  void* p;
  size_t n;
};
constexpr size_t kTab = 1 << 18;
static Ent g_tab[kTab];
static void* const kTomb = reinterpret_cast<void*>(1);
static size_t slot(void* p) { return (reinterpret_cast<uintptr_t>(p) * 0x9E3779B97F4A7C15ull) >> (64 - 18); }
static void tabAdd(void* p, size_t n) {
  size_t i = slot(p);
  for (size_t k = 0; k < kTab; ++k, i = (i + 1) & (kTab - 1))
    if (g_tab[i].p == nullptr || g_tab[i].p == kTomb) {
      g_tab[i].p = p;
      g_tab[i].n = n;
      g_st.live_blocks++;
      g_st.live_bytes += n;
      return;
    }
}
static void tabDel(void* p) {
  if (g_st.live_blocks == 0) return;
  size_t i = slot(p);
  for (size_t k = 0; k < kTab; ++k, i = (i + 1) & (kTab - 1)) {
    if (g_tab[i].p == nullptr) return;
    if (g_tab[i].p == p) {
      g_st.live_blocks--;
      g_st.live_bytes -= g_tab[i].n;
      g_tab[i].p = kTomb;
      return;
    }
  }
}
uint64_t allocLiveSize(const void* p) {  // size of a live block allocated while armed, 0 otherwise
  size_t i = slot(const_cast<void*>(p));
  for (size_t k = 0; k < kTab; ++k, i = (i + 1) & (kTab - 1)) {
    if (g_tab[i].p == nullptr) return 0;
    if (g_tab[i].p == p) return g_tab[i].n;
  }
  return 0;
}
uint64_t g_signals = 0;
static uint64_t g_sig_min = 0, g_eligible = 0;
void allocArm(int64_t fail_at, bool once, uint64_t min_signals) {
  g_armed = true;
  g_signals = 0;
  g_sig_min = min_signals;
  g_eligible = 0;
  g_fail_at = fail_at;
  g_fail_once = once;
  g_st.armed_allocs = 0;
  g_st.armed_bytes = 0;
  g_fired = 0;
}
void allocDisarm() { g_armed = false; }
bool allocArmed() { return g_armed; }
AllocStats allocStats() { return g_st; }
uint64_t allocFired() { return g_fired; }
AllocPause::AllocPause() : was(g_armed) { g_armed = false; }
AllocPause::~AllocPause() { g_armed = was; }

#ifdef SIM_SHADOW
// ---------------------------------------------------------------- arena
static const uintptr_t kBase = 0x610000000000ull;
static const size_t kArena = 8ull << 30;
static uint8_t* g_pois = nullptr;  // one byte per 8 arena bytes
static uintptr_t g_top = 0;
struct Range {
  uintptr_t a, b;
  int owner;
  const char* label;
};
static Range g_ranges[64];
static int g_nranges = 0;
static bool g_arena_on = false;
bool inArena(uintptr_t a) { return a >= kBase && a < kBase + kArena; }
static void arenaInit() {
  void* p = mmap(reinterpret_cast<void*>(kBase), kArena, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != reinterpret_cast<void*>(kBase)) internalError("arena mmap failed");
  g_pois = static_cast<uint8_t*>(
      mmap(nullptr, kArena / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  g_top = kBase + 64;
  g_arena_on = true;
}
// poison byte: 0 = unallocated/red zone, 1..8 = that many leading bytes valid, 0xFD freed
static void* arenaNew(size_t n) {
  if (!g_arena_on) arenaInit();
  uintptr_t p = (g_top + 63) & ~uintptr_t(15);
  if (p + n + 64 > kBase + kArena) return nullptr;
  *reinterpret_cast<size_t*>(p - 16) = n;
  g_top = p + n + 32;
  size_t full = n / 8;
  memset(g_pois + (p - kBase) / 8, 8, full);
  if (n % 8) g_pois[(p - kBase) / 8 + full] = uint8_t(n % 8);
  return reinterpret_cast<void*>(p);
}
static void arenaDel(void* q) {
  const uintptr_t p = reinterpret_cast<uintptr_t>(q);
  const size_t n = *reinterpret_cast<size_t*>(p - 16);
  if (n == 0) return;
  if (g_pois[(p - kBase) / 8] == 0xFD) violation("double-free", "a heap block is freed twice");
  memset(g_pois + (p - kBase) / 8, 0xFD, (n + 7) / 8);
}
void heapAccess(uintptr_t a, size_t n, bool write, const char* who) {
  if (!n) return;
  for (uintptr_t g = a & ~uintptr_t(7); g < a + n; g += 8) {
    const uint8_t v = g_pois[(g - kBase) / 8];
    if (v == 8) continue;
    const uintptr_t end = (a + n < g + 8) ? a + n : g + 8;
    if (v < 8 && end - g <= v) continue;
    char m[200];
    snprintf(m, sizeof m, "%s %s of %zu bytes, thread %d, %s", who, write ? "write" : "read", n, t_self ? t_self->id : -1,
             v == 0xFD ? "block already freed" : "outside any live heap block");
    violation(v == 0xFD ? (write ? "use-after-free:write" : "use-after-free:read")
                        : (write ? "heap-overflow:write" : "heap-overflow:read"),
              m);
  }
  if (g_nranges && t_self) {
    for (int i = 0; i < g_nranges; ++i)
      if (a < g_ranges[i].b && a + n > g_ranges[i].a && t_self->id != g_ranges[i].owner) {
        char m[200];
        snprintf(m, sizeof m, "%s %s of %zu bytes at offset %lld of the %s by thread %d after the call had ended", who,
                 write ? "write" : "read", n, (long long)(a - g_ranges[i].a), g_ranges[i].label, t_self->id);
        violation(write ? "late-access:write" : "late-access:read", m);
      }
  }
}
void forbid(const void* p, size_t n, const char* label) {
  if (!n || g_nranges >= 64) return;
  g_ranges[g_nranges++] = Range{reinterpret_cast<uintptr_t>(p), reinterpret_cast<uintptr_t>(p) + n, tid(), label};
}
void allow(const void* p, size_t n) {
  (void)n;
  const uintptr_t a = reinterpret_cast<uintptr_t>(p);
  for (int i = 0; i < g_nranges;)
    if (g_ranges[i].a == a) g_ranges[i] = g_ranges[--g_nranges];
    else ++i;
}
#else
bool inArena(uintptr_t) { return false; }
void heapAccess(uintptr_t, size_t, bool, const char*) {}
void forbid(const void*, size_t, const char*) {}
void allow(const void*, size_t) {}
#endif

static void* doNew(size_t n, size_t align, bool nothrow) {
  if (g_armed) {
    g_st.armed_allocs++;
    const uint64_t k = g_signals >= g_sig_min ? g_eligible++ : ~0ull >> 1;
    if (k != ~0ull >> 1 && g_fail_at >= 0 && (g_fail_once ? int64_t(k) == g_fail_at : int64_t(k) >= g_fail_at)) {
      g_fired++;
      countFault(F_ALLOC);
      log("fault_alloc", k, n);
      if (nothrow) return nullptr;
      throw std::bad_alloc();
    }
  }
  if (n > g_alloc_cap && g_active) {
    countFault(F_ALLOC_CAP);
    log("alloc_cap", n);
    if (nothrow) return nullptr;
    throw std::bad_alloc();
  }
  void* p;
#ifdef SIM_SHADOW
  if (g_active && align <= 16) {
    p = arenaNew(n);
    if (p) shadowFresh(reinterpret_cast<uintptr_t>(p), n);
  } else
#endif
  {
    p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
  }
  if (!p) {
    if (nothrow) return nullptr;
    throw std::bad_alloc();
  }
  if (g_active && n <= (64u << 20)) memset(p, 0xA5, n);
  if (g_armed) {
    g_st.armed_bytes += n;
    tabAdd(p, n);
  }
  return p;
}
static void doDelete(void* p) {
  if (!p) return;
  tabDel(p);
#ifdef SIM_SHADOW
  if (inArena(reinterpret_cast<uintptr_t>(p))) {
    arenaDel(p);
    return;
  }
#endif
  free(p);
}
}  // namespace sim

void* operator new(size_t n) { return sim::doNew(n, 16, false); }
void* operator new[](size_t n) { return sim::doNew(n, 16, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim::doNew(n, 16, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim::doNew(n, 16, true); }
void* operator new(size_t n, std::align_val_t a) { return sim::doNew(n, size_t(a), false); }
void* operator new[](size_t n, std::align_val_t a) { return sim::doNew(n, size_t(a), false); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return sim::doNew(n, size_t(a), true); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return sim::doNew(n, size_t(a), true); }
void operator delete(void* p) noexcept { sim::doDelete(p); }
void operator delete[](void* p) noexcept { sim::doDelete(p); }
void operator delete(void* p, size_t) noexcept { sim::doDelete(p); }
void operator delete[](void* p, size_t) noexcept { sim::doDelete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::doDelete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::doDelete(p); }
void operator delete(void* p, std::align_val_t) noexcept { sim::doDelete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sim::doDelete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { sim::doDelete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { sim::doDelete(p); }
