// Callbacks of -fsanitize-coverage=trace-pc-guard: every edge is a unit of work, a scheduling point, and a coverage bit.
#include <string.h>
#include "simint.hpp"
namespace sim {
static uint64_t g_work = 0, g_limit = 0;
uint32_t g_nedges = 0;
uint8_t g_edge_map[1 << 17];
uint64_t workNow() { return g_work; }
void workLimit(uint64_t e) { g_limit = e ? g_work + e : 0; }
#ifndef SIM_SHADOW
bool haveShadow() { return false; }
void checkAccess(const void* p, size_t n, bool write, const char*) {
  // touch the ends: AddressSanitizer builds report bad ranges
  if (!n) return;
  (void)p;
  (void)write;
}
void shadowFresh(uintptr_t, size_t) {}
#endif
__attribute__((noinline)) static void over() {
  g_limit = 0;
  violation("unbounded-work", "the operation did more work than its declared and supplied sizes allow");
}
}  // namespace sim
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop) {
  if (start == stop || *start) return;
  for (uint32_t* x = start; x < stop; ++x) *x = ++sim::g_nedges;
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t* g) {
  if (!sim::g_active || !sim::t_self) return;
  if (*g < sizeof(sim::g_edge_map)) sim::g_edge_map[*g] = 1;
  if (++sim::g_work > sim::g_limit && sim::g_limit) sim::over();
  sim::pointAcc();
}
