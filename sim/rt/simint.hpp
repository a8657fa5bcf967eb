// Internal interface between the scheduler, the allocator and the instrumentation callbacks.
#pragma once
#include <pthread.h>
#include <atomic>
#include <cstdint>
#include "simrt.hpp"

namespace sim {
constexpr int kMaxThreads = 200;
enum TState : int { T_NONE = 0, T_RUN, T_MUTEX, T_COND, T_JOIN, T_FUTEX, T_SLEEP, T_DONE };
struct SThread {
  int id = 0;
  int state = T_NONE;
  const void* obj = nullptr;
  uint64_t deadline = 0;  // 0: not timed
  bool timed_out = false;
  std::atomic<int> go{0};
  pthread_t real{};
  bool joined = false, detached = false, reaped = false;
  uint32_t prio = 0;
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  void* ret = nullptr;
  uint32_t vc[kMaxThreads] = {};
};
extern bool g_active;
extern uint64_t g_step, g_next_acc;
extern int g_live;  // simulated threads beyond the main one that are not finished
extern thread_local SThread* t_self;
void pointSlow(bool sync);
// scheduling point at an instrumented memory access or edge
inline void pointAcc() {
  if (!g_active || t_self == nullptr) return;
  if (++g_step >= g_next_acc) pointSlow(false);
}
void pointSync();
void vcAcquire(const void* obj);
void vcRelease(const void* obj);
// allocator hooks
bool inArena(uintptr_t a);
void heapAccess(uintptr_t a, size_t n, bool write, const char* who);  // poison + ownership check
void shadowFresh(uintptr_t a, size_t n);                                // forget race history of reused memory
extern bool g_shadow;
}  // namespace sim
