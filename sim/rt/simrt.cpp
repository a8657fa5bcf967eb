#include <sys/mman.h>
#include "simint.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace sim {

const char* const kFaultNames[F_COUNT] = {
    "alloc_fail", "alloc_over_limit", "thread_create_fail", "compress_fail", "decompress_fail", "spurious_wakeup",
    "net_drop", "net_dup", "net_delay_reorder", "net_corrupt", "net_truncate", "net_splice",
    "store_crash", "chunk_loss", "chunk_dup", "append_garbage",
    "disk_open_fail", "disk_read_fail", "disk_write_fail", "disk_short_write", "disk_full", "disk_close_fail",
    "disk_mmap_fail",
    "bag_write_fail", "bag_read_fail", "bag_open_fail", "bag_corrupt_record",
    "bad_request", "early_destroy", "wasm_trap", "memory_growth", "load_fail", "load_late"};

static Shared g_local_shared;
Shared* g_sh = &g_local_shared;

bool g_active = false;
uint64_t g_step = 0, g_next_acc = 0;
int g_live = 0;
bool g_shadow = false;
thread_local SThread* t_self = nullptr;

static SThread g_threads[kMaxThreads];
static int g_nthreads = 0;
static SThread* g_cur = nullptr;
static SThread* g_reap = nullptr;
static SchedCfg g_cfg;
static size_t g_tp = 0;       // replay pointer into kind-0 entries
static size_t g_cp = 0;       // replay pointer into kind-1 entries
static TraceEntry g_rt[kMaxTrace];
static uint32_t g_rn = 0;
static TraceEntry g_ct[kMaxTrace];
static uint32_t g_cn = 0;
static uint64_t g_choice_ord = 0;
static Rng g_rng(1);
static uint64_t g_time = 0;  // simulated nanoseconds
static uint64_t g_pct_points[64];
static int g_pct_n = 0, g_pct_i = 0;
static uint32_t g_pct_low = 0;
static bool g_fair = false;

CallPlan g_plan_compress, g_plan_decompress, g_plan_thread;
uint64_t g_n_compress = 0, g_n_decompress = 0, g_n_thread = 0;
void resetCallPlans() {
  g_plan_compress = CallPlan();
  g_plan_decompress = CallPlan();
  g_plan_thread = CallPlan();
  g_n_compress = g_n_decompress = g_n_thread = 0;
}

// ------------------------------------------------------------------ real functions
template <typename F>
static F realFn(F*, const char* name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
#define REAL(name)                                                       \
  ([]() {                                                                \
    static decltype(&::name) fn = nullptr;                               \
    if (!fn) fn = reinterpret_cast<decltype(&::name)>(dlsym(RTLD_NEXT, #name)); \
    return fn;                                                           \
  }())

static long rawSyscall6(long n, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}
static void futexWait(std::atomic<int>* a, int v) {
  rawSyscall6(SYS_futex, (long)a, FUTEX_WAIT_PRIVATE, v, 0, 0, 0);
}
static void futexWake(std::atomic<int>* a) {
  rawSyscall6(SYS_futex, (long)a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

// ------------------------------------------------------------------ logging
static uint64_t hs(const char* s) {
  uint64_t h = 0xcbf29ce484222325ull;
  for (; *s; ++s) h = (h ^ uint8_t(*s)) * 0x100000001b3ull;
  return h;
}
static FILE* g_logf = nullptr;
static bool g_log_checked = false;
void log(const char* ev, uint64_t a, uint64_t b) {
  const int t = t_self ? t_self->id : -1;
  uint64_t h = mix64(g_sh->loghash, hs(ev));
  h = mix64(h, (uint64_t(uint32_t(t)) << 40) ^ g_step);
  h = mix64(h, a);
  h = mix64(h, b);
  g_sh->loghash = h;
  g_sh->events++;
  if (!g_log_checked) {
    g_log_checked = true;
    if (getenv("SIM_LOG")) g_logf = fopen(getenv("SIM_LOG"), "a");
  }
  if (g_logf) {
    fprintf(g_logf, "%llu t%d %s %llx %llx\n", (unsigned long long)g_step, t, ev, (unsigned long long)a,
            (unsigned long long)b);
    fflush(g_logf);
  }
}
void logBytes(const char* ev, const void* p, size_t n) { log(ev, hashBytes(p, n), n); }
static void ilv(int op, uint64_t obj) {
  g_sh->ilvhash = mix64(g_sh->ilvhash, (uint64_t(t_self ? t_self->id : 255) << 32) ^ (uint64_t(op) << 24) ^ obj);
}

// the registry lives in shared memory: names are assigned by whichever child hits a probe first
struct ProbeReg {
  int n;
  char name[kMaxProbe][64];
};
static ProbeReg g_reg_local;
static ProbeReg* g_reg = &g_reg_local;
void probeShare(void* mem) { g_reg = static_cast<ProbeReg*>(mem); }
int probeId(const char* name) {
  for (int i = 0; i < g_reg->n; ++i)
    if (!strncmp(g_reg->name[i], name, 63)) return i;
  if (g_reg->n >= kMaxProbe) return kMaxProbe - 1;
  snprintf(g_reg->name[g_reg->n], 64, "%s", name);
  return g_reg->n++;
}
const char* probeName(int i) { return i < g_reg->n ? g_reg->name[i] : nullptr; }
void probe(int i) { g_sh->probe[i]++; }
void countFault(int k) { g_sh->fault[k]++; }
void countEval(uint64_t n) { g_sh->evals += n; }

static void fin() {
  g_sh->steps = g_step;
  g_sh->simtime_ns = now_ns();
}
void violation(const char* vclass, const char* msg) {
  g_active = false;
  fin();
  snprintf(g_sh->vclass, sizeof g_sh->vclass, "%s", vclass);
  snprintf(g_sh->msg, sizeof g_sh->msg, "%s", msg);
  g_sh->loghash = mix64(g_sh->loghash, hs(vclass));
  g_sh->status = ST_VIOLATION;
  _exit(42);
}
void internalError(const char* msg) {
  g_active = false;
  fin();
  snprintf(g_sh->vclass, sizeof g_sh->vclass, "internal");
  snprintf(g_sh->msg, sizeof g_sh->msg, "%s", msg);
  g_sh->status = ST_INTERNAL;
  _exit(43);
}

// ------------------------------------------------------------------ object table (mutex, once, futex ... keyed by address)
struct Obj {
  const void* addr;
  int owner;      // mutex owner tid, -1 free
  int count;      // recursion / semaphore value / readers
  uint32_t id;
  bool has_vc;
  uint32_t vc[kMaxThreads];
};
constexpr int kObjCap = 1 << 13;
static Obj g_objs[kObjCap];
static uint32_t g_obj_n = 0;
static Obj* obj(const void* a) {
  size_t i = (reinterpret_cast<uintptr_t>(a) * 0x9E3779B97F4A7C15ull) >> (64 - 13);
  while (true) {
    if (g_objs[i].addr == a) return &g_objs[i];
    if (g_objs[i].addr == nullptr) {
      if (g_obj_n > kObjCap - 64) internalError("object table full");
      g_objs[i].addr = a;
      g_objs[i].owner = -1;
      g_objs[i].count = 0;
      g_objs[i].id = g_obj_n++;
      return &g_objs[i];
    }
    i = (i + 1) & (kObjCap - 1);
  }
}
void vcAcquire(const void* a) {
  if (!g_shadow || !t_self) return;
  Obj* o = obj(a);
  if (!o->has_vc) return;
  for (int i = 0; i < g_nthreads; ++i)
    if (o->vc[i] > t_self->vc[i]) t_self->vc[i] = o->vc[i];
}
void vcRelease(const void* a) {
  if (!g_shadow || !t_self) return;
  Obj* o = obj(a);
  o->has_vc = true;
  for (int i = 0; i < g_nthreads; ++i)
    if (t_self->vc[i] > o->vc[i]) o->vc[i] = t_self->vc[i];
  t_self->vc[t_self->id]++;
}

// ------------------------------------------------------------------ scheduler core
static void record(uint64_t step, uint32_t val, uint32_t kind) {
  if (g_sh->ntrace >= kMaxTrace) {
    g_sh->trace_overflow = 1;
    return;
  }
  g_sh->trace[g_sh->ntrace++] = TraceEntry{step, val, kind};
}
static uint64_t gap(uint32_t mean) {
  if (mean <= 1) return 1;
  const double u = g_rng.unit();
  // geometric-like, integer arithmetic on a fixed table would be overkill: ln via builtin is deterministic here
  const double g = -__builtin_log(1.0 - u) * double(mean);
  return 1 + uint64_t(g);
}
static void planNext() {
  if (g_fair) {
    g_next_acc = g_step + 64;
    return;
  }
  uint64_t n = ~0ull;
  if (g_cfg.replay) {
    if (g_tp < g_rn) n = g_rt[g_tp].step;
  } else if (g_cfg.strategy == 1 && g_sh->ntrace < kMaxTrace - 8) {
    n = g_step + gap(g_cfg.acc_gap);
  } else if (g_cfg.strategy == 2) {
    while (g_pct_i < g_pct_n && g_pct_points[g_pct_i] <= g_step) ++g_pct_i;
    if (g_pct_i < g_pct_n) n = g_pct_points[g_pct_i];
  }
  if (n > g_cfg.step_cap) n = g_cfg.step_cap;
  if (n <= g_step) n = g_step + 1;
  g_next_acc = n;
}
static bool runnable(SThread* t) { return t->state == T_RUN; }
static bool wakeable(SThread* t) {  // may be woken spuriously or by an early time-out
  return t->state == T_COND || ((t->state == T_FUTEX || t->state == T_MUTEX || t->state == T_SLEEP) && t->deadline);
}
static void wakeSpecial(SThread* t) {
  if (t->state == T_COND && !t->deadline) countFault(F_SPURIOUS);
  if (t->deadline && t->state != T_RUN) {
    if (g_time < t->deadline) g_time = t->deadline;
    t->timed_out = true;
  }
  t->state = T_RUN;
}
static void waitToken(SThread* me) {
  while (me->go.load(std::memory_order_acquire) == 0) futexWait(&me->go, 0);
  me->go.store(0, std::memory_order_relaxed);
  if (g_reap) {
    SThread* r = g_reap;
    g_reap = nullptr;
    void* rv;
    g_active = false;  // TLS destructors of r have run / run now; nobody else holds the token
    REAL(pthread_join)(r->real, &rv);
    g_active = true;
    r->reaped = true;
  }
}
static void handTo(SThread* t) {
  g_cur = t;
  t->go.store(1, std::memory_order_release);
  futexWake(&t->go);
}
static void switchTo(SThread* t) {
  SThread* me = t_self;
  if (t == me) return;
  handTo(t);
  waitToken(me);
}
static const char* stName(int s) {
  static const char* n[] = {"none", "run", "mutex", "cond", "join", "futex", "sleep", "done"};
  return n[s];
}
static SThread* defaultNext(SThread* me) {
  if (me && runnable(me)) return me;
  for (int i = 0; i < g_nthreads; ++i)
    if (runnable(&g_threads[i])) return &g_threads[i];
  return nullptr;
}
static void deadlock() {
  g_active = false;
  static char m[1500];
  size_t n = size_t(snprintf(m, sizeof m, "no thread can run:"));
  for (int i = 0; i < g_nthreads && n < sizeof m - 32; ++i) {
    if (g_threads[i].state == T_DONE) continue;
    n += size_t(snprintf(m + n, sizeof m - n, " t%d=%s", i, stName(g_threads[i].state)));
  }
  violation("deadlock", m);
}
// Picks who runs next. me may be blocked.
static SThread* decide(SThread* me, bool sync) {
  SThread* def = defaultNext(me);
  if (!def) {
    // nobody can run: jump the clock to the earliest deadline
    SThread* e = nullptr;
    for (int i = 0; i < g_nthreads; ++i) {
      SThread* t = &g_threads[i];
      if (t->deadline && t->state != T_RUN && t->state != T_DONE && (!e || t->deadline < e->deadline)) e = t;
    }
    if (!e) deadlock();
    wakeSpecial(e);
    return e;
  }
  if (g_fair) {
    const int base = me ? me->id : 0;
    for (int k = 1; k <= g_nthreads; ++k) {
      SThread* t = &g_threads[(base + k) % g_nthreads];
      if (runnable(t)) return t;
    }
  }
  SThread* pick = def;
  if (g_cfg.replay) {
    while (g_tp < g_rn && g_rt[g_tp].step < g_step) ++g_tp;
    if (g_tp < g_rn && g_rt[g_tp].step == g_step) {
      const uint32_t v = g_rt[g_tp].val;
      ++g_tp;
      if (v < uint32_t(g_nthreads) && (runnable(&g_threads[v]) || wakeable(&g_threads[v]))) pick = &g_threads[v];
    }
  } else if (g_cfg.strategy == 1) {
    const bool forced = !(me && runnable(me));
    const bool want = forced || !sync || g_rng.below(100) < g_cfg.sync_pct;
    if (want) {
      SThread* c[kMaxThreads];
      int n = 0;
      for (int i = 0; i < g_nthreads; ++i)
        if (runnable(&g_threads[i]) && &g_threads[i] != me) c[n++] = &g_threads[i];
      if (g_cfg.spurious_pml && g_rng.below(1000) < g_cfg.spurious_pml) {
        int m = 0;
        SThread* w[kMaxThreads];
        for (int i = 0; i < g_nthreads; ++i)
          if (wakeable(&g_threads[i]) && &g_threads[i] != me) w[m++] = &g_threads[i];
        if (m) {
          c[0] = w[g_rng.below(m)];
          n = 1;
        }
      }
      if (n) pick = c[g_rng.below(n)];
    }
  } else if (g_cfg.strategy == 2) {
    if (me && !sync && g_pct_i < g_pct_n && g_pct_points[g_pct_i] <= g_step) {
      me->prio = g_pct_low ? --g_pct_low : 0;
      ++g_pct_i;
    }
    SThread* best = nullptr;
    for (int i = 0; i < g_nthreads; ++i) {
      SThread* t = &g_threads[i];
      if (runnable(t) && (!best || t->prio > best->prio)) best = t;
    }
    if (best) pick = best;
    if (g_cfg.spurious_pml && g_rng.below(1000) < g_cfg.spurious_pml) {
      int m = 0;
      SThread* w[kMaxThreads];
      for (int i = 0; i < g_nthreads; ++i)
        if (wakeable(&g_threads[i]) && &g_threads[i] != me) w[m++] = &g_threads[i];
      if (m) pick = w[g_rng.below(m)];
    }
  }
  if (pick != def && g_sh->ntrace >= kMaxTrace - 8) pick = def;  // keep every run replayable
  if (pick != def) record(g_step, pick->id, 0);
  if (!runnable(pick)) wakeSpecial(pick);
  if (me && runnable(me) && pick != me) g_sh->switches++;
  return pick;
}
void pointSlow(bool sync) {
  SThread* me = t_self;
  if (g_step >= g_cfg.step_cap) {
    if (!g_fair) {
      g_fair = true;
      log("fair", 0, 0);
    }
    if (g_step >= 3 * g_cfg.step_cap) violation("livelock", "no progress within the step bound after faults and preemption stopped");
  }
  SThread* t = decide(me, sync);
  planNext();
  if (t != me) switchTo(t);
}
void pointSync() {
  if (!g_active || !t_self) return;
  ++g_step;
  if (g_cfg.replay && !g_fair) {
    if (g_step >= g_next_acc) pointSlow(true);
    return;
  }
  pointSlow(true);
}
// me is blocked: give the token away until woken
static void blockHere() {
  SThread* me = t_self;
  ++g_step;
  while (true) {
    SThread* t = decide(me, true);
    planNext();
    if (t == me) return;
    switchTo(t);
    if (me->state == T_RUN) return;
    internalError("woken while blocked");
  }
}
void yield() {
  ilv(9, 0);
  pointSync();
}
uint32_t choose(uint32_t n, const char* what) {
  (void)what;
  const uint64_t ord = g_choice_ord++;
  if (n <= 1) return 0;
  uint32_t v = 0;
  if (g_cfg.replay) {
    while (g_cp < g_cn && g_ct[g_cp].step < ord) ++g_cp;
    if (g_cp < g_cn && g_ct[g_cp].step == ord) v = g_ct[g_cp].val % n;
  } else if (g_cfg.strategy) {
    v = uint32_t(g_rng.below(n));
  }
  if (v && g_sh->ntrace >= kMaxTrace - 8) v = 0;
  if (v) record(ord, v, 1);
  return v;
}
bool active() { return g_active; }
int tid() { return t_self ? t_self->id : -1; }
uint64_t now_ns() { return g_time + g_step * 50; }
void advance_ns(uint64_t ns) { g_time += ns; }
int liveThreads() { return g_live; }

void start(const SchedCfg& cfg) {
  g_cfg = cfg;
  g_rng = Rng(cfg.seed ^ 0x5c3ed);
  g_rn = g_cn = 0;
  for (auto& e : cfg.trace) {
    if (e.kind == 0 && g_rn < kMaxTrace) g_rt[g_rn++] = e;
    if (e.kind == 1 && g_cn < kMaxTrace) g_ct[g_cn++] = e;
  }
  std::vector<TraceEntry>().swap(g_cfg.trace);
  g_step = 0;
  g_tp = g_cp = 0;
  g_choice_ord = 0;
  g_time = 1700000000000000000ull;
  g_fair = false;
  g_nthreads = 1;
  g_live = 0;
  g_pct_n = 0;
  g_pct_i = 0;
  if (cfg.strategy == 2) {
    g_pct_n = int(cfg.pct_depth > 60 ? 60 : cfg.pct_depth);
    for (int i = 0; i < g_pct_n; ++i) g_pct_points[i] = 1 + g_rng.below(cfg.pct_len);
    for (int i = 0; i < g_pct_n; ++i)
      for (int j = i + 1; j < g_pct_n; ++j)
        if (g_pct_points[j] < g_pct_points[i]) {
          uint64_t x = g_pct_points[i];
          g_pct_points[i] = g_pct_points[j];
          g_pct_points[j] = x;
        }
    g_pct_low = g_pct_n + 1;
  }
  SThread* m = &g_threads[0];
  m->id = 0;
  m->state = T_RUN;
  m->prio = 100 + uint32_t(g_rng.below(1000));
  m->vc[0] = 1;
  t_self = m;
  g_cur = m;
  g_active = true;
  planNext();
}
void stop() {
  fin();
  if (g_live) violation("thread-leak", "library threads are still running at the end");
  g_active = false;
  t_self = nullptr;
}

// ------------------------------------------------------------------ mutexes
static void lockMutex(const void* m, int kind) {
  Obj* o = obj(m);
  pointSync();
  while (o->owner != -1) {
    if (o->owner == t_self->id) {
      if (kind == PTHREAD_MUTEX_RECURSIVE_NP) {
        o->count++;
        return;
      }
      violation("self-deadlock", "a thread locks a mutex it already holds");
    }
    t_self->state = T_MUTEX;
    t_self->obj = m;
    blockHere();
  }
  o->owner = t_self->id;
  o->count = 1;
  vcAcquire(m);
  ilv(1, o->id);
}
static void unlockMutex(const void* m) {
  Obj* o = obj(m);
  if (o->owner != t_self->id) violation("bad-unlock", "mutex unlocked by a thread that does not hold it");
  if (--o->count > 0) return;
  vcRelease(m);
  o->owner = -1;
  ilv(2, o->id);
  for (int i = 0; i < g_nthreads; ++i)
    if (g_threads[i].state == T_MUTEX && g_threads[i].obj == m) g_threads[i].state = T_RUN;
}
static bool tryMutex(const void* m) {
  Obj* o = obj(m);
  pointSync();
  if (o->owner != -1) return false;
  o->owner = t_self->id;
  o->count = 1;
  vcAcquire(m);
  ilv(3, o->id);
  return true;
}
static uint64_t tsNs(const struct timespec* ts) { return uint64_t(ts->tv_sec) * 1000000000ull + uint64_t(ts->tv_nsec); }
static int condWait(const void* c, const void* m, uint64_t deadline) {
  Obj* oc = obj(c);
  ilv(4, oc->id);
  pointSync();
  SThread* me = t_self;
  unlockMutex(m);
  me->state = T_COND;
  me->obj = c;
  me->deadline = deadline;
  me->timed_out = false;
  blockHere();
  const bool to = me->timed_out;
  me->deadline = 0;
  me->timed_out = false;
  ilv(to ? 6 : 5, oc->id);
  lockMutex(m, 0);
  return to ? ETIMEDOUT : 0;
}
static void condSignal(const void* c, bool all) {
  ++g_signals;
  Obj* oc = obj(c);
  ilv(all ? 8 : 7, oc->id);
  pointSync();
  int w[kMaxThreads], n = 0;
  for (int i = 0; i < g_nthreads; ++i)
    if (g_threads[i].state == T_COND && g_threads[i].obj == c) w[n++] = i;
  if (all) {
    for (int i = 0; i < n; ++i) g_threads[w[i]].state = T_RUN;
  } else if (n) {
    g_threads[w[choose(uint32_t(n), "cond")]].state = T_RUN;
  }
  pointSync();
}

static void* trampoline(void* p) {
  SThread* me = static_cast<SThread*>(p);
  t_self = me;
  waitToken(me);
  log("thread_start", me->id);
  me->ret = me->fn(me->arg);
  // hand the token over; the next thread joins us before continuing, so thread-local destructors run alone
  log("thread_end", me->id);
  ilv(11, me->id);
  if (g_shadow) me->vc[me->id]++;
  me->state = T_DONE;
  --g_live;
  for (int i = 0; i < g_nthreads; ++i) {
    SThread* t = &g_threads[i];
    if (t->state == T_JOIN && t->obj == me) t->state = T_RUN;
  }
  ++g_step;
  SThread* t = decide(me, true);
  planNext();
  t_self = nullptr;
  g_reap = me;
  handTo(t);
  return me->ret;
}

}  // namespace sim

using namespace sim;
#define SIMMED (g_active && t_self != nullptr)

extern "C" {
int __interceptor_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*) __attribute__((weak));

static int realCreate(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  if (__interceptor_pthread_create) return __interceptor_pthread_create(t, a, fn, arg);
  return REAL(pthread_create)(t, a, fn, arg);
}

int pthread_create(pthread_t* th, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  if (!SIMMED) return realCreate(th, attr, fn, arg);
  const uint64_t n = g_n_thread++;
  pointSync();
  if (g_plan_thread.at >= 0 && int64_t(n) >= g_plan_thread.at && int64_t(n) < g_plan_thread.at + g_plan_thread.len) {
    countFault(F_THREAD_CREATE);
    log("fault_thread_create", n);
    return EAGAIN;
  }
  SThread* t = nullptr;
  uint32_t epoch = 1;
  if (g_nthreads < kMaxThreads) {
    t = &g_threads[g_nthreads];
    t->id = g_nthreads++;
  } else {  // slot and stack of a thread whose end happened before this point
    for (int i = 1; i < g_nthreads && !t; ++i) {
      SThread* q = &g_threads[i];
      if (q->state == T_DONE && q->joined && q->reaped && (!g_shadow || q->vc[i] <= t_self->vc[i])) t = q;
    }
    if (!t) internalError("too many simulated threads in one run");
    epoch = t->vc[t->id] + 1;
    t->obj = nullptr;
    t->deadline = 0;
    t->timed_out = false;
    t->go.store(0);
    t->ret = nullptr;
  }
  t->state = T_RUN;
  t->fn = fn;
  t->arg = arg;
  t->joined = t->detached = t->reaped = false;
  t->prio = 100 + uint32_t(g_cfg.replay ? 0 : g_rng.below(1000));
  g_sh->threads++;
  if (g_shadow) {
    for (int i = 0; i < g_nthreads; ++i) t->vc[i] = t_self->vc[i];
    t->vc[t->id] = epoch;
    t_self->vc[t_self->id]++;
  }
  ++g_live;
  pthread_attr_t at;
  pthread_attr_init(&at);
  // a stack of its own that is never reused within a run: no stale access history, same addresses every run
  static char* stacks = nullptr;
  constexpr size_t kStack = 1 << 20, kGuard = 1 << 16;
  if (!stacks) {
    stacks = static_cast<char*>(mmap(reinterpret_cast<void*>(0x680000000000ull), (kStack + kGuard) * kMaxThreads, PROT_NONE,
                                     MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0));
    if (stacks == MAP_FAILED) internalError("cannot reserve thread stacks");
  }
  char* st = stacks + (kStack + kGuard) * size_t(t->id) + kGuard;
  mprotect(st, kStack, PROT_READ | PROT_WRITE);
  pthread_attr_setstack(&at, st, kStack);
  g_active = false;
  const int rc = realCreate(&t->real, &at, trampoline, t);
  g_active = true;
  pthread_attr_destroy(&at);
  if (rc) internalError("real pthread_create failed");
  *th = t->real;
  log("thread_create", t->id);
  ilv(10, t->id);
  pointSync();
  return 0;
}
static SThread* findThread(pthread_t p) {
  for (int i = g_nthreads - 1; i > 0; --i)
    if (pthread_equal(g_threads[i].real, p) && !g_threads[i].joined) return &g_threads[i];
  return nullptr;
}
int pthread_join(pthread_t p, void** rv) {
  if (!SIMMED) return REAL(pthread_join)(p, rv);
  SThread* t = findThread(p);
  if (!t) return ESRCH;
  pointSync();
  while (t->state != T_DONE) {
    t_self->state = T_JOIN;
    t_self->obj = t;
    blockHere();
  }
  t->joined = true;
  if (g_shadow)
    for (int i = 0; i < g_nthreads; ++i)
      if (t->vc[i] > t_self->vc[i]) t_self->vc[i] = t->vc[i];
  if (rv) *rv = t->ret;
  log("join", t->id);
  return 0;
}
int pthread_detach(pthread_t p) {
  if (!SIMMED) return REAL(pthread_detach)(p);
  SThread* t = findThread(p);
  if (t) t->detached = true;
  return 0;
}
static int mkind(pthread_mutex_t* m) { return m->__data.__kind & 3; }
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!SIMMED) return REAL(pthread_mutex_lock)(m);
  lockMutex(m, mkind(m));
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!SIMMED) return REAL(pthread_mutex_trylock)(m);
  return tryMutex(m) ? 0 : EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!SIMMED) {
    return REAL(pthread_mutex_unlock)(m);
  }
  unlockMutex(m);
  pointSync();
  return 0;
}
static int timedLock(pthread_mutex_t* m, const struct timespec* ts) {
  Obj* o = obj(m);
  pointSync();
  if (o->owner != -1) {
    t_self->state = T_MUTEX;
    t_self->obj = m;
    t_self->deadline = tsNs(ts) ? tsNs(ts) : 1;
    t_self->timed_out = false;
    blockHere();
    const bool to = t_self->timed_out;
    t_self->deadline = 0;
    t_self->timed_out = false;
    if (to && o->owner != -1) return ETIMEDOUT;
  }
  lockMutex(m, mkind(m));
  return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
  if (!SIMMED) return REAL(pthread_mutex_timedlock)(m, ts);
  return timedLock(m, ts);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) {
  if (!SIMMED) return REAL(pthread_mutex_clocklock)(m, c, ts);
  return timedLock(m, ts);
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
  if (SIMMED) {
    Obj* o = obj(m);
    o->owner = -1;
    o->count = 0;
  }
  return REAL(pthread_mutex_init)(m, a);
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (SIMMED) {
    Obj* o = obj(m);
    if (o->owner != -1) violation("mutex-destroyed-locked", "a locked mutex is destroyed");
    return 0;
  }
  return REAL(pthread_mutex_destroy)(m);
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!SIMMED) return REAL(pthread_cond_wait)(c, m);
  return condWait(c, m, 0);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  if (!SIMMED) return REAL(pthread_cond_timedwait)(c, m, ts);
  return condWait(c, m, tsNs(ts) ? tsNs(ts) : 1);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
  if (!SIMMED) return REAL(pthread_cond_clockwait)(c, m, k, ts);
  return condWait(c, m, tsNs(ts) ? tsNs(ts) : 1);
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!SIMMED) return REAL(pthread_cond_signal)(c);
  condSignal(c, false);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!SIMMED) return REAL(pthread_cond_broadcast)(c);
  condSignal(c, true);
  return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) { return REAL(pthread_cond_init)(c, a); }
int pthread_cond_destroy(pthread_cond_t* c) {
  if (!g_active) {
    return 0;
  }
  if (SIMMED) {
    for (int i = 0; i < g_nthreads; ++i)
      if (g_threads[i].state == T_COND && g_threads[i].obj == c)
        violation("cond-destroyed-waiting", "a condition variable is destroyed while a thread waits on it");
  }
  return 0;
}
// rwlocks: writers exclusive (owner), readers counted
static void rwLock(pthread_rwlock_t* l, bool write) {
  Obj* o = obj(l);
  pointSync();
  while (o->owner != -1 || (write && o->count > 0)) {
    t_self->state = T_MUTEX;
    t_self->obj = l;
    blockHere();
  }
  if (write) o->owner = t_self->id;
  else o->count++;
  vcAcquire(l);
  ilv(12, o->id);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  if (!SIMMED) return REAL(pthread_rwlock_rdlock)(l);
  rwLock(l, false);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  if (!SIMMED) return REAL(pthread_rwlock_wrlock)(l);
  rwLock(l, true);
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
  if (!SIMMED) return REAL(pthread_rwlock_tryrdlock)(l);
  Obj* o = obj(l);
  pointSync();
  if (o->owner != -1) return EBUSY;
  o->count++;
  vcAcquire(l);
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
  if (!SIMMED) return REAL(pthread_rwlock_trywrlock)(l);
  Obj* o = obj(l);
  pointSync();
  if (o->owner != -1 || o->count) return EBUSY;
  o->owner = t_self->id;
  vcAcquire(l);
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!SIMMED) return REAL(pthread_rwlock_unlock)(l);
  Obj* o = obj(l);
  vcRelease(l);
  if (o->owner == t_self->id) o->owner = -1;
  else if (o->count > 0) o->count--;
  for (int i = 0; i < g_nthreads; ++i)
    if (g_threads[i].state == T_MUTEX && g_threads[i].obj == l) g_threads[i].state = T_RUN;
  pointSync();
  return 0;
}
// once / static initialisation guards
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  if (!SIMMED) return REAL(pthread_once)(o, fn);
  // use the control word itself: 0 new, 1 running (ours), 2 done (glibc's value)
  int* w = reinterpret_cast<int*>(o);
  while (true) {
    pointSync();
    if (*w == 2) {
      vcAcquire(o);
      return 0;
    }
    if (*w == 0) break;
    t_self->state = T_FUTEX;
    t_self->obj = o;
    blockHere();
  }
  *w = 1;
  struct Guard {
    int* w;
    bool ok = false;
    ~Guard() {
      *w = ok ? 2 : 0;
      vcRelease(w);
      for (int i = 0; i < g_nthreads; ++i)
        if (g_threads[i].state == T_FUTEX && g_threads[i].obj == w) g_threads[i].state = T_RUN;
    }
  } g{w};
  fn();
  g.ok = true;
  return 0;
}
int __cxa_guard_acquire(uint64_t* g) {
  volatile char* b = reinterpret_cast<volatile char*>(g);
  while (true) {
    if (b[0]) {
      if (SIMMED) vcAcquire(g);
      return 0;
    }
    if (!b[1]) break;
    if (!SIMMED) {
      sched_yield();
      continue;
    }
    t_self->state = T_FUTEX;
    t_self->obj = g;
    blockHere();
  }
  b[1] = 1;
  if (SIMMED) pointSync();
  return 1;
}
static void guardWake(uint64_t* g) {
  if (!SIMMED) return;
  for (int i = 0; i < g_nthreads; ++i)
    if (g_threads[i].state == T_FUTEX && g_threads[i].obj == g) g_threads[i].state = T_RUN;
}
void __cxa_guard_release(uint64_t* g) {
  volatile char* b = reinterpret_cast<volatile char*>(g);
  if (SIMMED) vcRelease(g);
  b[1] = 0;
  b[0] = 1;
  guardWake(g);
}
void __cxa_guard_abort(uint64_t* g) {
  volatile char* b = reinterpret_cast<volatile char*>(g);
  b[1] = 0;
  guardWake(g);
}
// semaphores
int sem_init(sem_t* s, int p, unsigned v) {
  if (!SIMMED) return REAL(sem_init)(s, p, v);
  obj(s)->count = int(v);
  return 0;
}
int sem_destroy(sem_t* s) { return SIMMED ? 0 : REAL(sem_destroy)(s); }
int sem_wait(sem_t* s) {
  if (!SIMMED) return REAL(sem_wait)(s);
  pointSync();
  Obj* o = obj(s);
  while (o->count <= 0) {
    t_self->state = T_FUTEX;
    t_self->obj = s;
    blockHere();
  }
  o->count--;
  vcAcquire(s);
  return 0;
}
int sem_trywait(sem_t* s) {
  if (!SIMMED) return REAL(sem_trywait)(s);
  pointSync();
  Obj* o = obj(s);
  if (o->count <= 0) {
    errno = EAGAIN;
    return -1;
  }
  o->count--;
  vcAcquire(s);
  return 0;
}
int sem_post(sem_t* s) {
  if (!SIMMED) return REAL(sem_post)(s);
  vcRelease(s);
  obj(s)->count++;
  for (int i = 0; i < g_nthreads; ++i)
    if (g_threads[i].state == T_FUTEX && g_threads[i].obj == s) g_threads[i].state = T_RUN;
  pointSync();
  return 0;
}
int sched_yield(void) {
  if (!SIMMED) return int(rawSyscall6(SYS_sched_yield, 0, 0, 0, 0, 0, 0));
  yield();
  return 0;
}
static int simSleep(uint64_t until) {
  t_self->state = T_SLEEP;
  t_self->obj = nullptr;
  t_self->deadline = until ? until : 1;
  t_self->timed_out = false;
  blockHere();
  t_self->deadline = 0;
  t_self->timed_out = false;
  return 0;
}
int nanosleep(const struct timespec* r, struct timespec* rem) {
  if (!SIMMED) {
    long rc = rawSyscall6(SYS_nanosleep, (long)r, (long)rem, 0, 0, 0, 0);
    if (rc < 0) {
      errno = int(-rc);
      return -1;
    }
    return 0;
  }
  return simSleep(now_ns() + tsNs(r));
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* r, struct timespec* rem) {
  if (!SIMMED) return int(-rawSyscall6(SYS_clock_nanosleep, c, flags, (long)r, (long)rem, 0, 0));
  return simSleep((flags & TIMER_ABSTIME) ? tsNs(r) : now_ns() + tsNs(r));
}
int usleep(useconds_t us) {
  struct timespec ts = {time_t(us / 1000000), long(us % 1000000) * 1000};
  return nanosleep(&ts, nullptr);
}
int clock_gettime(clockid_t c, struct timespec* ts) {
  if (!SIMMED) {
    long rc = rawSyscall6(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0);
    if (rc < 0) {
      errno = int(-rc);
      return -1;
    }
    return 0;
  }
  const uint64_t n = now_ns();
  ts->tv_sec = time_t(n / 1000000000ull);
  ts->tv_nsec = long(n % 1000000000ull);
  return 0;
}
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (int i = 0; i < 6; ++i) a[i] = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && SIMMED) {
    int* addr = reinterpret_cast<int*>(a[0]);
    const int op = int(a[1]) & FUTEX_CMD_MASK;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      pointSync();
      if (*reinterpret_cast<volatile int*>(addr) != int(a[2])) {
        errno = EAGAIN;
        return -1;
      }
      t_self->state = T_FUTEX;
      t_self->obj = addr;
      const struct timespec* ts = reinterpret_cast<const struct timespec*>(a[3]);
      t_self->deadline = ts ? (op == FUTEX_WAIT ? now_ns() + tsNs(ts) : (tsNs(ts) ? tsNs(ts) : 1)) : 0;
      t_self->timed_out = false;
      blockHere();
      const bool to = t_self->timed_out;
      t_self->deadline = 0;
      t_self->timed_out = false;
      if (to) {
        errno = ETIMEDOUT;
        return -1;
      }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      pointSync();
      long k = 0;
      for (int i = 0; i < g_nthreads && k < a[2]; ++i)
        if (g_threads[i].state == T_FUTEX && g_threads[i].obj == addr) {
          g_threads[i].state = T_RUN;
          ++k;
        }
      return k;
    }
  }
  long rc = rawSyscall6(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  if (rc < 0 && rc > -4096) {
    errno = int(-rc);
    return -1;
  }
  return rc;
}
}  // extern "C"
