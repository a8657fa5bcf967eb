// Deterministic simulation runtime: real threads, parked and released one at a time by a seeded scheduler.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) { return lo + int64_t(below(uint64_t(hi - lo + 1))); }
  bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
  double unit() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
};
inline uint64_t mix64(uint64_t a, uint64_t b) {
  uint64_t z = a ^ (b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2));
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
inline uint64_t hashBytes(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull) {
  const uint8_t* b = static_cast<const uint8_t*>(p);
  size_t i = 0;
  for (; i + 8 <= n; i += 8) {
    uint64_t w;
    __builtin_memcpy(&w, b + i, 8);
    h = mix64(h, w);
  }
  uint64_t w = 0;
  for (; i < n; ++i) w = (w << 8) | b[i];
  return mix64(h, w ^ (uint64_t(n) << 56));
}

// ---------------------------------------------------------------- faults
enum FaultKind : int {
  F_ALLOC = 0,       // operator new throws bad_alloc
  F_ALLOC_CAP,       // allocation above the simulated memory limit
  F_THREAD_CREATE,   // pthread_create -> EAGAIN
  F_COMPRESS,        // ZSTD/LZ4 compression returns an error
  F_DECOMPRESS,      // ZSTD/LZ4 decompression returns an error
  F_SPURIOUS,        // spurious condition-variable wake-up
  F_NET_DROP, F_NET_DUP, F_NET_DELAY, F_NET_CORRUPT, F_NET_TRUNC, F_NET_SPLICE,
  F_STORE_CRASH,     // crash while storing: prefix survives
  F_CHUNK_LOSS, F_CHUNK_DUP, F_APPEND,
  F_DISK_OPEN, F_DISK_READ, F_DISK_WRITE, F_DISK_SHORT, F_DISK_FULL, F_DISK_CLOSE, F_DISK_MMAP,
  F_BAG_WRITE, F_BAG_READ, F_BAG_OPEN, F_BAG_CORRUPT,
  F_BAD_INPUT,       // operation given an invalid request
  F_EARLY_DESTROY,   // object destroyed right after a failed / pending operation
  F_TRAP,            // call of the WebAssembly module ends in a trap
  F_GROW,            // linear memory grows during a call: earlier views are detached
  F_LOAD,            // loading the module, a script or a file fails
  F_LATE,            // loading finishes after later operations
  F_COUNT
};
extern const char* const kFaultNames[F_COUNT];

// ---------------------------------------------------------------- result block shared with the parent
enum Status : int { ST_NONE = 0, ST_OK, ST_VIOLATION, ST_INTERNAL };
constexpr int kMaxTrace = 1 << 17;
constexpr int kMaxProbe = 96;
struct TraceEntry {
  uint64_t step;  // scheduler step (kind 0) or choice ordinal (kind 1)
  uint32_t val;
  uint32_t kind;
};
struct Shared {
  int status;
  char vclass[96];
  char msg[1600];
  uint64_t loghash;       // rolling hash of the event log
  uint64_t ilvhash;       // rolling hash of (thread, sync op, object) only
  uint64_t events;
  uint64_t steps;
  uint64_t switches;      // preemptive context switches
  uint64_t threads;       // simulated threads created
  uint64_t simtime_ns;
  uint64_t work_max;      // largest amount of work (edges) of one measured operation
  uint64_t evals;         // oracle evaluations
  uint64_t nontrivial;
  uint64_t fault[F_COUNT];
  uint64_t probe[kMaxProbe];
  uint32_t ntrace;
  uint32_t trace_overflow;
  uint32_t last_op;
  TraceEntry trace[kMaxTrace];
  char asan[4096];
};
extern Shared* g_sh;

// ---------------------------------------------------------------- scheduler configuration of one run
struct SchedCfg {
  uint64_t seed = 1;
  int strategy = 0;         // 0 none (default policy only), 1 random walk, 2 PCT
  uint32_t acc_gap = 100;   // mean gap between preemptions at memory accesses / edges
  uint32_t sync_pct = 50;   // chance of a switch at a synchronisation operation
  uint32_t pct_depth = 3;
  uint32_t pct_len = 20000;
  uint32_t spurious_pml = 10;  // per mille of choosing a waiting thread (spurious wake-up)
  uint64_t step_cap = 3000000;
  uint64_t edge_cap = 0;
  bool replay = false;
  std::vector<TraceEntry> trace;
};

void start(const SchedCfg& cfg);  // calling thread becomes simulated thread 0
void stop();                      // all simulated threads must have finished
bool active();
int tid();
void yield();                     // explicit scheduling point (sync strength)
uint32_t choose(uint32_t n, const char* what);  // recorded nondeterministic choice
uint64_t now_ns();
void advance_ns(uint64_t ns);
int liveThreads();                // simulated threads other than 0 that have not finished

// ---------------------------------------------------------------- log, probes, violations
void log(const char* ev, uint64_t a = 0, uint64_t b = 0);
void logBytes(const char* ev, const void* p, size_t n);
void probe(int idx);  // "this rare condition was hit"
int probeId(const char* name);
const char* probeName(int idx);
void probeShare(void* mem);
#define SIM_PROBE(name)                          \
  do {                                           \
    static const int _pid = ::sim::probeId(name); \
    ::sim::probe(_pid);                          \
  } while (0)
[[noreturn]] void violation(const char* vclass, const char* msg);
[[noreturn]] void internalError(const char* msg);
[[noreturn]] inline void violation(const char* vclass, const std::string& msg) { violation(vclass, msg.c_str()); }
[[noreturn]] inline void internalError(const std::string& msg) { internalError(msg.c_str()); }
void countFault(int kind);
void countEval(uint64_t n = 1);

// ---------------------------------------------------------------- allocation control
struct AllocStats {
  uint64_t armed_allocs;  // allocations since arming
  uint64_t armed_bytes;
  uint64_t live_blocks;   // live blocks allocated while armed
  uint64_t live_bytes;
};
// Count (and optionally fail) every operator new while armed.
//  fail_at < 0: no failure. once: only that allocation fails, else it and all later ones.
//  min_signals: the failure ordinal counts only allocations made after that many condition-variable notifications.
void allocArm(int64_t fail_at, bool once, uint64_t min_signals = 0);
extern uint64_t g_signals;
void allocDisarm();
bool allocArmed();
AllocStats allocStats();
uint64_t allocFired();
uint64_t allocLiveSize(const void* p);
struct AllocPause {  // harness bookkeeping inside an armed region
  bool was;
  AllocPause();
  ~AllocPause();
};
extern uint64_t g_alloc_cap;  // allocations above fail with bad_alloc

// ---------------------------------------------------------------- fault plans decided per call ordinal
struct CallPlan {  // fails calls [at, at+len)
  int64_t at = -1;
  int64_t len = 1;
  int mode = 0;  // flavour of the failure
};
extern CallPlan g_plan_compress, g_plan_decompress, g_plan_thread;
void resetCallPlans();
extern uint64_t g_n_compress, g_n_decompress, g_n_thread;

// ---------------------------------------------------------------- memory ownership
// After the range ends for the library: any access by another simulated thread than `owner` is a violation.
void forbid(const void* p, size_t n, const char* label);
void allow(const void* p, size_t n);
void checkAccess(const void* p, size_t n, bool write, const char* who);  // on behalf of uninstrumented code
bool haveShadow();  // true when built with access instrumentation

// ---------------------------------------------------------------- work measure (instrumented edges)
uint64_t workNow();
void workLimit(uint64_t edges);  // 0: none. Exceeding it -> violation "work"

}  // namespace sim
