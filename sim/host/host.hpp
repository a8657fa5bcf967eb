// A Python or JavaScript process that runs the language bindings of the repository, and the simulated WebAssembly instance
// it talks to: cldn_* functions of the library built natively, over a 32-bit linear memory shared with that process.
#pragma once
#include <map>
#include <string>
#include "../common/cloud.hpp"
namespace host {
using cl::Bytes;
struct Reply {
  bool ok = false;           // the code under test returned (false: it raised)
  std::string err;           // what it raised
  std::map<std::string, std::string> kv;
  Bytes blob;
  std::string get(const std::string& k) const {
    auto i = kv.find(k);
    return i == kv.end() ? "" : i->second;
  }
};
// Simulated WebAssembly instance.
struct Guest {
  uint8_t* base = nullptr;
  uint32_t size = 0, max = 0;
  bool can_grow = true;       // memory.grow works
  bool throws_trap = false;   // built without exception handling: a C++ exception ends the call with a trap
  std::map<uint32_t, uint32_t> live;     // address -> size
  std::map<uint32_t, uint32_t> free_at;  // address -> size of free blocks
  // one-shot faults, counted from the moment they are set; < 0: none
  int64_t malloc_fails = -1;  // that malloc returns 0
  int64_t call_traps = -1;    // that cldn_* call traps
  int64_t call_zero = -1;     // that cldn_* call reports failure
  int64_t alloc_fails = -1;   // that allocation inside the next cldn_* call fails
  int64_t grows = -1;         // the memory grows in that call
  bool fault_hit = false;     // one of them struck since clearFaults
  uint64_t mallocs = 0, calls = 0;
  std::string called;         // names of the cldn_* functions called by the command, separated by spaces
  struct Call {
    std::string fn;
    uint32_t size, ret;  // second argument, result (0 also for a trap)
    uint64_t hash;       // of the input bytes
  };
  std::vector<Call> history;  // cldn_* calls since it was cleared, and failed allocations under the name malloc
  void clearFaults();
};
extern Guest g;
void setup(bool python);  // once per process, before the runs: starts the interpreter
void begin(uint32_t initial = 64u << 20, uint32_t max = 128u << 20);  // start of a run: fresh memory, fresh interpreter state
Reply cmd(const std::string& json, const Bytes& blob = {});
void checkCanaries(const char* when);
uint32_t guestMalloc(uint32_t n);
void guestFree(uint32_t p);
uint64_t liveBytes();
// The same function called by the harness on buffers of its own. max_out: room for the result.
uint32_t native(const char* fn, const Bytes& in, Bytes& out, size_t max_out, uint8_t fill = 0xEE);
// a equals b wherever b and c, the same computation over differently filled buffers, agree
bool sameDefined(const Bytes& a, const Bytes& b, const Bytes& c);
std::string q(const std::string& s);  // JSON string
std::string hex(const Bytes& b);
}  // namespace host
