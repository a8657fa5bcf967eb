#include "host.hpp"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <unistd.h>
#include <exception>
#include "cloudini_lib/wasm_functions.h"
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#define POISON(p, n) __asan_poison_memory_region(p, n)
#define UNPOISON(p, n) __asan_unpoison_memory_region(p, n)
#endif
#endif
#ifndef POISON
#define POISON(p, n) ((void)0)
#define UNPOISON(p, n) ((void)0)
#endif
static uint64_t s_console;
extern "C" void sim_em_asm() { ++s_console; }
extern "C" __attribute__((weak)) uint32_t cldn_GetDecompressedDataSize(uintptr_t, uint32_t);
namespace host {
using namespace sim;
Guest g;
namespace {
constexpr uint32_t kMax = 128u << 20;
constexpr uint32_t kHeap0 = 0x120000;  // static data and stack below
constexpr uint32_t kRed = 32;
constexpr uint8_t kCanary = 0xC7;
int s_memfd = -1, s_sock = -1;
pid_t s_pid = 0;
const char* const* s_argv = nullptr;
uint64_t s_nonce = 0;

void spawn() {
  int sv[2];
  if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv)) internalError("socketpair");
  const pid_t p = fork();
  if (p < 0) internalError("fork");
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    const int a = fcntl(sv[1], F_DUPFD, 20), b = fcntl(s_memfd, F_DUPFD, 20);
    dup2(a, 3);
    dup2(b, 4);
    const int nul = open("/dev/null", O_RDWR);
    dup2(nul, 0);
    dup2(nul, 1);
    if (!getenv("SIM_STDERR")) dup2(nul, 2);
    for (int i = 5; i < 64; ++i) close(i);
    unsetenv("LD_PRELOAD");
    execvp(s_argv[0], const_cast<char* const*>(s_argv));
    _exit(127);
  }
  close(sv[1]);
  if (s_sock >= 0) close(s_sock);
  s_sock = sv[0];
  s_pid = p;
}
bool sendAll(const void* p, size_t n) {
  const char* c = static_cast<const char*>(p);
  while (n) {
    const ssize_t k = send(s_sock, c, n, MSG_NOSIGNAL);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) return false;
    c += k;
    n -= size_t(k);
  }
  return true;
}
bool recvAll(void* p, size_t n, int ms) {
  char* c = static_cast<char*>(p);
  while (n) {
    struct pollfd f = {s_sock, POLLIN, 0};
    const int rc = poll(&f, 1, ms);
    if (rc < 0 && errno == EINTR) continue;
    if (rc <= 0) return false;
    const ssize_t k = recv(s_sock, c, n, 0);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) return false;
    c += k;
    n -= size_t(k);
  }
  return true;
}
bool sendFrame(uint8_t type, const Bytes& pay) {
  Bytes b(5 + pay.size());
  const uint32_t n = uint32_t(pay.size());
  memcpy(b.data(), &n, 4);
  b[4] = type;
  if (n) memcpy(b.data() + 5, pay.data(), n);
  return sendAll(b.data(), b.size());
}
bool recvFrame(uint8_t& type, Bytes& pay, int ms) {
  uint8_t h[5];
  if (!recvAll(h, 5, ms)) return false;
  uint32_t n;
  memcpy(&n, h, 4);
  type = h[4];
  if (n > (512u << 20)) return false;
  pay.resize(n);
  return n == 0 || recvAll(pay.data(), n, ms);
}
bool handshake(int ms) {
  Bytes b(12);
  const uint64_t nonce = (uint64_t(getpid()) << 20) + ++s_nonce;
  memcpy(b.data(), &nonce, 8);
  memcpy(b.data() + 8, &g.size, 4);
  if (!sendFrame('N', b)) return false;
  for (int i = 0; i < 64; ++i) {
    uint8_t t;
    Bytes p;
    if (!recvFrame(t, p, ms)) return false;
    uint64_t got = 0;
    if (t == 'N' && p.size() == 8) memcpy(&got, p.data(), 8);
    if (got == nonce) return true;
  }
  return false;
}
void put(Bytes& b, const void* p, size_t n) { b.insert(b.end(), static_cast<const uint8_t*>(p), static_cast<const uint8_t*>(p) + n); }

uint32_t u32of(double d) {  // as a number becomes an i32 argument
  if (!(d == d) || d - d != 0) return 0;
  const double m = 4294967296.0;
  double t = d < 0 ? -__builtin_floor(-d) : __builtin_floor(d);
  t -= __builtin_floor(t / m) * m;
  return uint32_t(t);
}
bool grow(uint32_t need) {
  if (!g.can_grow || need > g.max) return false;
  uint32_t to = std::max<uint64_t>(need, g.size + (g.size >> 3));
  to = std::min<uint64_t>((uint64_t(to) + 0xFFFF) & ~0xFFFFull, g.max);
  if (to < need || to <= g.size) return false;
  auto last = g.free_at.empty() ? g.free_at.end() : std::prev(g.free_at.end());
  if (last != g.free_at.end() && last->first + last->second == g.size) last->second += to - g.size;
  else g.free_at[g.size] = to - g.size;
  g.size = to;
  SIM_PROBE("linear memory grew");
  return true;
}
struct NoMemory {};
}  // namespace
void Guest::clearFaults() {
  malloc_fails = call_traps = call_zero = alloc_fails = grows = -1;
  fault_hit = false;
}
uint64_t liveBytes() {
  uint64_t n = 0;
  for (auto& b : g.live) n += b.second;
  return n;
}
void checkCanaries(const char* when) {
  for (auto& b : g.live) {
    const uint32_t room = ((b.second + 15) & ~15u) + kRed;
    const uint8_t* lo = g.base + b.first - kRed;
    const uint8_t* hi = g.base + b.first + b.second;
    UNPOISON(lo, kRed);
    UNPOISON(hi, room - b.second);
    bool bad = false;
    for (uint32_t i = 0; i < kRed; ++i) bad |= lo[i] != kCanary;
    for (uint32_t i = 0; i < room - b.second; ++i) bad |= hi[i] != kCanary;
    POISON(lo, kRed);
    POISON(hi, room - b.second);
    if (bad) violation("memory:outside", std::string("memory next to a block of ") + std::to_string(b.second) + " bytes was overwritten, seen " + when);
  }
}
uint32_t guestMalloc(uint32_t n) {
  const uint64_t need = uint64_t(((n ? n : 1) + 15ull) & ~15ull) + 2 * kRed;
  for (int round = 0; round < 2; ++round) {
    for (auto i = g.free_at.begin(); i != g.free_at.end(); ++i)
      if (i->second >= need) {
        const uint32_t at = i->first, left = uint32_t(i->second - need);
        g.free_at.erase(i);
        if (left) g.free_at[uint32_t(at + need)] = left;
        const uint32_t p = at + kRed, room = uint32_t(need - 2 * kRed);
        UNPOISON(g.base + at, need);
        memset(g.base + at, kCanary, kRed);
        memset(g.base + p + n, kCanary, room - n + kRed);
        const uint32_t f = std::min<uint32_t>(n, 1u << 17);
        memset(g.base + p, 0xA5, f);
        memset(g.base + p + n - f, 0xA5, f);
        POISON(g.base + at, kRed);
        POISON(g.base + p + n, room - n + kRed);
        g.live[p] = n;
        return p;
      }
    if (need > g.max || !grow(uint32_t(std::min<uint64_t>(g.size + need, uint64_t(g.max) + 1)))) break;
  }
  return 0;
}
void guestFree(uint32_t p) {
  if (p == 0) return;
  auto i = g.live.find(p);
  if (i == g.live.end()) violation("bad-free", "free of an address that is not allocated");
  checkCanaries("at free");
  const uint32_t f = std::min<uint32_t>(i->second, 1u << 17);
  memset(g.base + p, 0xDD, f);
  memset(g.base + p + i->second - f, 0xDD, f);
  POISON(g.base + p, i->second);
  uint32_t at = p - kRed, n = ((std::max(1u, i->second) + 15) & ~15u) + 2 * kRed;
  g.live.erase(i);
  auto nx = g.free_at.lower_bound(at);
  if (nx != g.free_at.end() && nx->first == at + n) {
    n += nx->second;
    nx = g.free_at.erase(nx);
  }
  if (nx != g.free_at.begin()) {
    auto pv = std::prev(nx);
    if (pv->first + pv->second == at) {
      pv->second += n;
      return;
    }
  }
  g.free_at[at] = n;
}
bool sameDefined(const Bytes& a, const Bytes& b, const Bytes& c) {
  for (size_t i = 0; i < a.size(); ++i)
    if (i >= b.size() || (b[i] == c[i] && a[i] != b[i])) return false;
  return true;
}
static uint32_t invoke(const std::string& fn, const double* a, size_t n, uint8_t* base) {
  auto u = [&](size_t i) { return i < n ? u32of(a[i]) : 0u; };
  auto p = [&](size_t i) { return u(i) ? reinterpret_cast<uintptr_t>(base) + u(i) : uintptr_t(0); };  // address 0 is the null pointer
  auto f = [&](size_t i) { return i < n ? float(a[i]) : float(NAN); };
  if (fn == "cldn_GetHeaderAsYAML") return cldn_GetHeaderAsYAML(p(0), u(1), p(2));
  if (fn == "cldn_GetHeaderAsYAMLFromDDS") return cldn_GetHeaderAsYAMLFromDDS(p(0), u(1), p(2));
  if (fn == "cldn_ComputeCompressedSize") return cldn_ComputeCompressedSize(p(0), u(1), f(2));
  if (fn == "cldn_GetDecompressedSize") return cldn_GetDecompressedSize(p(0), u(1));
  if (fn == "cldn_ConvertCompressedMsgToPointCloud2Msg") return cldn_ConvertCompressedMsgToPointCloud2Msg(p(0), u(1), p(2));
  if (fn == "cldn_DecodeCompressedMessage") return cldn_DecodeCompressedMessage(p(0), u(1), p(2));
  if (fn == "cldn_DecodeCompressedData") return cldn_DecodeCompressedData(p(0), u(1), p(2));
  if (fn == "cldn_GetDecompressedDataSize" && cldn_GetDecompressedDataSize) return cldn_GetDecompressedDataSize(p(0), u(1));
  if (fn == "cldn_EncodePointcloudMessage") return cldn_EncodePointcloudMessage(p(0), u(1), f(2), p(3));
  violation("host", "the bindings call an unknown function " + fn);
}
uint32_t native(const char* fn, const Bytes& in, Bytes& out, size_t max_out, uint8_t fill) {
  out.assign(max_out, fill);
  const uintptr_t i = reinterpret_cast<uintptr_t>(in.data()), o = reinterpret_cast<uintptr_t>(out.data());
  const std::string f = fn;
  if (f == "yaml") return cldn_GetHeaderAsYAMLFromDDS(i, uint32_t(in.size()), o);
  if (f == "size") return cldn_GetDecompressedSize(i, uint32_t(in.size()));
  if (f == "message") return cldn_DecodeCompressedMessage(i, uint32_t(in.size()), o);
  if (f == "data") return cldn_DecodeCompressedData(i, uint32_t(in.size()), o);
  return cldn_ComputeCompressedSize(i, uint32_t(in.size()), 0.001f);
}
static void serve(const Bytes& pay) {
  size_t nl = pay.size() ? pay[0] : 0;
  const std::string fn(pay.begin() + 1, pay.begin() + 1 + nl);
  const size_t na = pay[1 + nl];
  double a[8] = {};
  memcpy(a, pay.data() + 2 + nl, std::min<size_t>(na, 8) * 8);
  checkCanaries(("before " + fn).c_str());
  double ret = 0;
  uint8_t status = 0;
  std::string msg;
  if (g.grows >= 0 && g.grows-- == 0 && g.can_grow && g.size < g.max) {
    grow(g.size + 0x10000);
    countFault(F_GROW);
  }
  if (fn == "malloc") {
    ++g.mallocs;
    if (g.malloc_fails >= 0 && g.malloc_fails-- == 0) {
      countFault(F_ALLOC);
      g.fault_hit = true;
      g.history.push_back({"malloc", u32of(a[0]), 0, 0});
    } else {
      ret = guestMalloc(u32of(a[0]));
      if (ret == 0) g.history.push_back({"malloc", u32of(a[0]), 0, 0});
      if (ret == 0) SIM_PROBE("linear memory exhausted");
    }
  } else if (fn == "free") {
    guestFree(u32of(a[0]));
  } else {
    ++g.calls;
    g.called += (g.called.empty() ? "" : " ") + fn;
    if (g.call_traps >= 0 && g.call_traps-- == 0) {
      countFault(F_TRAP);
      g.fault_hit = true;
      status = 1;
      msg = "unreachable";
    } else if (g.call_zero >= 0 && g.call_zero-- == 0) {
      countFault(F_ALLOC);
      g.fault_hit = true;
    } else {
      s_console = 0;
      if (g.alloc_fails >= 0) allocArm(g.alloc_fails, false);
      ret = invoke(fn, a, na, g.base);
      if (g.alloc_fails >= 0) {
        const AllocStats st = allocStats();
        allocDisarm();
        if (int64_t(st.armed_allocs) > g.alloc_fails) {
          g.fault_hit = true;
          g.alloc_fails = -1;
        }
      }
      if (g.throws_trap && s_console) {
        status = 1;
        msg = "unreachable";
        SIM_PROBE("C++ exception ended in a trap");
      }
    }
    const uint32_t in = u32of(a[0]), n = u32of(a[1]);
    const auto blk = g.live.find(in);
    g.history.push_back({fn, n, status ? 0 : uint32_t(ret), blk != g.live.end() && n <= blk->second ? hashBytes(g.base + in, n) : 0});
    checkCanaries(("after " + fn).c_str());
  }
  log(fn.c_str(), uint64_t(ret), status);
  Bytes r;
  r.push_back(status);
  put(r, &ret, 8);
  put(r, &g.size, 4);
  put(r, msg.data(), msg.size());
  if (!sendFrame('R', r)) violation("host-crash", "the interpreter died");
}
static std::string dirOf(std::string p) { return p.substr(0, p.rfind('/')); }
void setup(bool python) {
  static std::string script, repo, addon;
  static const char* argv[5];
  const char* rp = getenv("SIM_REPO");
  const char* rt = getenv("SIM_ROOT");
  repo = rp ? rp : "/repo";
  script = std::string(rt ? rt : "/verif") + "/sim/host/host." + (python ? "py" : "js");
  char self[4096] = {};
  if (readlink("/proc/self/exe", self, sizeof self - 1) <= 0) internalError("readlink");
  addon = dirOf(dirOf(self)) + "/host/shm.node";
  argv[0] = python ? "python3-vt" : "node";
  argv[1] = python ? "-B" : "--no-warnings";
  argv[2] = script.c_str();
  argv[3] = repo.c_str();
  argv[4] = nullptr;
  static const char* js[] = {argv[0], argv[1], argv[2], argv[3], addon.c_str(), nullptr};
  setenv("PYTHONHASHSEED", "0", 1);
  setenv("OPENBLAS_NUM_THREADS", "1", 1);
  setenv("TZ", "UTC", 1);
  setenv("LC_ALL", "C.UTF-8", 1);
  s_argv = python ? argv : js;
  s_memfd = memfd_create("guest", MFD_CLOEXEC);
  if (s_memfd < 0 || ftruncate(s_memfd, kMax)) internalError("memfd");
  // 4 GiB of reserved addresses, as an engine does: nothing else is within reach of a 32-bit address
  g.base = static_cast<uint8_t*>(mmap(nullptr, size_t(9) << 30, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (g.base == MAP_FAILED) internalError("reserve");
  if (mmap(g.base, kMax, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, s_memfd, 0) == MAP_FAILED) internalError("map");
  POISON(g.base, kMax);
  spawn();
  g.size = 64u << 20;
  if (!handshake(60000)) internalError("the interpreter did not start");
}
void begin(uint32_t initial, uint32_t max) {
  g.size = initial;
  g.max = max;
  for (auto& b : g.live) POISON(g.base + b.first - kRed, b.second + 2 * kRed + 16);
  g.live.clear();
  g.free_at.clear();
  g.free_at[kHeap0] = initial - kHeap0;
  g.clearFaults();
  g.history.clear();
  fallocate(s_memfd, FALLOC_FL_PUNCH_HOLE | FALLOC_FL_KEEP_SIZE, 0, kMax);
  if (!handshake(8000)) {
    kill(s_pid, SIGKILL);
    spawn();
    if (!handshake(60000)) internalError("the interpreter did not start");
  }
}
Reply cmd(const std::string& json, const Bytes& blob) {
  Bytes b;
  const uint32_t n = uint32_t(json.size());
  put(b, &n, 4);
  put(b, json.data(), n);
  put(b, blob.data(), blob.size());
  g.called.clear();
  if (!sendFrame('C', b)) violation("host-crash", "the interpreter died");
  for (uint64_t calls = 0;; ++calls) {
    uint8_t t;
    Bytes p;
    if (!recvFrame(t, p, 20000)) violation("host-crash", "the interpreter died or does not answer");
    if (t == 'F') {
      if (calls > 200000) violation("host-hang", "the bindings do not stop calling the module");
      serve(p);
      continue;
    }
    if (t != 'D' || p.size() < 4) internalError("protocol");
    Reply r;
    uint32_t tl;
    memcpy(&tl, p.data(), 4);
    std::string text(p.begin() + 4, p.begin() + 4 + tl);
    r.blob.assign(p.begin() + 4 + tl, p.end());
    size_t at = 0;
    while (at < text.size()) {
      size_t e = text.find('\n', at);
      if (e == std::string::npos) e = text.size();
      const std::string line = text.substr(at, e - at);
      at = e + 1;
      const size_t eq = line.find('=');
      if (eq != std::string::npos) r.kv[line.substr(0, eq)] = line.substr(eq + 1);
    }
    if (r.kv.count("internal")) internalError("host: " + r.kv["internal"]);
    r.ok = r.get("status") == "ok";
    r.err = r.get("err");
    logBytes("reply", text.data(), text.size());
    logBytes("blob", r.blob.data(), r.blob.size());
    checkCanaries("after the operation");
    return r;
  }
}
std::string q(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    char t[8];
    if (c == '"' || c == '\\') o += '\\', o += char(c);
    else if (c < 32 || c > 126) {
      snprintf(t, sizeof t, "\\u%04x", c);
      o += t;
    } else o += char(c);
  }
  return o + "\"";
}
std::string hex(const Bytes& b) {
  static const char* d = "0123456789abcdef";
  std::string s;
  for (uint8_t c : b) s += d[c >> 4], s += d[c & 15];
  return s;
}
}  // namespace host
