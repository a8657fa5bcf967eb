// Search driver: seeded runs in forked children, verification of violations, minimisation, replay files.
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <map>
#include <regex>
#include <sstream>
#include <unordered_set>
#include "harness.hpp"
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SIM_ASAN 1
#endif
#endif
#ifdef SIM_ASAN
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
static void asanReport(const char* r) {
  const size_t n = strlen(r);
  const size_t m = n < sizeof(sim::g_sh->asan) - 1 ? n : sizeof(sim::g_sh->asan) - 1;
  memcpy(sim::g_sh->asan, r, m);
  sim::g_sh->asan[m] = 0;
}
extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:allocator_may_return_null=1:exitcode=77:abort_on_error=0:symbolize=0:handle_segv=1:"
         "detect_stack_use_after_return=0:quarantine_size_mb=64:max_malloc_fill_size=67108864:malloc_fill_byte=165:"
         "detect_odr_violation=0:check_initialization_order=0:print_legend=0:fast_unwind_on_malloc=1:malloc_context_size=0:allocator_release_to_os_interval_ms=-1";
}
#endif
namespace sim {
extern uint32_t g_nedges;
extern uint8_t g_edge_map[1 << 17];
}

static int s_tier = 0;
int g_tier() { return s_tier; }
void markNontrivial() { sim::g_sh->nontrivial = 1; }

static double wallNow() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return double(ts.tv_sec) + double(ts.tv_nsec) * 1e-9;
}
static sim::Shared* g_box = nullptr;
static uint8_t* g_edges_shared = nullptr;
static double g_child_wall = 25.0;

struct Outcome {
  bool violation = false, internal = false;
  std::string vclass, msg;
  uint64_t hash = 0;
  std::vector<sim::TraceEntry> trace;
  bool overflow = false;
};

static std::string asanClass(const char* rep, std::string& detail) {
  std::string s = rep, kind = "unknown", rw = "";
  size_t p = s.find("ERROR: AddressSanitizer: ");
  if (p != std::string::npos) {
    p += 25;
    size_t e = s.find_first_of(" \n", p);
    kind = s.substr(p, e - p);
  }
  if (s.find("READ of size") != std::string::npos) rw = ":read";
  if (s.find("WRITE of size") != std::string::npos) rw = ":write";
  size_t q = s.find(" of size ");
  if (q != std::string::npos) {
    size_t a = s.rfind('\n', q), b = s.find(" at ", q);
    detail = s.substr(a + 1, b - a - 1);
  }
  // module offsets of the first frames
  std::string frames;
  size_t f = 0;
  for (int i = 0; i < 4; ++i) {
    f = s.find("    #", f);
    if (f == std::string::npos) break;
    size_t a = s.find('(', f), e = s.find(')', f);
    if (a == std::string::npos || e == std::string::npos) break;
    std::string fr = s.substr(a + 1, e - a - 1);
    size_t sl = fr.rfind('/');
    if (sl != std::string::npos) fr = fr.substr(sl + 1);
    frames += (frames.empty() ? "" : " < ") + fr;
    f = e;
  }
  detail += " [" + frames + "]";
  return "memory:" + kind + rw;
}

// Runs one scenario in a forked child.
static Outcome runOnce(const Scenario& sc) {
  using namespace sim;
  memset(g_box, 0, offsetof(Shared, trace));
  g_box->asan[0] = 0;
  fflush(stdout);
  const pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    exit(4);
  }
  if (pid == 0) {
    g_sh = g_box;
    g_edges_shared = g_edges_shared;
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    if (!getenv("SIM_STDERR")) {
      int fd = open("/dev/null", O_WRONLY);
      dup2(fd, 2);
      dup2(fd, 1);
    }
#ifdef SIM_ASAN
    __asan_set_error_report_callback(asanReport);
#endif
    start(sc.sched);
    kProp.execute(sc);
    allocDisarm();
    stop();
    for (uint32_t i = 1; i <= g_nedges && i < (1u << 17); ++i)
      if (g_edge_map[i]) g_edges_shared[i] = 1;
    g_sh->status = ST_OK;
    _exit(0);
  }
  int st = 0;
  const double t0 = wallNow();
  bool timed_out = false;
  // blocking wait with a wall-clock guard: poll a pidfd
  const int pfd = int(syscall(SYS_pidfd_open, pid, 0));
  if (pfd >= 0) {
    struct pollfd p = {pfd, POLLIN, 0};
    int rc = poll(&p, 1, int(g_child_wall * 1000));
    if (rc == 0) {
      kill(pid, SIGKILL);
      timed_out = true;
    }
    close(pfd);
    waitpid(pid, &st, 0);
  } else {
    while (waitpid(pid, &st, WNOHANG) == 0) {
      if (wallNow() - t0 > g_child_wall) {
        kill(pid, SIGKILL);
        timed_out = true;
        waitpid(pid, &st, 0);
        break;
      }
      usleep(200);
    }
  }
  Outcome o;
  o.hash = g_box->loghash;
  o.overflow = g_box->trace_overflow;
  if (timed_out) {
    o.violation = true;
    o.vclass = "hang";
    o.msg = "the run did not finish";
    o.hash = 0;
  } else if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && g_box->status == ST_OK) {
    return o;
  } else if (g_box->status == ST_VIOLATION) {
    o.violation = true;
    o.vclass = g_box->vclass;
    o.msg = g_box->msg;
  } else if (g_box->status == ST_INTERNAL) {
    o.internal = true;
    o.vclass = "internal";
    o.msg = g_box->msg;
  } else if (g_box->asan[0]) {
    o.violation = true;
    o.vclass = asanClass(g_box->asan, o.msg);
  } else if (WIFSIGNALED(st)) {
    o.violation = true;
    o.vclass = std::string("crash:") + strsignal(WTERMSIG(st));
    o.msg = std::string("process died: ") + strsignal(WTERMSIG(st));
    if (WTERMSIG(st) == SIGKILL) {
      o.violation = false;
      o.internal = true;
      o.msg = "child killed from outside (memory pressure?)";
    }
  } else {
    o.violation = true;
    o.vclass = "crash:exit";
    o.msg = "process exited with code " + std::to_string(WIFEXITED(st) ? WEXITSTATUS(st) : -1);
  }
  return o;
}
static void takeTrace(Outcome& o) {
  o.trace.assign(g_box->trace, g_box->trace + g_box->ntrace);
}
static Outcome runTraced(const Scenario& sc) {
  Outcome o = runOnce(sc);
  takeTrace(o);
  return o;
}

// ------------------------------------------------------------------ text form
static std::string toText(const Scenario& s, const char* binary) {
  std::ostringstream o;
  o << "# cloudini simulation replay file\n";
  o << "property " << kProp.id << "\nbinary " << binary << "\nseed " << s.seed << "\n";
  o << "cap " << s.sched.step_cap << "\n";
  for (auto& op : s.ops) {
    o << "op " << op.name;
    for (auto v : op.a) o << " " << v;
    o << "\n";
  }
  for (auto& t : s.sched.trace) o << (t.kind == 0 ? "sched " : "choice ") << t.step << " " << t.val << "\n";
  return o.str();
}
static bool fromText(const std::string& path, Scenario& s, std::string& cls, uint64_t& hash) {
  std::ifstream f(path);
  if (!f) return false;
  std::string line;
  s.sched.replay = true;
  s.sched.strategy = 0;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    std::string k;
    is >> k;
    if (k == "seed") is >> s.seed;
    else if (k == "cap") is >> s.sched.step_cap;
    else if (k == "op") {
      Op op;
      is >> op.name;
      int64_t v;
      while (is >> v) op.a.push_back(v);
      s.ops.push_back(op);
    } else if (k == "sched" || k == "choice") {
      sim::TraceEntry t{0, 0, k == "sched" ? 0u : 1u};
      is >> t.step >> t.val;
      s.sched.trace.push_back(t);
    } else if (k == "expect-class") {
      std::getline(is, cls);
      if (!cls.empty() && cls[0] == ' ') cls.erase(0, 1);
    } else if (k == "expect-hash") {
      is >> std::hex >> hash >> std::dec;
    }
  }
  return true;
}

// ------------------------------------------------------------------ minimisation
struct Min {
  Scenario best;
  Outcome bo;
  double deadline;
  uint64_t tried = 0;
  std::string cls;
  sim::SchedCfg search_cfg;
  bool tryReplay(const Scenario& c) {
    ++tried;
    Outcome o = runTraced(c);
    if (o.violation && o.vclass == cls && !o.overflow) {
      best = c;
      best.sched.trace = o.trace;
      bo = o;
      return true;
    }
    return false;
  }
  bool tryAny(Scenario c) {  // same trace first, then a few fresh schedules
    if (tryReplay(c)) return true;
    if (search_cfg.strategy == 0 || bo.trace.empty()) {
      return false;
    }
    for (int k = 0; k < 12 && wallNow() < deadline; ++k) {
      Scenario d = c;
      d.sched = search_cfg;
      d.sched.seed = sim::mix64(search_cfg.seed, k + 1);
      d.sched.replay = false;
      ++tried;
      Outcome o = runTraced(d);
      if (o.violation && o.vclass == cls && !o.overflow) {
        d.sched.replay = true;
        d.sched.strategy = 0;
        d.sched.trace = o.trace;
        Outcome o2 = runTraced(d);
        if (o2.violation && o2.vclass == cls) {
          best = d;
          best.sched.trace = o2.trace;
          bo = o2;
          return true;
        }
      }
    }
    return false;
  }
  void ops() {
    for (size_t n = std::max<size_t>(1, best.ops.size() / 2); n >= 1; n /= 2) {
      for (size_t i = 0; i + n <= best.ops.size() && wallNow() < deadline;) {
        Scenario c = best;
        c.ops.erase(c.ops.begin() + i, c.ops.begin() + i + n);
        if (!tryAny(c)) i += n;
      }
      if (n == 1) break;
    }
  }
  void args() {
    for (size_t i = 0; i < best.ops.size(); ++i)
      for (size_t j = 0; j < best.ops[i].a.size(); ++j) {
        if (wallNow() > deadline) return;
        int64_t lo_bad = best.ops[i].a[j];
        if (lo_bad == 0) continue;
        {
          Scenario c = best;
          c.ops[i].a[j] = 0;
          if (tryAny(c)) continue;
        }
        int64_t step = lo_bad / 2;
        while (step != 0 && wallNow() < deadline) {
          Scenario c = best;
          c.ops[i].a[j] -= step;
          if (!tryAny(c)) step /= 2;
          else if (best.ops[i].a[j] == 0) break;
          if (std::abs(step) > std::abs(best.ops[i].a[j])) step = best.ops[i].a[j] / 2;
        }
      }
  }
  void trace() {
    for (size_t n = std::max<size_t>(1, best.sched.trace.size() / 2); n >= 1; n /= 2) {
      for (size_t i = 0; i + n <= best.sched.trace.size() && wallNow() < deadline;) {
        Scenario c = best;
        c.sched.trace.erase(c.sched.trace.begin() + i, c.sched.trace.begin() + i + n);
        if (!tryReplay(c)) i += n;
      }
      if (n == 1) break;
    }
  }
};

static std::string jesc(const std::string& s) {
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c == '\t') o += "\\t";
    else if (uint8_t(c) < 32) o += ' ';
    else o += c;
  }
  return o;
}

// known findings: class <tab> regular expression on the message
struct Known {
  std::string key, cls;
  std::regex re;
  uint64_t n = 0;
};
static std::vector<Known> g_known;
static void loadKnown(const std::string& f) {
  std::ifstream in(f);
  std::string l;
  while (std::getline(in, l)) {
    const size_t t = l.find('\t');
    if (t == std::string::npos) continue;
    g_known.push_back(Known{l, l.substr(0, t), std::regex(l.substr(t + 1)), 0});
  }
}
static Known* isKnown(const Outcome& o) {
  for (auto& k : g_known)
    if (k.cls == o.vclass && std::regex_search(o.msg, k.re)) return &k;
  return nullptr;
}

int main(int argc, char** argv) {
  std::string replay, out, replaydir = "/tmp", binary = "sim", dump;
  uint64_t base = 1, count = 1000, first = 0, stride = 1;
  double wall = 60, minwall = 40;
  bool no_min = false, keep_going = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--replay") replay = nx();
    else if (a == "--base") base = strtoull(nx().c_str(), 0, 10);
    else if (a == "--count") count = strtoull(nx().c_str(), 0, 10);
    else if (a == "--first") first = strtoull(nx().c_str(), 0, 10);
    else if (a == "--stride") stride = strtoull(nx().c_str(), 0, 10);
    else if (a == "--wall") wall = atof(nx().c_str());
    else if (a == "--minwall") minwall = atof(nx().c_str());
    else if (a == "--childwall") g_child_wall = atof(nx().c_str());
    else if (a == "--out") out = nx();
    else if (a == "--replaydir") replaydir = nx();
    else if (a == "--binary") binary = nx();
    else if (a == "--tier") s_tier = nx() == "thorough";
    else if (a == "--known") loadKnown(nx());
    else if (a == "--nomin") no_min = true;
    else if (a == "--keepgoing") keep_going = true;
    else if (a == "--dump") dump = nx();
  }
  signal(SIGPIPE, SIG_IGN);
  g_box = static_cast<sim::Shared*>(mmap(nullptr, sizeof(sim::Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  g_edges_shared = static_cast<uint8_t*>(mmap(nullptr, 1 << 17, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  sim::probeShare(mmap(nullptr, 1 << 16, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (kProp.setup) kProp.setup();

  if (!dump.empty()) {  // print the scenario of one seed
    Scenario s;
    s.seed = sim::mix64(base, strtoull(dump.c_str(), 0, 10));
    sim::Rng r(s.seed);
    s.sched.seed = s.seed;
    kProp.generate(r, s);
    printf("%s", toText(s, binary.c_str()).c_str());
    return 0;
  }
  if (!replay.empty()) {
    Scenario s;
    std::string cls;
    uint64_t hash = 0;
    if (!fromText(replay, s, cls, hash)) {
      fprintf(stderr, "cannot read %s\n", replay.c_str());
      return 4;
    }
    Outcome o = runOnce(s);
    printf("class=%s hash=%016llx\nmsg=%s\n", o.violation || o.internal ? o.vclass.c_str() : "ok", (unsigned long long)o.hash,
           o.msg.c_str());
    if (o.internal) return 5;
    if (!o.violation) return 0;
    if (!cls.empty() && (o.vclass != cls || (hash && o.hash != hash))) {
      printf("replay differs from the recorded violation (%s %016llx)\n", cls.c_str(), (unsigned long long)hash);
      return 6;
    }
    return 1;
  }

  // ---------------------------------------------------------------- search
  std::unordered_set<uint64_t> logs, ilvs;
  uint64_t runs = 0, evals = 0, steps = 0, switches = 0, threads = 0, nontriv = 0, events = 0, det = 0, simns = 0, work_max = 0;
  uint64_t faults[sim::F_COUNT] = {}, faultruns[sim::F_COUNT] = {}, probes[sim::kMaxProbe] = {};
  std::vector<std::string> samples;
  const double t0 = wallNow();
  bool truncated = false;
  std::string vjson;
  int rc = 0;
  std::string errmsg;
  uint64_t nviol = 0;
  std::map<std::string, int> seen_classes;
  for (uint64_t k = 0; k < count; ++k) {
    if (wallNow() - t0 > wall) {
      truncated = true;
      break;
    }
    const uint64_t idx = first + k * stride;
    Scenario s;
    s.seed = sim::mix64(base, idx);
    sim::Rng r(s.seed);
    s.sched.seed = s.seed;
    kProp.generate(r, s);
    Outcome o = runOnce(s);
    ++runs;
    evals += g_box->evals;
    steps += g_box->steps;
    events += g_box->events;
    switches += g_box->switches;
    threads += g_box->threads;
    simns += g_box->simtime_ns > 1700000000000000000ull ? g_box->simtime_ns - 1700000000000000000ull : 0;
    if (g_box->work_max > work_max) work_max = g_box->work_max;
    for (int i = 0; i < sim::F_COUNT; ++i) {
      faults[i] += g_box->fault[i];
      faultruns[i] += g_box->fault[i] != 0;
    }
    for (int i = 0; i < sim::kMaxProbe; ++i) probes[i] += g_box->probe[i];
    if (g_box->nontrivial && logs.insert(g_box->loghash).second) ++nontriv;
    ilvs.insert(g_box->ilvhash);
    if (samples.size() < 2 && g_box->nontrivial && !o.violation) samples.push_back(toText(s, binary.c_str()));
    if (o.internal) {
      rc = 5;
      errmsg = o.msg + " (seed index " + std::to_string(idx) + ")";
      break;
    }
    if (!o.violation) {
      if (k % 97 == 0) {  // determinism: same seed again, then replay of the recorded trace
        takeTrace(o);
        Outcome b = runOnce(s);
        Scenario rsc = s;
        rsc.sched.replay = true;
        rsc.sched.strategy = 0;
        rsc.sched.trace = o.trace;
        Outcome c = runOnce(rsc);
        det += 2;
        if (b.violation || b.internal || b.hash != o.hash || (!o.overflow && (c.violation || c.internal || c.hash != o.hash))) {
          rc = 3;
          errmsg = "run is not deterministic (seed index " + std::to_string(idx) + ", " + (b.violation || b.internal || b.hash != o.hash ? "same seed: " + b.vclass : "recorded trace: " + c.vclass) + ")";
          break;
        }
      }
      continue;
    }
    if (Known* kn = isKnown(o)) {
      kn->n++;
      continue;
    }
    // ---- violation: gate, minimise, verify
    takeTrace(o);
    ++nviol;
    if (keep_going) {
      if (seen_classes[o.vclass]++ > 0 || seen_classes.size() > 12) continue;
      fprintf(stderr, "idx %llu class=%s msg=%s\n", (unsigned long long)idx, o.vclass.c_str(), o.msg.c_str());
    }
    Scenario v = s;
    v.sched.replay = true;
    v.sched.strategy = 0;
    v.sched.trace = o.trace;
    Outcome o2 = runTraced(v);
    if (!o2.violation || o2.vclass != o.vclass || (o.vclass != "hang" && o2.hash != o.hash)) {
      Outcome o3 = runTraced(s);
      rc = 3;
      errmsg = "violation did not replay: " + o.vclass + " (" + o.msg + ") vs " + (o2.violation ? o2.vclass + " (" + o2.msg + ")" : "ok") +
               " again=" + (o3.violation ? o3.vclass : "ok") + " seed index " + std::to_string(idx);
      break;
    }
    Min m;
    m.best = v;
    m.bo = o2;
    m.cls = o.vclass;
    m.search_cfg = s.sched;
    m.deadline = wallNow() + (no_min ? 0 : (o.vclass == "hang" ? 5 : minwall));
    const double child_wall = g_child_wall;
    if (!no_min) {
      if (o.vclass != "hang") {
        m.ops();
        m.trace();
        m.args();
        m.ops();
        m.trace();
      }
    }
    g_child_wall = child_wall;
    std::string path = replaydir + "/" + kProp.id + "-" + binary + "-" + std::to_string(s.seed) + ".replay";
    {
      std::ofstream f(path);
      f << toText(m.best, binary.c_str());
      f << "expect-class " << m.bo.vclass << "\n";
      char hx[32];
      snprintf(hx, sizeof hx, "%016llx", (unsigned long long)m.bo.hash);
      f << "expect-hash " << hx << "\n";
      f << "message " << jesc(m.bo.msg) << "\n";
      f << "origin seed-index " << idx << " base " << base << " ops " << s.ops.size() << " sched-entries " << o.trace.size()
        << " minimised-ops " << m.best.ops.size() << " minimised-sched " << m.best.sched.trace.size() << " candidates " << m.tried << "\n";
    }
    // fresh process replay
    const pid_t pid = fork();
    if (pid == 0) {
      int fd = open("/dev/null", O_WRONLY);
      dup2(fd, 1);
      std::string cw = std::to_string(g_child_wall);
      execl("/proc/self/exe", argv[0], "--replay", path.c_str(), "--childwall", cw.c_str(), (char*)nullptr);
      _exit(9);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) {
      rc = 3;
      errmsg = "fresh-process replay of " + path + " did not reproduce (status " + std::to_string(WIFEXITED(st) ? WEXITSTATUS(st) : -1) + ")";
      break;
    }
    if (!vjson.empty()) vjson += ",";
    vjson += "{\"class\":\"" + jesc(m.bo.vclass) + "\",\"msg\":\"" + jesc(m.bo.msg) + "\",\"replay\":\"" + jesc(path) + "\",\"seed_index\":" +
             std::to_string(idx) + ",\"ops\":" + std::to_string(m.best.ops.size()) + ",\"sched\":" + std::to_string(m.best.sched.trace.size()) + "}";
    rc = 1;
    if (!keep_going) break;
  }
  const double w = wallNow() - t0;
  uint64_t edges = 0;
  for (uint32_t i = 1; i <= sim::g_nedges && i < (1u << 17); ++i) edges += g_edges_shared[i];
  std::ostringstream j;
  j << "{\"binary\":\"" << binary << "\",\"runs\":" << runs << ",\"evals\":" << evals << ",\"steps\":" << steps << ",\"events\":" << events
    << ",\"switches\":" << switches << ",\"threads\":" << threads << ",\"nontrivial\":" << nontriv << ",\"interleavings\":" << ilvs.size()
    << ",\"determinism_reruns\":" << det << ",\"sim_ns\":" << simns << ",\"work_max\":" << work_max << ",\"edges\":" << edges
    << ",\"edges_total\":" << sim::g_nedges << ",\"wall\":" << w << ",\"truncated\":" << (truncated ? "true" : "false") << ",\"nviol\":" << nviol
    << ",\"rule\":\"" << jesc(kProp.rule) << "\"";
  j << ",\"faults\":{";
  bool c = false;
  for (int i = 0; i < sim::F_COUNT; ++i)
    if (faults[i]) {
      j << (c ? "," : "") << "\"" << sim::kFaultNames[i] << "\":[" << faults[i] << "," << faultruns[i] << "]";
      c = true;
    }
  j << "},\"probes\":{";
  c = false;
  for (int i = 0; i < sim::kMaxProbe; ++i)
    if (sim::probeName(i)) {
      j << (c ? "," : "") << "\"" << jesc(sim::probeName(i)) << "\":" << probes[i];
      c = true;
    }
  j << "},\"known\":{";
  for (size_t i = 0; i < g_known.size(); ++i) j << (i ? "," : "") << "\"" << jesc(g_known[i].key) << "\":" << g_known[i].n;
  j << "},\"samples\":[";
  for (size_t i = 0; i < samples.size(); ++i) j << (i ? "," : "") << "\"" << jesc(samples[i].substr(0, 3000)) << "\"";
  j << "],\"violations\":[" << vjson << "],\"error\":\"" << jesc(errmsg) << "\",\"loghashes\":[";
  // hashes are merged by the orchestrator to count distinct runs across workers
  c = false;
  size_t lim = 0;
  for (auto h : logs) {
    if (++lim > 400000) break;
    j << (c ? "," : "") << h % 1000000007ull;
    c = true;
  }
  j << "]}";
  if (!out.empty()) {
    std::ofstream f(out);
    f << j.str() << "\n";
  } else {
    std::string t = j.str();
    printf("%s\n", t.substr(0, t.find(",\"loghashes\"")).c_str());
  }
  if (!errmsg.empty()) fprintf(stderr, "ERROR %s\n", errmsg.c_str());
  return rc;
}
