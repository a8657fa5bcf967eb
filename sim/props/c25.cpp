// The web page that measures bags: files are chosen while others are analysed, every asynchronous step ends when and as the simulator
// says, messages are damaged, memory runs out, calls trap.
#include <algorithm>
#include <set>
#include "../host/messages.hpp"
using namespace sim;
using namespace cl;
// page mode              the page is opened; mode 1: module built without exceptions
// file how seed n        a file is dropped (0), chosen (1), chosen with another extension (2), or the dialog is left (3), a dialog is opened (4), the file is chosen in the dialog opened earlier (5)
// step i ok              one pending step ends
// fault kind nth         while the following steps run
// finish                 all pending steps end well
static void gen(Rng& r, Scenario& s) {
  s.sched.strategy = 0;
  s.sched.step_cap = 3000000000ull;
  const bool faulty = r.below(3) != 0;
  s.ops.push_back({"page", {int64_t(r.below(2))}});
  const int files = 1 + int(r.below(4));
  for (int f = 0; f < files; ++f) {
    if (r.below(5) == 0) s.ops.push_back({"file", {4, 0, 0}});
    if (r.below(12) == 0) s.ops.push_back({"page", {int64_t(r.below(2))}});
    s.ops.push_back({"file", {r.below(8) ? int64_t(r.below(2)) : int64_t(r.below(6)), int64_t(r.below(1u << 30)), r.below(5) ? r.range(0, 12) : r.range(0, 40)}});
    const int steps = int(r.below(10));
    for (int i = 0; i < steps; ++i) {
      if (faulty && r.below(4) == 0) s.ops.push_back({"fault", {int64_t(r.below(6)), r.below(3) ? r.range(0, 4) : r.range(0, 30)}});
      if (r.below(8) == 0) s.ops.push_back({"file", {int64_t(r.below(6)), int64_t(r.below(1u << 30)), r.range(0, 12)}});
      s.ops.push_back({"step", {int64_t(r.below(3)), faulty ? int64_t(r.below(14) != 0) : 1}});
    }
    if (r.below(8)) s.ops.push_back({"finish", {}});
  }
  s.ops.push_back({"finish", {}});
}
namespace {
struct Chan {
  uint32_t id, schema;
  std::string topic;
  bool cloud;
};
struct Message {
  size_t chan;
  Bytes data;
  uint64_t time;
  bool slow;
};
struct File {
  std::string name;
  std::vector<std::pair<uint32_t, std::string>> schemas;
  std::vector<Chan> chans;
  std::vector<Message> msgs;
};
struct State {
  bool open = false;      // an analysis is running
  bool failed = false;    // one of its steps failed
  bool faulted = false;   // a fault struck while it ran
  std::string failed_kind;
  File file;
  std::vector<std::string> pending;
  bool trap_mode = false;
  bool dialog = false;    // a file dialog stands open
};
void makeFile(File& f, uint64_t seed, uint64_t n) {
  Rng r(seed);
  static const char* const names[] = {"sensor_msgs/msg/PointCloud2", "std_msgs/msg/String", "point_cloud_interfaces/msg/CompressedPointCloud2", "sensor_msgs/msg/PointCloud", "tf2_msgs/msg/TFMessage"};
  f = File();
  f.name = "bag" + std::to_string(seed % 100000) + ".mcap";
  const uint64_t ns = 1 + r.below(5);
  uint32_t id = 1;
  for (uint64_t i = 0; i < ns; ++i) {
    f.schemas.push_back({id, names[i == 0 && r.below(6) ? 0 : r.below(5)]});
    id += 1 + uint32_t(r.below(3));
  }
  const uint64_t nc = r.below(8) ? 1 + r.below(5) : 0;
  uint32_t cid = uint32_t(r.below(3));
  for (uint64_t i = 0; i < nc; ++i) {
    Chan c;
    c.id = cid;
    cid += 1 + uint32_t(r.below(4));
    const auto& sc = f.schemas[r.below(f.schemas.size())];
    c.schema = r.below(12) ? sc.first : 9999;
    c.cloud = c.schema == sc.first && sc.second == names[0];
    c.topic = "/t" + std::to_string(r.below(6) ? i : r.below(2));
    f.chans.push_back(c);
  }
  if (nc == 0) return;
  const bool coarse = r.below(3) == 0;
  for (uint64_t i = 0; i < n; ++i) {
    Message m;
    m.chan = r.below(nc);
    m.time = 1700000000000000000ull + (coarse ? r.below(3) * 100000000 : r.below(1000000000));
    m.slow = r.below(3) == 0;
    if (f.chans[m.chan].cloud) {
      bmsg::Item it;
      bmsg::make(it, r.below(160) == 0 ? 14 : r.below(12), r.next() & 0xFFFFFF, r.below(4) ? 1 + r.below(200) : r.below(2000), 0, true);
      m.data = it.raw;
      if (r.below(10) == 0) m.data.resize(r.below(m.data.size()));
      if (r.below(12) == 0) dmg::apply(m.data, r.below(5), r.next() & 0xFFFFF, r.next() & 0xFFFF, 0, m.data.size(), nullptr);
    } else m.data.assign(r.below(50), uint8_t(r.next()));
    f.msgs.push_back(std::move(m));
  }
}
std::string fileJson(const File& f, Bytes& all) {
  std::string s = "\"name\":" + host::q(f.name) + ",\"schemas\":[", c, m;
  for (auto& x : f.schemas) s += std::string(&x == &f.schemas[0] ? "" : ",") + "{\"id\":" + std::to_string(x.first) + ",\"name\":" + host::q(x.second) + "}";
  for (auto& x : f.chans) c += std::string(c.empty() ? "" : ",") + "{\"id\":" + std::to_string(x.id) + ",\"schema\":" + std::to_string(x.schema) + ",\"topic\":" + host::q(x.topic) + "}";
  for (auto& x : f.msgs) {
    m += std::string(m.empty() ? "" : ",") + "{\"ch\":" + std::to_string(f.chans[x.chan].id) + ",\"time\":\"" + std::to_string(x.time) + "\",\"len\":" + std::to_string(x.data.size()) + ",\"slow\":" + (x.slow ? "1" : "0") + "}";
    all.insert(all.end(), x.data.begin(), x.data.end());
  }
  return s + "],\"channels\":[" + c + "],\"messages\":[" + m + "]";
}
void finishAnalysis(State& st, const host::Reply& r) {
  st.open = false;
  countEval();
  if (r.get("disabled") != "0") violation("stuck", "the analysis has ended but the page accepts no further file");
  const std::string line = r.get("statusline");
  if (st.failed) {
    SIM_PROBE("analysis failed");
    if (line.compare(0, 5, "Error") != 0) violation("silent", "a failed " + st.failed_kind + " is not reported: " + line);
    if (r.get("hasresults") != "0") violation("silent", "results are shown for a file that could not be read to its end");
    return;
  }
  // what was measured, and that nothing was left out
  const uint32_t limit_lo = 15u << 20;  // below: measured in any case; above, it depends on how far the memory has grown
  uint64_t size = 0, comp = 0;
  std::string clouds;
  uint32_t nclouds = 0;
  std::vector<uint64_t> want;
  for (auto& ch : st.file.chans) {
    const Chan* c = &ch;
    if (!c->cloud) continue;
    uint64_t count = 0;
    for (auto& m : st.file.msgs)
      if (st.file.chans[m.chan].id == c->id) {
        ++count;
        if (m.data.size() < limit_lo) want.push_back(m.data.empty() ? 0 : hashBytes(m.data.data(), m.data.size()));
      }
    clouds += std::string(nclouds++ ? "," : "") + "{\"id\":" + std::to_string(c->id) + ",\"topic\":" + host::q(c->topic) + ",\"count\":" + std::to_string(count) + "}";
  }
  std::vector<uint64_t> got;
  uint64_t missed = 0;
  std::vector<uint64_t> large;
  for (auto& m : st.file.msgs)
    if (st.file.chans[m.chan].cloud && m.data.size() >= limit_lo) large.push_back(hashBytes(m.data.data(), m.data.size()));
  uint64_t refl = 0, refl_size = 0;
  for (auto& h : host::g.history) {
    if (h.fn == "malloc") {
      ++missed;
      continue;
    }
    if (h.fn != "cldn_ComputeCompressedSize") continue;
    if (h.ret) {
      size += h.size;
      comp += h.ret;
    }
    if (h.size >= limit_lo) {
      const auto at = std::find(large.begin(), large.end(), h.hash);
      if (at == large.end()) violation("measured", "a message of " + std::to_string(h.size) + " bytes is measured that the bag's cloud channels do not hold, or twice");
      large.erase(at);
      SIM_PROBE("large message measured in grown memory");
      refl += h.ret;
      if (h.ret) refl_size += h.size;
      continue;
    }
    got.push_back(h.size == 0 ? 0 : h.hash);
  }
  std::sort(want.begin(), want.end());
  std::sort(got.begin(), got.end());
  if (!st.faulted && got != want) violation("measured", std::to_string(got.size()) + " messages are measured instead of the " + std::to_string(want.size()) + " of the bag's cloud channels");
  if (got.size() + missed < want.size()) violation("measured", "cloud messages are left out after a failure: " + std::to_string(got.size()) + " of " + std::to_string(want.size()) + " with " + std::to_string(missed) + " failed allocations");
  if (!st.faulted) {
    Bytes none;
    uint64_t ref = refl, refsize = refl_size;
    for (auto& m : st.file.msgs)
      if (st.file.chans[m.chan].cloud && m.data.size() < limit_lo) {
        const uint32_t k = host::native("compressed", m.data, none, 0);
        ref += k;
        if (k) refsize += m.data.size();
      }
    if (ref != comp || refsize != size) violation("measured", "messages of " + std::to_string(refsize) + " bytes compress to " + std::to_string(ref) + ", the page measured " + std::to_string(comp) + " for " + std::to_string(size));
    if (want.size() > 1) markNontrivial();
  }
  std::set<std::string> seen;
  for (auto& c : st.file.chans)
    for (auto& sc : st.file.schemas)
      if (sc.first == c.schema) seen.insert(sc.second);
  const host::Reply p = host::cmd("{\"op\":\"pagecheck\",\"exp\":{\"name\":" + host::q(st.file.name) + ",\"channels\":" + std::to_string(st.file.chans.size()) + ",\"schemas\":" + std::to_string(seen.size()) + ",\"size\":" + std::to_string(size) +
                                  ",\"compressed\":" + std::to_string(comp) + ",\"clouds\":[" + clouds + "]}}");
  if (!p.get("bad").empty()) violation("page", p.get("bad"));
  if (host::g.live.size() > 4) violation("leak", "an analysis leaves " + std::to_string(host::g.live.size()) + " blocks allocated");
}
void track(State& st, const host::Reply& r) {
  st.pending.clear();
  const std::string p = r.get("pending") + " ";
  size_t at = 0;
  for (size_t e; (e = p.find(' ', at)) != std::string::npos; at = e + 1)
    if (e > at) st.pending.push_back(p.substr(at, e - at));
  if (r.get("unhandled") != "0") violation("unhandled", "a rejected promise is not handled by anyone");
  if (host::g.fault_hit) st.faulted = true;
  if (st.open && st.pending.empty()) finishAnalysis(st, r);
  else if (st.open && r.get("disabled") != "1") violation("enabled", "a file is being analysed and the page accepts another one");
}
}  // namespace
static void run(const Scenario& s) {
  State st;
  auto page = [&](uint64_t mode) {
    host::begin();
    st = State();
    st.trap_mode = host::g.throws_trap = mode & 1;
    const host::Reply r = host::cmd("{\"op\":\"page\"}");
    track(st, r);
  };
  page(0);
  auto step = [&](uint64_t i, bool ok) {
    if (st.pending.empty()) return;
    i %= st.pending.size();
    if (!ok) {
      countFault(st.pending[i] == "read" ? F_BAG_READ : st.pending[i] == "open" ? F_BAG_OPEN : F_LOAD);
      st.failed = true;
      st.failed_kind = st.pending[i];
    }
    const host::Reply r = host::cmd("{\"op\":\"settle\",\"i\":" + std::to_string(i) + ",\"ok\":" + (ok ? "true" : "false") + "}");
    const bool was = st.open;
    track(st, r);
    if (was && !st.open) host::g.clearFaults();
  };
  for (auto& o : s.ops) {
    if (o.name == "page") page(o.u(0));
    else if (o.name == "file") {
      const uint64_t how = o.u(0) % 6;
      File f;
      makeFile(f, o.u(1), o.u(2) % 64);
      if (how == 2) f.name = f.name.substr(0, f.name.size() - 4) + "bag";
      Bytes all;
      const std::string js = fileJson(f, all);
      const bool busy = st.open;
      if (!busy) {
        host::g.clearFaults();
        host::g.history.clear();
      }
      const std::string hs = how == 0 || (how == 2 && o.u(1) % 2) ? "drop" : how == 3 ? "cancel" : how == 4 ? "dialog" : how == 5 ? "late" : "choose";
      const bool starts = how < 2 || (how == 5 && st.dialog);
      if (how == 5 && st.dialog && busy) SIM_PROBE("file chosen in an old dialog while another is analysed");
      if (how == 5) st.dialog = false;
      if (how == 4 && !busy) st.dialog = true;
      if (!busy && starts) {
        st.open = true;
        st.failed = st.faulted = false;
        st.file = std::move(f);
      }
      const host::Reply r = host::cmd("{\"op\":\"file\",\"how\":\"" + hs + "\"," + js + "}", all);
      countEval();
      if (busy) {
        SIM_PROBE("file offered while another is analysed");
        countFault(F_BAD_INPUT);
      } else if (!starts) {
        if (r.get("disabled") != "0" || !r.get("pending").empty()) violation("wrong-file", "the page works on something that is no bag");
        if (how == 2 && r.get("statusline").compare(0, 5, "Error") != 0) violation("silent", "a file that is no bag is not refused: " + r.get("statusline"));
      } else if (r.get("refused") == "1" || r.get("nodialog") == "1") violation("stuck", "the page accepts no file while it is idle");
      track(st, r);
    } else if (o.name == "fault") {
      host::g.malloc_fails = host::g.call_traps = host::g.call_zero = host::g.grows = host::g.alloc_fails = -1;
      switch (o.u(0) % 6) {
        case 0: host::g.malloc_fails = o.arg(1) % 8; break;
        case 1: host::g.call_traps = o.arg(1) % 8; break;
        case 2: host::g.call_zero = o.arg(1) % 8; break;
        case 3: host::g.grows = o.arg(1) % 12; break;
        default: host::g.alloc_fails = o.arg(1);
      }
    } else if (o.name == "step") step(o.u(0), o.u(1) & 1);
    else if (o.name == "finish")
      for (int k = 0; k < 4000 && !st.pending.empty(); ++k) step(0, true);
  }
  for (int k = 0; k < 4000 && !st.pending.empty(); ++k) step(0, true);
  if (st.open) violation("stuck", "the analysis does not end although all its steps have");
}
static void setup() { host::setup(false); }
const Prop kProp = {"C25", gen, run, setup, "the run finished the analysis of a bag with at least two cloud messages"};
