// The Python decoder over a simulated WebAssembly instance: valid, damaged and contradicting messages, allocation failures and traps.
#include "../host/messages.hpp"
using namespace sim;
using namespace cl;
// new mode                 a decoder; mode 1..: how its construction fails, 8: memory under another name, 16: built without exceptions
// msg kind seed n cfg how  how: 0 decode, 1 header only, 2 decode eight times
// dmg kind a c d at        next msg: damage of the compressed points (at 0) or of the whole message (at 1)
// lie what v               next msg: dimensions of the message and of the cloud contradict each other
// fault kind nth           next msg or new
// mcap seed n max          the command line tool on a bag of n messages
static void gen(Rng& r, Scenario& s) {
  s.sched.strategy = 0;
  s.sched.step_cap = 3000000000ull;
  s.ops.push_back({"new", {r.below(5) ? int64_t(r.below(4)) * 8 : int64_t(r.below(32))}});
  const int n = 2 + int(r.below(9));
  const bool faulty = r.below(3) != 0;
  const uint64_t stream = r.below(3) ? 40 : 2;
  for (int i = 0; i < n; ++i) {
    if (r.below(25) == 0) s.ops.push_back({"new", {int64_t(r.below(4)) * 8}});
    if (r.below(16) == 0) {
      s.ops.push_back({"mcap", {int64_t(r.below(1u << 30)), r.range(0, 6), r.range(-2, 6)}});
      continue;
    }
    if (faulty && r.below(4) == 0) s.ops.push_back({"fault", {int64_t(r.below(5)), r.below(3) ? r.range(0, 3) : r.range(0, 40)}});
    if (faulty && r.below(4) == 0) s.ops.push_back({"dmg", {int64_t(r.below(dmg::kKinds)), int64_t(r.below(1u << 20)), int64_t(r.below(1u << 16)), int64_t(r.below(1u << 16)), int64_t(r.below(2))}});
    if (faulty && r.below(7) == 0) s.ops.push_back({"lie", {int64_t(r.below(8)), int64_t(r.below(1u << 20))}});
    uint64_t kind = r.below(13);
    if (r.below(20) == 0) kind = 13;
    if (r.below(60) == 0) kind = 14;
    if (r.below(10) == 0) kind = 15;
    const int64_t pts = r.below(4) == 0 ? r.range(1, 4) : r.below(8) == 0 ? r.range(1, 3000) : r.range(1, 400);
    s.ops.push_back({"msg", {int64_t(kind), int64_t(r.below(1u << 30)), pts, int64_t(r.below(kCfgs)), r.below(6) == 0 && (kind < 13 || kind == 15 || r.below(6) == 0) ? 2 : r.below(8) == 0 ? 1 : 0}});
    if (kind < 13 && r.below(stream) == 0)  // more of the same kind
      for (int k = 1 + int(r.below(3)); k > 0; --k) {
        Op o = s.ops.back();
        o.a[1] = (o.a[1] & ~1023ll) | int64_t(r.below(1024));
        s.ops.push_back(o);
      }
  }
}
namespace {
struct State {
  bool have = false;      // a decoder exists
  bool trapping = false;  // a call of this decoder ended in a trap: the state of the module is what it is
  const Op* fault = nullptr;
  const Op* damage = nullptr;
  const Op* lie = nullptr;
};
void arm(const Op* f) {
  host::g.clearFaults();
  if (!f) return;
  switch (f->u(0) % 5) {
    case 0: host::g.malloc_fails = f->arg(1) % 5; break;
    case 1: host::g.call_traps = f->arg(1) % 3; break;
    case 2: host::g.call_zero = f->arg(1) % 3; break;
    default: host::g.alloc_fails = f->arg(1);
  }
}
// What the contradiction is; true when the message became unusable.
void lieAbout(bmsg::Item& it, const Op& o) {
  auto& m = it.m;
  const uint32_t v = uint32_t(o.u(1));
  switch (o.u(0) % 8) {
    case 0: m.width = m.width > 1 ? m.width / 2 : 0; break;
    case 1: m.height = 0; break;
    case 2: m.width += 1 + v % 7; break;
    case 3: m.point_step = m.point_step > 1 ? m.point_step - 1 : 2; break;
    case 4: m.point_step += 1 + v % 9; break;
    case 5: m.width = 0x10000 + v; m.height = 0x10000; break;
    case 6: m.data.clear(); break;
    default: std::swap(m.width, m.height);
  }
  it.wire = rosmsg::write(m, true);
}
void decodeOp(State& st, const Op& o) {
  bmsg::Item it;
  bmsg::make(it, o.u(0), o.u(1), o.u(2), o.u(3));
  bool altered = false;
  if (st.lie) {
    lieAbout(it, *st.lie);
    altered = true;
    SIM_PROBE("dimensions contradict each other");
  }
  if (st.damage) {
    if (st.damage->u(4) & 1) {
      altered |= dmg::applyOp(it.wire, *st.damage, 0, it.wire.size() - std::min(it.wire.size(), it.m.data.size() + 16), nullptr);
    } else {
      altered |= dmg::applyOp(it.m.data, *st.damage, 0, it.header, nullptr);
      it.wire = rosmsg::write(it.m, true);
    }
    countFault(F_NET_CORRUPT);
  }
  const bool header_only = o.u(4) == 1;
  // what the library itself makes of these bytes
  Bytes ref, yaml;
  uint32_t ref_n = 0, yaml_n = 0;
  Bytes ref2;
  if (altered) {
    const uint32_t sz = host::native("size", it.wire, ref, 0);
    if (sz && sz < (40u << 20)) {
      ref_n = host::native("message", it.wire, ref, sz);
      host::native("message", it.wire, ref2, sz, 0x11);
    }
    yaml_n = host::native("yaml", it.wire, yaml, it.wire.size() + 100000);
  }
  const bool must = !altered && it.decoded() <= (32u << 20) - 4096;
  const std::string what = bmsg::text(it);
  const int rounds = o.u(4) == 2 ? 8 : 1;
  size_t live_mid = 0;
  for (int k = 0; k < rounds; ++k) {
    arm(st.fault);
    const std::string exp = altered ? "null" : bmsg::infoJson(it.info);
    const host::Reply r = host::cmd(std::string("{\"op\":\"") + (header_only ? "header" : "decode") + "\",\"exp\":" + exp + "}", it.wire);
    const bool hit = host::g.fault_hit;
    host::g.clearFaults();
    countEval();
    if (!r.ok) {
      if (must && !hit) violation("decode", "a valid message is rejected: " + r.err + " -- " + what);
      if (altered && ref_n && yaml_n && !hit) SIM_PROBE("altered message accepted by the library only");
      SIM_PROBE("message rejected");
    } else if (header_only) {
      if (r.get("empty") == "1") {
        if (must && !hit) violation("header", "no header is found in a valid message -- " + what);
      } else if (!r.get("bad").empty()) violation("header", r.get("bad") + " -- " + what);
      else if (altered && yaml_n == 0) violation("header", "a header is reported where the library finds none -- " + what);
    } else {
      if (!r.get("bad").empty()) violation("result", r.get("bad") + " -- " + what);
      std::string why;
      if (!altered) {
        if (!matches(it.info, it.cloud, r.blob.data(), r.blob.size(), why)) violation("values", why + " -- " + what);
        if (it.n > 2) markNontrivial();
      } else if (ref_n == 0 || r.blob.size() != ref_n || !host::sameDefined(r.blob, ref, ref2))
        violation("altered", "an altered message gives " + std::to_string(r.blob.size()) + " bytes, the library " + (ref_n ? "other bytes, " + std::to_string(ref_n) : std::string("rejects it")) + " -- " + what);
      else SIM_PROBE("altered message decoded as the library does");
    }
    if (k == 2) live_mid = host::g.live.size();
  }
  if (rounds > 3 && host::g.live.size() > live_mid) violation("leak", "decoding the same message again and again holds more and more blocks: " + std::to_string(live_mid) + " then " + std::to_string(host::g.live.size()) + " -- " + what);
}
void mcapOp(State&, const Op& o) {
  Rng r(o.u(0));
  const uint64_t n = o.u(1) % 7;
  const int64_t max = o.arg(2);
  static const char* const schemas[] = {"point_cloud_interfaces/msg/CompressedPointCloud2", "sensor_msgs/msg/PointCloud2", "std_msgs/msg/String", nullptr};
  std::string ch, ms, ex;
  const uint64_t chans = 1 + r.below(4);
  std::vector<int> kind;
  for (uint64_t c = 0; c < chans; ++c) {
    kind.push_back(c == 0 ? 0 : int(r.below(4)));
    ch += std::string(c ? "," : "") + "{\"topic\":\"/t" + std::to_string(c) + "\",\"schema\":" + (schemas[kind[c]] ? host::q(schemas[kind[c]]) : "null") + "}";
  }
  Bytes all;
  int64_t taken = 0;
  for (uint64_t i = 0; i < n; ++i) {
    const uint64_t c = r.below(chans);
    bmsg::Item it;
    bmsg::make(it, r.below(12), r.next() & 0xFFFFFF, 1 + r.below(60), r.below(kCfgs));
    Bytes b = kind[c] == 0 ? it.wire : Bytes(r.below(40), 7);
    bool good = true;
    if (kind[c] == 0 && r.below(4) == 0) {
      b.resize(r.below(b.size()));
      good = false;
      countFault(F_BAG_CORRUPT);
    }
    ms += std::string(i ? "," : "") + "{\"ch\":" + std::to_string(c) + ",\"time\":" + std::to_string(1000 + i) + ",\"len\":" + std::to_string(b.size()) + "}";
    if (kind[c] == 0 && (max <= 0 || taken < max)) {
      ex += std::string(ex.empty() ? "" : ",") + "[" + std::to_string(i) + "," + (good ? "true" : "false") + "]";
      ++taken;
    }
    all.insert(all.end(), b.begin(), b.end());
  }
  const host::Reply rep = host::cmd("{\"op\":\"mcap\",\"max\":" + (max == -2 ? std::string("null") : std::to_string(max)) + ",\"channels\":[" + ch + "],\"messages\":[" + ms + "],\"expect\":[" + ex + "]}", all);
  countEval();
  if (!rep.ok) violation("tool", "the tool fails: " + rep.err);
  if (!rep.get("bad").empty()) violation("tool", rep.get("bad"));
}
}  // namespace
static void run(const Scenario& s) {
  host::begin();
  host::g.can_grow = false;
  State st;
  for (auto& o : s.ops) {
    if (o.name == "new") {
      const uint64_t mode = o.u(0) % 32;
      host::begin();
      host::g.can_grow = false;
      st.have = false;
      host::g.throws_trap = mode & 16;
      std::string cfg = std::string("\"memory\":") + ((mode & 8) ? "\"p\"" : "\"memory\"");
      switch (mode & 7) {
        case 1: cfg += ",\"no_file\":1"; break;
        case 2: cfg += ",\"bad_module\":1"; break;
        case 3: cfg += ",\"no_memory\":1"; break;
        case 4: cfg += ",\"missing\":[\"cldn_DecodeCompressedMessage\"]"; break;
        case 5: cfg += ",\"missing\":[\"cldn_GetHeaderAsYAMLFromDDS\"]"; break;
        default: break;
      }
      const bool fails = (mode & 7) >= 1 && (mode & 7) <= 5;
      if (fails) countFault(F_LOAD);
      arm((mode & 7) == 6 ? st.fault : nullptr);
      const host::Reply r = host::cmd("{\"op\":\"new\",\"cfg\":{" + cfg + "}}");
      countEval();
      if (r.ok && fails) violation("construct", "a decoder is made from an unusable module");
      if (!r.ok && !fails && !host::g.fault_hit) violation("construct", "a decoder can not be made: " + r.err);
      host::g.clearFaults();
      st.have = r.ok;
      st.fault = nullptr;
    } else if (o.name == "fault") st.fault = &o;
    else if (o.name == "dmg") st.damage = &o;
    else if (o.name == "lie") st.lie = &o;
    else if (o.name == "msg") {
      if (!st.have) {
        host::begin();
        host::g.can_grow = host::g.throws_trap = false;
        const host::Reply r = host::cmd("{\"op\":\"new\",\"cfg\":{}}");
        if (!r.ok) violation("construct", "a decoder can not be made: " + r.err);
        st.have = true;
      }
      decodeOp(st, o);
      st.fault = st.damage = st.lie = nullptr;
    } else if (o.name == "mcap") {
      host::begin();
      host::g.can_grow = false;
      mcapOp(st, o);
      host::begin();
      host::g.can_grow = false;
      st.have = false;
    }
  }
  host::g.clearFaults();
  const host::Reply r = host::cmd("{\"op\":\"recheck\"}");
  countEval();
  if (!r.get("bad").empty()) violation("result-changed", r.get("bad"));
}
static void setup() { host::setup(true); }
const Prop kProp = {"C23", gen, run, setup, "the run decoded at least one cloud of three or more points through the Python decoder"};
