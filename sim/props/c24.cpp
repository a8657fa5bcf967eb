// The Foxglove converter over a simulated Emscripten module: loading that fails or comes late, memory that grows or runs out, traps, and
// valid, damaged and contradicting messages.
#include "../host/messages.hpp"
using namespace sim;
using namespace cl;
// load i ok                one pending load of the module ends
// msg kind seed n cfg how  how: 1 frozen message, 2 padding around the bytes, 4 eight times
// empty seed               a message without points
// dmg kind a c d           next msg: damage of the compressed points
// lie what v               next msg: dimensions of the message and of the cloud contradict each other
// fault kind nth           next msg
static void gen(Rng& r, Scenario& s) {
  s.sched.strategy = 0;
  s.sched.step_cap = 3000000000ull;
  const int n = 3 + int(r.below(10));
  const bool faulty = r.below(3) != 0;
  const uint64_t stream = r.below(3) ? 40 : 2;
  const int late = r.below(3) ? 0 : int(r.below(5));
  for (int i = 0; i < n; ++i) {
    if (i == late) s.ops.push_back({"load", {0, faulty ? int64_t(r.below(3) != 0) : 1}});
    if (r.below(12) == 0 || (i > late && r.below(4) == 0)) s.ops.push_back({"load", {int64_t(r.below(3)), int64_t(r.below(4) != 0)}});
    if (r.below(12) == 0) s.ops.push_back({"empty", {int64_t(r.below(1u << 30))}});
    if (faulty && r.below(4) == 0) s.ops.push_back({"fault", {int64_t(r.below(6)), r.below(3) ? r.range(0, 3) : r.range(0, 40)}});
    if (faulty && r.below(4) == 0) s.ops.push_back({"dmg", {int64_t(r.below(dmg::kKinds)), int64_t(r.below(1u << 20)), int64_t(r.below(1u << 16)), int64_t(r.below(1u << 16))}});
    if (faulty && r.below(6) == 0) s.ops.push_back({"lie", {int64_t(r.below(10)), int64_t(r.below(1u << 20))}});
    uint64_t kind = r.below(13);
    if (r.below(20) == 0) kind = 13;
    if (r.below(60) == 0) kind = 14;
    if (r.below(10) == 0) kind = 15;
    const int64_t pts = r.below(4) == 0 ? r.range(1, 4) : r.below(8) == 0 ? r.range(1, 3000) : r.range(1, 400);
    s.ops.push_back({"msg", {int64_t(kind), int64_t(r.below(1u << 30)), pts, int64_t(r.below(kCfgs)), int64_t(r.below(4)) + (r.below(6) == 0 && kind < 13 ? 4 : 0)}});
    if (kind < 13 && r.below(stream) == 0)  // more of the same kind
      for (int k = 1 + int(r.below(3)); k > 0; --k) {
        Op o = s.ops.back();
        o.a[1] = (o.a[1] & ~1023ll) | int64_t(r.below(1024));
        s.ops.push_back(o);
      }
  }
}
namespace {
struct State {
  bool loaded = false;
  int failed = 0, pending = 0;
  const Op* fault = nullptr;
  const Op* damage = nullptr;
  const Op* lie = nullptr;
};
void track(State& st, const host::Reply& r) {
  const std::string p = r.get("pending");
  st.pending = 0;
  for (size_t i = 0; i < p.size(); ++i) st.pending += i == 0 || p[i - 1] == ' ';
  if (r.get("unhandled") != "0") violation("unhandled", "a rejected promise is not handled by anyone (unhandled: " + r.get("unhandled") + ")");
}
void arm(const Op* f) {
  host::g.clearFaults();
  if (!f) return;
  switch (f->u(0) % 6) {
    case 0: host::g.malloc_fails = f->arg(1) % 3; break;
    case 1: host::g.call_traps = f->arg(1) % 2; break;
    case 2: host::g.call_zero = f->arg(1) % 2; break;
    case 3: host::g.grows = f->arg(1) % 5; break;
    default: host::g.alloc_fails = f->arg(1);
  }
}
void lieAbout(bmsg::Item& it, const Op& o) {
  auto& m = it.m;
  const uint32_t v = uint32_t(o.u(1));
  switch (o.u(0) % 10) {
    case 0: m.width = m.width > 1 ? m.width / 2 : 2; break;
    case 1: m.height += 1 + v % 3; break;
    case 2: m.width += 1 + v % 7; break;
    case 3: m.point_step = m.point_step > 1 ? m.point_step - 1 : 2; break;
    case 4: m.point_step += 1 + v % 9; break;
    case 5: m.width = 0x10000 + v % 3; m.height = 0x10000 / (1 + v % 4); break;
    case 6: m.data.clear(); break;
    case 7: m.width = 1; m.height = 1; break;
    case 8: {  // the size wraps to a small number in 32 bits
      m.height = 0x10000;
      m.width = 0x10000 + 1;
      m.point_step = 0x10000 - v % 2;
      break;
    }
    default: std::swap(m.width, m.height);
  }
  m.row_step = m.width * m.point_step;
}
void convertOp(State& st, const Op& o, bool empty) {
  bmsg::Item it;
  if (empty) {
    bmsg::make(it, o.u(0) % 12, o.u(0), 3, 0);
    (o.u(0) % 2 ? it.m.width : it.m.height) = 0;
    if (o.u(0) % 4 == 1) it.m.width = it.m.height = 0;
    it.m.data.clear();
    it.cloud.clear();
    it.m.row_step = it.m.width * it.m.point_step;
  } else bmsg::make(it, o.u(0), o.u(1), o.u(2), o.u(3));
  bool altered = false;
  if (!empty && st.lie) {
    lieAbout(it, *st.lie);
    altered = true;
    SIM_PROBE("dimensions contradict each other");
  }
  if (!empty && st.damage) {
    altered |= dmg::applyOp(it.m.data, *st.damage, 0, it.header, nullptr);
    countFault(F_NET_CORRUPT);
  }
  const uint64_t claimed = uint64_t(it.m.width) * it.m.height * it.m.point_step;
  const bool claims_points = uint64_t(it.m.width) * it.m.height != 0;
  Bytes ref, ref2;
  uint32_t ref_n = 0;
  if (altered && claims_points) {
    // what the library makes of the compressed bytes, with as much room as their header wants
    try {
      Cloudini::ConstBufferView v(it.m.data.data(), it.m.data.size());
      const auto info = Cloudini::DecodeHeader(v);
      const uint64_t sz = uint64_t(info.width) * info.height;
      if (info.point_step && sz <= (48u << 20) / info.point_step && sz * info.point_step == claimed) {
        ref_n = host::native("data", it.m.data, ref, sz * info.point_step);
        host::native("data", it.m.data, ref2, sz * info.point_step, 0x11);
      }
    } catch (const std::exception&) {
    }
  }
  const bool must = st.loaded && !altered && it.m.data.size() < (15u << 20);
  const std::string what = empty ? "a message of an empty cloud" : bmsg::text(it);
  const int rounds = (o.u(4) & 4) && !empty ? 8 : 1;
  size_t live_mid = 0;
  for (int k = 0; k < rounds; ++k) {
    arm(st.fault);
    const host::Reply r = host::cmd("{\"op\":\"convert\",\"freeze\":" + std::string(o.u(4) & 1 ? "true" : "false") + ",\"pad\":" + std::to_string((o.u(4) & 2) ? 13 : 0) + ",\"msg\":" + bmsg::rosJson(it.m) + "}", it.m.data);
    const bool hit = host::g.fault_hit;
    host::g.clearFaults();
    countEval();
    track(st, r);
    if (!r.get("bad").empty()) violation("result", r.get("bad") + " -- " + what);
    if (!r.ok) {
      if (must && !hit) violation("convert", "a valid message is rejected: " + r.err + " -- " + what);
      SIM_PROBE("message rejected");
      if (st.failed && !st.loaded && st.pending == 0) violation("never-loads", "after a failed load nothing loads the module again: " + r.err);
    } else if (!st.loaded && claims_points) {
      violation("result", "a cloud is returned before the module is loaded -- " + what);
    } else if (!altered) {
      std::string why;
      if (empty) {
        if (!r.blob.empty()) violation("values", "an empty cloud has data");
      } else if (!matches(it.info, it.cloud, r.blob.data(), r.blob.size(), why)) violation("values", why + " -- " + what);
      if (it.n > 2) markNontrivial();
    } else {
      if (r.blob.size() != claimed) violation("altered", "a message of " + std::to_string(claimed) + " bytes gives " + std::to_string(r.blob.size()) + " -- " + what);
      if (claims_points && (ref_n == 0 || r.blob.size() != ref_n || !host::sameDefined(r.blob, ref, ref2)))
        violation("altered", std::string("an altered message gives other bytes than the library, which ") + (ref_n ? "decodes it" : "rejects it") + " -- " + what);
      SIM_PROBE("altered message decoded as the library does");
    }
    if (host::g.live.size() > 16) violation("leak", "conversions leave blocks allocated: " + std::to_string(host::g.live.size()));
    if (k == 2) live_mid = host::g.live.size();
  }
  if (rounds > 3 && host::g.live.size() > live_mid) violation("leak", "converting the same message again and again holds more and more blocks: " + std::to_string(live_mid) + " then " + std::to_string(host::g.live.size()) + " -- " + what);
}
}  // namespace
static void run(const Scenario& s) {
  host::begin();
  State st;
  host::Reply r = host::cmd("{\"op\":\"activate\"}");
  if (!r.ok) violation("activate", r.err);
  track(st, r);
  for (auto& o : s.ops) {
    if (o.name == "load") {
      if (st.pending == 0) continue;
      const bool ok = o.u(1) & 1;
      if (!ok) countFault(F_LOAD);
      if (&o != &s.ops[0]) countFault(F_LATE);
      r = host::cmd("{\"op\":\"settle\",\"i\":" + std::to_string(o.u(0) % st.pending) + ",\"ok\":" + (ok ? "true" : "false") + "}");
      track(st, r);
      if (ok) {
        if (st.failed) SIM_PROBE("loaded after a failed load");
        st.loaded = true;
      } else ++st.failed;
    } else if (o.name == "fault") st.fault = &o;
    else if (o.name == "dmg") st.damage = &o;
    else if (o.name == "lie") st.lie = &o;
    else if (o.name == "msg" || o.name == "empty") {
      convertOp(st, o, o.name == "empty");
      st.fault = st.damage = st.lie = nullptr;
    }
  }
  r = host::cmd("{\"op\":\"recheck\"}");
  countEval();
  track(st, r);
  if (!r.get("bad").empty()) violation("result-changed", r.get("bad"));
}
static void setup() { host::setup(false); }
const Prop kProp = {"C24", gen, run, setup, "the run converted at least one cloud of three or more points through the Foxglove converter"};
