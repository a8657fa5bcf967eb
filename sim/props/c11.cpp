// Histories of calls to the exported C functions over intact, skewed and damaged messages with failing allocations and
// compressor calls; inputs and outputs are exact-size blocks; every result is compared with the C++ interface.
#include <functional>
#include <memory>
#include "../common/damage.hpp"
#include "../common/rosmsg.hpp"
#include "../common/session.hpp"
#include "cloudini_lib/ros_msg_utils.hpp"
#include "cloudini_lib/wasm_functions.h"
using namespace sim;
using namespace cl;
using namespace Cloudini;
// msg  kind seed cfg n cseed    a cloud, its stream, its raw and its compressed message
// skew what a                   the dimensions around the data no longer fit (what: which number)
// idmg / odmg k a c d           damage to the stream / to the whole message
// clean                         forget skew and damage
// fault kind at len             next call: allocation (0, 1 persistently), compressor (2) or decompressor (3) call fails
// call f a                      one C function
static void gen(Rng& r, Scenario& s) {
  session::genSched(r, s, haveShadow());
  s.sched.step_cap = haveShadow() ? 80000000 : 4000000000ull;
  const int msgs = 1 + int(r.below(3));
  for (int m = 0; m < msgs; ++m) {
    int64_t kind, seed, cfg;
    session::genLayoutArgs(r, kind, seed, cfg, false);
    const int64_t n = r.below(3) ? r.range(0, 60) : session::genPoints(r, 4);
    s.ops.push_back({"msg", {kind, seed, cfg, n, int64_t(r.below(1u << 30))}});
    const int calls = 4 + int(r.below(14));
    for (int i = 0; i < calls; ++i) {
      if (r.below(3) == 0) {
        if (r.below(2)) s.ops.push_back({"skew", {int64_t(r.below(12)), int64_t(r.below(1u << 20))}});
        for (uint64_t j = r.below(3); j > 0; --j) {
          Op d = dmg::gen(r);
          d.name = r.below(2) ? "odmg" : "idmg";
          s.ops.push_back(d);
        }
      }
      if (r.below(5) == 0) {
        const int64_t k = int64_t(r.below(4));
        s.ops.push_back({"fault", {k, k < 2 ? r.range(0, 60) : r.range(0, 2), r.range(1, 2)}});
      }
      s.ops.push_back({"call", {int64_t(r.below(9)), int64_t(r.below(1u << 20))}});
      if (r.below(2)) s.ops.push_back({"clean", {}});
    }
  }
}
namespace {
struct Block {  // exact-size heap block
  std::unique_ptr<uint8_t[]> p;
  size_t n;
  explicit Block(size_t k) : p(new uint8_t[k]), n(k) { memset(p.get(), 0xA5, k); }
  explicit Block(const Bytes& b) : p(new uint8_t[b.size()]), n(b.size()) { if (n) memcpy(p.get(), b.data(), n); }
  uintptr_t addr() const { return reinterpret_cast<uintptr_t>(p.get()); }
  ConstBufferView view() const { return ConstBufferView(p.get(), n); }
};
constexpr uint64_t kBig = 4u << 20;
const char* const kName[9] = {"GetHeaderAsYAML", "GetHeaderAsYAMLFromDDS", "ComputeCompressedSize", "GetDecompressedSize", "ConvertCompressedMsgToPointCloud2Msg",
                              "DecodeCompressedData", "DecodeCompressedMessage", "EncodePointcloudMessage", "EncodePointcloudData"};
template <class F>
bool ok(F f) {  // the C++ interface gives a result
  try {
    f();
    return true;
  } catch (const std::exception&) {
    return false;
  }
}
uint64_t rawSize(uint64_t w, uint64_t h, uint64_t step) {  // saturated
  const __uint128_t n = __uint128_t(w) * h * step;
  return n > (uint64_t(1) << 62) ? uint64_t(1) << 62 : uint64_t(n);
}
struct State {
  Layout lay;
  EncodingInfo info;
  Bytes cloud, stream;
  rosmsg::Msg raw;
  size_t n = 0;
  std::vector<Op> bad;
  const Op* fault = nullptr;
};
void skew(rosmsg::Msg& m, const Op& op) {
  const uint64_t a = op.u(1);
  switch (op.u(0) % 12) {
    case 0: m.width += 1 + uint32_t(a % 5); break;
    case 1: m.width = m.width ? m.width - 1 : 0; break;
    case 2: m.width = 0; break;
    case 3: m.height = 0; break;
    case 4: m.point_step = 0; break;
    case 5: m.point_step += 1 + uint32_t(a % 7); break;
    case 6: m.width += 0x80000000u; m.height *= 2; break;          // same product modulo 2^32
    case 7: m.height += 0x10000u << (a % 12); m.width <<= 4 + a % 12; break;
    case 8: m.width = 0x10000; m.height = 0x10000; break;
    case 9: std::swap(m.width, m.height); break;
    case 10: m.data.clear(); break;
    default: m.point_step = 0; m.data.clear(); m.width = uint32_t(a % 3); break;
  }
}
void call(State& s, const Op& op) {
  const int f = int(op.u(0) % 9);
  const uint64_t a = op.u(1);
  static const float kRes[] = {0.001f, 0.01f, 0.5f, 1e-6f, 0.f, -1.f, 100.f, 0.0123f};
  const float res = kRes[a % 8];
  // ------------------------------------------------------------ what is handed over
  bool changed = false;
  Bytes stream = s.stream;
  for (auto& d : s.bad)
    if (d.name == "idmg" && dmg::applyOp(stream, d, 0, dmg::headerEnd(stream), nullptr)) changed = true;
  const bool needs_raw = f == 2 || f == 7;
  rosmsg::Msg m = s.raw;
  if (!needs_raw) m.data = stream;
  const bool innerDamaged = changed;
  for (auto& d : s.bad)
    if (d.name == "skew") { skew(m, d); changed = true; }
  Bytes msg = rosmsg::write(m, !needs_raw);
  for (auto& d : s.bad)
    if (d.name == "odmg" && dmg::applyOp(msg, d, 0, (d.u(3) & 8) ? 0 : msg.size() - std::min(msg.size(), m.data.size() + 200), nullptr)) changed = true;
  if (f == 0 || f == 5) changed = innerDamaged;
  Block in(f == 0 || f == 5 ? stream : f == 8 ? s.cloud : msg);
  // ------------------------------------------------------------ what the C++ interface does with it
  bool good = false, unspecified = false;
  Bytes expect;
  uint64_t out_size = 0, expect_n = 0;
  bool by_value = false;
  std::string yaml;
  EncodingInfo ei;
  switch (f) {
    case 0:
    case 1:
      good = ok([&] {
        ConstBufferView v = in.view();
        if (f == 1) {
          const auto pc = cloudini_ros::getDeserializedPointCloudMessage(v);
          v = pc.data;
        }
        const std::string y = EncodingInfoToYAML(DecodeHeader(v));
        expect.assign(y.begin(), y.end());
      });
      out_size = expect.size();
      break;
    case 2:
    case 7:
      by_value = f == 2;
      good = ok([&] {
        const auto pc = cloudini_ros::getDeserializedPointCloudMessage(in.view());
        ei = cloudini_ros::toEncodingInfo(pc);
        for (auto& fl : ei.fields)
          if (fl.type == FieldType::FLOAT32) fl.resolution = res;
        if (rawSize(pc.width, pc.height, pc.point_step) != pc.data.size() || pc.point_step == 0) {
          unspecified = f == 2;  // the size of something that cannot be encoded
          throw std::runtime_error("contradiction");
        }
        PointcloudEncoder e(ei);
        e.encode(pc.data, expect);
      });
      out_size = f == 7 ? in.n : 0;
      if (f == 7 && expect.size() > in.n) { good = false; SIM_PROBE("encoded message larger than the documented output"); }
      break;
    case 3:
      by_value = true;
      good = ok([&] {
        const auto pc = cloudini_ros::getDeserializedPointCloudMessage(in.view());
        expect_n = rawSize(pc.width, pc.height, pc.point_step);
      });
      if (expect_n > UINT32_MAX) { good = false; SIM_PROBE("announced size not representable"); }
      break;
    case 4:
      good = ok([&] { cloudini_ros::convertCompressedCloudToPointCloud2(cloudini_ros::getDeserializedPointCloudMessage(in.view()), expect); });
      out_size = expect.size();
      break;
    case 5:
    case 6: {
      uint64_t inner = 0, outer = 0;
      good = ok([&] {
        ConstBufferView v = in.view();
        if (f == 6) {
          const auto pc = cloudini_ros::getDeserializedPointCloudMessage(v);
          outer = rawSize(pc.width, pc.height, pc.point_step);
          v = pc.data;
        }
        EncodingInfo hi = DecodeHeader(v);
        inner = rawSize(hi.width, hi.height, hi.point_step);
        if (inner > kBig) throw std::runtime_error("large");
        PointcloudDecoder d;
        d.decode(hi, v, expect);
      });
      // the output is allocated as announced: by the message when there is one, by the header otherwise
      out_size = f == 6 ? outer : inner;
      if (f == 6 && good && inner != outer) { good = false; SIM_PROBE("compressed cloud contradicts its message"); }
      if (inner > UINT32_MAX || outer > UINT32_MAX) { good = false; out_size = 0; SIM_PROBE("announced size not representable"); }
      else if (inner > kBig || outer > kBig) return;
      break;
    }
    default:
      yaml = EncodingInfoToYAML(s.info);
      for (auto& d : s.bad) {
        if (d.name == "idmg" && (d.u(0) & 3) == 0 && !yaml.empty()) yaml[d.u(1) % yaml.size()] = char(32 + d.u(2) % 95);
        if (d.name == "skew") {
          EncodingInfo j = s.info;
          rosmsg::Msg t;
          t.width = j.width; t.height = j.height; t.point_step = j.point_step;
          skew(t, d);
          j.width = t.width; j.height = t.height; j.point_step = t.point_step;
          yaml = EncodingInfoToYAML(j);
        }
      }
      good = ok([&] {
        ei = EncodingInfoFromYAML(yaml);
        if (rawSize(ei.width, ei.height, ei.point_step) != in.n) throw std::runtime_error("contradiction");
        PointcloudEncoder e(ei);
        e.encode(in.view(), expect);
      });
      out_size = in.n;
      if (expect.size() > in.n) { good = false; SIM_PROBE("encoded cloud larger than the documented output"); }
      changed = yaml != EncodingInfoToYAML(s.info);
  }
  if (!by_value) expect_n = expect.size();
  if (f == 2) expect_n = expect.size();
  if (!good) expect_n = 0;
  // ------------------------------------------------------------ the call
  const size_t out_bytes = size_t(out_size);
  Block out(out_bytes);
  Bytes in_before(in.p.get(), in.p.get() + in.n);
  const std::unique_ptr<char[]> ytext(new char[yaml.size() + 1]);
  memcpy(ytext.get(), yaml.c_str(), yaml.size() + 1);
  const uint32_t len = uint32_t(in.n);
  const Op* fault = s.fault;
  s.fault = nullptr;
  const uint64_t f0 = g_sh->fault[F_ALLOC] + g_sh->fault[F_COMPRESS] + g_sh->fault[F_DECOMPRESS] + g_sh->fault[F_ALLOC_CAP];
  if (fault) {
    const uint64_t k = fault->u(0) % 4;
    if (k < 2) allocArm(std::max<int64_t>(0, fault->arg(1)), k == 0);
    if (k == 2) g_plan_compress = {int64_t(g_n_compress) + std::max<int64_t>(0, fault->arg(1)), fault->arg(2), int(a & 1)};
    if (k == 3) g_plan_decompress = {int64_t(g_n_decompress) + std::max<int64_t>(0, fault->arg(1)), fault->arg(2), int(a & 1)};
  }
  uint32_t ret = 0;
  const char* escaped = nullptr;
  std::string what;
  try {
    switch (f) {
      case 0: ret = cldn_GetHeaderAsYAML(in.addr(), len, out.addr()); break;
      case 1: ret = cldn_GetHeaderAsYAMLFromDDS(in.addr(), len, out.addr()); break;
      case 2: ret = cldn_ComputeCompressedSize(in.addr(), len, res); break;
      case 3: ret = cldn_GetDecompressedSize(in.addr(), len); break;
      case 4: ret = cldn_ConvertCompressedMsgToPointCloud2Msg(in.addr(), len, out.addr()); break;
      case 5: ret = cldn_DecodeCompressedData(in.addr(), len, out.addr()); break;
      case 6: ret = cldn_DecodeCompressedMessage(in.addr(), len, out.addr()); break;
      case 7: ret = cldn_EncodePointcloudMessage(in.addr(), len, res, out.addr()); break;
      default: ret = cldn_EncodePointcloudData(ytext.get(), in.addr(), len, out.addr()); break;
    }
  } catch (const std::exception& e) {
    allocDisarm();
    what = e.what();
    escaped = what.c_str();
  } catch (...) {
    escaped = "unknown";
  }
  const bool fired = allocFired() || g_sh->fault[F_ALLOC] + g_sh->fault[F_COMPRESS] + g_sh->fault[F_DECOMPRESS] + g_sh->fault[F_ALLOC_CAP] != f0;
  allocDisarm();
  resetCallPlans();
  countEval();
  sim::log(kName[f], ret, fired);
  const std::string w = std::string("cldn_") + kName[f] + (changed ? ", message not intact" : ", intact message") + (fired ? ", injected failure" : "") + ", " + std::to_string(len) +
                        " input bytes, announced output " + std::to_string(out_size) + ", returned " + std::to_string(ret) + ", C++ interface " + (good ? std::to_string(expect_n) : "fails") +
                        ", " + describe(s.info);
  if (changed || fired) markNontrivial();
  if (escaped) violation("escape", "an exception escaped (" + std::string(escaped) + "): " + w);
  if (in.n && memcmp(in.p.get(), in_before.data(), in.n) != 0) violation("input", "input bytes were overwritten: " + w);
  if (ret == 0) {
    if (good && expect_n && !fired) violation("refused", "failure reported for something the C++ interface handles: " + w);
    if (good && fired) SIM_PROBE("failure reported for an injected fault");
    return;
  }
  if (unspecified) return;
  if (!good) violation("accepted", "success reported for something that must fail: " + w);
  if (ret != expect_n) violation("size", "returned size differs: " + w);
  if (by_value) return;
  if (f == 4 || f == 0 || f == 1 || f >= 7) {
    if (memcmp(out.p.get(), expect.data(), expect.size()) != 0) violation("content", "output differs from the C++ interface: " + w);
  } else {
    std::string why;
    EncodingInfo hi = s.info;
    if (changed) {
      ConstBufferView v = in.view();
      ok([&] {
        if (f == 6) v = cloudini_ros::getDeserializedPointCloudMessage(v).data;
        hi = DecodeHeader(v);
      });
    }
    bool inside = hi.point_step != 0;
    for (auto& fl : hi.fields) inside &= uint64_t(fl.offset) + 8 <= (uint64_t(1) << 31) && fl.type >= FieldType::INT8 && fl.type <= FieldType::UINT64 && uint64_t(fl.offset) + uint64_t(SizeOf(fl.type)) <= hi.point_step;
    if (inside && !sameFields(hi, out.p.get(), expect.data(), expect.size() / hi.point_step, why)) violation("content", "output differs from the C++ interface: " + why + ", " + w);
    if (!changed && !matches(s.info, s.cloud, out.p.get(), ret, why)) violation("content", "output is not the published cloud: " + why + ", " + w);
  }
  sim::logBytes("out", out.p.get(), f == 5 || f == 6 ? 0 : ret);
  if (f >= 7 && !changed && res > 0) {  // the result can be decoded, by everybody, to the input
    Bytes dec;
    std::string why;
    EncodingInfo hi;
    if (!ok([&] {
          ConstBufferView v(out.p.get(), ret);
          hi = DecodeHeader(v);
          PointcloudDecoder d;
          d.decode(hi, v, dec);
        }))
      violation("undecodable", "the output cannot be decoded: " + w);
    const bool lossless = f == 8 && s.info.encoding_opt != EncodingOptions::LOSSY;
    if (f == 8 && !matches(s.info, s.cloud, dec.data(), dec.size(), why)) violation("content", "the output does not decode to the input: " + why + ", " + w);
    if (f == 7 && dec.size() != s.cloud.size()) violation("content", "the output decodes to another size: " + w);
    if (lossless) SIM_PROBE("encoded without loss");
  }
}
}  // namespace
static void exec(const Scenario& sc) {
  const uint64_t cap_before = g_alloc_cap;
  g_alloc_cap = kBig * 2;
  State s;
  for (auto& op : sc.ops) {
    if (op.name == "msg") {
      s = State();
      s.lay = makeLayout(op.u(0), op.u(1));
      s.n = size_t(std::min<int64_t>(std::max<int64_t>(0, op.arg(3)), int64_t(chunkPoints()) * 5));
      uint32_t w, h;
      dims(s.n, op.u(1), w, h);
      s.info = makeInfo(s.lay, op.u(2), w, h);
      s.cloud = makeCloud(s.lay, s.n, op.u(4), s.info.encoding_opt == EncodingOptions::LOSSY);
      s.stream = encodeFresh(s.info, s.cloud);
      s.raw = rosmsg::make(s.lay, s.cloud, s.n, op.u(4), true);
      s.raw.width = w;
      s.raw.height = h;
      s.raw.row_step = w * s.lay.step;
    } else if (op.name == "clean") {
      s.bad.clear();
    } else if (op.name == "fault") {
      s.fault = &op;
    } else if (op.name == "call") {
      if (s.lay.step) call(s, op);
    } else {
      s.bad.push_back(op);
      countFault(op.name == "skew" ? F_BAD_INPUT : F_NET_CORRUPT);
    }
  }
  g_alloc_cap = cap_before;
}
static void setup() { chunkPoints(); }
const Prop kProp = {"C11", gen, exec, setup,
  "histories of calls to the nine exported C functions over intact messages, messages whose dimensions contradict their data or exceed 32 bits, damaged streams and messages and damaged header texts, with failing allocations, compressor and decompressor calls; exact-size input and output blocks; each result compared with the C++ interface on fresh objects; non-trivial: a message that is not intact or an injected failure that fired; distinct by event-log hash"};
