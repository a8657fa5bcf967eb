// Every allocation of every operation fails once, or from there on: the operation must complete correctly or throw,
// release everything, and leave objects and buffers that work.
#include <memory>
#include <thread>
#include "../common/rosmsg.hpp"
#include "../common/session.hpp"
#include "cloudini_lib/ros_msg_utils.hpp"
using namespace sim;
using namespace cl;
using namespace Cloudini;
// try what kind seed cfg n n2 cseed mode first stride    what: see kWhat. Ordinals first, first+stride, ... of the operation fail.
static const char* const kWhat[] = {"construct+encode", "encode, reused encoder and vector", "encode into a view", "decode, new decoder", "decode, reused decoder and vector", "decode into a view", "header", "YAML", "convert to compressed message", "convert to raw message", "voxel preprocessing", "cloud object copies", "resolution profile", "preprocess and convert"};
constexpr int kOps = 14;
static void gen(Rng& r, Scenario& s) {
  const bool sh = haveShadow();
  session::genSched(r, s, sh);
  s.sched.acc_gap *= 20;
  s.sched.step_cap = sh ? 40000000 : 2000000000;
  const int k = 1 + int(r.below(3));
  for (int i = 0; i < k; ++i) {
    int64_t kind, seed, cfg;
    session::genLayoutArgs(r, kind, seed, cfg, false);
    if (r.below(3) == 0) { static const int k5[] = {2, 4, 5, 7, 9, 10, 11}; kind = k5[r.below(7)]; cfg = int64_t(cfgOf(1, int(r.below(3)), 5, int(r.below(2)))); }
    const int64_t n = r.below(2) ? r.range(0, 20) : session::genPoints(r, 3);
    const int64_t n2 = r.below(2) ? r.range(0, 20) : session::genPoints(r, 3);
    s.ops.push_back({"try", {int64_t(r.below(kOps)), kind, seed, cfg, n, n2, int64_t(r.below(1u << 30)), int64_t(r.below(8)), int64_t(r.below(4)), r.below(3) ? 1 : r.range(2, 5)}});
  }
}
namespace {
struct Out {
  bool threw = false, odd = false;
  Bytes data;
  std::string err;
};
struct Case {
  EncodingInfo info;
  size_t n = 0;
  Bytes cloud, stream, raw, comp, header;
  Bytes expect;  // result of the operation with fresh objects
};
struct Objs {
  std::unique_ptr<PointcloudEncoder> enc;
  PointcloudDecoder dec;
  std::vector<uint8_t> out, head, view;
  cloudini_ros::RosPointCloud2 pc;
  bool have_pc = false;
};
void keep(Out& r, const uint8_t* p, size_t n) {
  AllocPause ap;
  r.data.assign(p, p + n);
}
void op(int what, int mode, const Case& c, Objs& o, Out& res) {
  ConstBufferView in(c.cloud.data(), c.cloud.size());
  switch (what) {
    case 0: {
      PointcloudEncoder e(c.info);
      std::vector<uint8_t> v;
      e.encode(in, v);
      keep(res, v.data(), v.size());
      break;
    }
    case 1: {
      o.enc->encode(in, o.out);
      keep(res, o.out.data(), o.out.size());
      break;
    }
    case 2: {
      BufferView v(o.view.data(), o.view.size());
      const size_t k = o.enc->encode(in, v, mode & 1);
      keep(res, o.view.data(), k);
      break;
    }
    case 3: case 4: case 5: {
      ConstBufferView v(c.stream.data(), c.stream.size());
      EncodingInfo hi = DecodeHeader(v);
      if (what == 3) {
        PointcloudDecoder d;
        std::vector<uint8_t> out;
        d.decode(hi, v, out);
        keep(res, out.data(), out.size());
      } else if (what == 4) {
        o.dec.decode(hi, v, o.out);
        keep(res, o.out.data(), o.out.size());
      } else {
        o.dec.decode(hi, v, BufferView(o.view.data(), c.cloud.size()));
        keep(res, o.view.data(), c.cloud.size());
      }
      break;
    }
    case 6: {
      EncodeHeader(c.info, o.head, mode & 1 ? HeaderEncoding::BINARY : HeaderEncoding::YAML);
      ConstBufferView v(o.head.data(), o.head.size());
      const EncodingInfo i = DecodeHeader(v);
      const std::string y = EncodingInfoToYAML(i);
      keep(res, reinterpret_cast<const uint8_t*>(y.data()), y.size());
      break;
    }
    case 7: {
      const std::string y = EncodingInfoToYAML(c.info);
      const EncodingInfo i = EncodingInfoFromYAML(y);
      const std::string z = EncodingInfoToYAML(i);
      keep(res, reinterpret_cast<const uint8_t*>(z.data()), z.size());
      break;
    }
    case 8: case 13: {
      auto pc = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(c.raw.data(), c.raw.size()));
      for (auto& f : pc.fields)
        if (f.type == FieldType::FLOAT32) f.resolution = 0.25f;
      if (what == 13) cloudini_ros::applyVizLossyPreprocessing(pc);
      EncodingInfo ei = cloudini_ros::toEncodingInfo(pc);
      ei.encoding_opt = c.info.encoding_opt;
      ei.compression_opt = c.info.compression_opt;
      ei.use_threads = c.info.use_threads;
      cloudini_ros::convertPointCloud2ToCompressedCloud(pc, ei, o.out);
      keep(res, o.out.data(), o.out.size());
      break;
    }
    case 9: {
      const auto pc = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(c.comp.data(), c.comp.size()));
      cloudini_ros::convertCompressedCloudToPointCloud2(pc, o.out);
      keep(res, o.out.data(), o.out.size());
      break;
    }
    case 10: {
      if (!o.have_pc) {
        o.pc = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(c.raw.data(), c.raw.size()));
        for (auto& f : o.pc.fields)
          if (f.type == FieldType::FLOAT32) f.resolution = 0.25f;
        o.have_pc = true;
      }
      cloudini_ros::applyVizLossyPreprocessing(o.pc);
      keep(res, o.pc.data.data(), o.pc.data.size());
      break;
    }
    case 11: {
      auto pc = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(c.raw.data(), c.raw.size()));
      for (auto& f : pc.fields)
        if (f.type == FieldType::FLOAT32) f.resolution = 0.25f;
      cloudini_ros::applyVizLossyPreprocessing(pc);
      cloudini_ros::RosPointCloud2 a(pc), b;
      b = a;
      cloudini_ros::RosPointCloud2 d(std::move(a));
      cloudini_ros::RosPointCloud2 e;
      e = std::move(b);
      o.pc = e;
      o.pc = d;
      std::vector<uint8_t> v;
      nanocdr::Encoder ce(o.pc.cdr_header, v);
      cloudini_ros::writePointCloudHeader(ce, o.pc);
      AllocPause ap;
      v.insert(v.end(), o.pc.data.data(), o.pc.data.data() + o.pc.data.size());
      res.data = v;
      break;
    }
    default: {
      cloudini_ros::ResolutionProfile p;
      for (auto& f : c.info.fields)
        if (p.size() < 3) p[f.name] = p.size() == 1 ? 0.f : 0.5f;
      auto fields = c.info.fields;
      cloudini_ros::applyResolutionProfile(p, fields, 0.125f);
      EncodingInfo i = c.info;
      i.fields = fields;
      const std::string y = EncodingInfoToYAML(i);
      keep(res, reinterpret_cast<const uint8_t*>(y.data()), y.size());
      break;
    }
  }
}
void guarded(int what, int mode, const Case& c, Objs& o, Out& res) {
  try {
    op(what, mode, c, o, res);
  } catch (const std::exception& e) {
    AllocPause ap;
    res.threw = true;
    res.err = e.what();
  } catch (...) {
    res.threw = res.odd = true;
  }
}
bool pcConsistent(const cloudini_ros::RosPointCloud2& pc) {
  volatile uint64_t sum = 0;
  for (size_t i = 0; i < pc.data.size(); ++i) sum = sum + pc.data.data()[i];
  return pc.data.size() == uint64_t(pc.width) * pc.height * pc.point_step;
}
Case prepare(const Op& o, size_t n, uint64_t cseed) {
  Case c;
  const Layout l = makeLayout(o.u(1), o.u(2));
  c.n = n;
  uint32_t w, h;
  dims(n, cseed, w, h);
  c.info = makeInfo(l, o.u(3), w, h);
  c.cloud = makeCloud(l, n, cseed, c.info.encoding_opt == EncodingOptions::LOSSY);
  EncodingInfo i = c.info;
  i.use_threads = false;
  c.stream = encodeFresh(i, c.cloud);
  rosmsg::Msg m = rosmsg::make(l, c.cloud, n, cseed, true);
  // lossy domain of the 0.25 m resolution used by the message operations
  c.raw = rosmsg::write(m, false);
  i.width = m.width;
  i.height = m.height;
  m.data = n ? encodeFresh(i, c.cloud) : Bytes();
  c.comp = rosmsg::write(m, true);
  return c;
}
}  // namespace
static void exec(const Scenario& s) {
  for (auto& o : s.ops) {
    if (o.name != "try") continue;
    const int what = int(o.u(0) % kOps), mode = int(o.u(7) & 7);
    const size_t lim = chunkPoints() * 4;
    Case A = prepare(o, std::min<size_t>(size_t(std::max<int64_t>(0, o.arg(4))), lim), o.u(6));
    Case B = prepare(o, std::min<size_t>(size_t(std::max<int64_t>(0, o.arg(5))), lim), o.u(6) + 1);
    B.info.width = A.info.width;
    B.info.height = A.info.height;
    const std::string text = std::string(kWhat[what]) + ", " + std::to_string(A.n) + " points, mode " + std::to_string(mode) + " " + describe(A.info);
    auto mk = [&](Objs& ob) {
      if (what == 1 || what == 2) ob.enc = std::make_unique<PointcloudEncoder>(A.info);
      if (what == 2 || what == 5) ob.view.resize(std::max({MaxCompressedSize(A.info, A.n, true), MaxCompressedSize(A.info, B.n, true), A.cloud.size(), B.cloud.size()}), 0);
    };
    for (Case* c : {&A, &B}) {  // fault-free references with fresh objects
      Objs ob;
      Out r;
      mk(ob);
      guarded(what, mode, *c, ob, r);
      if (r.threw) violation("fails-without-faults", text + ": " + r.err);
      c->expect = r.data;
    }
    const uint64_t base_blocks = allocStats().live_blocks;
    int64_t total = 0;
    int64_t done = 0;
    const int64_t stride = std::max<int64_t>(1, o.arg(9)), first = std::max<int64_t>(0, o.arg(8));
    for (int64_t at = -1, round = 0; at < total && done < 160; ++round) {
      for (int once = 1; once >= 0; --once) {
        Out r1, r2, r3;
        bool fired = false, consistent = true;
        uint64_t count = 0;
        std::thread t([&] {
          {
            Objs ob;
            mk(ob);
            if ((mode & 2) && (what == 4 || what == 1 || what == 2)) {  // warm objects
              Out w;
              guarded(what, mode, B, ob, w);
              if (w.threw || w.data != B.expect) violation("fails-without-faults", "warm-up, " + text + ": " + w.err);
            }
            allocArm(at, once);
            guarded(what, mode, A, ob, r1);
            fired = allocFired() != 0;
            count = allocStats().armed_allocs;
            allocArm(-1, true);  // keep tracking blocks, no failure
            if (what == 10) {
              consistent = !ob.have_pc || pcConsistent(ob.pc);
              guarded(what, mode, A, ob, r2);
              ob.have_pc = false;
              guarded(what, mode, B, ob, r3);
            } else {
              guarded(what, mode, B, ob, r2);
              guarded(what, mode, A, ob, r3);
            }
          }
          allocDisarm();
        });
        t.join();
        countEval();
        sim::log("try", uint64_t(at), r1.threw ? ~0ull : r1.data.size());
        const std::string where = at < 0 ? "no failing allocation" : (once ? "allocation " : "every allocation from ") + std::to_string(at) + " fails";
        if (r1.odd || r2.odd || r3.odd) violation("odd-exception", text + ": threw something that is not a std::exception; " + where);
        if (r1.threw && !fired) violation("spurious-failure", text + ": " + r1.err + "; " + where);
        if (!r1.threw && r1.data != A.expect) violation("wrong-result", text + ": reported success with a wrong result; " + where);
        const Bytes& e2 = what == 10 ? A.expect : B.expect;
        const Bytes& e3 = what == 10 ? B.expect : A.expect;
        if (!consistent) violation("unusable-object", text + ": the cloud object is inconsistent after the failed call; " + where);
        if (r2.threw || r2.data != e2) violation("unusable-object", text + ": the next call " + (r2.threw ? "fails: " + r2.err : "gives a wrong result") + "; " + where);
        if (r3.threw || r3.data != e3) violation("unusable-object", text + ": the call after the next " + (r3.threw ? "fails: " + r3.err : "gives a wrong result") + "; " + where);
        if (liveThreads() > 0) violation("thread-leak", text + ": a thread is left running; " + where);
        if (allocStats().live_blocks != base_blocks) violation("leak", text + ": " + std::to_string(allocStats().live_blocks - base_blocks) + " blocks are never released; " + where);
        if (fired) {
          markNontrivial();
          if (r1.threw) SIM_PROBE("operation failed by an allocation failure");
          else SIM_PROBE("operation survived an allocation failure");
        }
        if (at < 0) {
          total = int64_t(count);
          break;
        }
        ++done;
      }
      at = at < 0 ? first % std::max<int64_t>(1, total) : at + stride;
      if (at >= 0 && round == 0 && total == 0) break;
    }
  }
}
static void setup() { chunkPoints(); }
const Prop kProp = {"C04", gen, exec, setup,
  "14 operations (encode, decode, header, YAML, message conversion both ways, voxel preprocessing, cloud copies, profiles; fresh and long-lived objects) with every allocation ordinal failing once or from there on, under random schedules; non-trivial: a failure fired; distinct by event-log hash"};
