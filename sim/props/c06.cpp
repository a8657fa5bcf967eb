// Long-lived encoders, decoders and output buffers are driven through histories with damage and faults; every result is
// compared with the result of fresh objects, obtained beforehand in reverse order, each on its own new thread.
#include <map>
#include <memory>
#include <thread>
#include "../common/damage.hpp"
#include "../common/rosmsg.hpp"
#include "../common/session.hpp"
#include "cloudini_lib/ros_msg_utils.hpp"
using namespace sim;
using namespace cl;
using namespace Cloudini;
// item t what kind seed cfg n cseed mode slot   what: 0 encode 1 decode 2 to compressed message 3 to raw message 4 voxel preprocessing 5 header
// dmg  t k a c d        damage to the bytes of the thread's next item that reads a message
// fault t type at       next item of the thread runs into a fault (0 one allocation, 1 allocations from there on, 2 compressor, 3 decompressor)
static void gen(Rng& r, Scenario& s) {
  const bool sh = haveShadow();
  session::genSched(r, s, sh);
  s.sched.step_cap = sh ? 40000000 : 800000000;
  const int threads = r.below(4) == 0 ? 2 + int(r.below(2)) : 1;
  const bool real = chunkPoints() > 1000;
  for (int t = 0; t < threads; ++t) {
    int64_t pal[3][3];
    const int np = 1 + int(r.below(3));
    for (int i = 0; i < np; ++i) {
      session::genLayoutArgs(r, pal[i][0], pal[i][1], pal[i][2], false);
      if (r.below(3) == 0) { static const int k5[] = {2, 4, 5, 7, 9, 10, 11}; pal[i][0] = k5[r.below(7)]; pal[i][2] = int64_t(cfgOf(1, int(r.below(3)), 5, int(r.below(2)))); }
    }
    const int what_bias = int(r.below(8));
    const int m = real ? 4 : 4 + int(r.below(14));
    for (int i = 0; i < m; ++i) {
      const int64_t* p = pal[r.below(np)];
      int64_t what = what_bias < 6 && r.below(3) ? what_bias : int64_t(r.below(6));
      if ((what == 1 || what == 3 || what == 2) && r.below(what_bias == 1 ? 2 : 4) == 0)
        for (int64_t k = r.range(1, 2); k > 0; --k) {
          Op d = dmg::gen(r);
          d.a.insert(d.a.begin(), t);
          s.ops.push_back(d);
        }
      if (threads == 1 && r.below(4) == 0) s.ops.push_back({"fault", {t, int64_t(r.below(4)), r.below(3) ? r.range(0, 12) : r.range(0, 80)}});
      int64_t n = r.below(3) == 0 ? r.range(0, 9) : session::genPoints(r, real ? 2 : 4);
      s.ops.push_back({"item", {t, what, p[0], p[1], p[2], n, int64_t(r.below(1u << 30)), int64_t(r.below(8)), int64_t(r.below(2))}});
    }
  }
}
namespace {
struct Result {
  bool skipped = false, threw = false;
  Bytes data;
  uint64_t n = 0;
};
struct Item {
  const Op* op;
  std::vector<const Op*> damage;
  const Op* fault = nullptr;
  EncodingInfo info;
  Layout lay;
  Bytes cloud, input;  // input: what is handed over for the items that read a message
  Result expect;
};
struct Objects {
  std::map<std::vector<int64_t>, std::unique_ptr<PointcloudEncoder>> enc;
  PointcloudDecoder dec[2];
  std::vector<uint8_t> out[2], msg[2], head;
  uint8_t fill = 0x3C;  // what the destination of a decoder contains beforehand
};
void prepare(Item& it, const Bytes* prev) {
  const Op& o = *it.op;
  it.lay = makeLayout(o.u(2), o.u(3));
  const size_t n = size_t(std::min<int64_t>(std::max<int64_t>(0, o.arg(5)), int64_t(chunkPoints()) * 5));
  uint32_t w, h;
  dims(n, o.u(3) + n, w, h);
  it.info = makeInfo(it.lay, o.u(4), w, h);
  it.cloud = makeCloud(it.lay, n, o.u(6), it.info.encoding_opt == EncodingOptions::LOSSY);
  const int what = int(o.u(1) % 6);
  EncodingInfo i2 = it.info;
  i2.use_threads = false;
  if (what == 1) it.input = encodeFresh(i2, it.cloud);
  if (what == 2 || what == 4) it.input = rosmsg::write(rosmsg::make(it.lay, it.cloud, n, o.u(6), true), false);
  if (what == 3) {
    rosmsg::Msg m = rosmsg::make(it.lay, {}, n, o.u(6), true);
    i2.width = m.width;
    i2.height = m.height;
    if (n) m.data = encodeFresh(i2, it.cloud);
    it.input = rosmsg::write(m, true);
  }
  for (auto* d : it.damage)
    if (!it.input.empty() && dmg::applyOp(it.input, *d, 1, what == 1 ? dmg::headerEnd(it.input) : it.input.size() - std::min(it.input.size(), it.cloud.size() + 200), prev)) countFault(F_NET_CORRUPT);
}
// Further damage to the same stream, decoded into buffers with different contents: what is accepted comes from the stream.
void variants(const Item& it, const Bytes* prev) {
  if (it.op->u(1) % 6 != 1 || it.input.empty()) return;
  for (int k = 0; k < 10; ++k) {
    Bytes b = it.input;
    const uint64_t m = sim::mix64(it.op->u(6), uint64_t(k));
    const uint64_t kinds[] = {18, 18, 18, 19, 11, 13};
    if (!dmg::apply(b, kinds[k % 6], m & 0x3FFFFF, (m >> 22) & 0xFFFF, (m >> 38) & 0xFFFF, dmg::headerEnd(b), prev)) continue;
    uint64_t h[2];
    int ok = 0;
    std::string what;
    for (int f = 0; f < 2; ++f) {
      try {
        ConstBufferView v(b.data(), b.size());
        const EncodingInfo hi = DecodeHeader(v);
        const __uint128_t full = __uint128_t(hi.width) * hi.height * hi.point_step;
        if (full > (1u << 16) || hi.point_step == 0) break;
        Bytes out(size_t(full), f ? 0xC5 : 0x3C);
        PointcloudDecoder d;
        d.decode(hi, v, BufferView(out.data(), out.size()));
        h[f] = fieldsHash(hi, out.data(), out.size() / hi.point_step);
        what = describe(hi);
        ok |= 1 << f;
      } catch (const std::exception&) {
      }
    }
    countEval();
    if (ok == 1 || ok == 2 || (ok == 3 && h[0] != h[1]))
      violation("buffer-dependent", "the points decoded from a damaged stream depend on what the destination contained before: " + what);
    if (ok == 3) SIM_PROBE("damaged stream accepted, points independent of the destination");
  }
}
void perform(Item& it, Objects& ob, Result& res) {
  const Op& o = *it.op;
  const int what = int(o.u(1) % 6), mode = int(o.u(7) & 7), slot = int(o.u(8) & 1);
  auto& vec = ob.out[slot];
  auto& msg = ob.msg[slot];
  const Bytes& in = it.input;
  try {
    switch (what) {
      case 0: {
        EncodingInfo i = it.info;
        i.width = i.height = 1;
        std::vector<int64_t> key{o.arg(2), o.arg(3), o.arg(4)};
        auto& e = ob.enc[key];
        if (!e) e = std::make_unique<PointcloudEncoder>(i);
        if (mode & 1) {
          std::vector<uint8_t> b(MaxCompressedSize(i, i.point_step ? it.cloud.size() / i.point_step : 0, true));
          BufferView v(b.data(), b.size());
          res.n = e->encode(ConstBufferView(it.cloud.data(), it.cloud.size()), v, true);
          b.resize(res.n);
          res.data = std::move(b);
        } else {
          res.n = e->encode(ConstBufferView(it.cloud.data(), it.cloud.size()), vec);
          AllocPause ap;
          res.data = vec;
        }
        break;
      }
      case 1: {
        Bytes b(in);
        ConstBufferView v(b.data(), b.size());
        EncodingInfo hi = DecodeHeader(v);
        const __uint128_t full = __uint128_t(hi.width) * hi.height * hi.point_step;
        if (full > (1u << 20)) { res.skipped = true; return; }
        if (mode & 1) {
          std::vector<uint8_t> b2(size_t(full) + (mode & 2 ? 100 : 0), ob.fill);
          ob.dec[slot].decode(hi, v, BufferView(b2.data(), b2.size()));
          // bytes between the fields are unspecified, every field must come from the message
          AllocPause ap;
          res.n = fieldsHash(hi, b2.data(), hi.point_step ? size_t(full) / hi.point_step : 0);
        } else {
          ob.dec[slot].decode(hi, v, vec);
          AllocPause ap;
          const uint64_t np = hi.point_step ? vec.size() / hi.point_step : 0;
          res.n = fieldsHash(hi, vec.data(), np);
          res.data.assign(8, 0);
          const uint64_t sz = vec.size();
          memcpy(res.data.data(), &sz, 8);
        }
        break;
      }
      case 2: {
        auto pc = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(in.data(), in.size()));
        if (pc.data.size() > (1u << 20)) { res.skipped = true; return; }
        EncodingInfo ei = cloudini_ros::toEncodingInfo(pc);
        ei.encoding_opt = it.info.encoding_opt;
        ei.compression_opt = it.info.compression_opt;
        ei.use_threads = it.info.use_threads;
        for (auto& f : ei.fields)
          for (auto& g : it.info.fields)
            if (f.name == g.name) f.resolution = g.resolution;
        cloudini_ros::convertPointCloud2ToCompressedCloud(pc, ei, msg);
        AllocPause ap;
        res.data = msg;
        break;
      }
      case 3: {
        const auto pc = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(in.data(), in.size()));
        if (__uint128_t(pc.width) * pc.height * pc.point_step > (1u << 20)) { res.skipped = true; return; }
        cloudini_ros::convertCompressedCloudToPointCloud2(pc, msg);
        AllocPause ap;
        res.data = msg;
        break;
      }
      case 4: {
        auto pc = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(in.data(), in.size()));
        for (auto& f : pc.fields)
          if (f.type == FieldType::FLOAT32) f.resolution = mode & 1 ? 0.5f : 20.f;
        cloudini_ros::applyVizLossyPreprocessing(pc);
        AllocPause ap;
        res.n = uint64_t(pc.width) * 1000003 + pc.height;
        res.data.assign(pc.data.data(), pc.data.data() + pc.data.size());
        break;
      }
      default: {
        EncodingInfo i = it.info;
        EncodeHeader(i, ob.head, mode & 1 ? HeaderEncoding::BINARY : HeaderEncoding::YAML);
        AllocPause ap;
        res.data = ob.head;
        break;
      }
    }
  } catch (const std::exception&) {
    res.threw = true;
  }
}
const char* const kWhat[] = {"encoding", "decoding", "converting to a compressed message", "converting to a raw message", "voxel preprocessing", "writing the header"};
void drive(std::vector<Item>& items, bool single) {
  Objects ob;
  ob.fill = 0xC5;
  for (auto& it : items) {
    Result res;
    const bool f = single && it.fault;
    resetCallPlans();
    const int type = f ? int(it.fault->u(1) & 3) : 0;
    const int64_t at = f ? std::max<int64_t>(0, it.fault->arg(2)) : 0;
    const uint64_t c0 = g_sh->fault[F_COMPRESS], d0 = g_sh->fault[F_DECOMPRESS];
    if (f && type == 2) g_plan_compress.at = at % 6;
    if (f && type == 3) g_plan_decompress.at = at % 6;
    if (f && type < 2) allocArm(at, type == 0);
    perform(it, ob, res);
    const bool fired = f && (type < 2 ? allocFired() != 0 : type == 2 ? g_sh->fault[F_COMPRESS] != c0 : g_sh->fault[F_DECOMPRESS] != d0);
    if (f && type < 2) allocDisarm();
    resetCallPlans();
    const Op& o = *it.op;
    sim::log("item", o.u(1), res.threw ? ~0ull : res.data.size());
    if (fired && res.threw) {
      SIM_PROBE("item failed by an injected fault");
      continue;
    }
    countEval();
    const std::string what = std::string(kWhat[o.u(1) % 6]) + " of " + std::to_string(it.info.point_step ? it.cloud.size() / it.info.point_step : 0) + " points, mode " + std::to_string(o.u(7) & 7) + " " + describe(it.info);
    if (fired && type >= 2) violation("fault-swallowed", "a compressor or decompressor failure was not reported by " + what);
    if (it.expect.skipped != res.skipped) violation("differs", "one of the two was skipped: " + what);
    if (res.skipped) continue;
    if (it.expect.threw != res.threw) violation("outcome-differs", std::string(res.threw ? "rejected with used objects but accepted" : "accepted with used objects but rejected") + " with fresh ones: " + what);
    if (res.threw) { SIM_PROBE("rejected by used and fresh objects alike"); continue; }
    if (it.expect.n != res.n || it.expect.data != res.data) {
      size_t k = 0;
      while (k < res.data.size() && k < it.expect.data.size() && res.data[k] == it.expect.data[k]) ++k;
      violation("result-differs", "used objects give another result than fresh ones (first difference at byte " + std::to_string(k) + ", sizes " + std::to_string(res.data.size()) + " and " + std::to_string(it.expect.data.size()) + "): " + what);
    }
  }
}
}  // namespace
static void exec(const Scenario& s) {
  std::map<int64_t, std::vector<Item>> th;
  std::map<int64_t, std::vector<const Op*>> dm;
  std::map<int64_t, const Op*> fl;
  int64_t total = 0;
  std::vector<Item*> all;
  for (auto& op : s.ops) {
    const int64_t t = op.arg(0) & 3;
    if (op.name == "dmg") dm[t].push_back(&op);
    else if (op.name == "fault") fl[t] = &op;
    else if (op.name == "item") {
      total += std::max<int64_t>(0, op.arg(5));
      if (total > int64_t(chunkPoints()) * 40) continue;
      Item it;
      it.op = &op;
      it.damage = dm[t];
      it.fault = fl.count(t) ? fl[t] : nullptr;
      dm[t].clear();
      fl.erase(t);
      th[t].push_back(std::move(it));
    }
  }
  size_t used = 0;
  for (auto& [t, v] : th)
    for (auto& it : v) all.push_back(&it);
  const Bytes* prev = nullptr;
  for (auto* it : all) {
    prepare(*it, prev);
    if (!it->input.empty()) prev = &it->input;
    if (!it->damage.empty()) variants(*it, prev);
  }
  for (size_t i = all.size(); i-- > 0;) {
    Item* it = all[i];
    std::thread x([it] {
      Objects fresh;
      perform(*it, fresh, it->expect);
    });
    x.join();
    used++;
  }
  sim::log("refs", used);
  if (used > 2) markNontrivial();
  if (th.size() <= 1) {
    for (auto& [t, v] : th) drive(v, true);
  } else {
    SIM_PROBE("several threads with objects of their own");
    std::vector<std::thread> ts;
    for (auto& [t, v] : th) {
      auto* p = &v;
      ts.emplace_back([p] { drive(*p, false); });
    }
    for (auto& x : ts) x.join();
  }
}
static void setup() { chunkPoints(); }
const Prop kProp = {"C06", gen, exec, setup,
  "histories of encode, decode, conversion, voxel and header operations on long-lived objects and buffers with damaged messages, allocation and (de)compressor failures in between, on 1-3 threads, compared with fresh objects; non-trivial: at least three items; distinct by event-log hash"};
