// Publishers -> lossy network -> subscriber with long-lived decoders. Everything delivered intact must be faithful.
#include <condition_variable>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <thread>
#include "../common/damage.hpp"
#include "../common/rosmsg.hpp"
#include "../common/session.hpp"
#include "cloudini_lib/ros_msg_utils.hpp"
using namespace sim;
using namespace cl;
using namespace Cloudini;
// enc  t slot kind seed cfg n            encoder for clouds of n points
// pub  t slot cloudSeed mode fault fk fa fc fd delay   one message; fault 0 none 1 drop 2 duplicate 3 damage 4 damaged copy before the intact one
// decoders k                              how many decoders the subscriber alternates between
static void gen(Rng& r, Scenario& s) {
  const bool sh = haveShadow();
  session::genSched(r, s, sh);
  s.sched.step_cap = sh ? 40000000 : 600000000;
  const bool real = chunkPoints() > 1000;
  const int pubs = r.below(3) == 0 ? 2 + int(r.below(2)) : 1;
  s.ops.push_back({"decoders", {r.range(1, 2)}});
  for (int t = 0; t < pubs; ++t) {
    const int m = real ? 1 + int(r.below(3)) : 2 + int(r.below(6));
    for (int i = 0; i < m; ++i) {
      if (i == 0 || r.below(2)) {
        int64_t kind, seed, cfg;
        session::genLayoutArgs(r, kind, seed, cfg, false);
        if (r.below(4) == 0) { static const int k5[] = {2, 4, 5, 7, 9, 10, 11}; kind = k5[r.below(7)]; cfg = int64_t(cfgOf(1, int(r.below(3)), 5, int(r.below(2)))); }
        int64_t n = r.below(3) == 0 ? r.range(0, 9) : session::genPoints(r, real ? 2 : 4);
        // hundreds of chunks: state kept from one chunk to the next has time to wrap around
        if (!real && !sh && r.below(60) == 0) {
          static const int k5[] = {2, 4, 5, 7, 9, 10, 11};
          kind = k5[r.below(7)];
          cfg = int64_t(cfgOf(1, int(r.below(3)), 5, int(r.below(2))));
          n = int64_t(chunkPoints()) * (257 + int64_t(r.below(40))) - int64_t(r.below(3));
        }
        s.ops.push_back({"enc", {t, 0, kind, seed, cfg, n}});
      }
      Op p{"pub", {t, 0, int64_t(r.below(1u << 30)), int64_t(r.below(8)), 0, 0, 0, 0, 0, 0}};
      if (r.below(3) == 0) p.a[4] = r.range(1, 4);
      if (p.a[4] >= 3) {
        const Op d = dmg::gen(r);
        for (int k = 0; k < 4; ++k) p.a[5 + k] = d.a[k];
      }
      if (r.below(4) == 0) p.a[9] = r.range(1, 4);
      s.ops.push_back(p);
    }
  }
}
namespace {
struct Packet {
  Bytes bytes;
  bool intact = true;
  std::shared_ptr<Bytes> cloud;
  EncodingInfo info;
  std::string what;
  bool ros = false;  // bytes are a CompressedPointCloud2 message
};
struct Net {
  std::mutex m;
  std::condition_variable cv;
  std::deque<Packet> q;
  std::vector<std::pair<int64_t, Packet>> held;
  Bytes last;
  int open = 0;
  void send(Packet p, int64_t delay) {
    std::lock_guard<std::mutex> l(m);
    if (delay > 0) {
      countFault(F_NET_DELAY);
      held.emplace_back(delay, std::move(p));
    } else {
      q.push_back(std::move(p));
    }
    for (auto& h : held) --h.first;
    for (size_t i = 0; i < held.size();)
      if (held[i].first < 0) {
        q.push_back(std::move(held[i].second));
        held.erase(held.begin() + i);
      } else ++i;
    cv.notify_one();
  }
  void done() {
    std::lock_guard<std::mutex> l(m);
    if (--open == 0)
      for (auto& h : held) q.push_back(std::move(h.second));
    cv.notify_all();
  }
};
struct Pub {
  std::vector<const Op*> ops;
};
std::string resText(const EncodingInfo& a) {
  std::string s;
  for (auto& f : a.fields) s += f.resolution ? std::to_string(*f.resolution) + " " : "- ";
  return s;
}
void publisher(Pub& pb, Net& net) {
  std::unique_ptr<PointcloudEncoder> enc;
  EncodingInfo info;
  Layout lay;
  int64_t n = 0;
  Bytes reuse;
  for (const Op* op : pb.ops) {
    if (op->name == "enc") {
      lay = makeLayout(op->u(2), op->u(3));
      n = std::min<int64_t>(std::max<int64_t>(0, op->arg(5)), int64_t(chunkPoints()) * (chunkPoints() > 1000 ? 5 : 300));
      uint32_t w, h;
      dims(size_t(n), op->u(3), w, h);
      info = makeInfo(lay, op->u(4), w, h);
      enc.reset();
      try {
        enc = std::make_unique<PointcloudEncoder>(info);
      } catch (const std::exception& e) {
        violation("encode-fails", std::string("cannot construct an encoder: ") + e.what() + " " + describe(info));
      }
      continue;
    }
    if (!enc) continue;
    Packet p;
    p.info = info;
    p.cloud = std::make_shared<Bytes>(makeCloud(lay, size_t(n), op->u(2), info.encoding_opt == EncodingOptions::LOSSY));
    const int mode = int(op->u(3) % 8);
    p.ros = mode >= 6;
    try {
      ConstBufferView in(p.cloud->data(), p.cloud->size());
      switch (mode) {
        case 0: enc->encode(in, p.bytes); break;
        case 1: enc->encode(in, reuse); p.bytes = reuse; break;
        case 2: {
          p.bytes.resize(MaxCompressedSize(info, size_t(n), true));
          BufferView v(p.bytes.data(), p.bytes.size());
          const size_t k = enc->encode(in, v, true);
          p.bytes.resize(k);
          break;
        }
        case 3: {  // another encoder object for the same settings, as the message converters do
          PointcloudEncoder e(info);
          e.encode(in, p.bytes);
          break;
        }
        case 6:
        case 7: {  // as a message through the converters
          rosmsg::Msg m = rosmsg::make(lay, *p.cloud, size_t(n), op->u(2), true);
          m.width = info.width;
          m.height = info.height;
          const Bytes raw = rosmsg::write(m, false);
          const auto pc = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(raw.data(), raw.size()));
          cloudini_ros::convertPointCloud2ToCompressedCloud(pc, info, mode == 6 ? reuse : p.bytes);
          if (mode == 6) p.bytes = reuse;
          break;
        }
        default: {  // header written separately, text or binary
          EncodeHeader(info, p.bytes, mode == 4 ? HeaderEncoding::YAML : HeaderEncoding::BINARY);
          Bytes body(MaxCompressedSize(info, size_t(n), false));
          BufferView v(body.data(), body.size());
          const size_t k = enc->encode(in, v, false);
          p.bytes.insert(p.bytes.end(), body.begin(), body.begin() + k);
          break;
        }
      }
    } catch (const std::exception& e) {
      violation("encode-fails", std::string("encoding a legitimate cloud of ") + std::to_string(n) + " points failed: " + e.what() + ", mode " + std::to_string(mode) + " " + describe(info));
    }
    p.what = "mode " + std::to_string(mode) + " " + describe(info);
    sim::logBytes("pub", p.bytes.data(), p.bytes.size());
    if (size_t(n) > chunkPoints()) markNontrivial();
    const int fault = int(op->u(4) % 5);
    Bytes other;
    {
      std::lock_guard<std::mutex> l(net.m);
      other = net.last;
      net.last = p.bytes;
    }
    if (fault == 1) {
      countFault(F_NET_DROP);
      continue;
    }
    if (fault == 2) {
      countFault(F_NET_DUP);
      net.send(p, 0);
    }
    if (fault >= 3) {
      Packet q = p;
      if (dmg::applyOp(q.bytes, *op, 5, q.ros ? q.bytes.size() / 3 : dmg::headerEnd(q.bytes), &other)) {
        q.intact = false;
        countFault(F_NET_CORRUPT);
        net.send(std::move(q), 0);
        if (fault == 3) continue;
      }
    }
    net.send(std::move(p), op->arg(9));
  }
  enc.reset();
  net.done();
}
void subscriber(Net& net, int ndec) {
  std::vector<std::unique_ptr<PointcloudDecoder>> dec;
  for (int i = 0; i < ndec; ++i) dec.push_back(std::make_unique<PointcloudDecoder>());
  std::vector<uint8_t> reuse;
  size_t k = 0;
  while (true) {
    Packet p;
    {
      std::unique_lock<std::mutex> l(net.m);
      net.cv.wait(l, [&] { return !net.q.empty() || net.open == 0; });
      if (net.q.empty()) break;
      p = std::move(net.q.front());
      net.q.pop_front();
    }
    auto& d = *dec[k % dec.size()];
    const int how = int(k++ % 3);
    const size_t size = p.cloud->size();
    std::string stage = "header";
    try {
      Bytes bytes = p.bytes;
      if (p.ros) {
        stage = "message";
        const auto pc = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(bytes.data(), bytes.size()));
        if (!p.intact && uint64_t(pc.width) * pc.height > (1u << 20)) throw std::runtime_error("harness: not decoding an absurd size");
        cloudini_ros::convertCompressedCloudToPointCloud2(pc, reuse);
        const auto back = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(reuse.data(), reuse.size()));
        sim::log("recv_ok", p.intact, back.data.size());
        if (p.intact) {
          countEval();
          std::string why;
          if (!matches(p.info, *p.cloud, back.data.data(), back.data.size(), why)) violation("not-faithful", why + "; as a message, " + p.what + " res " + resText(p.info));
        }
        continue;
      }
      ConstBufferView v(bytes.data(), bytes.size());
      EncodingInfo hi = DecodeHeader(v);
      if (p.intact) {
        const EncodingInfo& i = p.info;
        bool same = hi.width == i.width && hi.height == i.height && hi.point_step == i.point_step && hi.encoding_opt == i.encoding_opt && hi.compression_opt == i.compression_opt && hi.version == i.version && hi.fields.size() == i.fields.size();
        for (size_t f = 0; same && f < i.fields.size(); ++f)
          same = hi.fields[f].name == i.fields[f].name && hi.fields[f].offset == i.fields[f].offset && hi.fields[f].type == i.fields[f].type && hi.fields[f].resolution.has_value() == i.fields[f].resolution.has_value();
        if (!same) violation("header-differs", "the decoded header differs from the published settings: " + describe(hi) + " instead of " + p.what);
      }
      stage = "payload";
      const uint8_t* out = nullptr;
      size_t out_size = 0;
      Bytes exact;
      if (!p.intact && uint64_t(hi.width) * hi.height * hi.point_step > (8u << 20)) throw std::runtime_error("harness: not decoding an absurd size");
      if (how == 0) {
        d.decode(hi, v, reuse);
        out = reuse.data();
        out_size = reuse.size();
      } else if (how == 1) {
        exact.assign(size, 0x5A);
        d.decode(hi, v, BufferView(exact.data(), exact.size()));
        out = exact.data();
        out_size = size;
      } else {
        std::vector<uint8_t> fresh;
        d.decode(hi, v, fresh);
        exact = std::move(fresh);
        out = exact.data();
        out_size = exact.size();
      }
      sim::log("recv_ok", p.intact, out_size);
      if (p.intact) {
        countEval();
        std::string why;
        if (!matches(p.info, *p.cloud, out, out_size, why)) violation("not-faithful", why + "; " + p.what + " res " + resText(p.info));
      }
    } catch (const std::exception& e) {
      sim::log("recv_throw", p.intact);
      if (p.intact) violation("decode-fails", "decoding an intact cloud of " + std::to_string(p.info.point_step ? size / p.info.point_step : 0) + " points failed (" + stage + "): " + e.what() + "; " + p.what);
      SIM_PROBE("damaged message rejected between intact ones");
    }
  }
}
}  // namespace
static void exec(const Scenario& s) {
  Net net;
  std::map<int64_t, Pub> pubs;
  int ndec = 1;
  for (auto& op : s.ops) {
    if (op.name == "decoders") ndec = int(std::min<int64_t>(3, std::max<int64_t>(1, op.arg(0))));
    else pubs[op.arg(0) & 3].ops.push_back(&op);
  }
  net.open = int(pubs.size());
  if (pubs.size() > 1) SIM_PROBE("several publishers");
  std::thread sub([&] { subscriber(net, ndec); });
  std::vector<std::thread> th;
  for (auto& [t, p] : pubs) {
    Pub* q = &p;
    th.emplace_back([q, &net] { publisher(*q, net); });
  }
  for (auto& t : th) t.join();
  sub.join();
}
static void setup() { chunkPoints(); }
const Prop kProp = {"C05", gen, exec, setup,
  "streams of clouds (12 layout families x encoding x compression x version x threading, value processes incl. extremes, NaN, regime switches at probe/chunk boundaries) from 1-3 publisher threads through a network that drops, duplicates, delays and damages, into reused decoders; non-trivial: a cloud of more than one chunk was published; distinct by event-log hash"};
