// A producer's message crosses a faulty medium (damage to the stream inside the message, to the message around it, to
// the stages under the general-purpose compressor) and is handed to every decoding entry point, through long-lived and
// fresh decoders, in exact-size buffers.
#include <lz4.h>
#include <zstd.h>
#include <memory>
#include "../common/damage.hpp"
#include "../common/rosmsg.hpp"
#include "../common/session.hpp"
#include "cloudini_lib/ros_msg_utils.hpp"
using namespace sim;
using namespace cl;
using namespace Cloudini;
// msg  form kind seed cfg n cseed recomp   form 0 text stream, 1 binary header, 2 wire version 2, 3 compressed message, 4 raw message
// idmg k a c d      damage to the stream (before it is put in a message / recompressed)
// odmg k a c d      damage to the whole message
// clean             forget the damage
// use  how a        hand it to an entry point
static void gen(Rng& r, Scenario& s) {
  s.sched.strategy = 0;
  s.sched.step_cap = 4000000000ull;
  const int msgs = 1 + int(r.below(3));
  for (int m = 0; m < msgs; ++m) {
    int64_t kind, seed, cfg;
    session::genLayoutArgs(r, kind, seed, cfg, false);
    if (r.below(2)) { static const int k5[] = {2, 4, 5, 7, 9, 10, 11, 3}; kind = k5[r.below(8)]; cfg = int64_t(cfgOf(1, int(r.below(3)), 5, int(r.below(2)))); }
    const int64_t form = r.below(8) < 4 ? 0 : int64_t(1 + r.below(4));
    int64_t n = r.below(2) ? r.range(1, 20) : session::genPoints(r, 4);
    s.ops.push_back({"msg", {form, kind, seed, cfg, n, int64_t(r.below(1u << 30)), int64_t(r.below(3))}});
    const int tries = 4 + int(r.below(12));
    for (int i = 0; i < tries; ++i) {
      if (r.below(3) == 0) s.ops.push_back({"clean", {}});
      const int k = 1 + int(r.below(3));
      for (int j = 0; j < k; ++j) {
        Op d = dmg::gen(r);
        d.name = form == 4 || (form == 3 && r.below(3) == 0) ? "odmg" : "idmg";
        s.ops.push_back(d);
      }
      const int u = 1 + int(r.below(3));
      for (int j = 0; j < u; ++j) s.ops.push_back({"use", {int64_t(r.below(12)), int64_t(r.below(1u << 20))}});
      s.ops.push_back({"clean", {}});
    }
  }
}
namespace {
struct Ex {  // exact-size heap copy
  std::unique_ptr<uint8_t[]> p;
  size_t n;
  explicit Ex(const Bytes& b) : p(new uint8_t[b.size()]), n(b.size()) { if (n) memcpy(p.get(), b.data(), n); }
};
Bytes recompress(const Bytes& b, size_t he, int comp) {  // chunks as they are -> compressed chunks, header option replaced
  std::vector<ChunkSpan> sp;
  if (he < 13 || !splitChunks(b, he, sp)) return b;
  std::string h(b.begin(), b.begin() + he);
  const size_t q = h.find("NONE");
  if (q == std::string::npos) return b;
  h.replace(q, 4, comp == 1 ? "LZ4" : "ZSTD");
  Bytes out(h.begin(), h.end());
  for (auto& c : sp) {
    const size_t n = c.end - c.begin - 4;
    Bytes t(comp == 1 ? size_t(LZ4_compressBound(int(n))) : ZSTD_compressBound(n));
    const size_t k = comp == 1 ? size_t(LZ4_compress_default((const char*)b.data() + c.begin + 4, (char*)t.data(), int(n), int(t.size())))
                               : ZSTD_compress(t.data(), t.size(), b.data() + c.begin + 4, n, 1);
    const uint32_t kk = uint32_t(k);
    const uint8_t* kp = reinterpret_cast<const uint8_t*>(&kk);
    out.insert(out.end(), kp, kp + 4);
    out.insert(out.end(), t.begin(), t.begin() + k);
  }
  return out;
}
}  // namespace
static void exec(const Scenario& s) {
  const uint64_t cap_before = g_alloc_cap;
  g_alloc_cap = 4u << 20;
  int form = 0, recomp = 0;
  Bytes stream, prev;  // intact stream
  rosmsg::Msg msg;
  EncodingInfo info;
  Layout lay;
  size_t header = 0;
  std::vector<Op> damage;
  PointcloudDecoder shared;
  std::vector<uint8_t> reused;
  for (auto& op : s.ops) {
    if (op.name == "msg") {
      prev = stream;
      damage.clear();
      form = int(op.u(0) % 5);
      lay = makeLayout(op.u(1), op.u(2));
      const size_t n = size_t(std::min<int64_t>(std::max<int64_t>(1, op.arg(4)), int64_t(chunkPoints()) * 5));
      uint32_t w, h;
      dims(n, op.u(2), w, h);
      info = makeInfo(lay, op.u(3), w, h);
      recomp = int(op.u(6) % 3);
      if (recomp) info.compression_opt = CompressionOption::NONE;
      if (form == 2) { info.version = 3; }
      const Bytes cloud = makeCloud(lay, n, op.u(5), info.encoding_opt == EncodingOptions::LOSSY);
      if (form == 4) {
        msg = rosmsg::make(lay, cloud, n, op.u(5), true);
        stream.clear();
        continue;
      }
      PointcloudEncoder e(info);
      if (form == 1) {
        stream.clear();
        EncodeHeader(info, stream, HeaderEncoding::BINARY);
        header = stream.size();
        Bytes body(MaxCompressedSize(info, n, false));
        BufferView v(body.data(), body.size());
        const size_t k = e.encode(ConstBufferView(cloud.data(), cloud.size()), v, false);
        stream.insert(stream.end(), body.begin(), body.begin() + k);
      } else {
        stream.clear();
        e.encode(ConstBufferView(cloud.data(), cloud.size()), stream);
        header = e.getHeader().size();
        if (form == 2) {  // version 2: one chunk without a length prefix
          std::vector<ChunkSpan> sp;
          if (splitChunks(stream, header, sp) && !sp.empty()) {
            stream.resize(sp[0].end);
            stream.erase(stream.begin() + header, stream.begin() + header + 4);
          }
          stream[11] = '2';
        }
      }
      if (form == 3) msg = rosmsg::make(lay, {}, n, op.u(5), true);
      if (n > chunkPoints()) SIM_PROBE("several chunks");
      continue;
    }
    if (op.name == "clean") { damage.clear(); continue; }
    if (op.name == "idmg" || op.name == "odmg") { damage.push_back(op); continue; }
    if (op.name != "use" || (stream.empty() && form != 4)) continue;
    // ------------------------------------------------------------ the bytes as delivered
    Bytes b = stream;
    bool changed = false;
    if (form != 4)
      for (auto& d : damage)
        if (d.name == "idmg") {
          const bool c = dmg::applyOp(b, d, 0, form == 1 ? header : dmg::headerEnd(b), &prev);
          changed |= c;
          if (c) countFault(F_NET_CORRUPT);
        }
    if (recomp && form != 2 && form != 4) b = recompress(b, dmg::headerEnd(b), recomp);
    if (form >= 3) {
      rosmsg::Msg m = msg;
      if (form == 3) m.data = b;
      b = rosmsg::write(m, form == 3);
      for (auto& d : damage)
        if (d.name == "odmg") {
          const bool c = dmg::applyOp(b, d, 0, (d.u(3) & 8) ? 0 : b.size() - std::min(b.size(), m.data.size() + 200), &prev);
          changed |= c;
          if (c) countFault((d.u(0) % dmg::kKinds) == 3 ? F_NET_TRUNC : F_NET_CORRUPT);
        }
    }
    if (changed) markNontrivial();
    const int how = int(op.u(0) % 12);
    const uint64_t a = op.u(1);
    const Ex x(b);
    bool threw = false, std_exc = true;
    size_t result = 0;
    const uint64_t w0 = workNow();
    auto limit = [&](uint64_t sizes, size_t nf) { workLimit(w0 + 5000000 + 300 * sizes * (1 + nf)); };
    limit(x.n, 4);
    try {
      ConstBufferView v(x.p.get(), x.n);
      if (form >= 3) {
        const cloudini_ros::RosPointCloud2 pc0 = cloudini_ros::getDeserializedPointCloudMessage(v);
        auto pc = pc0;
        if (form == 3 && how < 6) {
          const uint64_t out = std::min<uint64_t>(uint64_t(pc.width) * pc.height * pc.point_step, g_alloc_cap);
          limit(x.n + out, pc.fields.size() + 40);
          if (a & 1) cloudini_ros::convertCompressedCloudToPointCloud2(pc, reused);
          else { std::vector<uint8_t> o; cloudini_ros::convertCompressedCloudToPointCloud2(pc, o); }
          result = 1;
        } else if (how < 9 && form == 4) {
          auto ei = cloudini_ros::toEncodingInfo(pc);
          ei.compression_opt = static_cast<CompressionOption>(a % 3);
          ei.encoding_opt = static_cast<EncodingOptions>((a / 3) % 3);
          ei.use_threads = false;
          for (auto& f : ei.fields)
            if (f.type == FieldType::FLOAT32) f.resolution = 0.001f;
          limit(x.n + 60000, ei.fields.size());
          std::vector<uint8_t> o;
          cloudini_ros::convertPointCloud2ToCompressedCloud(pc, ei, (a & 64) ? reused : o);
          result = 2;
        } else {
          for (auto& f : pc.fields)
            if (f.type == FieldType::FLOAT32) f.resolution = 0.05f;
          limit(x.n + 60000, pc.fields.size());
          cloudini_ros::applyVizLossyPreprocessing(pc);
          result = 3 + pc.width;
        }
      } else if (how == 11) {
        const std::string text(reinterpret_cast<const char*>(x.p.get()) + std::min<size_t>(13, x.n), x.n - std::min<size_t>(13, x.n));
        const std::string exact(text.c_str());
        std::unique_ptr<char[]> t(new char[exact.size()]);
        memcpy(t.get(), exact.data(), exact.size());
        result = EncodingInfoFromYAML(std::string_view(t.get(), exact.size())).fields.size();
      } else {
        EncodingInfo hi = DecodeHeader(v);
        if (how == 9) {  // the subscriber kept the header of the intact stream
          hi = info;
          if (recomp) hi.compression_opt = recomp == 1 ? CompressionOption::LZ4 : CompressionOption::ZSTD;
          if (form == 2) hi.version = 2;
        }
        if (how == 8)
          for (size_t i = 0; i < hi.fields.size(); ++i)
            if ((a >> (i % 16)) & 1) hi.fields[i].offset = kDecodeButSkipStore;
        const __uint128_t full = __uint128_t(hi.width) * hi.height * hi.point_step;
        const uint64_t declared = full > (1u << 20) ? (1u << 20) : uint64_t(full);
        PointcloudDecoder fresh;
        PointcloudDecoder& d = (a & 32) ? shared : fresh;
        if (how <= 2) {
          limit(x.n + std::min<uint64_t>(uint64_t(full), g_alloc_cap), hi.fields.size());
          std::vector<uint8_t> o;
          auto& ov = (a & 64) ? reused : o;
          d.decode(hi, v, ov);
          result = ov.size();
        } else {
          size_t outn = declared;
          if (how == 6) outn = declared ? a % declared : 0;
          if (how == 7) outn = a % 4000;
          if (how == 10) outn = declared + hi.point_step % 4096;
          limit(x.n + outn, hi.fields.size());
          std::unique_ptr<uint8_t[]> o(new uint8_t[outn]);
          d.decode(hi, v, BufferView(o.get(), outn));
          result = outn;
        }
      }
    } catch (const std::exception&) {
      threw = true;
    } catch (...) {
      threw = true;
      std_exc = false;
    }
    workLimit(0);
    g_sh->work_max = std::max(g_sh->work_max, workNow() - w0);
    countEval();
    sim::log("use", uint64_t(how) * 16 + form, threw ? ~0ull : result);
    if (!std_exc) violation("odd-exception", "decoding threw something that is not a std::exception");
    if (!threw && changed) SIM_PROBE("damaged bytes decoded without a complaint");
    if (threw && !changed && form != 4 && (how <= 2 || how == 9) && form < 3) SIM_PROBE("intact rejected");
  }
  g_alloc_cap = cap_before;
}
static void setup() { chunkPoints(); }
const Prop kProp = {"C07", gen, exec, setup,
  "streams and messages (12 layout families, all settings, wire versions 2-5, text/binary headers, raw and compressed ROS messages) under 18 kinds of damage applied in combination to header, payload, under-compression stage or message, handed to 12 entry points in exact-size buffers with fresh and reused decoders; non-trivial: bytes really changed; distinct by event-log hash"};
