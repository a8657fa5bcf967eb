// A writer appends encoded clouds to a store; the writer crashes, the store loses, repeats or appends chunks. Every
// incomplete or over-long stream must be rejected by every reader.
#include <memory>
#include "../common/session.hpp"
using namespace sim;
using namespace cl;
using namespace Cloudini;
// cloud kind seed cfg n cloudSeed hdr      store an encoded cloud (hdr 0 text, 1 binary header)
// crash a mode     write cut short: mode 0 at byte a, 1 at chunk boundary a (+-2), 2 every byte (small streams)
// lose a           chunk a lost          rep a    chunk a repeated at the end
// app n seed       n extra bytes at the end
// reader how       how the following streams are read (0 vector, 1 exact view, 2 larger view, 3 reused decoder + vector)
static void gen(Rng& r, Scenario& s) {
  session::genSched(r, s, haveShadow());
  s.sched.step_cap = 400000000;
  const bool real = chunkPoints() > 1000;
  int64_t kind, seed, cfg;
  session::genLayoutArgs(r, kind, seed, cfg, false);
  if (r.below(3) == 0) { static const int k5[] = {2, 4, 5, 7, 9, 10, 11}; kind = k5[r.below(7)]; cfg = int64_t(cfgOf(1, int(r.below(3)), 5, int(r.below(2)))); }
  int64_t n = r.below(4) == 0 ? r.range(1, 12) : std::max<int64_t>(1, session::genPoints(r, real ? 2 : 5));
  s.ops.push_back({"cloud", {kind, seed, cfg, n, int64_t(r.below(1u << 30)), int64_t(r.below(5) == 0)}});
  const int k = real ? 3 : 2 + int(r.below(6));
  for (int i = 0; i < k; ++i) {
    if (r.below(3) == 0) s.ops.push_back({"reader", {int64_t(r.below(4))}});
    switch (r.below(8)) {
      case 0: s.ops.push_back({"crash", {int64_t(r.below(1u << 24)), 0}}); break;
      case 1: case 2: s.ops.push_back({"crash", {int64_t(r.below(64)), 1, r.range(-2, 2)}}); break;
      case 3: if (!real) s.ops.push_back({"crash", {0, 2}}); break;
      case 4: s.ops.push_back({"lose", {int64_t(r.below(16))}}); break;
      case 5: s.ops.push_back({"rep", {int64_t(r.below(16))}}); break;
      default: s.ops.push_back({"app", {r.below(3) == 0 ? r.range(1, 200) : r.range(1, 9), int64_t(r.below(1u << 20))}}); break;
    }
  }
}
static void exec(const Scenario& s) {
  EncodingInfo info;
  Bytes stream;
  size_t header = 0, size = 0;
  int how = 0;
  PointcloudDecoder shared;
  std::vector<ChunkSpan> spans;
  std::string what;
  auto expectReject = [&](const Bytes& b, const std::string& fault) {
    Bytes exact(b);  // exact-size heap buffer
    exact.shrink_to_fit();
    bool threw = false;
    bool std_exc = true;
    try {
      ConstBufferView v(exact.data(), exact.size());
      const EncodingInfo hi = DecodeHeader(v);
      if (how == 0 || how == 3) {
        std::vector<uint8_t> out;
        if (how == 0) {
          PointcloudDecoder d;
          d.decode(hi, v, out);
        } else {
          shared.decode(hi, v, out);
        }
      } else {
        Bytes out(size + (how == 2 ? 4096 : 0));
        PointcloudDecoder d;
        d.decode(hi, v, BufferView(out.data(), out.size()));
      }
    } catch (const std::exception&) {
      threw = true;
    } catch (...) {
      threw = true;
      std_exc = false;
    }
    countEval();
    sim::log("reject", threw, b.size());
    if (!std_exc) violation("odd-exception", "decoding threw something that is not a std::exception");
    if (!threw) violation("accepted", fault + " was decoded as if it were complete; " + what);
  };
  for (auto& op : s.ops) {
    if (op.name == "cloud") {
      const Layout l = makeLayout(op.u(0), op.u(1));
      const size_t n = size_t(std::min<int64_t>(std::max<int64_t>(1, op.arg(3)), int64_t(chunkPoints()) * 6));
      uint32_t w, h;
      dims(n, op.u(1), w, h);
      info = makeInfo(l, op.u(2), w, h);
      const Bytes cloud = makeCloud(l, n, op.u(4), info.encoding_opt == EncodingOptions::LOSSY);
      size = cloud.size();
      PointcloudEncoder e(info);
      if (op.arg(5)) {
        EncodeHeader(info, stream, HeaderEncoding::BINARY);
        header = stream.size();
        Bytes body(MaxCompressedSize(info, n, false));
        BufferView v(body.data(), body.size());
        const size_t k = e.encode(ConstBufferView(cloud.data(), cloud.size()), v, false);
        stream.insert(stream.end(), body.begin(), body.begin() + k);
      } else {
        e.encode(ConstBufferView(cloud.data(), cloud.size()), stream);
        header = e.getHeader().size();
      }
      what = std::to_string(n) + " points, " + std::to_string(stream.size()) + " bytes, header " + std::to_string(header) + (op.arg(5) ? " (binary) " : " ") + describe(info);
      spans.clear();
      if (!splitChunks(stream, header, spans)) violation("malformed-stream", "the encoded stream is not a sequence of length-prefixed chunks; " + what);
      // the complete stream must be accepted, otherwise rejecting the others means nothing
      try {
        ConstBufferView v(stream.data(), stream.size());
        const EncodingInfo hi = DecodeHeader(v);
        std::vector<uint8_t> out;
        shared.decode(hi, v, out);
      } catch (const std::exception& e2) {
        violation("complete-rejected", std::string("the complete stream is rejected: ") + e2.what() + "; " + what);
      }
      logBytes("stored", stream.data(), stream.size());
      if (spans.size() > 1) markNontrivial();
      continue;
    }
    if (op.name == "reader") {
      how = int(op.u(0) & 3);
      continue;
    }
    if (stream.empty()) continue;
    if (op.name == "crash") {
      if (op.arg(1) == 2 && stream.size() <= 6000) {
        SIM_PROBE("every prefix of a stream tried");
        for (size_t c = 0; c < stream.size(); ++c) {
          countFault(F_STORE_CRASH);
          expectReject(Bytes(stream.begin(), stream.begin() + c), "a stream cut at byte " + std::to_string(c));
        }
        continue;
      }
      size_t c = op.u(0) % stream.size();
      if (op.arg(1) == 1) {
        const size_t k = op.u(0) % (spans.size() + 1);
        const int64_t base = int64_t(k == spans.size() ? stream.size() - 1 : spans[k].begin) + op.arg(2);
        c = size_t(std::min<int64_t>(std::max<int64_t>(0, base), int64_t(stream.size()) - 1));
        if (op.arg(2) == 0) SIM_PROBE("cut exactly at a chunk boundary");
      }
      countFault(F_STORE_CRASH);
      expectReject(Bytes(stream.begin(), stream.begin() + c), "a stream cut at byte " + std::to_string(c));
    } else if (op.name == "lose") {
      const ChunkSpan c = spans[op.u(0) % spans.size()];
      Bytes b(stream.begin(), stream.begin() + c.begin);
      b.insert(b.end(), stream.begin() + c.end, stream.end());
      countFault(F_CHUNK_LOSS);
      if (spans.size() > 1 && c.end != stream.size()) SIM_PROBE("inner chunk lost");
      expectReject(b, "a stream that lost chunk " + std::to_string(op.u(0) % spans.size()) + " of " + std::to_string(spans.size()));
    } else if (op.name == "rep") {
      const ChunkSpan c = spans[op.u(0) % spans.size()];
      Bytes b(stream);
      b.insert(b.end(), stream.begin() + c.begin, stream.begin() + c.end);
      countFault(F_CHUNK_DUP);
      expectReject(b, "a stream with chunk " + std::to_string(op.u(0) % spans.size()) + " repeated at its end");
    } else if (op.name == "app") {
      Bytes b(stream);
      Rng r(op.u(1));
      const int style = int(r.below(3));
      for (int64_t i = 0; i < std::min<int64_t>(std::max<int64_t>(1, op.arg(0)), 4096); ++i) b.push_back(style == 0 ? 0 : style == 1 ? uint8_t(r.next()) : stream[size_t(i) % stream.size()]);
      countFault(F_APPEND);
      expectReject(b, "a stream with " + std::to_string(b.size() - stream.size()) + " extra bytes");
    }
  }
}
static void setup() { chunkPoints(); }
const Prop kProp = {"C08", gen, exec, setup,
  "stored streams of non-empty clouds (12 layout families x encoding x compression x wire version 3-5, text and binary header) cut at random bytes, at chunk boundaries or at every byte, losing or repeating chunks or gaining bytes; non-trivial: stream of several chunks; distinct by event-log hash"};
