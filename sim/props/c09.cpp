// Streams of PointCloud2 messages through both converters, with reused output buffers, concurrent converters, messages
// that cannot be converted and injected faults in between; every output is parsed by an independent strict reader.
#include <map>
#include <thread>
#include "../common/rosmsg.hpp"
#include "../common/session.hpp"
#include "cloudini_lib/ros_msg_utils.hpp"
using namespace sim;
using namespace cl;
using namespace Cloudini;
// msg t kind seed cfg n mseed mode    one message; mode: 1 reused buffers, 2 garbage in the buffers first, 4 held back before
//                                     the way back, 8 delivered twice, 16 the message object is copied and moved first,
//                                     32 resolutions through a profile, 64 long field names
// bad t bk kind seed cfg n mseed      a message that cannot be converted (bk: what is wrong)
// flush t order                       held-back messages of the thread are converted back in that order
// fault t type at                     next msg of a single-threaded run: 0 one allocation 1 allocations from there 2 compressor 3 thread start 4 decompressor
static void gen(Rng& r, Scenario& s) {
  const bool sh = haveShadow();
  session::genSched(r, s, sh);
  s.sched.step_cap = sh ? 40000000 : 800000000;
  const bool real = chunkPoints() > 1000;
  const int threads = r.below(3) == 0 ? 2 + int(r.below(2)) : 1;
  for (int t = 0; t < threads; ++t) {
    const int m = real ? 3 : 3 + int(r.below(10));
    for (int i = 0; i < m; ++i) {
      int64_t kind, seed, cfg;
      session::genLayoutArgs(r, kind, seed, cfg, false);
      const int64_t n = r.below(3) == 0 ? r.range(0, 6) : session::genPoints(r, real ? 2 : 4);
      if (r.below(5) == 0) {
        s.ops.push_back({"bad", {t, int64_t(r.below(10)), kind, seed, cfg, n, int64_t(r.below(1u << 30))}});
        continue;
      }
      if (threads == 1 && r.below(6) == 0) {
        const int64_t type = int64_t(r.below(5));
        s.ops.push_back({"fault", {t, type, type < 2 ? r.range(0, 60) : r.range(0, 3)}});
      }
      s.ops.push_back({"msg", {t, kind, seed, cfg, n, int64_t(r.below(1u << 30)), int64_t(r.below(128))}});
      if (r.below(5) == 0) s.ops.push_back({"flush", {t, int64_t(r.below(1000))}});
    }
    s.ops.push_back({"flush", {t, int64_t(r.below(1000))}});
  }
}
namespace {
struct Held {
  rosmsg::Msg m;
  Bytes compressed;
  int copies = 1;
  std::string what;
};
struct Th {
  std::vector<const Op*> ops;
  std::map<const Op*, const Op*> fault;
  std::vector<Held> held;
  std::vector<uint8_t> cbuf, rbuf;
};
void garbage(std::vector<uint8_t>& v, uint64_t seed) {
  Rng r(seed);
  v.assign(r.below(20000), uint8_t(r.next()));
}
rosmsg::Msg original(const Op& o, size_t at, Layout& lay, EncodingInfo& info, uint64_t mode) {
  lay = makeLayout(o.u(at), o.u(at + 1));
  if (mode & 64) {
    Rng r(o.u(at + 4));
    for (auto& f : lay.fields) f.name += std::string(r.below(5) ? r.below(9) : r.below(300), 'a');
  }
  const size_t n = size_t(std::min<int64_t>(std::max<int64_t>(0, o.arg(at + 3)), int64_t(chunkPoints()) * 5));
  rosmsg::Msg m = rosmsg::make(lay, {}, n, o.u(at + 4), true);
  if (n == 0 && o.u(at + 4) % 3 == 1) {
    m.width = 0;
    m.height = 7;
  }
  info = makeInfo(lay, o.u(at + 2), m.width, m.height);
  m.data = makeCloud(lay, n, o.u(at + 4), info.encoding_opt == EncodingOptions::LOSSY);
  return m;
}
// the settings a user would derive from the message itself
EncodingInfo settings(cloudini_ros::RosPointCloud2& pc, const Layout& lay, const EncodingInfo& want, bool profile) {
  if (profile) {
    cloudini_ros::ResolutionProfile p;
    for (auto& f : lay.fields)
      if (f.resolution) p[f.name] = *f.resolution;
    cloudini_ros::applyResolutionProfile(p, pc.fields, std::nullopt);
  }
  EncodingInfo ei = cloudini_ros::toEncodingInfo(pc);
  ei.encoding_opt = want.encoding_opt;
  ei.compression_opt = want.compression_opt;
  ei.version = want.version;
  ei.use_threads = want.use_threads;
  if (!profile)
    for (size_t i = 0; i < ei.fields.size() && i < lay.fields.size(); ++i) ei.fields[i].resolution = lay.fields[i].resolution;
  return ei;
}
void checkMsg(const rosmsg::Msg& m, const std::vector<uint8_t>& b, bool compressed, const std::string& what) {
  countEval();
  rosmsg::Msg g;
  std::string why;
  const std::string where = compressed ? "compressed message: " : "restored message: ";
  if (!rosmsg::read(b, g, compressed, why)) violation("malformed", where + why + "; " + what);
  if (!rosmsg::sameMeta(m, g, why)) violation("metadata", where + why + "; got " + rosmsg::describe(g) + " for " + what);
  if (g.row_step != g.point_step * g.width) violation("metadata", where + "row_step is " + std::to_string(g.row_step) + "; " + what);
  const uint64_t full = uint64_t(m.width) * m.height * m.point_step;
  if (compressed) {
    if (g.format != "cloudini") violation("metadata", where + "format is '" + g.format.substr(0, 40) + "'; " + what);
  } else if (g.data.size() != full) {
    violation("data-size", where + "data has " + std::to_string(g.data.size()) + " bytes instead of " + std::to_string(full) + "; " + what);
  }
}
void back(Th& th, Held& h, bool reuse, uint64_t g) {
  for (int k = 0; k < h.copies; ++k) {
    std::vector<uint8_t> fresh;
    auto& out = reuse ? th.rbuf : fresh;
    if (g & 2) garbage(out, g);
    try {
      const Bytes in = h.compressed;
      const auto pc = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(in.data(), in.size()));
      cloudini_ros::convertCompressedCloudToPointCloud2(pc, out);
    } catch (const std::exception& e) {
      violation("not-converted", std::string("restoring a message failed: ") + e.what() + "; " + h.what);
    }
    checkMsg(h.m, out, false, h.what);
    sim::logBytes("back", out.data(), out.size());
  }
}
void doMsg(Th& th, const Op& o, bool single) {
  const uint64_t mode = o.u(6);
  Layout lay;
  EncodingInfo want;
  Held h;
  h.m = original(o, 1, lay, want, mode);
  h.what = rosmsg::describe(h.m) + " mode " + std::to_string(mode) + " " + describe(want);
  const Bytes raw = rosmsg::write(h.m, false);
  auto f = th.fault.find(&o);
  const Op* flt = single && f != th.fault.end() ? f->second : nullptr;
  for (int attempt = flt ? 0 : 1; attempt < 2; ++attempt) {
    std::vector<uint8_t> fresh;
    auto& out = mode & 1 ? th.cbuf : fresh;
    if (mode & 2) garbage(out, o.u(5));
    resetCallPlans();
    int type = -1;
    uint64_t before = 0;
    static const int kKind[] = {F_ALLOC, F_ALLOC, F_COMPRESS, F_THREAD_CREATE, F_DECOMPRESS};
    if (attempt == 0) {
      type = int(flt->u(1) % 5);
      before = g_sh->fault[kKind[type]];
      const int64_t at = std::max<int64_t>(0, flt->arg(2));
      if (type == 2) g_plan_compress.at = at;
      if (type == 3) g_plan_thread.at = at;
      if (type == 4) g_plan_decompress.at = at;
      if (type < 2) allocArm(at, type == 0);
    }
    bool threw = false;
    std::string err;
    std::vector<uint8_t> rest;
    try {
      auto pc = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(raw.data(), raw.size()));
      if (mode & 16) {
        cloudini_ros::RosPointCloud2 copy = pc, other;
        other = std::move(pc);
        pc = std::move(copy);
        pc = other;
      }
      const EncodingInfo ei = settings(pc, lay, want, mode & 32);
      cloudini_ros::convertPointCloud2ToCompressedCloud(pc, ei, out);
      if (type == 4) {
        const auto c = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(out.data(), out.size()));
        cloudini_ros::convertCompressedCloudToPointCloud2(c, rest);
      }
    } catch (const std::exception& e) {
      threw = true;
      err = e.what();
    }
    const bool fired = attempt == 0 && (type < 2 ? allocFired() != 0 : g_sh->fault[kKind[type]] != before);
    if (attempt == 0 && type < 2) allocDisarm();
    resetCallPlans();
    sim::log("conv", threw, fired);
    if (threw) {
      if (!fired) violation("not-converted", "compressing a message failed: " + err + "; " + h.what);
      SIM_PROBE("conversion failed by an injected fault, then repeated");
      continue;
    }
    if (fired && type >= 2) violation("fault-swallowed", "a compressor, decompressor or thread failure was not reported; " + h.what);
    checkMsg(h.m, out, true, h.what);
    sim::logBytes("out", out.data(), out.size());
    h.compressed = out;
    break;
  }
  if (h.compressed.empty()) internalError("repeated conversion missing");
  if (mode & 8) {
    countFault(F_NET_DUP);
    h.copies = 2;
  }
  if (mode & 4) {
    countFault(F_NET_DELAY);
    th.held.push_back(std::move(h));
  } else {
    back(th, h, mode & 1, o.u(5));
  }
}
void doBad(Th& th, const Op& o) {
  Layout lay;
  EncodingInfo want;
  rosmsg::Msg m = original(o, 2, lay, want, 0);
  const size_t n = m.point_step ? m.data.size() / m.point_step : 0;
  const int bk = int(o.u(1) % 10);
  Rng r(o.u(6));
  Bytes in;
  bool compressed = bk >= 5;
  if (!compressed) {
    switch (bk) {
      case 1:  // data does not match the dimensions
        if (r.below(2) || n == 0) m.data.insert(m.data.end(), size_t(r.range(1, 2 * m.point_step)), 7);
        else m.data.resize(m.data.size() - size_t(r.range(1, int64_t(m.data.size()))));
        break;
      case 2:  // a field outside the point
        if (n == 0) return;
        m.fields[r.below(m.fields.size())].offset = r.below(2) ? m.point_step : uint32_t(r.next()) | 0x80000000u;
        break;
      case 3:  // an unknown field type
        if (n == 0) return;
        m.fields[r.below(m.fields.size())].type = r.below(2) ? 0 : uint8_t(r.range(11, 255));
        break;
      case 4:
        if (n == 0) return;
        if (r.below(2)) m.point_step = 0;
        else {
          m.width = 0x10000u * uint32_t(r.range(1, 100));
          m.height = 0x10000u;
        }
        break;
      default: break;
    }
    in = rosmsg::write(m, false);
    if (bk == 0) in.resize(r.below(4) ? r.below(in.size()) : in.size() - 1);
  } else {
    if (n == 0) return;
    EncodingInfo i2 = want;
    i2.use_threads = false;
    i2.width = m.width;
    i2.height = m.height;
    Bytes payload = encodeFresh(i2, m.data);
    switch (bk) {
      case 5: m.height += uint32_t(r.range(1, 3)); break;  // announced size is not the encoded one
      case 6: payload.resize(r.below(payload.size())); break;
      case 7:
        for (auto& b : payload) b = uint8_t(r.next());
        break;
      case 8: m.point_step += uint32_t(r.range(1, 9)); break;
      default:
        m.width = 0xFFFFFFFFu - uint32_t(r.below(9));
        m.height = 0xFFFFFFFFu - uint32_t(r.below(9));
        break;
    }
    m.data = payload;
    m.format = "cloudini";
    in = rosmsg::write(m, true);
  }
  countFault(bk == 0 || bk == 6 ? F_NET_TRUNC : bk == 7 ? F_NET_CORRUPT : F_BAD_INPUT);
  bool threw = false;
  g_alloc_cap = 64u << 20;
  try {
    auto pc = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(in.data(), in.size()));
    if (compressed) {
      cloudini_ros::convertCompressedCloudToPointCloud2(pc, th.rbuf);
    } else {
      const EncodingInfo ei = settings(pc, lay, want, false);
      cloudini_ros::convertPointCloud2ToCompressedCloud(pc, ei, th.cbuf);
    }
  } catch (const std::exception&) {
    threw = true;
  }
  sim::log("bad", uint64_t(bk), threw);
  countEval();
  static const char* const names[] = {"truncated message", "data not matching the dimensions", "field outside the point", "unknown field type", "dimensions overflow or no point step",
                                      "compressed message announcing another size", "truncated compressed cloud", "garbage instead of a compressed cloud", "another point step announced", "absurd dimensions"};
  if (!threw) violation("bad-accepted", std::string("a message that cannot be converted did not produce an exception: ") + names[bk] + "; " + rosmsg::describe(m) + " " + describe(want));
}
void worker(Th& th, bool single) {
  size_t done = 0;
  for (const Op* o : th.ops) {
    if (o->name == "msg") {
      doMsg(th, *o, single);
      if (++done > 1) markNontrivial();
    } else if (o->name == "bad") {
      doBad(th, *o);
    } else if (o->name == "flush") {
      Rng r(o->u(1));
      while (!th.held.empty()) {
        const size_t k = r.below(th.held.size());
        Held h = std::move(th.held[k]);
        th.held.erase(th.held.begin() + k);
        back(th, h, r.below(2), r.next() & 0xFFFF);
      }
    }
  }
}
}  // namespace
static void exec(const Scenario& s) {
  std::map<int64_t, Th> th;
  std::map<int64_t, const Op*> fl;
  int64_t total = 0;
  for (auto& op : s.ops) {
    const int64_t t = op.arg(0) & 3;
    if (op.name == "fault") {
      fl[t] = &op;
      continue;
    }
    total += std::max<int64_t>(0, op.arg(op.name == "msg" ? 4 : op.name == "bad" ? 5 : 99));
    if (total > int64_t(chunkPoints()) * 60) break;
    if (op.name == "msg" && fl.count(t)) {
      th[t].fault[&op] = fl[t];
      fl.erase(t);
    }
    th[t].ops.push_back(&op);
  }
  if (th.size() <= 1) {
    for (auto& [t, x] : th) worker(x, true);
  } else {
    SIM_PROBE("converters on several threads");
    std::vector<std::thread> ts;
    for (auto& [t, x] : th) {
      Th* p = &x;
      ts.emplace_back([p] { worker(*p, false); });
    }
    for (auto& x : ts) x.join();
  }
  if (liveThreads()) violation("thread-left", "a compression thread is still running after the conversions");
}
static void setup() { chunkPoints(); }
const Prop kProp = {"C09", gen, exec, setup,
  "streams of PointCloud2 messages (12 layout families, empty to several chunks, strings of 0-300 bytes, both byte orders, all settings) to compressed messages and back, delayed, reordered and duplicated in between, on 1-3 threads, with unconvertible messages and injected failures; non-trivial: at least two convertible messages; distinct by event-log hash"};
