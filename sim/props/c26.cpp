// PCL users convert clouds with objects and buffers they keep: what comes back is the whole cloud or an exception.
#include <pcl/PCLPointCloud2.h>
#include <pcl/point_cloud.h>
#include <pcl/point_types.h>

#include <cmath>
#include <deque>
#include <memory>
#include <thread>

#include "../common/damage.hpp"
#include "../common/session.hpp"
#include "cloudini_lib/pcl_conversion.hpp"
using namespace sim;
using namespace cl;
using namespace Cloudini;
// enc2 t kind seed n cseed res twist   PCLPointCloudEncode of a PCLPointCloud2
// encx t n cseed res twist intensity   PointcloudEncode of a PointCloud<PointXYZ> or <PointXYZI>
// made t kind seed n cseed cfg names   a message of another producer (any settings; names: which field bears which name of the point types)
// dec  t what src reuse                decode a stored message: what 0 PCLPointCloud2, 1 PointXYZ, 2 PointXYZI; reuse: into the cloud of the previous use
// dmg  t kind a c d                    damage to the message of the next dec
// fault t at from                      the at-th allocation of the next conversion fails (from: and all later ones)
static const double kRes[] = {0.001, 0.01, 0.05, 0.25, 1.0, 0.0};
static void gen(Rng& r, Scenario& s) {
  const bool sh = haveShadow();
  session::genSched(r, s, sh);
  s.sched.step_cap = sh ? 60000000 : 600000000;
  const bool real = chunkPoints() > 1000;
  const int actors = r.below(4) == 0 ? 2 : 1;
  for (int t = 0; t < actors; ++t) {
    const int m = real ? 4 : 6 + int(r.below(10));
    for (int i = 0; i < m; ++i) {
      if (r.below(7) == 0) s.ops.push_back({"fault", {t, int64_t(r.below(24)), int64_t(r.below(2))}});
      const int64_t n = r.below(3) == 0 ? r.range(0, 9) : session::genPoints(r, real ? 1 : 3);
      int64_t kind, seed, cfg;
      session::genLayoutArgs(r, kind, seed, cfg, false);
      const int64_t cs = int64_t(r.below(1u << 30)), res = int64_t(r.below(6));
      const int64_t twist = r.below(3) ? 0 : r.range(1, 7);
      switch (i == 0 ? r.below(4) : r.below(9)) {
        case 0: case 1: s.ops.push_back({"enc2", {t, kind, seed, n, cs, res, twist}}); break;
        case 2: s.ops.push_back({"encx", {t, n, cs, int64_t(r.below(5)), twist, int64_t(r.below(2))}}); break;
        case 3: s.ops.push_back({"made", {t, kind, seed, n, cs, cfg, r.below(3) ? 0 : r.range(1, 63)}}); break;
        default:
          if (r.below(4) == 0) {
            const Op d = dmg::gen(r);
            s.ops.push_back({"dmg", {t, d.a[0], d.a[1], d.a[2], d.a[3]}});
          }
          s.ops.push_back({"dec", {t, int64_t(r.below(3)), int64_t(r.below(4)), int64_t(r.below(4) != 0)}});
      }
    }
  }
}
namespace {
struct Stored {
  Bytes bytes, cloud;
  EncodingInfo info;
  std::string what;
};
struct Actor {
  std::vector<const Op*> ops;
  std::vector<uint8_t> out;
  std::unique_ptr<pcl::PCLPointCloud2> c2;
  std::unique_ptr<pcl::PointCloud<pcl::PointXYZ>> cx;
  std::unique_ptr<pcl::PointCloud<pcl::PointXYZI>> ci;
  std::deque<Stored> store;
  const Op* dmg = nullptr;
  const Op* fault = nullptr;
};
struct Call {
  bool threw = false, fired = false;
  std::string err;
};
template <class F>
Call guarded(Actor& a, bool single, F f) {
  Call c;
  const bool arm = a.fault && single;
  if (arm) allocArm(std::max<int64_t>(0, a.fault->arg(1)), a.fault->arg(2) == 0);
  try {
    f();
  } catch (const std::exception& e) {
    AllocPause ap;
    c.threw = true;
    c.err = e.what();
  }
  if (arm) {
    c.fired = allocFired() != 0;
    allocDisarm();
  }
  a.fault = nullptr;
  return c;
}
// what the stream must give back, decoded with a fresh decoder of its own layout
void checkStream(Actor& a, const EncodingInfo& want, const Bytes& cloud, size_t ret, const std::string& what) {
  if (ret != a.out.size()) violation("size", "the returned size " + std::to_string(ret) + " is not the size of the buffer " + std::to_string(a.out.size()) + ": " + what);
  Stored st;
  st.bytes = a.out;
  st.cloud = cloud;
  st.what = what;
  try {
    ConstBufferView v(st.bytes.data(), st.bytes.size());
    st.info = DecodeHeader(v);
    std::vector<uint8_t> dec;
    PointcloudDecoder d;
    d.decode(st.info, v, dec);
    if (st.info.width != want.width || st.info.height != want.height || st.info.point_step != want.point_step || st.info.fields.size() != want.fields.size())
      violation("header", "the stream announces another cloud: " + what + " became " + describe(st.info));
    for (size_t i = 0; i < want.fields.size(); ++i) {
      const auto &f = st.info.fields[i], &g = want.fields[i];
      if (f.name != g.name || f.offset != g.offset || f.type != g.type) violation("header", "field " + g.name + " changed: " + what);
    }
    std::string why;
    if (!matches(want, cloud, dec.data(), dec.size(), why)) violation("values", why + ": " + what);
  } catch (const std::exception& e) {
    violation("undecodable", std::string("encoding succeeded but the stream can not be decoded (") + e.what() + "): " + what);
  }
  logBytes("stream", st.bytes.data(), st.bytes.size());
  a.store.push_back(std::move(st));
  if (a.store.size() > 4) a.store.pop_front();
}
void encode2(Actor& a, const Op& op, bool single) {
  const Layout l = makeLayout(op.u(1), op.u(2));
  const size_t n = size_t(std::min<int64_t>(std::max<int64_t>(0, op.arg(3)), int64_t(chunkPoints()) * 3));
  uint32_t w, h;
  dims(n, op.u(2), w, h);
  const Bytes cloud = makeCloud(l, n, op.u(4), true);
  // the values are those of another resolution: take a coarser one where they would leave the documented domain
  double most = 0;
  for (auto& f : l.fields)
    if (f.type == FieldType::FLOAT32)
      for (size_t i = 0; i < n; ++i) {
        float v;
        memcpy(&v, cloud.data() + i * l.step + f.offset, 4);
        if (std::isfinite(v)) most = std::max(most, std::fabs(double(v)));
      }
  double res = kRes[op.u(5) % 6];
  for (double finer : {0.01, 0.05, 0.25, 1.0, 0.0})
    if (res > 0 && most / res > double(1 << 27)) res = finer > res || finer == 0 ? finer : res;
  EncodingInfo want = makeInfo(l, cfgOf(1, 2, 5, 1), w, h);
  bool has64 = false;
  for (auto& f : want.fields) {
    f.resolution.reset();
    if (f.type == FieldType::FLOAT32 && res > 0) f.resolution = float(res);
    has64 = has64 || f.type == FieldType::INT64 || f.type == FieldType::UINT64;
  }
  pcl::PCLPointCloud2 c;
  c.width = w;
  c.height = h;
  c.point_step = l.step;
  c.row_step = l.step * w;
  c.is_bigendian = 0;
  c.is_dense = 0;
  c.data.assign(cloud.begin(), cloud.end());
  for (auto& f : l.fields) {
    pcl::PCLPointField p;
    p.name = f.name;
    p.offset = f.offset;
    p.datatype = uint8_t(f.type);
    p.count = 1;
    c.fields.push_back(p);
  }
  bool bad = false;
  const char* twist = "";
  switch (op.u(6) & 7) {
    case 1: c.width++; bad = true; twist = ", one column more than data"; if (h == 0) bad = false; break;
    case 2: if (n) { c.width--; bad = true; twist = ", one column less than data"; } break;
    case 3: if (n) { c.data.insert(c.data.end(), c.data.begin(), c.data.begin() + l.step); bad = true; twist = ", a point beyond the dimensions"; } break;
    case 4:
      if (h > 1 && n) {
        c.row_step += l.step;
        std::vector<uint8_t> d;
        for (uint32_t y = 0; y < h; ++y) {
          d.insert(d.end(), cloud.begin() + size_t(y) * w * l.step, cloud.begin() + size_t(y + 1) * w * l.step);
          d.resize(d.size() + l.step, 0xEE);
        }
        c.data.assign(d.begin(), d.end());
        bad = true;
        twist = ", rows with padding";
      }
      break;
    case 5: if (n && l.step > 1) { c.data.pop_back(); bad = true; twist = ", the last point incomplete"; } break;
    case 6: if (n) { c.width = c.height = 0; bad = true; twist = ", dimensions zero"; } break;
    case 7: if (n) { c.fields.back().offset = l.step - uint32_t(SizeOf(l.fields.back().type)) + 1; bad = true; twist = ", a field beyond the point"; } break;
    default: break;
  }
  const std::string what = "PCLPointCloud2 of " + std::to_string(n) + " points, resolution " + std::to_string(res) + twist + " " + describe(want);
  size_t ret = 0;
  const Call k = guarded(a, single, [&] { ret = PCLPointCloudEncode(c, a.out, res); });
  sim::log("enc2", n, k.threw);
  countEval();
  if (k.threw) {
    if (!bad && !has64 && !k.fired) violation("encode-fails", k.err + ": " + what);
    if (bad && !k.fired) SIM_PROBE("inconsistent cloud refused");
    return;
  }
  if (bad) violation("inconsistent-accepted", "encoding returned " + std::to_string(ret) + " bytes for a cloud whose data do not match its description: " + what);
  if (n > chunkPoints()) markNontrivial();
  checkStream(a, want, cloud, ret, what);
}
template <class P>
void encodeTyped(Actor& a, const Op& op, bool single, bool intensity) {
  const size_t n = size_t(std::min<int64_t>(std::max<int64_t>(0, op.arg(1)), int64_t(chunkPoints()) * 3));
  uint32_t w, h;
  dims(n, op.u(2), w, h);
  const double res = kRes[op.u(3) % 5];
  pcl::PointCloud<P> c;
  c.points.resize(n);
  c.width = w;
  c.height = h;
  Rng r(op.u(2));
  const double span = double(1 << (4 + r.below(14))) * res;
  for (size_t i = 0; i < n; ++i) {
    float v[4];
    for (auto& x : v) x = r.below(40) == 0 ? NAN : r.below(3) ? float((double(r.below(1u << 20)) / (1 << 20) - 0.5) * span) : float(double(i) * res);
    c.points[i].x = v[0];
    c.points[i].y = v[1];
    c.points[i].z = v[2];
    if constexpr (std::is_same_v<P, pcl::PointXYZI>) c.points[i].intensity = v[3];
  }
  Bytes cloud(n * sizeof(P));
  if (n) memcpy(cloud.data(), c.points.data(), cloud.size());
  EncodingInfo want;
  want.width = w;
  want.height = h;
  want.point_step = sizeof(P);
  want.encoding_opt = EncodingOptions::LOSSY;
  want.fields = {{"x", 0, FieldType::FLOAT32, float(res)}, {"y", 4, FieldType::FLOAT32, float(res)}, {"z", 8, FieldType::FLOAT32, float(res)}};
  if (intensity) want.fields.push_back({"intensity", 16, FieldType::FLOAT32, std::nullopt});
  bool bad = false;
  const char* twist = "";
  switch (op.u(4) & 7) {
    case 1: if (n) { c.width++; bad = true; twist = ", width not updated"; } break;
    case 2: if (n) { c.width--; bad = true; twist = ", points added behind the width"; } break;
    case 3: if (n) { c.points.pop_back(); bad = true; twist = ", points removed but not from the width"; } break;
    case 4: if (n) { c.width = c.height = 0; bad = true; twist = ", dimensions zero"; } break;
    default: break;
  }
  const std::string what = std::string(intensity ? "PointXYZI" : "PointXYZ") + " cloud of " + std::to_string(n) + " points, resolution " + std::to_string(res) + twist;
  size_t ret = 0;
  const Call k = guarded(a, single, [&] { ret = PointcloudEncode(c, a.out, res); });
  sim::log("encx", n, k.threw);
  countEval();
  if (k.threw) {
    if (!bad && !k.fired) violation("encode-fails", k.err + ": " + what);
    if (bad && !k.fired) SIM_PROBE("inconsistent cloud refused");
    return;
  }
  if (bad) violation("inconsistent-accepted", "encoding returned " + std::to_string(ret) + " bytes for a cloud whose dimensions do not match its points: " + what);
  if (n > chunkPoints()) markNontrivial();
  checkStream(a, want, cloud, ret, what);
}
struct Seen {  // what a decoding left in the cloud
  bool threw = false;
  uint32_t w = 0, h = 0;
  size_t n = 0;
  Bytes data;  // the stored fields only, point by point
};
uint32_t sizeOf(uint8_t type) {
  static const uint32_t k[] = {0, 1, 1, 2, 2, 4, 4, 4, 8, 8, 8};
  return type < 11 ? k[type] : 0;
}
void see(const pcl::PCLPointCloud2& c, const EncodingInfo& hi, Seen& s) {
  s.w = c.width;
  s.h = c.height;
  s.n = c.data.size();
  const size_t np = c.point_step ? c.data.size() / c.point_step : 0;
  for (size_t i = 0; i < np; ++i)
    for (auto& f : hi.fields) {
      const uint32_t z = sizeOf(uint8_t(f.type));
      if (uint64_t(f.offset) + z > c.point_step) continue;
      s.data.insert(s.data.end(), c.data.begin() + i * c.point_step + f.offset, c.data.begin() + i * c.point_step + f.offset + z);
    }
}
template <class P>
void see(const pcl::PointCloud<P>& c, const EncodingInfo& hi, Seen& s) {
  s.w = c.width;
  s.h = c.height;
  s.n = c.points.size();
  for (auto& p : c.points) {
    auto put = [&](const char* name, float v) {
      for (auto& f : hi.fields)
        if (f.name == name) {
          const size_t z = s.data.size();
          s.data.resize(z + 4);
          memcpy(s.data.data() + z, &v, 4);
          return;
        }
    };
    put("x", p.x);
    put("y", p.y);
    put("z", p.z);
    if constexpr (std::is_same_v<P, pcl::PointXYZI>) put("intensity", p.intensity);
  }
}
template <class C>
void runDecode(const Bytes& b, C& c) {
  if constexpr (std::is_same_v<C, pcl::PCLPointCloud2>) PCLPointCloudDecode(ConstBufferView(b.data(), b.size()), c);
  else PointcloudDecode(ConstBufferView(b.data(), b.size()), c);
}
template <class C>
void decodeInto(Actor& a, std::unique_ptr<C>& slot, const Op& op, const Stored& st, bool single, bool intensity) {
  constexpr bool typed = !std::is_same_v<C, pcl::PCLPointCloud2>;
  Bytes b(st.bytes);
  bool intact = true;
  if (a.dmg) {
    const Bytes* other = a.store.size() > 1 ? &a.store.front().bytes : nullptr;
    if (dmg::applyOp(b, *a.dmg, 1, dmg::headerEnd(b), other)) {
      countFault(F_NET_CORRUPT);
      intact = false;
    }
    a.dmg = nullptr;
  }
  b.shrink_to_fit();
  const std::string what = std::string(typed ? intensity ? "PointXYZI" : "PointXYZ" : "PCLPointCloud2") + " from " + (intact ? "" : "a damaged message of ") + st.what;
  EncodingInfo hi;
  try {
    ConstBufferView v(b.data(), b.size());
    hi = DecodeHeader(v);
    if (__uint128_t(hi.width) * hi.height * std::max<uint32_t>(hi.point_step, 32) > (8u << 20)) {  // memory of the announced size is legitimate
      a.fault = nullptr;
      return;
    }
  } catch (const std::exception&) {
  }
  Seen fresh, used;
  {
    AllocPause ap;
    C c;
    try {
      runDecode(b, c);
      see(c, hi, fresh);
    } catch (const std::exception&) {
      fresh.threw = true;
    }
  }
  if (!op.arg(3) || !slot) slot = std::make_unique<C>();
  else SIM_PROBE("decoded into a cloud that was used before");
  const Call k = guarded(a, single, [&] { runDecode(b, *slot); });
  sim::log("dec", b.size(), k.threw);
  countEval();
  if (k.fired && k.threw) {
    SIM_PROBE("allocation failure reported");
    return;
  }
  if (k.threw != fresh.threw) violation("outcome-differs", std::string(k.threw ? "rejected (" + k.err + ") but accepted" : "accepted but rejected") + " when decoded into a new cloud: " + what);
  bool mismatch = false;
  if (typed)
    for (auto& f : hi.fields)
      if ((f.name == "x" || f.name == "y" || f.name == "z" || (intensity && f.name == "intensity")) && f.type != FieldType::FLOAT32) mismatch = true;
  if (k.threw) {
    if (intact && !mismatch) violation("decode-fails", k.err + ": " + what);
    SIM_PROBE("rejected");
    return;
  }
  if (mismatch) violation("type-mismatch", "a field of another type was stored in a typed point: " + what);
  see(*slot, hi, used);
  if (used.w != hi.width || used.h != hi.height) violation("dimensions", "the cloud has other dimensions than its message: " + what);
  if (used.n != fresh.n || used.data != fresh.data) violation("history", "the cloud depends on what was decoded into it before: " + what);
  if constexpr (typed) {
    if (used.n != size_t(hi.width) * hi.height) violation("dimensions", "the cloud has " + std::to_string(used.n) + " points: " + what);
    for (auto& p : slot->points) {
      float pad;
      memcpy(&pad, p.data + 3, 4);
      if (pad != 1.0f) violation("padding", "the fourth coordinate of a point was overwritten: " + what);
    }
  } else {
    if (slot->point_step != hi.point_step || slot->row_step != hi.point_step * hi.width || slot->is_bigendian) violation("metadata", "wrong step or endianness: " + what);
    if (used.n != size_t(hi.point_step) * hi.width * hi.height) violation("dimensions", "wrong size of the data: " + what);
    if (slot->fields.size() != hi.fields.size()) violation("metadata", "wrong number of fields: " + what);
    for (size_t i = 0; i < hi.fields.size(); ++i) {
      const auto& f = slot->fields[i];
      if (f.name != hi.fields[i].name || f.offset != hi.fields[i].offset || f.datatype != uint8_t(hi.fields[i].type) || f.count != 1) violation("metadata", "wrong description of field " + f.name + ": " + what);
    }
  }
  logBytes("decoded", used.data.data(), used.data.size());
  if (!intact) {
    SIM_PROBE("damaged message accepted like by a new cloud");
    return;
  }
  // the values are those of the original cloud
  if constexpr (!typed) {
    std::string why;
    if (!matches(st.info, st.cloud, slot->data.data(), slot->data.size(), why)) violation("values", why + ": " + what);
  } else {
    const size_t np = size_t(hi.width) * hi.height;
    size_t shared = 0;
    for (auto& f : hi.fields) {
      int off = f.name == "x" ? 0 : f.name == "y" ? 4 : f.name == "z" ? 8 : intensity && f.name == "intensity" ? 16 : -1;
      if (off < 0) continue;
      shared++;
      // compare as a cloud of this single field
      EncodingInfo one = st.info;
      one.fields = {f};
      one.fields[0].offset = 0;
      one.point_step = 4;
      Bytes x(np * 4), y(np * 4);
      for (size_t i = 0; i < np; ++i) {
        memcpy(x.data() + i * 4, st.cloud.data() + i * st.info.point_step + f.offset, 4);
        memcpy(y.data() + i * 4, reinterpret_cast<const uint8_t*>(&slot->points[i]) + off, 4);
      }
      std::string why;
      if (!matches(one, x, y.data(), y.size(), why)) violation("values", why + ": " + what);
    }
    if (shared && shared < hi.fields.size()) SIM_PROBE("fields of the message without place in the point skipped");
  }
}
void act(Actor& a, bool single) {
  for (const Op* op : a.ops) {
    if (op->name == "dmg") a.dmg = op;
    else if (op->name == "fault") a.fault = op;
    else if (op->name == "enc2") encode2(a, *op, single);
    else if (op->name == "encx") {
      if (op->arg(5)) encodeTyped<pcl::PointXYZI>(a, *op, single, true);
      else encodeTyped<pcl::PointXYZ>(a, *op, single, false);
    } else if (op->name == "made") {
      Layout l = makeLayout(op->u(1), op->u(2));
      if (op->u(6)) {
        static const char* const kNames[] = {"x", "y", "z", "intensity"};
        const std::string name = kNames[op->u(6) & 3];
        auto& f = l.fields[(op->u(6) >> 2) % l.fields.size()];
        for (auto& g : l.fields)
          if (g.name == name) g.name = f.name;
        f.name = name;
      }
      const size_t n = size_t(std::min<int64_t>(std::max<int64_t>(0, op->arg(3)), int64_t(chunkPoints()) * 3));
      uint32_t w, h;
      dims(n, op->u(2), w, h);
      Stored st;
      st.info = makeInfo(l, op->u(5), w, h);
      st.cloud = makeCloud(l, n, op->u(4), st.info.encoding_opt == EncodingOptions::LOSSY);
      st.bytes = encodeFresh(st.info, st.cloud);
      st.what = std::to_string(n) + " points " + describe(st.info);
      a.store.push_back(std::move(st));
      if (a.store.size() > 4) a.store.pop_front();
    } else if (op->name == "dec" && !a.store.empty()) {
      const Stored st = a.store[op->u(2) % a.store.size()];
      switch (op->u(1) % 3) {
        case 0: decodeInto(a, a.c2, *op, st, single, false); break;
        case 1: decodeInto(a, a.cx, *op, st, single, false); break;
        default: decodeInto(a, a.ci, *op, st, single, true); break;
      }
    }
  }
}
}  // namespace
static void exec(const Scenario& s) {
  std::map<int64_t, Actor> actors;
  for (auto& op : s.ops) actors[op.arg(0) & 3].ops.push_back(&op);
  if (actors.size() == 1) {
    act(actors.begin()->second, true);
  } else {
    SIM_PROBE("several threads with clouds of their own");
    std::vector<std::thread> ts;
    for (auto& [t, a] : actors) {
      auto* p = &a;
      ts.emplace_back([p] { act(*p, false); });
    }
    for (auto& x : ts) x.join();
  }
  actors.clear();
  if (liveThreads() > 1) violation("thread-leak", "a worker thread is left when every conversion has ended");
}
static void setup() { chunkPoints(); }
const Prop kProp = {"C26", gen, exec, setup,
  "histories of PCL conversions (PCLPointCloud2, PointXYZ, PointXYZI) with kept clouds and buffers, inconsistent clouds, messages of other producers, damaged messages and failing allocations on 1-2 threads; non-trivial: an encoded cloud of several chunks; distinct by event-log hash"};
