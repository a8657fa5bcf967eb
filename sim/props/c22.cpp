// Long-lived objects of every kind handle the same traffic again and again, intact, damaged and with failing calls:
// memory and threads in use at rest must reach a level and stay there, and everything is given back at the end.
#include <map>
#include <memory>
#include "../common/damage.hpp"
#include "../common/rosmsg.hpp"
#include "../common/session.hpp"
#include <pcl/PCLPointCloud2.h>
#include "cloudini_lib/pcl_conversion.hpp"
#include "cloudini_lib/ros_msg_utils.hpp"
#include "cloudini_lib/wasm_functions.h"
#include "cloudini_plugin/cloudini_publisher_plugin.hpp"
#include "cloudini_plugin/cloudini_subscriber_plugin.hpp"
#include "cloudini_ros/cloudini_subscriber_pcl.hpp"
#include "cloudini_ros/conversion_utils.hpp"
using namespace sim;
using namespace cl;
using namespace Cloudini;
std::shared_ptr<rclcpp::Node> rosstub_make_CloudiniPointcloudConverter(const rclcpp::NodeOptions&);
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
// obj o kind lkind lseed cfg res w  a long-lived object; its receiver keeps up to 2^w clouds
// mode vary                         stamps, frames and field names differ in every pass (never together with damage)
// item o n seed lkind lseed cfg     a cloud it will handle in every pass
// dmg o k a c d                     modifier of the next item of o
// afault o at once / pfault o type at len    modifier: an allocation / compressor, decompressor or thread start fails
constexpr int kKinds = 14, kObjs = 4, kRounds = 32;
static const char* const kName[kKinds] = {"PointcloudEncoder", "PointcloudDecoder", "message compressor", "message decompressor", "publisher plugin", "SerializeCompressedPointCloud2",
  "compressing topic converter", "subscriber plugin", "PCL subscriber", "decompressing topic converter", "voxel preprocessing", "header functions", "C functions", "PCL conversion"};
static void gen(Rng& r, Scenario& s) {
  const bool sh = haveShadow();
  session::genSched(r, s, sh);
  s.sched.step_cap = sh ? 60000000 : 4000000000ull;
  const bool vary = r.below(2);
  s.ops.push_back({"mode", {vary}});
  const int objs = r.below(4) ? 1 : 2;
  for (int o = 0; o < objs; ++o) {
    int64_t kind, seed, cfg;
    session::genLayoutArgs(r, kind, seed, cfg, r.below(2));
    s.ops.push_back({"obj", {o, int64_t(r.below(kKinds)), kind, seed, cfg, int64_t(r.below(5)), int64_t(r.below(5))}});
    for (int i = 1 + int(r.below(3)); i > 0; --i) {
      if (!vary && r.below(3) == 0) {
        Op d = dmg::gen(r);
        d.a.insert(d.a.begin(), o);
        s.ops.push_back(d);
      }
      if (r.below(4) == 0) s.ops.push_back({"afault", {o, r.below(2) ? r.range(0, 12) : r.range(0, 120), int64_t(r.below(3) > 0)}});
      if (r.below(4) == 0) s.ops.push_back({"pfault", {o, int64_t(r.below(3)), r.range(0, 2), r.range(1, 2), int64_t(r.below(2))}});
      if (r.below(3) == 0) session::genLayoutArgs(r, kind, seed, cfg, r.below(2));
      s.ops.push_back({"item", {o, r.below(20) == 0 ? session::genPoints(r, 2) : r.range(0, 40), int64_t(r.below(1u << 30)), kind, seed, cfg}});
    }
  }
}
namespace {
using sensor_msgs::msg::PointCloud2;
using point_cloud_interfaces::msg::CompressedPointCloud2;
static const float kRes[] = {0.001f, 0.002f, 0.01f, 0.0005f, 0.02f};
template <class T>
void toTyped(const rosmsg::Msg& m, T& o) {
  o.header.stamp.sec = m.sec;
  o.header.stamp.nanosec = m.nsec;
  o.header.frame_id = m.frame;
  o.height = m.height;
  o.width = m.width;
  for (auto& f : m.fields) {
    sensor_msgs::msg::PointField p;
    p.name = f.name;
    p.offset = f.offset;
    p.datatype = f.type;
    p.count = f.count;
    o.fields.push_back(p);
  }
  o.is_bigendian = m.is_bigendian;
  o.point_step = m.point_step;
  o.row_step = m.row_step;
  o.is_dense = m.is_dense;
}
struct Variant {  // what arrives in one round; prepared in advance
  Bytes cloud, wire, stream;
  EncodingInfo info;
  PointCloud2 raw;
  CompressedPointCloud2::SharedPtr comp;
  std::shared_ptr<rclcpp::SerializedMessage> ser;
  pcl::PCLPointCloud2 pc;
};
struct Item {
  const Op* op;
  std::vector<const Op*> mods;
  std::vector<std::unique_ptr<Variant>> v;
};
std::shared_ptr<rclcpp::SerializedMessage> serialized(const Bytes& b) {
  auto msg = std::make_shared<rclcpp::SerializedMessage>(b.size());
  if (!b.empty()) memcpy(msg->get_rcl_serialized_message().buffer, b.data(), b.size());
  msg->get_rcl_serialized_message().buffer_length = b.size();
  return msg;
}
struct Obj {  // exactly what an application would keep
  int kind;
  EncodingInfo info;
  float res = 0.001f;
  std::unique_ptr<PointcloudEncoder> enc;
  std::unique_ptr<PointcloudDecoder> dec;
  Bytes out;
  std::unique_ptr<cloudini_point_cloud_transport::CloudiniPublisher> pub;
  std::unique_ptr<cloudini_point_cloud_transport::CloudiniSubscriber> sub;
  std::shared_ptr<rclcpp::Node> node;
  std::unique_ptr<cloudini_ros::CloudiniSubscriberPCL> pclsub;
  std::shared_ptr<rclcpp::GenericSubscription> subscription;
  std::shared_ptr<rclcpp::GenericPublisher> publisher;
  // what was delivered is kept for a while, then dropped at once
  PointCloud2::ConstSharedPtr kept[16];
  pcl::PCLPointCloud2::Ptr keptp[16];
  uint64_t window = 1, used = 0;
  pcl::PCLPointCloud2 pc;
  std::string text;
  uint64_t got = 0;
};
std::unique_ptr<Obj> make(const Op& op) {
  auto x = std::make_unique<Obj>();
  Obj* p = x.get();
  x->kind = int(op.u(1) % kKinds);
  x->res = kRes[op.u(5) % 5];
  x->window = 1u << op.u(6) % 5;  // divides the number of rounds: as many are held at every comparison
  switch (x->kind) {
    case 0:
      x->info = makeInfo(makeLayout(op.u(2), op.u(3)), op.u(4), 1, 1);
      x->enc = std::make_unique<PointcloudEncoder>(x->info);
      break;
    case 1: x->dec = std::make_unique<PointcloudDecoder>(); break;
    case 4:
      x->pub = std::make_unique<cloudini_point_cloud_transport::CloudiniPublisher>();
      x->pub->params["cloudini_resolution"] = double(x->res);
      x->pub->declareParameters("points");
      break;
    case 6:
    case 9: {
      rclcpp::NodeOptions o;
      if (x->kind == 6) o.parameter_overrides({rclcpp::Parameter("resolution", double(x->res))});
      else o.parameter_overrides({rclcpp::Parameter("compressing", false), rclcpp::Parameter("topic_input", std::string("/points")), rclcpp::Parameter("log_compression_stats", op.u(5) % 2 == 0)});
      x->node = rosstub_make_CloudiniPointcloudConverter(o);
      x->subscription = x->node->subs.back().lock();
      x->publisher = x->node->pubs.back().lock();
      x->publisher->sink = [p](const rclcpp::SerializedMessage&) { p->got++; };
      break;
    }
    case 7: x->sub = std::make_unique<cloudini_point_cloud_transport::CloudiniSubscriber>(); break;
    case 8:
      x->node = std::make_shared<rclcpp::Node>("pcl");
      x->pclsub = std::make_unique<cloudini_ros::CloudiniSubscriberPCL>(x->node, "/points", [p](const pcl::PCLPointCloud2::Ptr& c) {
        p->got++;
        p->keptp[p->used++] = c;
        if (p->used == p->window) for (; p->used; --p->used) p->keptp[p->used - 1].reset();
      });
      x->subscription = x->node->subs.back().lock();
      break;
    default: break;
  }
  return x;
}
void feed(Obj& x, const Variant& v) {
  switch (x.kind) {
    case 0:
      x.enc->encode(ConstBufferView(v.cloud.data(), v.cloud.size()), x.out);
      x.got++;
      break;
    case 1: {
      ConstBufferView in(v.stream.data(), v.stream.size());
      const EncodingInfo i = DecodeHeader(in);
      if (uint64_t(i.width) * i.height > (1u << 20)) return;
      x.dec->decode(i, in, x.out);
      x.got++;
      break;
    }
    case 2: {
      auto m = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(v.wire.data(), v.wire.size()));
      cloudini_ros::applyResolutionProfile({}, m.fields, x.res);
      cloudini_ros::convertPointCloud2ToCompressedCloud(m, cloudini_ros::toEncodingInfo(m), x.out);
      x.got++;
      break;
    }
    case 3:
      cloudini_ros::convertCompressedCloudToPointCloud2(cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(v.wire.data(), v.wire.size())), x.out);
      x.got++;
      break;
    case 4: x.pub->publish(v.raw, [&](const CompressedPointCloud2&) { x.got++; }); break;
    case 5: SerializeCompressedPointCloud2(v.raw, x.res, x.out); x.got++; break;
    case 6:
    case 8:
    case 9: x.subscription->callback(v.ser); break;
    case 7:
      x.sub->callback(v.comp, [&](const PointCloud2::ConstSharedPtr& c) {
        x.got++;
        x.kept[x.used++] = c;
        if (x.used == x.window) for (; x.used; --x.used) x.kept[x.used - 1].reset();
      });
      break;
    case 10: {
      auto m = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(v.wire.data(), v.wire.size()));
      cloudini_ros::applyResolutionProfile({}, m.fields, x.res);
      cloudini_ros::applyVizLossyPreprocessing(m);
      x.got++;
      break;
    }
    case 11: {
      ConstBufferView in(v.stream.data(), v.stream.size());
      const EncodingInfo i = DecodeHeader(in);
      x.text = EncodingInfoToYAML(i);
      EncodeHeader(EncodingInfoFromYAML(x.text), x.out, HeaderEncoding::BINARY);
      if (v.comp) ReadEncodingInfo(*v.comp);
      x.got++;
      break;
    }
    case 12: {
      const auto in = reinterpret_cast<uintptr_t>(v.wire.data());
      const uint32_t n = uint32_t(v.wire.size());
      const uint32_t k = cldn_GetDecompressedSize(in, n);
      if (k > (4u << 20)) return;
      x.out.resize(std::max<size_t>(k + v.wire.size() + 4096, 1 << 16));
      const auto out = reinterpret_cast<uintptr_t>(x.out.data());
      if (v.wire.size() < 30000) x.got += cldn_GetHeaderAsYAMLFromDDS(in, n, out);
      x.got += cldn_DecodeCompressedMessage(in, n, out) > 0;
      x.got += cldn_ConvertCompressedMsgToPointCloud2Msg(in, n, out) > 0;
      break;
    }
    default: {
      PCLPointCloudEncode(v.pc, x.out, double(x.res));
      PCLPointCloudDecode(ConstBufferView(x.out.data(), x.out.size()), x.pc);
      if (!v.stream.empty()) PCLPointCloudDecode(ConstBufferView(v.stream.data(), v.stream.size()), x.pc);
      x.got++;
    }
  }
}
bool wantsRaw(int kind) { return kind == 2 || kind == 6 || kind == 10; }
void prepare(const Obj& x, Item& it, int rounds, bool vary) {
  const Op& op = *it.op;
  Layout lay = makeLayout(op.u(3), op.u(4));
  size_t n = size_t(std::min<int64_t>(std::max<int64_t>(0, op.arg(1)), int64_t(chunkPoints()) * 2));
  Bytes cloud;
  if (x.kind == 0) {
    cloud = makeCloud(Layout{x.info.fields, x.info.point_step}, n, op.u(2), x.info.encoding_opt == EncodingOptions::LOSSY);
  } else {
    for (auto& f : lay.fields) f.resolution = f.type == FieldType::FLOAT32 ? std::optional<float>(x.res) : std::nullopt;
    cloud = makeCloud(lay, n, op.u(2), true);
  }
  for (int k = 0; k < rounds; ++k) {
    auto v = std::make_unique<Variant>();
    v->cloud = cloud;
    if (x.kind != 0) {
      const uint64_t salt = vary ? uint64_t(k) : 0;
      rosmsg::Msg m = rosmsg::make(lay, cloud, n, op.u(2), false);
      m.is_bigendian = false;
      char t[16];
      snprintf(t, sizeof t, "_%03d", int(salt));
      m.frame += t;
      m.sec = int32_t(1000 + salt);
      Layout named = lay;
      for (size_t f = 0; f < m.fields.size(); ++f) {
        if (x.kind == 10 && f < 3) continue;
        named.fields[f].name += t;
        m.fields[f].name += t;
      }
      uint64_t cfg = op.u(5);
      if (x.kind != 1 && x.kind != 11 && x.kind != 13) cfg = cfgOf(1, 2, 5, 0);
      v->info = makeInfo(named, cfg, m.width, m.height);
      rosmsg::Msg c = m;
      c.data.clear();
      if (!cloud.empty() || x.kind == 1 || x.kind == 11 || x.kind == 13) c.data = encodeFresh(v->info, cloud);
      c.format = "cloudini";
      if (x.kind == 13) {
        v->pc.height = m.height;
        v->pc.width = m.width;
        v->pc.point_step = m.point_step;
        v->pc.row_step = m.row_step;
        for (auto& f : m.fields) {
          pcl::PCLPointField g;
          g.name = f.name;
          g.offset = f.offset;
          g.datatype = f.type;
          g.count = f.count;
          v->pc.fields.push_back(g);
        }
        v->pc.data = cloud;
      }
      v->stream = c.data;
      for (auto* d : it.mods)
        if (d->name == "dmg" && dmg::applyOp(v->stream, *d, 1, (d->u(4) & 8) ? 0 : dmg::headerEnd(v->stream), nullptr)) countFault(F_NET_CORRUPT);
      toTyped(m, v->raw);
      v->raw.data = cloud;
      v->comp = std::make_shared<CompressedPointCloud2>();
      toTyped(c, *v->comp);
      v->comp->compressed_data = v->stream;
      v->comp->format = c.format;
      if (wantsRaw(x.kind)) v->wire = rosmsg::write(m, false);
      else {
        c.data = v->stream;
        v->wire = rosmsg::write(c, true);
      }
      for (auto* d : it.mods)
        if (d->name == "dmg" && (d->u(3) & 1) && dmg::applyOp(v->wire, *d, 1, 0, nullptr)) countFault(F_NET_CORRUPT);
      v->ser = serialized(v->wire);
    }
    it.v.push_back(std::move(v));
  }
}
uint64_t g_handled, g_failed;
void handle(Obj& x, Item& it, int round) {
  const Variant& v = *it.v[size_t(round) % it.v.size()];
  const Op *af = nullptr, *pf = nullptr;
  for (auto* m : it.mods) {
    if (m->name == "afault") af = m;
    if (m->name == "pfault") pf = m;
  }
  resetCallPlans();
  if (pf) {
    CallPlan& p = pf->u(1) % 3 == 0 ? g_plan_compress : pf->u(1) % 3 == 1 ? g_plan_decompress : g_plan_thread;
    p.at = int64_t(pf->u(1) % 3 == 0 ? g_n_compress : pf->u(1) % 3 == 1 ? g_n_decompress : g_n_thread) + pf->arg(2);
    p.len = pf->arg(3);
    p.mode = int(pf->u(4) & 1);
  }
  allocArm(af ? std::max<int64_t>(0, af->arg(1)) : -1, af ? af->arg(2) & 1 : true);
  bool threw = false;
  try {
    feed(x, v);
  } catch (const std::exception&) {
    threw = true;
  }
  allocArm(-1, true);
  resetCallPlans();
  threw ? g_failed++ : g_handled++;
}
struct Level {
  uint64_t bytes, blocks, heap;
  int threads;
};
Level level() {
  Level l;
  const AllocStats st = allocStats();
  l.bytes = st.live_bytes;
  l.blocks = st.live_blocks;
  l.heap = __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0;
  l.threads = liveThreads();
  return l;
}
template <class F>
bool rises(const Level* l, int n, F f) {
  for (int i = 1; i < n; ++i)
    if (f(l[i]) <= f(l[i - 1])) return false;
  return true;
}
void judge(const Level* l, int n, const char* when, const std::string& what) {
  countEval();
  if (rises(l, n, [](const Level& x) { return uint64_t(x.threads); })) violation("threads-grow", std::string("the number of threads grows ") + when + ": " + what);
  const uint64_t d = l[n - 1].bytes - l[n - 2].bytes;
  if (rises(l, n, [](const Level& x) { return x.bytes; })) violation("memory-grows", std::string("memory in use at rest grows ") + when + ", lastly by " + std::to_string(d) + " bytes: " + what);
  if (rises(l, n, [](const Level& x) { return x.heap; })) violation("heap-grows", std::string("heap in use at rest grows ") + when + ", lastly by " + std::to_string(l[n - 1].heap - l[n - 2].heap) + " bytes: " + what);
}
}  // namespace
static void exec(const Scenario& sc) {
  const uint64_t cap_before = g_alloc_cap;
  g_alloc_cap = 8u << 20;
  g_handled = g_failed = 0;
  bool vary = false;
  std::map<int, const Op*> objs;
  std::map<int, std::vector<Item>> items;
  std::map<int, std::vector<const Op*>> mods;
  for (auto& op : sc.ops) {
    if (op.name == "mode") { vary = op.u(0) & 1; continue; }
    const int o = int(op.u(0) % kObjs);
    if (op.name == "obj") objs[o] = &op;
    else if (op.name == "item") {
      items[o].push_back({&op, mods[o], {}});
      mods[o].clear();
    } else mods[o].push_back(&op);
  }
  for (auto& [o, v] : mods)
    for (auto* m : v)
      if (m->name == "dmg") vary = false;
  for (auto& [o, v] : items)
    for (auto& it : v)
      for (auto* m : it.mods)
        if (m->name == "dmg") vary = false;
  std::string what;
  for (auto& [o, op] : objs) {
    const auto x = make(*op);
    for (auto& it : items[o]) prepare(*x, it, vary ? kRounds : 1, vary);
    what += std::string(what.empty() ? "" : ", ") + kName[x->kind];
  }
  if (vary) SIM_PROBE("stamps, frames and field names differ in every round");
  const auto life = [&](int rounds, Level* at) {
    std::map<int, std::unique_ptr<Obj>> live;
    {
      AllocPause pause;
      for (auto& [o, op] : objs) live[o];
    }
    for (auto& [o, op] : objs) live[o] = make(*op);
    int next = 2, k = 0;
    for (int p = 1; p <= rounds; ++p) {
      for (auto& [o, x] : live)
        for (auto& it : items[o]) handle(*x, it, p - 1);
      if (at && p == next) {
        at[k++] = level();
        next *= 2;
      }
      if (liveThreads() > int(live.size())) violation("threads", std::to_string(liveThreads()) + " background threads at rest for " + std::to_string(live.size()) + " objects: " + what);
    }
    for (auto& [o, x] : live) x.reset();
    AllocPause pause;
    live.clear();
  };
  allocArm(-1, true);
  Level l[8];
  life(kRounds, l);
  judge(l, 5, "with the number of messages handled", what);
  for (int i = 0; i < 5; ++i) {
    life(i == 4 ? 2 : 1, nullptr);
    l[i] = level();
    if (l[i].threads) violation("thread-left", "a thread is still running after the objects are gone: " + what);
  }
  judge(l, 5, "with the number of objects created and destroyed", what);
  allocDisarm();
  sim::log("level", l[4].bytes, l[4].blocks);
  sim::log("handled", g_handled, g_failed);
  if (g_handled > 60) markNontrivial();
  if (g_failed) SIM_PROBE("messages refused in every round");
  g_alloc_cap = cap_before;
}
static void setup() { chunkPoints(); }
const Prop kProp = {"C22", gen, exec, setup,
  "1-2 long-lived objects of 14 kinds handle the same 1-3 clouds in 32 rounds (intact, damaged, with failing allocations, compressors, decompressors and thread starts; stamps, frames and field names may differ in every round), then five short lifetimes; "
  "live operator-new bytes, live heap bytes (AddressSanitizer builds) and threads at rest must not grow from each doubling of the number of rounds to the next, nor with every lifetime; non-trivial: more than 60 messages handled; distinct by event-log hash"};
