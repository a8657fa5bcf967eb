// A distributed system in one process: publishers (transport plugin, serializing helper, compressing converter node) send
// over a network that loses, duplicates, delays and damages; subscriber nodes (transport plugin, PCL subscriber,
// decompressing converter node) receive, each on its own executor thread or all on one.
#include <condition_variable>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <thread>
#include "../common/damage.hpp"
#include "../common/rosmsg.hpp"
#include "../common/session.hpp"
#include "cloudini_plugin/cloudini_publisher_plugin.hpp"
#include "cloudini_plugin/cloudini_subscriber_plugin.hpp"
#include "cloudini_ros/cloudini_subscriber_pcl.hpp"
#include "cloudini_ros/conversion_utils.hpp"
using namespace sim;
using namespace cl;
using namespace Cloudini;
std::shared_ptr<rclcpp::Node> rosstub_make_CloudiniPointcloudConverter(const rclcpp::NodeOptions&);
// node p kind res                   publisher p: 0 plugin, 1 helper, 2 compressing converter
// sub s kind                        subscriber s: 0 plugin, 1 PCL, 2 decompressing converter
// param p res                       the plugin's resolution parameter changes
// pub p kind seed n cseed flags     a cloud. flags: 1 sent by a big-endian machine
// bad p what seed                   modifier of the next pub of p: a raw message that makes no sense
// rdmg p k a c d                    modifier: the raw message is damaged on its way to a converter
// net p fate mask k                 modifier: 0 lost 1 duplicated 2 delayed by k  for the subscribers in mask
// dmg p mask k a c d                modifier: damaged on the way to the subscribers in mask
// typ p mask what seed              modifier: the fields of the deserialized message are damaged
// mute s v                          nobody listens to converter s (v=1) / somebody does again (sequential runs)
// fault s type at                   sequential runs: 0 decompressor 1 thread start 2 compressor fails during the next handler
constexpr int kPubs = 3, kSubs = 3;
static const float kResolutions[] = {0.001f, 0.001f, 0.01f, 0.0005f, 0.02f};
static void gen(Rng& r, Scenario& s) {
  const bool sh = haveShadow();
  session::genSched(r, s, sh);
  s.sched.step_cap = sh ? 60000000 : 1600000000ull;
  const bool threads = r.below(3) == 0;
  s.ops.push_back({"mode", {threads}});
  const int pubs = 1 + int(r.below(threads ? 3 : 2)), subs = 1 + int(r.below(3));
  for (int p = 0; p < pubs; ++p) s.ops.push_back({"node", {p, int64_t(r.below(3)), int64_t(r.below(5))}});
  for (int i = 0; i < subs; ++i) s.ops.push_back({"sub", {i, int64_t(r.below(3))}});
  const int m = threads ? 2 + int(r.below(6)) : 3 + int(r.below(18));
  int64_t kind[kPubs], seed[kPubs], cfg;
  for (int p = 0; p < pubs; ++p) session::genLayoutArgs(r, kind[p], seed[p], cfg, false);
  for (int i = 0; i < m; ++i) {
    const int p = int(r.below(uint64_t(pubs)));
    if (r.below(4) == 0) session::genLayoutArgs(r, kind[p], seed[p], cfg, false);
    const int64_t mask = int64_t(1 + r.below(7));
    if (r.below(12) == 0) s.ops.push_back({"param", {p, int64_t(r.below(5))}});
    if (r.below(10) == 0) s.ops.push_back({"bad", {p, int64_t(r.below(8)), int64_t(r.below(1u << 30))}});
    if (r.below(12) == 0) {
      Op d = dmg::gen(r);
      d.name = "rdmg";
      d.a.insert(d.a.begin(), p);
      s.ops.push_back(d);
    }
    if (r.below(3) == 0) s.ops.push_back({"net", {p, int64_t(r.below(3)), mask, r.range(1, 4)}});
    for (int k = r.below(3) ? 0 : 1 + int(r.below(2)); k > 0; --k) {
      if (r.below(3) == 0) s.ops.push_back({"typ", {p, int64_t(1 + r.below(7)), int64_t(r.below(12)), int64_t(r.below(1u << 30))}});
      else {
        Op d = dmg::gen(r);
        d.a.insert(d.a.begin(), {p, int64_t(1 + r.below(7))});
        s.ops.push_back(d);
      }
    }
    if (!threads && r.below(20) == 0) s.ops.push_back({"mute", {int64_t(r.below(3)), int64_t(r.below(2))}});
    if (!threads && r.below(16) == 0) s.ops.push_back({"fault", {int64_t(r.below(6)), int64_t(r.below(3)), r.range(0, 3)}});
    const int64_t n = r.below(8) == 0 ? session::genPoints(r, 2) : r.range(0, 40);
    s.ops.push_back({"pub", {p, kind[p], seed[p], n, int64_t(r.below(1u << 30)), int64_t(r.below(2))}});
  }
}
namespace {
using sensor_msgs::msg::PointCloud2;
using point_cloud_interfaces::msg::CompressedPointCloud2;
struct Sent {
  rosmsg::Msg meta;  // the raw message; data is the cloud
  EncodingInfo info;
  bool sane = true;  // a well-formed raw message reached the publisher intact
};
struct Receipt {
  std::shared_ptr<Sent> e;
  Bytes wire;
  bool intact = true;
  std::vector<const Op*> typ;
  int after = 0;  // delayed: deliver after so many more
};
std_msgs::msg::Header header(const rosmsg::Msg& m) {
  std_msgs::msg::Header h;
  h.stamp.sec = m.sec;
  h.stamp.nanosec = m.nsec;
  h.frame_id = m.frame;
  return h;
}
template <class T>
void toTyped(const rosmsg::Msg& m, T& o) {
  o.header = header(m);
  o.height = m.height;
  o.width = m.width;
  for (auto& f : m.fields) {
    sensor_msgs::msg::PointField p;
    p.name = f.name;
    p.offset = f.offset;
    p.datatype = f.type;
    p.count = f.count;
    o.fields.push_back(p);
  }
  o.is_bigendian = m.is_bigendian;
  o.point_step = m.point_step;
  o.row_step = m.row_step;
  o.is_dense = m.is_dense;
}
template <class T>
void fromTyped(const T& t, rosmsg::Msg& m) {
  m.sec = t.header.stamp.sec;
  m.nsec = t.header.stamp.nanosec;
  m.frame = t.header.frame_id;
  m.height = t.height;
  m.width = t.width;
  m.fields.clear();
  for (auto& f : t.fields) m.fields.push_back({f.name, f.offset, f.datatype, f.count});
  m.is_bigendian = t.is_bigendian;
  m.point_step = t.point_step;
  m.row_step = t.row_step;
  m.is_dense = t.is_dense;
}
struct SubNode {
  int kind = 0;
  bool muted = false;
  std::unique_ptr<cloudini_point_cloud_transport::CloudiniSubscriber> plugin;
  std::shared_ptr<rclcpp::Node> node;
  std::unique_ptr<cloudini_ros::CloudiniSubscriberPCL> pcl;
  std::shared_ptr<rclcpp::GenericSubscription> subscription;
  std::shared_ptr<rclcpp::GenericPublisher> publisher;
  // the network in front of it
  std::mutex m;
  std::condition_variable cv;
  std::deque<Receipt> queue;
  std::vector<Receipt> delayed;
  bool closed = false;
  // the delivery in progress
  int calls = 0;
  Receipt* cur = nullptr;
  size_t delivered = 0;
  std::deque<std::pair<PointCloud2::ConstSharedPtr, PointCloud2>> kept;  // by the application, and what it was given
};
void checkKept(SubNode& s) {
  std::string why;
  for (auto& [p, was] : s.kept) {
    rosmsg::Msg a, b;
    fromTyped(was, a);
    fromTyped(*p, b);
    if (!rosmsg::sameMeta(a, b, why) || p->data != was.data) violation("changed-later", "a cloud delivered by the subscriber plugin was modified while its receiver still held it");
  }
}
struct PubNode {
  int kind = 0;
  float resolution = 0.001f;
  std::unique_ptr<cloudini_point_cloud_transport::CloudiniPublisher> plugin;
  std::shared_ptr<rclcpp::Node> node;
  std::shared_ptr<rclcpp::GenericSubscription> subscription;
  std::shared_ptr<rclcpp::GenericPublisher> publisher;
  std::vector<uint8_t> buffer;
  std::vector<Bytes> out;
};
struct World {
  bool concurrent = false;
  std::map<int, std::unique_ptr<PubNode>> pubs;
  std::map<int, std::unique_ptr<SubNode>> subs;
  const Op* fault = nullptr;
};
World* W;
const char* const kSubName[] = {"subscriber plugin", "PCL subscriber", "topic converter"};
const char* const kPubName[] = {"publisher plugin", "SerializeCompressedPointCloud2", "compressing topic converter"};
std::string text(const Sent& e, bool intact) { return rosmsg::describe(e.meta) + (e.sane ? "" : " (malformed)") + (intact ? "" : " (damaged)"); }
std::shared_ptr<rclcpp::SerializedMessage> serialized(const Bytes& b) {
  auto msg = std::make_shared<rclcpp::SerializedMessage>(b.size());
  if (!b.empty()) memcpy(msg->get_rcl_serialized_message().buffer, b.data(), b.size());
  msg->get_rcl_serialized_message().buffer_length = b.size();
  return msg;
}
// ---------------------------------------------------------------- deliveries
void onDelivered(SubNode& s, const rosmsg::Msg& got) {
  Receipt& rc = *s.cur;
  const std::string w = std::string(kSubName[s.kind]) + ": " + text(*rc.e, rc.intact);
  countEval();
  if (++s.calls > 1) violation("twice", "one message was delivered twice by the " + w);
  const uint64_t full = uint64_t(got.width) * got.height * got.point_step;
  if (got.data.size() != full)
    violation("inconsistent", "a cloud of " + std::to_string(got.width) + "x" + std::to_string(got.height) + " points of " + std::to_string(got.point_step) + " bytes was delivered with " + std::to_string(got.data.size()) + " bytes by the " + w);
  sim::logBytes("got", got.data.data(), got.data.size());
  if (!rc.intact || !rc.e->sane) return;
  std::string why;
  rosmsg::Msg g = got;
  g.big = rc.e->meta.big;
  if (s.kind == 1) {  // PCL keeps microseconds
    if (uint64_t(int64_t(rc.e->meta.sec) * 1000000 + rc.e->meta.nsec / 1000) != (uint64_t(uint32_t(g.sec)) << 32 | g.nsec)) violation("metadata", "another stamp was delivered by the " + w);
    g.sec = rc.e->meta.sec;
    g.nsec = rc.e->meta.nsec;
  }
  if (!rosmsg::sameMeta(rc.e->meta, g, why)) violation("metadata", why + "; delivered by the " + w);
  if (!matches(rc.e->info, rc.e->meta.data, got.data.data(), got.data.size(), why)) violation("content", why + "; delivered by the " + w);
  s.delivered++;
}
void damageTyped(CompressedPointCloud2& t, const Op& op) {
  Rng r(op.u(3));
  const auto wild = [&](uint32_t v) -> uint32_t {
    switch (r.below(5)) {
      case 0: return v + 1;
      case 1: return v ? v - 1 : 1;
      case 2: return 0;
      case 3: return uint32_t(r.next());
      default: return v ^ (1u << r.below(32));
    }
  };
  switch (op.u(2) % 12) {
    case 0: t.width = wild(t.width); break;
    case 1: t.height = wild(t.height); break;
    case 2: std::swap(t.width, t.height); break;
    case 3: t.point_step = wild(t.point_step); break;
    case 4: if (!t.fields.empty()) t.fields.erase(t.fields.begin() + long(r.below(t.fields.size()))); break;
    case 5: t.fields.push_back(t.fields.empty() ? sensor_msgs::msg::PointField{} : t.fields[r.below(t.fields.size())]); break;
    case 6: if (!t.fields.empty()) t.fields[r.below(t.fields.size())].offset = wild(3); break;
    case 7: if (!t.fields.empty()) t.fields[r.below(t.fields.size())].datatype = uint8_t(r.next()); break;
    case 8: if (!t.fields.empty()) t.fields[r.below(t.fields.size())].name += "x"; break;
    case 9: t.compressed_data.clear(); break;
    case 10: t.compressed_data.resize(r.below(t.compressed_data.size() + 1)); break;
    default:
      for (int k = int(r.below(20)); k >= 0 && !t.compressed_data.empty(); --k) t.compressed_data[r.below(t.compressed_data.size())] = uint8_t(r.next());
  }
}
// what of a message's description is contradicted by the header of its compressed data
std::string contradicts(const CompressedPointCloud2& t) {
  if (t.compressed_data.empty()) return {};
  EncodingInfo i;
  try {
    ConstBufferView v(t.compressed_data.data(), t.compressed_data.size());
    i = DecodeHeader(v);
  } catch (const std::exception&) {
    return {};
  }
  if (t.width != i.width || t.height != i.height) return "size";
  if (t.point_step != i.point_step) return "point step";
  if (t.fields.size() != i.fields.size()) return "number of fields";
  for (size_t k = 0; k < i.fields.size(); ++k) {
    if (t.fields[k].name != i.fields[k].name) return "field name";
    if (t.fields[k].offset != i.fields[k].offset) return "field offset";
    if (t.fields[k].datatype != uint8_t(i.fields[k].type)) return "field type";
  }
  return {};
}
void deliver(SubNode& s, Receipt& rc) {
  s.calls = 0;
  s.cur = &rc;
  const Op* flt = nullptr;
  if (W->fault && int(W->fault->u(0)) < kSubs && W->subs.count(int(W->fault->u(0))) && W->subs[int(W->fault->u(0))].get() == &s) std::swap(flt, W->fault);
  std::string escaped, contradiction;
  bool dropped = false;
  resetCallPlans();
  const uint64_t f0 = g_sh->fault[F_DECOMPRESS] + g_sh->fault[F_THREAD_CREATE] + g_sh->fault[F_COMPRESS];
  const auto arm = [&] {
    if (!flt) return;
    if (flt->u(1) % 3 == 0) g_plan_decompress.at = flt->arg(2);
    if (flt->u(1) % 3 == 1) g_plan_thread.at = flt->arg(2);
    if (flt->u(1) % 3 == 2) g_plan_compress.at = flt->arg(2);
  };
  if (s.kind == 0) {
    rosmsg::Msg m;
    std::string why;
    if (!rosmsg::read(rc.wire, m, true, why)) {
      if (rc.intact && rc.e->sane) violation("malformed", "an intact published message cannot be deserialized: " + why + "; " + text(*rc.e, true));
      dropped = true;  // by the middleware
      SIM_PROBE("damaged message dropped by the middleware");
    } else {
      auto t = std::make_shared<CompressedPointCloud2>();
      toTyped(m, *t);
      t->compressed_data = m.data;
      t->format = m.format;
      for (auto* op : rc.typ) {
        const CompressedPointCloud2 before = *t;
        damageTyped(*t, *op);
        if (rc.intact) {
          rosmsg::Msg a, b;
          fromTyped(before, a);
          fromTyped(*t, b);
          if (!rosmsg::sameMeta(a, b, why) || before.compressed_data != t->compressed_data) {
            rc.intact = false;
            countFault(F_NET_CORRUPT);
          }
        }
      }
      t->compressed_data.shrink_to_fit();
      contradiction = contradicts(*t);
      const auto cb = [&s](const PointCloud2::ConstSharedPtr& p) {
        rosmsg::Msg g;
        fromTyped(*p, g);
        g.data = p->data;
        onDelivered(s, g);
        if ((p->data.size() ^ s.kept.size()) % 3) {
          s.kept.emplace_back(p, *p);
          if (s.kept.size() > 4) s.kept.pop_front();
        }
      };
      arm();
      try {
        s.plugin->callback(t, cb);
      } catch (const std::exception& x) {
        escaped = std::string("!") + x.what();
      }
    }
  } else {
    const auto msg = serialized(rc.wire);
    arm();
    try {
      s.subscription->callback(msg);
    } catch (const std::exception& x) {
      escaped = std::string("!") + x.what();
    }
  }
  const bool fired = f0 != g_sh->fault[F_DECOMPRESS] + g_sh->fault[F_THREAD_CREATE] + g_sh->fault[F_COMPRESS];
  resetCallPlans();
  countEval();
  checkKept(s);
  sim::log("deliver", uint64_t(s.kind), uint64_t(s.calls));
  if (!escaped.empty()) violation("escape", "an exception left the message handler of the " + std::string(kSubName[s.kind]) + " (" + escaped.substr(1) + "): " + text(*rc.e, rc.intact));
  if (!contradiction.empty()) {
    SIM_PROBE("description contradicts the compressed data");
    if (s.calls) violation("contradiction", "a message whose " + contradiction + " contradicts its compressed data was delivered by the " + std::string(kSubName[s.kind]) + ": " + text(*rc.e, rc.intact));
  }
  if (rc.intact && rc.e->sane && !fired && !s.muted && s.calls != 1)
    violation("lost", "an intact message was received but not delivered by the " + std::string(kSubName[s.kind]) + ": " + text(*rc.e, true));
  if (s.muted && s.kind == 2 && s.calls) SIM_PROBE("published although nobody listens");
  if (fired) SIM_PROBE("decompressor failed inside a message handler");
  if (!rc.intact && s.calls) SIM_PROBE("damaged message still delivered a consistent cloud");
  if (!rc.intact && !s.calls && !dropped) SIM_PROBE("damaged message rejected by a node");
  s.cur = nullptr;
  if (s.delivered >= 2) markNontrivial();
}
// ---------------------------------------------------------------- the network
void enqueue(SubNode& s, Receipt&& rc) {
  std::unique_lock<std::mutex> l(s.m);
  std::vector<Receipt> due;
  for (size_t i = 0; i < s.delayed.size();)
    if (--s.delayed[i].after <= 0) {
      due.push_back(std::move(s.delayed[i]));
      s.delayed.erase(s.delayed.begin() + long(i));
    } else ++i;
  if (rc.after > 0) s.delayed.push_back(std::move(rc));
  else s.queue.push_back(std::move(rc));
  for (auto& d : due) s.queue.push_back(std::move(d));
  s.cv.notify_one();
}
void drain(SubNode& s) {  // sequential runs
  while (!s.queue.empty()) {
    Receipt rc = std::move(s.queue.front());
    s.queue.pop_front();
    deliver(s, rc);
  }
}
void close(SubNode& s) {
  std::lock_guard<std::mutex> l(s.m);
  for (auto& d : s.delayed) s.queue.push_back(std::move(d));
  s.delayed.clear();
  s.closed = true;
  s.cv.notify_all();
}
void executor(SubNode& s) {
  for (;;) {
    Receipt rc;
    {
      std::unique_lock<std::mutex> l(s.m);
      while (s.queue.empty() && !s.closed) s.cv.wait(l);
      if (s.queue.empty()) return;
      rc = std::move(s.queue.front());
      s.queue.pop_front();
    }
    deliver(s, rc);
  }
}
void send(const std::shared_ptr<Sent>& e, const Bytes& wire, const std::vector<const Op*>& mods) {
  for (auto& [id, sp] : W->subs) {
    Receipt rc{e, wire, true, {}, 0};
    int copies = 1;
    for (auto* op : mods) {
      if (op->name == "net" && (op->u(2) >> id & 1)) {
        const uint64_t fate = op->u(1) % 3;
        countFault(fate == 0 ? F_NET_DROP : fate == 1 ? F_NET_DUP : F_NET_DELAY);
        if (fate == 0) copies = 0;
        if (fate == 1 && copies) copies = 2;
        if (fate == 2) rc.after = int(op->u(3) % 8);
      } else if (op->name == "dmg" && (op->u(1) >> id & 1)) {
        const size_t start = (op->u(5) & 8) ? 0 : rc.wire.size() - std::min(rc.wire.size(), size_t(400));
        if (dmg::applyOp(rc.wire, *op, 2, start, nullptr)) {
          rc.intact = false;
          countFault(F_NET_CORRUPT);
        }
      } else if (op->name == "typ" && (op->u(1) >> id & 1) && sp->kind == 0) {
        rc.typ.push_back(op);
      }
    }
    for (int k = 0; k < copies; ++k) {
      Receipt c = rc;
      if (k) c.after = 0;
      enqueue(*sp, std::move(c));
    }
    if (!W->concurrent) drain(*sp);
  }
}
// ---------------------------------------------------------------- publishers
void mangleRaw(rosmsg::Msg& m, const Op& op) {
  Rng r(op.u(2));
  const size_t n = m.fields.size();
  switch (op.u(1) % 8) {
    case 0: m.data.resize(r.below(m.data.size() + 1)); break;
    case 1: m.data.insert(m.data.end(), size_t(r.range(1, 100)), 1); break;
    case 2: m.width = uint32_t(r.next()); break;
    case 3: m.point_step = r.below(2) ? 0 : uint32_t(r.next()); break;
    case 4: if (n) m.fields[r.below(n)].offset = r.below(2) ? m.point_step : uint32_t(r.next()); break;
    case 5: if (n) m.fields[r.below(n)].type = uint8_t(r.next()); break;
    case 6: m.fields.clear(); break;
    default: m.width = m.height = 0x10000; break;
  }
}
void publish(PubNode& p, const Op& op, const std::vector<const Op*>& mods) {
  Layout lay = makeLayout(op.u(1), op.u(2));
  for (auto& f : lay.fields)
    f.resolution = f.type == FieldType::FLOAT32 ? std::optional<float>(p.resolution) : std::nullopt;
  const size_t n = size_t(std::min<int64_t>(std::max<int64_t>(0, op.arg(3)), int64_t(chunkPoints()) * 3));
  auto e = std::make_shared<Sent>();
  e->meta = rosmsg::make(lay, makeCloud(lay, n, op.u(4), true), n, op.u(4), (op.u(5) & 1) != 0);
  e->meta.is_bigendian = false;  // a big-endian cloud (not message) cannot be expressed by the lossy codec
  e->info = makeInfo(lay, cfgOf(1, 2, 5, 0), e->meta.width, e->meta.height);
  e->info.encoding_opt = EncodingOptions::LOSSY;
  rosmsg::Msg raw = e->meta;
  bool intact = true;
  for (auto* m : mods)
    if (m->name == "bad") {
      mangleRaw(raw, *m);
      countFault(F_BAD_INPUT);
      intact = false;
    }
  Bytes rawWire;
  if (p.kind == 2) {
    rawWire = rosmsg::write(raw, false);
    for (auto* m : mods)
      if (m->name == "rdmg" && dmg::applyOp(rawWire, *m, 1, 0, nullptr)) {
        intact = false;
        countFault(F_NET_CORRUPT);
      }
  }
  e->sane = intact;
  const Op* flt = nullptr;
  if (W->fault && int(W->fault->u(0)) >= kSubs) std::swap(flt, W->fault);
  const uint64_t f0 = g_sh->fault[F_THREAD_CREATE] + g_sh->fault[F_COMPRESS];
  resetCallPlans();
  p.out.clear();
  std::string escaped;
  bool rejected = false;
  PointCloud2 typed;
  std::shared_ptr<rclcpp::SerializedMessage> ser;
  if (p.kind == 2) ser = serialized(rawWire);
  else {
    toTyped(raw, typed);
    typed.data = raw.data;
    typed.data.shrink_to_fit();
  }
  if (flt) {
    if (flt->u(1) % 3 == 1) g_plan_thread.at = flt->arg(2) % 2;
    if (flt->u(1) % 3 != 1) g_plan_compress.at = flt->arg(2);
  }
  try {
    if (p.kind == 0) {
      p.plugin->publish(typed, [&](const CompressedPointCloud2& c) {
        rosmsg::Msg w;
        fromTyped(c, w);
        w.big = (op.u(5) & 1) != 0;
        w.data = c.compressed_data;
        w.format = c.format;
        p.out.push_back(rosmsg::write(w, true));
      });
    } else if (p.kind == 1) {
      try {
        SerializeCompressedPointCloud2(typed, p.resolution, p.buffer);
        p.out.push_back(p.buffer);
      } catch (const std::exception&) {  // the documented way to fail for a function
        rejected = true;
      }
    } else {
      p.subscription->callback(ser);
    }
  } catch (const std::exception& x) {
    escaped = std::string("!") + x.what();
  }
  const bool fired = f0 != g_sh->fault[F_THREAD_CREATE] + g_sh->fault[F_COMPRESS];
  resetCallPlans();
  countEval();
  sim::log("publish", uint64_t(p.kind), p.out.size());
  const std::string w = std::string(kPubName[p.kind]) + ": " + text(*e, intact);
  if (!escaped.empty()) violation("escape", "an exception left the handler of the " + w + " (" + escaped.substr(1) + ")");
  if (p.out.size() > 1) violation("twice", "one cloud was published twice by the " + w);
  if (intact && !fired && p.out.empty()) violation("not-published", std::string("a well-formed cloud was not published by the ") + w);
  if (fired && p.out.size()) violation("fault-swallowed", "a compressor or thread failure was not noticed by the " + w);
  if (!intact && p.out.empty()) SIM_PROBE("malformed cloud not published");
  if (fired) SIM_PROBE("compressor or thread start failed inside a publisher");
  (void)rejected;
  for (auto& b : p.out) {
    if (intact) {  // what was put on the wire is readable by everybody
      rosmsg::Msg m;
      std::string why;
      if (!rosmsg::read(b, m, true, why)) violation("malformed", "malformed message on the wire: " + why + "; " + w);
      m.big = e->meta.big;
      if (!rosmsg::sameMeta(e->meta, m, why)) violation("metadata", why + "; published by the " + w);
      CompressedPointCloud2 c;
      toTyped(m, c);
      c.compressed_data = m.data;
      c.format = m.format;
      if (e->meta.data.size() || m.data.size()) try {
        const EncodingInfo i = ReadEncodingInfo(c);
        if (i.width != m.width || i.height != m.height || i.point_step != m.point_step || i.fields.size() != m.fields.size()) violation("metadata", "the encoding info of a published message contradicts the message; " + w);
      } catch (const std::exception& x) {
        violation("malformed", std::string("ReadEncodingInfo refuses a published message: ") + x.what() + "; " + w);
      }
    }
    send(e, b, mods);
  }
}
using Script = std::vector<std::pair<const Op*, std::vector<const Op*>>>;
void step(PubNode& p, const Op& op, const std::vector<const Op*>& mods) {
  if (op.name == "param") {
    if (p.kind == 2) return;  // read once at the start
    p.resolution = kResolutions[op.u(1) % 5];
    if (p.kind == 0) {
      const auto r = p.plugin->param_callback({rclcpp::Parameter("ns.cloudini.cloudini_resolution", double(p.resolution))});
      if (!r.successful) violation("param", "the resolution parameter was refused");
    }
  } else publish(p, op, mods);
}
void makeSub(SubNode& s, int id) {
  SubNode* sp = &s;
  if (s.kind == 0) {
    s.plugin = std::make_unique<cloudini_point_cloud_transport::CloudiniSubscriber>();
  } else if (s.kind == 1) {
    s.node = std::make_shared<rclcpp::Node>("pcl");
    s.pcl = std::make_unique<cloudini_ros::CloudiniSubscriberPCL>(s.node, "/points", [sp](const pcl::PCLPointCloud2::Ptr& c) {
      rosmsg::Msg g;
      const uint64_t st = c->header.stamp;
      g.sec = int32_t(uint32_t(st >> 32));
      g.nsec = uint32_t(st);
      g.frame = c->header.frame_id;
      g.height = c->height;
      g.width = c->width;
      for (auto& f : c->fields) g.fields.push_back({f.name, f.offset, f.datatype, f.count});
      g.is_bigendian = c->is_bigendian;
      g.point_step = c->point_step;
      g.row_step = c->row_step;
      g.is_dense = c->is_dense;
      g.data = c->data;
      onDelivered(*sp, g);
    });
    s.subscription = s.node->subs.back().lock();
  } else {
    rclcpp::NodeOptions o;
    o.parameter_overrides({rclcpp::Parameter("compressing", false), rclcpp::Parameter("topic_input", std::string("/points")), rclcpp::Parameter("log_compression_stats", id % 2 == 0)});
    s.node = rosstub_make_CloudiniPointcloudConverter(o);
    s.subscription = s.node->subs.back().lock();
    s.publisher = s.node->pubs.back().lock();
    if (s.subscription->type != "point_cloud_interfaces/msg/CompressedPointCloud2" || s.publisher->type != "sensor_msgs/msg/PointCloud2") violation("topics", "the converter connects to the wrong message types");
    s.publisher->sink = [sp](const rclcpp::SerializedMessage& m) {
      const auto& r = m.get_rcl_serialized_message();
      const Bytes b(r.buffer, r.buffer + r.buffer_length);
      rosmsg::Msg g;
      std::string why;
      if (!rosmsg::read(b, g, false, why)) {
        if (sp->cur->intact && sp->cur->e->sane) violation("malformed", "the topic converter published a malformed message: " + why + "; " + text(*sp->cur->e, true));
        if (++sp->calls > 1) violation("twice", "one message was delivered twice by the topic converter");
        SIM_PROBE("damaged strings passed on by the converter");
        return;
      }
      onDelivered(*sp, g);
    };
  }
}
void makePub(PubNode& p) {
  PubNode* pp = &p;
  if (p.kind == 0) {
    p.plugin = std::make_unique<cloudini_point_cloud_transport::CloudiniPublisher>();
    p.plugin->params["cloudini_resolution"] = double(p.resolution);
    p.plugin->declareParameters("points");
  } else if (p.kind == 2) {
    rclcpp::NodeOptions o;
    o.parameter_overrides({rclcpp::Parameter("resolution", double(p.resolution))});
    p.node = rosstub_make_CloudiniPointcloudConverter(o);
    p.subscription = p.node->subs.back().lock();
    p.publisher = p.node->pubs.back().lock();
    p.publisher->sink = [pp](const rclcpp::SerializedMessage& m) {
      const auto& r = m.get_rcl_serialized_message();
      pp->out.emplace_back(r.buffer, r.buffer + r.buffer_length);
    };
  }
}
}  // namespace
static void exec(const Scenario& sc) {
  const uint64_t cap_before = g_alloc_cap;
  g_alloc_cap = 8u << 20;
  {
    World world;
    W = &world;
    for (auto& op : sc.ops) {
      if (op.name == "mode") world.concurrent = op.u(0) & 1;
      else if (op.name == "node") {
        auto& p = world.pubs[int(op.u(0) % kPubs)];
        p = std::make_unique<PubNode>();
        p->kind = int(op.u(1) % 3);
        p->resolution = kResolutions[op.u(2) % 5];
      } else if (op.name == "sub") {
        auto& s = world.subs[int(op.u(0) % kSubs)];
        s = std::make_unique<SubNode>();
        s->kind = int(op.u(1) % 3);
      }
    }
    for (auto& [i, p] : world.pubs) makePub(*p);
    for (auto& [i, s] : world.subs) makeSub(*s, i);
    std::map<int, std::vector<const Op*>> mods;
    std::map<int, Script> scripts;
    for (auto& op : sc.ops) {
      if (op.name == "mute" || op.name == "fault") {
        if (world.concurrent) continue;
        if (op.name == "fault") world.fault = &op;
        else if (world.subs.count(int(op.u(0) % kSubs))) {
          auto& s = *world.subs[int(op.u(0) % kSubs)];
          s.muted = s.kind == 2 && op.u(1) % 2;
          if (s.kind == 2) s.publisher->subscribers = s.muted ? 0 : 1;
        }
        continue;
      }
      const int p = int(op.u(0) % kPubs);
      if (op.name == "mode" || op.name == "node" || op.name == "sub" || !world.pubs.count(p)) continue;
      if (op.name == "pub" || op.name == "param") {
        std::vector<const Op*> none;
        auto& m = op.name == "pub" ? mods[p] : none;
        if (world.concurrent) scripts[p].push_back({&op, m});
        else step(*world.pubs[p], op, m);
        m.clear();
      } else mods[p].push_back(&op);
    }
    world.fault = nullptr;
    if (world.concurrent) {
      SIM_PROBE("publishers and subscribers on their own threads");
      std::vector<std::thread> ps, ss;
      for (auto& [i, s] : world.subs) {
        SubNode* x = s.get();
        ss.emplace_back([x] { executor(*x); });
      }
      for (auto& [i, v] : scripts) {
        PubNode* x = world.pubs[i].get();
        Script* y = &v;
        ps.emplace_back([x, y] {
          for (auto& [op, m] : *y) step(*x, *op, m);
        });
      }
      for (auto& t : ps) t.join();
      for (auto& [i, s] : world.subs) close(*s);
      for (auto& t : ss) t.join();
    } else {
      for (auto& [i, s] : world.subs) {
        close(*s);
        drain(*s);
      }
    }
    for (auto& [i, s] : world.subs)
      if (!s->queue.empty()) internalError("undelivered receipts");
    for (auto& [i, p] : world.pubs) p->node.reset();
    world.pubs.clear();
    std::deque<SubNode> heirs;  // what was delivered outlives the nodes
    for (auto& [i, s] : world.subs) {
      heirs.emplace_back();
      heirs.back().kept.swap(s->kept);
    }
    world.subs.clear();
    for (auto& h : heirs) checkKept(h);
    W = nullptr;
  }
  if (liveThreads()) violation("thread-left", "a compression thread is still running after the nodes are gone");
  g_alloc_cap = cap_before;
}
static void setup() {
  chunkPoints();
  rosstub::onForeignBuffer = [] { violation("foreign-free", "a node handed its own buffer to a message that frees it"); };
}
const Prop kProp = {"C15", gen, exec, setup,
  "1-3 publishers and 1-3 subscriber nodes of all kinds over a network with loss, duplication, delay, reordering and damage of bytes or deserialized fields, malformed raw clouds, parameter changes, failing compressors, decompressors and thread starts; one or several executor threads; non-trivial: a node that delivered at least two intact messages; distinct by event-log hash"};
