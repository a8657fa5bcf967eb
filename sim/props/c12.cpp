// A node with PCL subscribers in one simulated process: executor threads deliver intact and damaged messages, user
// threads keep, copy, modify and drop the clouds, subscribers are destroyed while clouds are still in use.
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <thread>
#include "../common/damage.hpp"
#include "../common/rosmsg.hpp"
#include "../common/session.hpp"
#include "cloudini_ros/cloudini_subscriber_pcl.hpp"
using namespace sim;
using namespace cl;
using namespace Cloudini;
using Cloud = pcl::PCLPointCloud2;
// msg  t s kind seed cfg n cseed keep   thread t delivers a message to subscriber s. keep: what the callback does
// dmg  t k a c d                        damage of the next message of thread t
// fault t at once                       next message of thread t: that allocation fails
// drop t slot                           thread t drops a reference
// copy t slot                           thread t takes another reference
// touch t slot seed                     the owner overwrites its cloud
// idle t                                drop everything this thread can see
// destroy t s                           a subscriber is destroyed
static void gen(Rng& r, Scenario& s) {
  const bool sh = haveShadow();
  session::genSched(r, s, sh);
  s.sched.step_cap = sh ? 60000000 : 1200000000ull;
  const int threads = r.below(4) == 0 ? 1 : 2 + int(r.below(3));
  const int subs = r.below(4) == 0 ? 2 : 1;
  const bool hoard = r.below(3) == 0;
  for (int t = 0; t < threads; ++t) {
    const int m = threads == 1 ? 6 + int(r.below(24)) : 3 + int(r.below(10));
    int64_t kind, seed, cfg;
    session::genLayoutArgs(r, kind, seed, cfg, false);
    for (int i = 0; i < m; ++i) {
      const uint64_t c = r.below(12);
      if (c < 6 || hoard) {
        if (r.below(4) == 0) session::genLayoutArgs(r, kind, seed, cfg, false);
        if (r.below(6) == 0) {
          Op d = dmg::gen(r);
          d.a.insert(d.a.begin(), t);
          s.ops.push_back(d);
        }
        if (threads == 1 && r.below(8) == 0) s.ops.push_back({"fault", {t, r.range(0, 30), int64_t(r.below(2))}});
        const int64_t n = r.below(5) == 0 ? session::genPoints(r, 2) : r.range(0, 40);
        s.ops.push_back({"msg", {t, int64_t(r.below(uint64_t(subs))), kind, seed, cfg, n, int64_t(r.below(1u << 30)), hoard ? 1 : int64_t(r.below(6))}});
      } else if (c < 8) s.ops.push_back({"drop", {t, int64_t(r.below(16))}});
      else if (c == 8) s.ops.push_back({"copy", {t, int64_t(r.below(16))}});
      else if (c == 9) s.ops.push_back({"touch", {t, int64_t(r.below(16)), int64_t(r.below(1u << 30))}});
      else if (c == 10) s.ops.push_back({"idle", {t}});
      else if (r.below(3) == 0) s.ops.push_back({"destroy", {t, int64_t(r.below(uint64_t(subs)))}});
    }
    if (hoard) s.ops.push_back({"idle", {t}});
  }
}
namespace {
struct Expect {
  uint32_t w = 0, h = 0, step = 0;
  std::vector<PointField> fields;
  Bytes data;
  rosmsg::Msg meta;
  bool intact = true, decodes = false;
};
struct Held {
  Cloud::Ptr p;
  std::shared_ptr<Expect> e;
};
constexpr int kSubs = 2;
struct World {
  std::shared_ptr<rclcpp::Node> node = std::make_shared<rclcpp::Node>("sim");
  std::unique_ptr<cloudini_ros::CloudiniSubscriberPCL> sub[kSubs];
  std::shared_ptr<rclcpp::GenericSubscription> subscription[kSubs];  // the executor's reference
  int busy[kSubs] = {0, 0};
  std::mutex m;
  std::vector<Held> held;
  std::map<Cloud*, int> refs;          // references the users hold
  std::vector<Cloud*> seen;            // every cloud that was ever handed out
};
World* W;
struct Current {  // the delivery in progress, per executor thread
  std::shared_ptr<Expect> e;
  uint64_t keep = 0;
  bool fault = false;
  int calls = 0;
};
thread_local Current* t_cur;
std::string text(const Expect& e) { return std::to_string(e.w) + "x" + std::to_string(e.h) + " points of " + std::to_string(e.step) + " bytes" + (e.intact ? "" : " (damaged message)"); }
void checkContent(const Cloud& c, const Expect& e, const char* when) {
  countEval();
  const std::string w = std::string(when) + ", " + text(e);
  if (c.width != e.w || c.height != e.h || c.point_step != e.step || c.row_step != e.w * e.step || c.data.size() != e.data.size() || c.is_bigendian)
    violation("content", "dimensions " + std::to_string(c.width) + "x" + std::to_string(c.height) + "x" + std::to_string(c.point_step) + ", " + std::to_string(c.data.size()) + " bytes do not belong to this message: " + w);
  if (c.fields.size() != e.fields.size()) violation("content", "the fields do not belong to this message: " + w);
  for (size_t i = 0; i < e.fields.size(); ++i) {
    auto& a = c.fields[i];
    auto& b = e.fields[i];
    if (a.name != b.name || a.offset != b.offset || a.datatype != uint8_t(b.type) || a.count != 1) violation("content", "field " + b.name + " does not belong to this message: " + w);
  }
  EncodingInfo i;
  i.fields = e.fields;
  i.point_step = e.step;
  std::string why;
  if (e.step && !sameFields(i, c.data.data(), e.data.data(), e.data.size() / e.step, why)) violation("content", "the points do not belong to this message: " + why + ", " + w);
  if (e.intact) {
    const uint64_t us = uint64_t(int64_t(e.meta.sec) * 1000000 + e.meta.nsec / 1000);
    if (c.header.stamp != us || c.header.frame_id != e.meta.frame || bool(c.is_dense) != e.meta.is_dense) violation("meta", "stamp, frame or is_dense do not belong to this message: " + w);
  }
}
void onCloud(const Cloud::Ptr& p) {
  Current& c = *t_cur;
  std::optional<AllocPause> nofault;  // failures are for the package, not for its user
  if (c.fault) nofault.emplace();
  if (++c.calls > 1) violation("twice", "one message was delivered twice");
  Cloud* raw = p.get();
  {
    std::lock_guard<std::mutex> l(W->m);
    if (W->refs.count(raw)) violation("two-owners", "a cloud that the user still holds was used for another message: " + text(*c.e));
    bool known = false;
    for (auto* q : W->seen) known |= q == raw;
    if (!known) W->seen.push_back(raw);
    else SIM_PROBE("a pooled cloud was used again");
  }
  if (c.e->decodes) checkContent(*p, *c.e, "delivered");
  if (c.keep == 0 || !c.e->decodes) return;
  if (c.keep == 5) throw std::runtime_error("user");
  Held h{p, c.e};
  std::lock_guard<std::mutex> l(W->m);
  W->refs[raw] = 1;
  W->held.push_back(std::move(h));
  if (c.keep == 2) {  // two references
    W->refs[raw]++;
    W->held.push_back(Held{p, c.e});
  }
}
void release(Held& h, const char* when) {
  Cloud* raw = h.p.get();
  checkContent(*raw, *h.e, when);
  {
    std::lock_guard<std::mutex> l(W->m);
    if (--W->refs[raw] == 0) W->refs.erase(raw);
  }
  h.p.reset();
}
bool take(uint64_t slot, Held& out) {
  std::lock_guard<std::mutex> l(W->m);
  if (W->held.empty()) return false;
  const size_t i = slot % W->held.size();
  out = std::move(W->held[i]);
  W->held.erase(W->held.begin() + long(i));
  return true;
}
void bounded() {  // idle clouds: handed out once, not held by a user, still allocated
  size_t idle = 0;
  std::lock_guard<std::mutex> l(W->m);
  if (W->busy[0] || W->busy[1]) return;
  for (auto* p : W->seen) idle += !W->refs.count(p) && allocLiveSize(p) == sizeof(Cloud);
  countEval();
  if (idle >= 3) SIM_PROBE("three or more idle clouds");
  if (idle > size_t(8 * kSubs)) violation("pool", std::to_string(idle) + " idle clouds are kept");
  if (idle > 8 && !W->subscription[1]) violation("pool", std::to_string(idle) + " idle clouds are kept by one subscriber");
}
struct Parcel {
  std::shared_ptr<Expect> e;
  Bytes b;
};
std::map<const Op*, Parcel> g_parcels;
void pack(const Op& op, const std::vector<const Op*>& damage) {
  const Layout lay = makeLayout(op.u(2), op.u(3));
  const size_t n = size_t(std::min<int64_t>(std::max<int64_t>(0, op.arg(5)), int64_t(chunkPoints()) * 3));
  uint32_t w, h;
  dims(n, op.u(3), w, h);
  EncodingInfo info = makeInfo(lay, op.u(4), w, h);
  info.use_threads = false;
  const Bytes cloud = makeCloud(lay, n, op.u(6), info.encoding_opt == EncodingOptions::LOSSY);
  auto e = std::make_shared<Expect>();
  e->meta = rosmsg::make(lay, encodeFresh(info, cloud), n, op.u(6), false);
  e->meta.width = w;
  e->meta.height = h;
  e->meta.row_step = w * lay.step;
  const bool bare = n == 0 && (op.u(6) & 1);  // empty clouds may travel without compressed data
  if (bare) e->meta.data.clear();
  Bytes b = rosmsg::write(e->meta, true);
  for (auto& d : damage)
    if (dmg::applyOp(b, *d, 1, (d->u(4) & 8) ? 0 : b.size() - std::min(b.size(), e->meta.data.size() + 200), nullptr)) {
      e->intact = false;
      countFault(F_NET_CORRUPT);
    }
  if (e->intact && bare) {
    SIM_PROBE("empty cloud without compressed data");
    e->fields = info.fields;
    e->w = w; e->h = h; e->step = lay.step;
    e->decodes = true;
  } else if (e->intact) {  // the published cloud as an independent decoder sees it
    ConstBufferView v(e->meta.data.data(), e->meta.data.size());
    const EncodingInfo hi = DecodeHeader(v);
    PointcloudDecoder d;
    d.decode(hi, v, e->data);
    e->fields = hi.fields;
    e->w = w; e->h = h; e->step = lay.step;
    e->decodes = true;
    std::string why;
    if (!matches(info, cloud, e->data.data(), e->data.size(), why)) violation("content", "the published cloud does not decode: " + why);
  }
  g_parcels[&op] = Parcel{e, std::move(b)};
}
void deliver(const Op& op, const Op* fault) {
  const int s = int(op.u(1) % kSubs);
  const Parcel& parcel = g_parcels.at(&op);
  auto e = parcel.e;
  const Bytes& b = parcel.b;
  auto msg = std::make_shared<rclcpp::SerializedMessage>(b.size());
  memcpy(msg->get_rcl_serialized_message().buffer, b.data(), b.size());
  msg->get_rcl_serialized_message().buffer_length = b.size();
  std::shared_ptr<rclcpp::GenericSubscription> sub;
  {
    std::lock_guard<std::mutex> l(W->m);
    if (!W->sub[s]) return;
    sub = W->subscription[s];
    W->busy[s]++;
  }
  Current cur;
  cur.e = e;
  cur.keep = op.u(7) % 6;
  cur.fault = fault != nullptr;
  t_cur = &cur;
  bool escaped = false;
  std::string what;
  const uint64_t caps = g_sh->fault[F_ALLOC_CAP], f0 = g_sh->fault[F_ALLOC];
  if (fault) allocArm(std::max<int64_t>(0, fault->arg(1)), fault->arg(2) & 1);
  try {
    sub->callback(msg);
  } catch (const std::exception& x) {
    escaped = true;
    if (fault) allocArm(-1, true);
    what = x.what();
  }
  if (fault) allocArm(-1, true);
  const bool fired = g_sh->fault[F_ALLOC] != f0;
  {
    std::lock_guard<std::mutex> l(W->m);
    W->busy[s]--;
  }
  countEval();
  sim::log("deliver", uint64_t(s), uint64_t(cur.calls));
  (void)caps;
  if (escaped) violation("escape", "an exception left the message handler (" + what + "): " + text(*e));
  if (e->intact && !fired && cur.calls != 1) violation("lost", "an intact message was not delivered: " + text(*e));
  if (e->intact && cur.calls && cur.keep) markNontrivial();
  if (fired) SIM_PROBE("allocation failed inside a message handler");
  if (!e->intact && !cur.calls) SIM_PROBE("damaged message rejected");
}
void run(const std::vector<const Op*>& ops, bool single) {
  const Op* fault = nullptr;
  for (auto* o : ops) {
    const Op& op = *o;
    if (op.name == "msg") {
      deliver(op, fault);
      fault = nullptr;
    } else if (op.name == "fault") fault = single ? &op : nullptr;
    else if (op.name == "drop") {
      Held h;
      if (take(op.u(1), h)) release(h, "before it was dropped");
      if (single) bounded();
    } else if (op.name == "copy") {
      Held h, k;
      if (take(op.u(1), h)) {
        k = h;
        std::lock_guard<std::mutex> l(W->m);
        W->refs[h.p.get()]++;
        W->held.push_back(std::move(h));
        W->held.push_back(std::move(k));
      }
    } else if (op.name == "touch") {  // only when nobody else holds it
      Held h;
      if (take(op.u(1), h)) {
        bool alone;
        {
          std::lock_guard<std::mutex> l(W->m);
          alone = W->refs[h.p.get()] == 1;
        }
        checkContent(*h.p, *h.e, "before its owner changed it");
        if (alone) {
          Rng q(op.u(2));
          h.p->header.frame_id = "changed";
          h.p->header.stamp = q.next();
          h.p->header.seq = 7;
          h.p->is_dense = !h.p->is_dense;
          h.p->is_bigendian = true;
          for (auto& x : h.p->data) x = uint8_t(q.next());
          if (q.below(2)) h.p->data.resize(q.below(5000));
          if (q.below(2)) h.p->fields.resize(1 + q.below(9));
          SIM_PROBE("a cloud was changed by its owner");
          {
            std::lock_guard<std::mutex> l(W->m);
            W->refs.erase(h.p.get());
          }
          h.p.reset();
        } else {
          std::lock_guard<std::mutex> l(W->m);
          W->held.push_back(std::move(h));
        }
      }
    } else if (op.name == "idle") {
      Held h;
      while (take(0, h)) release(h, "before everything was dropped");
      bounded();
    } else if (op.name == "destroy") {
      const int s = int(op.u(1) % kSubs);
      std::unique_ptr<cloudini_ros::CloudiniSubscriberPCL> dead;
      std::shared_ptr<rclcpp::GenericSubscription> keep;
      {
        std::lock_guard<std::mutex> l(W->m);
        if (W->busy[s] == 0) {  // rclcpp: not while its callback runs
          dead = std::move(W->sub[s]);
          keep = W->subscription[s];
        }
      }
      if (dead) {
        bool used;
        {
          std::lock_guard<std::mutex> l(W->m);
          used = !W->held.empty();
        }
        if (used) SIM_PROBE("subscriber destroyed while clouds are held");
        countFault(F_EARLY_DESTROY);
        dead.reset();
      }
    }
  }
}
}  // namespace
static void exec(const Scenario& sc) {
  const uint64_t cap_before = g_alloc_cap;
  g_alloc_cap = 8u << 20;
  allocArm(-1, true);
  const uint64_t blocks = allocStats().live_blocks;
  {
    World world;
    W = &world;
    g_parcels.clear();
    std::map<int64_t, std::vector<const Op*>> th;
    bool second = false;
    for (auto& op : sc.ops) {
      th[op.arg(0) & 7].push_back(&op);
      if (op.name == "msg" && op.u(1) % kSubs) second = true;
    }
    for (auto& [t, v] : th) {
      std::vector<const Op*> damage;
      for (auto* op : v) {
        if (op->name == "dmg") damage.push_back(op);
        if (op->name != "msg") continue;
        pack(*op, damage);
        damage.clear();
      }
    }
    for (int i = 0; i < (second ? 2 : 1); ++i) {
      if (sc.seed & 1) world.sub[i] = std::make_unique<cloudini_ros::CloudiniSubscriberPCL>(world.node, "/points" + std::to_string(i), onCloud);
      else world.sub[i] = std::make_unique<cloudini_ros::CloudiniSubscriberPCL>(world.node.get(), "/points" + std::to_string(i), onCloud);
      world.subscription[i] = world.node->subs.back().lock();
    }
    if (th.size() <= 1) {
      for (auto& [t, v] : th) run(v, true);
    } else {
      SIM_PROBE("several threads");
      std::vector<std::thread> ts;
      for (auto& [t, v] : th) {
        auto* p = &v;
        ts.emplace_back([p] { run(*p, false); });
      }
      for (auto& t : ts) t.join();
    }
    // the end, in either order
    if (sc.seed & 2)
      for (auto& s : world.sub) s.reset();
    for (auto& h : world.held) release(h, "at the end");
    world.held.clear();
    if (!(sc.seed & 2)) bounded();
    for (auto& s : world.sub) s.reset();
    g_parcels.clear();
    W = nullptr;
  }
  const uint64_t left = allocStats().live_blocks;
  allocDisarm();
  countEval();
  sim::log("blocks", left - blocks);
  if (left != blocks) violation("leak", std::to_string(int64_t(left - blocks)) + " heap blocks are still allocated after the subscribers and all clouds are gone");
  g_alloc_cap = cap_before;
}
static void setup() {
  chunkPoints();
  // everything that is allocated once per process
  Scenario s;
  s.seed = 3;
  (void)s;
}
const Prop kProp = {"C12", gen, exec, setup,
  "1-4 executor and user threads, 1-2 subscribers, intact and damaged messages, clouds kept, copied, changed, dropped by any thread, callbacks that throw, failed allocations, subscribers destroyed while clouds are held; non-trivial: a run in which a user kept a delivered cloud; distinct by event-log hash"};
