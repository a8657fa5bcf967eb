// A fleet whose machines run builds of the library for different instruction sets: publishers of any build send over a
// lossy network to subscribers of every build; machines restart with another build in between (rolling upgrade).
#include <condition_variable>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <thread>
#include "../common/damage.hpp"
#include "../common/fleet.hpp"
#include "../common/rosmsg.hpp"
#include "../common/session.hpp"
using namespace sim;
using namespace cl;
using namespace Cloudini;
// machine t build                        publisher t restarts with that build
// sub s build                            a subscriber; a later one with the same s is what it restarts with
// enc  t kind seed cfg n                 what publisher t sends from now on
// pub  t cloudSeed mode fault fk fa fc fd restart delay   fault 0 none 1 lost 2 twice 3 damaged 4 damaged copy first; restart: bits of subscribers that restart before
static int pickBuild(Rng& r) { return r.below(3) == 0 ? int(r.below(2)) : int(r.below(fleet::kBuilds)); }
static void gen(Rng& r, Scenario& s) {
  const bool sh = haveShadow();
  session::genSched(r, s, sh);
  s.sched.step_cap = sh ? 40000000 : 600000000;
  const bool real = chunkPoints() > 1000;
  const int pubs = r.below(3) == 0 ? 2 : 1;
  const int subs = 2 + int(r.below(2));
  for (int i = 0; i < subs; ++i) s.ops.push_back({"sub", {i, i < 2 && r.below(3) ? i : pickBuild(r)}});
  for (int t = 0; t < pubs; ++t) {
    s.ops.push_back({"machine", {t, pickBuild(r)}});
    const int m = real ? 1 + int(r.below(2)) : 2 + int(r.below(5));
    for (int i = 0; i < m; ++i) {
      if (i == 0 || r.below(2)) {
        int64_t kind, seed, cfg;
        session::genLayoutArgs(r, kind, seed, cfg, false);
        if (r.below(2)) cfg = int64_t(cfgOf(1, int(r.below(3)), 3 + int(r.below(3)), int(r.below(2))));
        int64_t n = r.below(3) == 0 ? r.range(0, 9) : session::genPoints(r, real ? 2 : 3);
        s.ops.push_back({"enc", {t, kind, seed, cfg, n}});
      }
      if (i && r.below(4) == 0) s.ops.push_back({"machine", {t, pickBuild(r)}});
      Op p{"pub", {t, int64_t(r.below(1u << 30)), int64_t(r.below(4)), 0, 0, 0, 0, 0, 0, 0}};
      if (r.below(3) == 0) p.a[3] = r.range(1, 4);
      if (p.a[3] >= 3) {
        const Op d = dmg::gen(r);
        for (int k = 0; k < 4; ++k) p.a[4 + k] = d.a[k];
      }
      if (r.below(4) == 0) p.a[8] = r.range(1, 7);
      if (r.below(4) == 0) p.a[9] = r.range(1, 3);
      s.ops.push_back(p);
    }
  }
  for (int i = 0; i < subs; ++i)
    if (r.below(2)) s.ops.push_back({"sub", {i, pickBuild(r)}});
}
namespace {
const fleet::Build* at(int64_t b, int& used) {
  used = int(uint64_t(b) % fleet::kBuilds);
  const fleet::Build* p = fleet::get(used);
  if (!p) p = fleet::get(used = 0);
  return p;
}
fleet::Info neutral(const EncodingInfo& e) {
  fleet::Info i;
  for (auto& f : e.fields) i.fields.push_back({f.name, f.offset, int(f.type), f.resolution.has_value(), f.resolution ? *f.resolution : 0.f});
  i.width = e.width;
  i.height = e.height;
  i.point_step = e.point_step;
  i.enc = int(e.encoding_opt);
  i.comp = int(e.compression_opt);
  i.version = e.version;
  i.threads = e.use_threads;
  return i;
}
struct Published {
  Bytes cloud;
  EncodingInfo info;
  std::string what;
  std::mutex m;
  Bytes first;  // what the first receiver decoded
  std::string first_by;
  bool have = false;
};
struct Packet {
  Bytes bytes;
  bool intact = true, ros = false;
  std::shared_ptr<Published> p;
  bool restart = false;
};
struct Net {
  std::mutex m;
  std::condition_variable cv;
  std::vector<std::deque<Packet>> q;
  std::vector<std::pair<int64_t, Packet>> held;
  Bytes last;
  int open = 0;
  void deliver(const Packet& p, uint64_t restart) {
    for (size_t i = 0; i < q.size(); ++i) {
      q[i].push_back(p);
      q[i].back().restart = (restart >> i) & 1;
    }
  }
  void send(const Packet& p, int64_t delay, uint64_t restart) {
    std::lock_guard<std::mutex> l(m);
    if (delay > 0) {
      countFault(F_NET_DELAY);
      held.emplace_back(delay, p);
    } else {
      deliver(p, restart);
    }
    for (auto& h : held) --h.first;
    for (size_t i = 0; i < held.size();)
      if (held[i].first < 0) {
        deliver(held[i].second, 0);
        held.erase(held.begin() + i);
      } else ++i;
    cv.notify_all();
  }
  void done() {
    std::lock_guard<std::mutex> l(m);
    if (--open == 0)
      for (auto& h : held) deliver(h.second, 0);
    cv.notify_all();
  }
};
void publisher(const std::vector<const Op*>& ops, Net& net) {
  int b = 0;
  const fleet::Build* build = at(0, b);
  std::unique_ptr<fleet::Encoder> enc;
  EncodingInfo info;
  Layout lay;
  int64_t n = 0;
  bool have = false;
  for (const Op* op : ops) {
    if (op->name == "machine") {
      enc.reset();  // whatever the machine knew is gone
      build = at(op->arg(1), b);
      continue;
    }
    if (op->name == "enc") {
      lay = makeLayout(op->u(1), op->u(2));
      n = std::min<int64_t>(std::max<int64_t>(0, op->arg(4)), int64_t(chunkPoints()) * 5);
      uint32_t w, h;
      dims(size_t(n), op->u(2), w, h);
      info = makeInfo(lay, op->u(3), w, h);
      enc.reset();
      have = true;
      continue;
    }
    if (!have) continue;
    auto pb = std::make_shared<Published>();
    pb->info = info;
    pb->cloud = makeCloud(lay, size_t(n), op->u(1), info.encoding_opt == EncodingOptions::LOSSY);
    pb->what = std::string("published by ") + fleet::name(b) + ", " + describe(info);
    Packet p;
    p.p = pb;
    p.ros = op->u(2) % 4 == 3;
    try {
      if (p.ros) {
        rosmsg::Msg m = rosmsg::make(lay, pb->cloud, size_t(n), op->u(1), false);
        m.width = info.width;
        m.height = info.height;
        build->compress(rosmsg::write(m, false), neutral(info), p.bytes);
      } else {
        if (!enc) enc = build->encoder(neutral(info));
        enc->encode(pb->cloud, p.bytes);
      }
    } catch (const std::exception& e) {
      violation("encode-fails", "encoding a legitimate cloud of " + std::to_string(n) + " points failed: " + e.what() + ", " + pb->what);
    }
    sim::logBytes("pub", p.bytes.data(), p.bytes.size());
    const int fault = int(op->u(3) % 5);
    Bytes other;
    {
      std::lock_guard<std::mutex> l(net.m);
      other = net.last;
      net.last = p.bytes;
    }
    if (fault == 1) {
      countFault(F_NET_DROP);
      continue;
    }
    if (fault == 2) {
      countFault(F_NET_DUP);
      net.send(p, 0, 0);
    }
    if (fault >= 3) {
      Packet q = p;
      if (dmg::applyOp(q.bytes, *op, 4, q.ros ? q.bytes.size() / 3 : dmg::headerEnd(q.bytes), &other)) {
        q.intact = false;
        countFault(F_NET_CORRUPT);
        net.send(q, 0, op->u(8) & 8 ? 1 : 0);
        if (fault == 3) continue;
      }
    }
    net.send(p, op->arg(9), op->u(8));
  }
  enc.reset();
  net.done();
}
void subscriber(Net& net, size_t me, const std::vector<int64_t>& builds) {
  size_t life = 0;
  int b = 0;
  const fleet::Build* build = at(builds[0], b);
  std::unique_ptr<fleet::Decoder> dec = build->decoder();
  Bytes out;
  while (true) {
    Packet p;
    {
      std::unique_lock<std::mutex> l(net.m);
      net.cv.wait(l, [&] { return !net.q[me].empty() || net.open == 0; });
      if (net.q[me].empty()) break;
      p = std::move(net.q[me].front());
      net.q[me].pop_front();
    }
    if (p.restart) {
      SIM_PROBE("subscriber restarted");
      ++life;
      build = at(builds[life % builds.size()] + (builds.size() == 1 ? int64_t(life) : 0), b);
      dec = build->decoder();
      if (life & 1) Bytes().swap(out);
    }
    const Published& src = *p.p;
    try {
      Bytes bytes = p.bytes;
      if (!p.intact) {  // absurd sizes are not decoded here
        if (!p.ros) {
          ConstBufferView v(bytes.data(), bytes.size());
          const EncodingInfo h = DecodeHeader(v);
          if (uint64_t(h.width) * h.height * h.point_step > (4u << 20)) continue;
        } else {
          continue;
        }
      }
      Bytes payload;
      if (p.ros) {
        build->decompress(bytes, out);
        rosmsg::Msg m;
        std::string why;
        if (!rosmsg::read(out, m, false, why)) violation("not-a-message", why + "; received by " + fleet::name(b) + ", " + src.what);
        payload = m.data;
      } else {
        fleet::Info h;
        dec->decode(bytes, h, out);
        if (p.intact) {
          const fleet::Info w = neutral(src.info);
          bool same = h.width == w.width && h.height == w.height && h.point_step == w.point_step && h.enc == w.enc && h.comp == w.comp && h.version == w.version && h.fields.size() == w.fields.size();
          for (size_t f = 0; same && f < h.fields.size(); ++f)
            same = h.fields[f].name == w.fields[f].name && h.fields[f].offset == w.fields[f].offset && h.fields[f].type == w.fields[f].type && h.fields[f].has_res == w.fields[f].has_res &&
                   (!h.fields[f].has_res || h.fields[f].res == w.fields[f].res);
          if (!same) violation("header-differs", std::string("the header decoded by ") + fleet::name(b) + " differs from the published settings, " + src.what);
        }
        payload = out;
      }
      if (!p.intact) {
        sim::log("dmg_ok", payload.size());
        continue;
      }
      countEval();
      sim::log("recv", me, fieldsHash(src.info, payload.data(), payload.size() / std::max<uint32_t>(1, src.info.point_step)));
      std::string why;
      if (!matches(src.info, src.cloud, payload.data(), payload.size(), why)) violation("not-faithful", why + "; received by " + fleet::name(b) + ", " + src.what);
      Published& w = *p.p;
      std::lock_guard<std::mutex> l(w.m);
      if (!w.have) {
        w.have = true;
        w.first = payload;
        w.first_by = fleet::name(b);
      } else {
        if (w.first_by != fleet::name(b)) markNontrivial();
        if (!sameFields(src.info, w.first.data(), payload.data(), payload.size() / std::max<uint32_t>(1, src.info.point_step), why))
          violation("builds-differ", why + "; " + w.first_by + " and " + fleet::name(b) + " decode the same bytes differently, " + src.what);
      }
    } catch (const std::exception& e) {
      sim::log("recv_throw", p.intact);
      if (p.intact) violation("decode-fails", std::string("decoding an intact cloud failed: ") + e.what() + "; received by " + fleet::name(b) + ", " + src.what);
      SIM_PROBE("damaged message rejected between intact ones");
    }
  }
}
}  // namespace
static void exec(const Scenario& s) {
  Net net;
  std::map<int64_t, std::vector<const Op*>> pubs;
  std::map<int64_t, std::vector<int64_t>> subs;
  for (auto& op : s.ops) {
    if (op.name == "sub") subs[op.arg(0) & 3].push_back(op.arg(1));
    else pubs[op.arg(0) & 3].push_back(&op);
  }
  if (subs.empty()) subs[0].push_back(0);
  net.open = int(pubs.size());
  net.q.resize(subs.size());
  std::vector<std::thread> th;
  size_t i = 0;
  for (auto& [k, v] : subs) {
    const auto* b = &v;
    const size_t me = i++;
    th.emplace_back([&net, me, b] { subscriber(net, me, *b); });
  }
  for (auto& [t, p] : pubs) {
    const auto* q = &p;
    th.emplace_back([q, &net] { publisher(*q, net); });
  }
  for (auto& t : th) t.join();
}
static void setup() { chunkPoints(); }
const Prop kProp = {"C19", gen, exec, setup,
  "publishers and 2-3 subscribers running four builds of the library (SSE4.1 as shipped, scalar, SSE2, AVX2 with fused multiply-add), restarted with other builds in between, over a network that drops, duplicates, delays and damages; every delivered cloud is compared with the published one and with what the other builds decoded; non-trivial: the same message was decoded by two different builds; distinct by event-log hash"};
