// A fleet in the middle of an upgrade: machines with the release that is already deployed (the library of the pinned
// commit, frozen in sim/base) and machines with this one send clouds to each other over a lossy network, keep recordings
// that are played back at the end, and are restarted with the other release.
#include <condition_variable>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <thread>
#include "../common/damage.hpp"
#include "../common/fleet.hpp"
#include "../common/rosmsg.hpp"
#include "../common/session.hpp"
using namespace sim;
using namespace cl;
using namespace Cloudini;
// machine t old                          publisher t restarts with that release
// sub s old                              a subscriber; a later one with the same s is what it restarts with
// enc  t kind seed cfg n                 what publisher t sends from now on
// pub  t cloudSeed form fault fk fa fc fd restart delay record
//      form 0,1 stream; 2 with a binary header; 3 message; 4 stream of version 2 (old releases only)
//      fault 0 none 1 lost 2 twice 3 damaged copy first; restart: bits of subscribers that restart before
static void gen(Rng& r, Scenario& s) {
  const bool sh = haveShadow();
  session::genSched(r, s, sh);
  s.sched.step_cap = sh ? 60000000 : 600000000;
  const bool real = chunkPoints() > 1000;
  const int pubs = r.below(3) == 0 ? 2 : 1;
  const int subs = 2 + int(r.below(2));
  for (int i = 0; i < subs; ++i) s.ops.push_back({"sub", {i, i < 2 ? i : int64_t(r.below(2))}});
  for (int t = 0; t < pubs; ++t) {
    s.ops.push_back({"machine", {t, int64_t(r.below(2))}});
    const int m = real ? 1 + int(r.below(2)) : 2 + int(r.below(5));
    int64_t last_cfg = 0;
    for (int i = 0; i < m; ++i) {
      if (i == 0 || r.below(2)) {
        int64_t kind, seed, cfg;
        session::genLayoutArgs(r, kind, seed, cfg, false);
        if (r.below(2)) cfg = int64_t(cfgOf(1, int(r.below(3)), 3 + int(r.below(3)), int(r.below(2))));
        const int64_t n = r.below(3) == 0 ? r.range(0, 9) : session::genPoints(r, real ? 2 : 3);
        s.ops.push_back({"enc", {t, kind, seed, cfg, n}});
        last_cfg = cfg;
      }
      if (i && r.below(3) == 0) s.ops.push_back({"machine", {t, int64_t(r.below(2))}});
      Op p{"pub", {t, int64_t(r.below(1u << 30)), int64_t(r.below(5)), 0, 0, 0, 0, 0, 0, 0, int64_t(r.below(3) == 0)}};
      (void)last_cfg;
      if (r.below(3) == 0) p.a[3] = r.range(1, 3);
      if (p.a[3] == 3) {
        const Op d = dmg::gen(r);
        for (int k = 0; k < 4; ++k) p.a[4 + k] = d.a[k];
      }
      if (r.below(4) == 0) p.a[8] = r.range(1, 7);
      if (r.below(4) == 0) p.a[9] = r.range(1, 3);
      s.ops.push_back(p);
    }
  }
  for (int i = 0; i < subs; ++i)
    if (r.below(2)) s.ops.push_back({"sub", {i, int64_t(r.below(2))}});
}
namespace {
const fleet::Build* release(int64_t old) {
  const fleet::Build* p = fleet::get(old & 1 ? fleet::kBase : 0);
  return p ? p : fleet::get(0);
}
const char* name(int64_t old) { return old & 1 ? "the deployed release" : "this release"; }
fleet::Info neutral(const EncodingInfo& e) {
  fleet::Info i;
  for (auto& f : e.fields) i.fields.push_back({f.name, f.offset, int(f.type), f.resolution.has_value(), f.resolution ? *f.resolution : 0.f});
  i.width = e.width;
  i.height = e.height;
  i.point_step = e.point_step;
  i.enc = int(e.encoding_opt);
  i.comp = int(e.compression_opt);
  i.version = e.version;
  i.threads = e.use_threads;
  return i;
}
bool sameHeader(const fleet::Info& h, const fleet::Info& w) {
  bool same = h.width == w.width && h.height == w.height && h.point_step == w.point_step && h.enc == w.enc && h.comp == w.comp && h.version == w.version && h.fields.size() == w.fields.size();
  for (size_t f = 0; same && f < h.fields.size(); ++f)
    same = h.fields[f].name == w.fields[f].name && h.fields[f].offset == w.fields[f].offset && h.fields[f].type == w.fields[f].type && h.fields[f].has_res == w.fields[f].has_res &&
           (!h.fields[f].has_res || h.fields[f].res == w.fields[f].res);
  return same;
}
enum Form { STREAM, BINARY = 2, MESSAGE = 3, VERSION2 = 4 };
struct Published {
  Bytes cloud;
  EncodingInfo info;
  rosmsg::Msg msg;
  fleet::Info header;  // what every reader must find
  int form = STREAM;
  bool old_writer = false;
  bool old_reads = true;  // the deployed release can carry such a cloud itself
  Bytes old_cloud;        // what it makes of it where that is not the published cloud
  std::string what;
};
struct Packet {
  Bytes bytes;
  bool intact = true;
  std::shared_ptr<Published> p;
  bool restart = false;
};
struct Net {
  std::mutex m;
  std::condition_variable cv;
  std::vector<std::deque<Packet>> q;
  std::vector<std::pair<int64_t, Packet>> held;
  std::vector<Packet> recorded;
  Bytes last;
  int open = 0;
  void deliver(const Packet& p, uint64_t restart) {
    for (size_t i = 0; i < q.size(); ++i) {
      q[i].push_back(p);
      q[i].back().restart = (restart >> i) & 1;
    }
  }
  void send(const Packet& p, int64_t delay, uint64_t restart) {
    std::lock_guard<std::mutex> l(m);
    if (delay > 0) {
      countFault(F_NET_DELAY);
      held.emplace_back(delay, p);
    } else {
      deliver(p, restart);
    }
    for (auto& h : held) --h.first;
    for (size_t i = 0; i < held.size();)
      if (held[i].first < 0) {
        deliver(held[i].second, 0);
        held.erase(held.begin() + i);
      } else ++i;
    cv.notify_all();
  }
  void done() {
    std::lock_guard<std::mutex> l(m);
    if (--open == 0) {
      for (auto& h : held) deliver(h.second, 0);
      bool first = true;
      for (auto& p : recorded) {  // years later: every recording is read by whatever runs then
        deliver(p, first ? 7 : 0);
        first = false;
      }
    }
    cv.notify_all();
  }
};
// The bytes a machine with that release sends. enc is its encoder, kept from cloud to cloud.
bool produce(const fleet::Build* b, std::unique_ptr<fleet::Encoder>& enc, const Published& p, Bytes& out) {
  const fleet::Info info = neutral(p.info);
  if (p.form == MESSAGE) {
    b->compress(rosmsg::write(p.msg, false), info, out);
    return true;
  }
  if (!enc) enc = b->encoder(info);
  enc->encode(p.cloud, out);
  if (p.form == BINARY || p.form == VERSION2) {
    fleet::Info h;
    const size_t head = b->header(out, h);
    Bytes bytes;
    if (p.form == BINARY) {
      b->binaryHeader(info, bytes);
      bytes.insert(bytes.end(), out.begin() + head, out.end());
    } else {
      if (out.size() < head + 4) return false;
      bytes.assign(out.begin(), out.begin() + head);
      const std::string text(bytes.begin(), bytes.end());
      const size_t at = text.find("version: 3\n");
      if (at == std::string::npos || text.compare(0, 12, "CLOUDINI_V03") != 0) return false;
      bytes[at + 9] = '2';
      bytes[11] = '2';
      bytes.insert(bytes.end(), out.begin() + head + 4, out.end());  // one chunk, no length
    }
    out.swap(bytes);
  }
  return true;
}
// empty when the reader got the published cloud
std::string consume(const fleet::Build* b, fleet::Decoder& dec, const Published& p, const Bytes& bytes, Bytes& out, Bytes& payload) {
  std::string why;
  if (p.form == MESSAGE) {
    b->decompress(bytes, out);
    rosmsg::Msg m;
    if (!rosmsg::read(out, m, false, why)) return "not a message: " + why;
    if (!rosmsg::sameMeta(p.msg, m, why)) return "the message differs: " + why;
    payload = m.data;
  } else {
    fleet::Info h;
    dec.decode(bytes, h, out);
    if (!sameHeader(h, p.header)) return "the header differs from what was written";
    payload = out;
  }
  if (!matches(p.info, p.old_cloud.empty() ? p.cloud : p.old_cloud, payload.data(), payload.size(), why)) return why;
  return "";
}
void publisher(const std::vector<const Op*>& ops, Net& net) {
  int64_t old = 0;
  std::unique_ptr<fleet::Encoder> enc;
  EncodingInfo info;
  Layout lay;
  int64_t n = 0;
  bool have = false;
  for (const Op* op : ops) {
    if (op->name == "machine") {
      enc.reset();  // whatever the machine knew is gone
      old = op->arg(1) & 1;
      continue;
    }
    if (op->name == "enc") {
      lay = makeLayout(op->u(1), op->u(2));
      n = std::min<int64_t>(std::max<int64_t>(0, op->arg(4)), int64_t(chunkPoints()) * 5);
      uint32_t w, h;
      dims(size_t(n), op->u(2), w, h);
      info = makeInfo(lay, op->u(3), w, h);
      enc.reset();
      have = true;
      continue;
    }
    if (!have) continue;
    auto pb = std::make_shared<Published>();
    pb->info = info;
    pb->cloud = makeCloud(lay, size_t(n), op->u(1), info.encoding_opt == EncodingOptions::LOSSY);
    pb->form = int(op->u(2) % 5);
    pb->old_writer = old;
    if (pb->form == 1) pb->form = STREAM;
    if (pb->form == VERSION2 && (!old || info.version != 3 || n == 0 || size_t(n) > std::min<size_t>(chunkPoints(), 32768))) pb->form = STREAM;
    if (pb->form == MESSAGE) {
      pb->msg = rosmsg::make(lay, pb->cloud, size_t(n), op->u(1), false);
      pb->msg.width = info.width;
      pb->msg.height = info.height;
      pb->msg.row_step = info.width * info.point_step;
    }
    pb->header = neutral(info);
    if (pb->form == VERSION2) pb->header.version = 2;
    pb->what = std::string(pb->form == BINARY ? "binary header, " : pb->form == MESSAGE ? "message, " : pb->form == VERSION2 ? "version 2, " : "") + "written by " + name(old) + ", " + describe(info);
    // What the deployed release makes of such a cloud on its own: its defects are not this release's to repeat.
    if (const fleet::Build* b = release(1)) {
      try {
        std::unique_ptr<fleet::Encoder> e;
        Bytes bytes, out, payload;
        auto d = b->decoder();
        pb->old_reads = produce(b, e, *pb, bytes);
        if (pb->old_reads && pb->form != MESSAGE) {
          fleet::Info h;
          b->header(bytes, h);
          if (old || pb->form == BINARY) pb->header = h;  // it rounds resolutions
        }
        if (pb->old_reads) {
          Published alone = *pb;
          if (pb->form != MESSAGE) b->header(bytes, alone.header);
          if (!consume(b, *d, alone, bytes, out, payload).empty()) {
            SIM_PROBE("the deployed release rounds the cloud");
            if (old) pb->old_cloud = payload;
          }
        }
      } catch (const std::exception&) {
        pb->old_reads = false;
      }
      if (!pb->old_reads) SIM_PROBE("cloud the deployed release cannot carry");
    }
    if (old && !pb->old_reads) continue;
    Packet p;
    p.p = pb;
    try {
      if (!produce(release(old), enc, *pb, p.bytes)) continue;
    } catch (const std::exception& e) {
      if (old) {
        enc.reset();
        continue;
      }
      violation("encode-fails", "encoding a legitimate cloud of " + std::to_string(n) + " points failed: " + e.what() + ", " + pb->what);
    }
    sim::logBytes("pub", p.bytes.data(), p.bytes.size());
    if (pb->form == VERSION2) SIM_PROBE("version 2 stream");
    if (pb->form == BINARY) SIM_PROBE("binary header");
    const int fault = int(op->u(3) % 4);
    Bytes other;
    {
      std::lock_guard<std::mutex> l(net.m);
      other = net.last;
      net.last = p.bytes;
      if (op->u(10) & 1) net.recorded.push_back(p);
    }
    if (fault == 1) {
      countFault(F_NET_DROP);
      continue;
    }
    if (fault == 2) {
      countFault(F_NET_DUP);
      net.send(p, 0, 0);
    }
    if (fault == 3) {
      Packet q = p;
      if (dmg::applyOp(q.bytes, *op, 4, pb->form == MESSAGE ? q.bytes.size() / 3 : dmg::headerEnd(q.bytes), &other)) {
        q.intact = false;
        countFault(F_NET_CORRUPT);
        net.send(q, 0, 0);
      }
    }
    net.send(p, op->arg(9), op->u(8));
  }
  enc.reset();
  net.done();
}
void subscriber(Net& net, size_t me, const std::vector<int64_t>& lives) {
  size_t life = 0;
  int64_t old = lives[0] & 1;
  std::unique_ptr<fleet::Decoder> dec = release(old)->decoder();
  Bytes out, payload;
  while (true) {
    Packet p;
    {
      std::unique_lock<std::mutex> l(net.m);
      net.cv.wait(l, [&] { return !net.q[me].empty() || net.open == 0; });
      if (net.q[me].empty()) break;
      p = std::move(net.q[me].front());
      net.q[me].pop_front();
    }
    if (p.restart) {
      SIM_PROBE("subscriber restarted");
      ++life;
      old = (lives[life % lives.size()] + (lives.size() == 1 ? int64_t(life) : 0)) & 1;
      dec = release(old)->decoder();
      if (life & 1) Bytes().swap(out);
    }
    const Published& src = *p.p;
    if (!p.intact) {  // the deployed release has known defects there; this one only must not be disturbed
      if (old || src.form == MESSAGE) continue;
      try {
        fleet::Info h;
        release(0)->header(p.bytes, h);
        if (uint64_t(h.width) * h.height * h.point_step > (4u << 20)) continue;
        Bytes bytes = p.bytes;
        dec->decode(bytes, h, out);
      } catch (const std::exception&) {
        SIM_PROBE("damaged message rejected between intact ones");
      }
      continue;
    }
    if (old && !src.old_reads) continue;
    try {
      const std::string why = consume(release(old), *dec, src, p.bytes, out, payload);
      countEval();
      if (old != src.old_writer) markNontrivial();
      sim::log("recv", me, fieldsHash(src.info, payload.data(), payload.size() / std::max<uint32_t>(1, src.info.point_step)));
      if (!why.empty()) violation("not-faithful", why + "; read by " + name(old) + ", " + src.what);
    } catch (const std::exception& e) {
      violation("decode-fails", std::string("reading an intact cloud failed: ") + e.what() + "; read by " + name(old) + ", " + src.what);
    }
  }
}
}  // namespace
static void exec(const Scenario& s) {
  Net net;
  std::map<int64_t, std::vector<const Op*>> pubs;
  std::map<int64_t, std::vector<int64_t>> subs;
  for (auto& op : s.ops) {
    if (op.name == "sub") subs[op.arg(0) & 3].push_back(op.arg(1));
    else pubs[op.arg(0) & 3].push_back(&op);
  }
  if (subs.empty()) subs[0].push_back(0);
  net.open = int(pubs.size());
  net.q.resize(subs.size());
  std::vector<std::thread> th;
  size_t i = 0;
  for (auto& [k, v] : subs) {
    const auto* b = &v;
    const size_t me = i++;
    th.emplace_back([&net, me, b] { subscriber(net, me, *b); });
  }
  for (auto& [t, p] : pubs) {
    const auto* q = &p;
    th.emplace_back([q, &net] { publisher(*q, net); });
  }
  for (auto& t : th) t.join();
}
static void setup() { chunkPoints(); }
const Prop kProp = {"C28", gen, exec, setup,
  "publishers and 2-3 subscribers running the deployed release or this one, restarted with the other one in between, over a network that drops, duplicates, delays and damages, with recordings played back at the end; streams with text and binary headers, messages, versions 2 to 5; every delivered cloud is compared with the published one; non-trivial: a cloud written by one release was read by the other; distinct by event-log hash"};
