// The command-line header inspector on a simulated disk: bags with arbitrary channels, damaged messages, cut bags, disk faults.
#include <algorithm>
#include <cmath>
#include <iostream>
#include <map>
#include <sstream>
#include "../common/bag.hpp"
#include "../common/damage.hpp"
#include "../common/disk.hpp"
#include "../common/rosmsg.hpp"
#include "../common/session.hpp"
#include "cloudini_lib/ros_msg_utils.hpp"
using namespace sim;
using namespace cl;
using namespace bag;
using namespace Cloudini;
int inspector_tool_main(int, char**);
// bag id seed style                       a bag. style as in the bag writer (1 chunks 2 summary 4 small chunks 16 index records 32 metadata records)
// other id chan size seed                 a message of any channel, with arbitrary content
// cloud id chan kind lseed n cseed cfg    a compressed cloud on one of the bag's compressed channels (if any)
// dmg id kind a c d                       damage to the compressed data or (kind + 64) to the serialised message of the last cloud
// cut id at                               the bag was cut at that byte
// fault id op at count mode seed          disk fault of the next run. id: bag, 32+id: its folder
// run id                                  the tool is run
constexpr int kBags = 2;
static const std::string kZip = "point_cloud_interfaces/msg/CompressedPointCloud2";
static void gen(Rng& r, Scenario& s) {
  session::genSched(r, s, haveShadow());
  s.sched.step_cap = 1600000000ull;
  const int bags = 1 + int(r.below(2));
  for (int i = 0; i < bags; ++i) {
    s.ops.push_back({"bag", {i, int64_t(r.below(1u << 30)), int64_t(r.below(64))}});
    for (int m = int(r.below(8)); m > 0; --m) {
      if (r.below(2)) {
        s.ops.push_back({"other", {i, int64_t(r.below(6)), r.below(6) ? r.range(0, 60) : r.range(0, 4000), int64_t(r.below(1u << 30))}});
        continue;
      }
      int64_t kind, seed, cfg;
      session::genLayoutArgs(r, kind, seed, cfg, false);
      s.ops.push_back({"cloud", {i, int64_t(r.below(6)), kind, seed, r.below(6) ? r.range(1, 60) : session::genPoints(r, 2), int64_t(r.below(1u << 30)), cfg}});
      if (r.below(5) == 0) {
        const Op d = dmg::gen(r);
        s.ops.push_back({"dmg", {i, d.a[0] + (r.below(3) ? 0 : 64), d.a[1], d.a[2], d.a[3]}});
      }
    }
    if (r.below(8) == 0) s.ops.push_back({"cut", {i, r.below(2) ? r.range(0, 20000) : -r.range(1, 900)}});
  }
  for (int k = 1 + int(r.below(3)); k > 0; --k) {
    const int64_t id = int64_t(r.below(kBags));
    if (r.below(3) == 0) switch (r.below(4)) {
        case 0: s.ops.push_back({"fault", {id, disk::OPEN_R, 0, 1, 0, int64_t(r.below(100))}}); break;
        case 1: s.ops.push_back({"fault", {32 + id, disk::STAT, 0, 1, 0, int64_t(r.below(100))}}); break;
        default: s.ops.push_back({"fault", {id, disk::READ, r.range(0, 12), r.below(2) ? 1 : 1000, int64_t(r.below(2)), int64_t(r.below(1000))}}); break;
      }
    s.ops.push_back({"run", {id}});
  }
}
namespace {
struct Truth {
  EncodingInfo info;
  Bytes stream, wire;
  rosmsg::Msg m;
  bool damaged = false, header = true;
};
std::map<int, Bag> g_bags;
std::map<int, std::vector<Truth>> g_truth;          // the clouds of a bag
std::map<int, std::map<size_t, size_t>> g_cloudOf;  // message -> cloud
Bag makeBag(uint64_t seed, uint64_t style) {
  Bag g;
  g.seed = seed;
  g.style = style;
  Rng r(sim::mix64(seed, 5));
  g.profile = r.below(4) ? "ros2" : "";
  uint16_t sid = uint16_t(1 + r.below(3)), cid = uint16_t(r.below(3));
  std::map<int, uint16_t> byKind;
  for (int i = 0, n = 1 + int(r.below(5)); i < n; ++i) {
    // 0 compressed clouds, 1 clouds, 2 others, 3 none, 4 a type whose name begins like theirs
    const int kind = r.below(2) ? 0 : int(r.below(5));
    Channel c;
    c.topic = "/t" + std::to_string(r.below(3)) + (r.below(3) ? "/" + std::to_string(i) : "");
    c.encoding = "cdr";
    if (kind != 3) {
      if (!byKind.count(kind) || r.below(6) == 0) {
        Schema s;
        s.name = kind == 0 ? kZip : kind == 1 ? "sensor_msgs/msg/PointCloud2" : kind == 4 ? kZip + "Stamped" : "pkg/msg/T";
        s.encoding = "ros2msg";
        s.data = "# definition " + std::to_string(r.below(1000)) + "\nuint8 a\n";
        g.schemas[sid] = s;
        byKind[kind] = sid;
        sid = uint16_t(sid + 1 + r.below(4));
      }
      c.schema = byKind[kind];
    }
    g.channels[cid] = c;
    g.order.push_back(cid);
    cid = uint16_t(cid + 1 + r.below(5));
  }
  if (style & 32) g.meta.push_back({"meta", {{"k", std::to_string(r.below(1000))}}});
  return g;
}
bool isZip(const Bag& g, uint16_t chan) { return schemaOf(g, chan).name == kZip; }
void addMessage(Bag& g, uint16_t chan, Bytes data, uint64_t seed) {
  Message m;
  m.chan = chan;
  Rng r(sim::mix64(seed, 9));
  m.seq = uint32_t(g.msgs.size());
  m.log = r.below(3) ? 1700000000000000000ull + g.msgs.size() * 1000 : r.next() >> (1 + r.below(60));
  m.pub = r.below(2) ? m.log : r.next();
  m.data = std::move(data);
  g.msgs.push_back(std::move(m));
  g.dirty = true;
}
void store(int id) {
  Bag& g = g_bags[id];
  if (!g.dirty) return;
  g.dirty = false;
  Bytes b = serialize(g);
  g.isCut = false;
  if (g.cut != INT64_MIN) {
    const int64_t size = int64_t(b.size());
    b.resize(size_t(std::max<int64_t>(0, std::min(size - 1, g.cut < 0 ? size + g.cut : g.cut % size))));
    g.isCut = true;
    countFault(F_STORE_CRASH);
  }
  disk::put(pathOf(id), b);
}
// the values behind "key: " at the beginning of a line (after indentation), in order
std::vector<std::string> values(const std::string& text, const std::string& key) {
  std::vector<std::string> out;
  std::istringstream in(text);
  for (std::string l; std::getline(in, l);) {
    l.erase(0, std::min(l.find_first_not_of(' '), l.size()));
    if (l.compare(0, key.size() + 2, key + ": ") == 0) out.push_back(l.substr(key.size() + 2));
  }
  return out;
}
// empty: the report describes this message
std::string verify(const std::string& text, const Bag& g, const Message& m, const EncodingInfo& e, size_t compressed) {
  std::string bad;
  const auto is = [&](const std::string& key, const std::string& want) {
    const auto v = values(text, key);
    if (v.empty()) bad += (bad.empty() ? "" : ", ") + key + " is missing";
    else if (v[0] != want) bad += (bad.empty() ? "" : ", ") + key + " is '" + v[0] + "' instead of '" + want + "'";
  };
  is("Topic", g.channels.at(m.chan).topic);
  is("Timestamp", std::to_string(m.log) + " ns");
  is("Message size", std::to_string(m.data.size()) + " bytes");
  is("Compressed data size", std::to_string(compressed) + " bytes");
  is("Version", std::to_string(e.version));
  is("Width", std::to_string(e.width));
  is("Height", std::to_string(e.height));
  is("Point step", std::to_string(e.point_step));
  if (uint64_t(e.width) * e.height < (1ull << 32)) is("Total points", std::to_string(uint64_t(e.width) * e.height));
  if (__uint128_t(e.width) * e.height * e.point_step < (1ull << 32)) is("Total data size", std::to_string(uint64_t(e.width) * e.height * e.point_step) + " bytes");
  is("Encoding option", ToString(e.encoding_opt));
  is("Compression option", ToString(e.compression_opt));
  is("Number of fields", std::to_string(e.fields.size()));
  const size_t at = text.find("Number of fields");
  const std::string tail = at == std::string::npos ? "" : text.substr(at);
  const auto names = values(tail, "Name"), offs = values(tail, "Offset"), types = values(tail, "Type"), ress = values(tail, "Resolution");
  if (names.size() != e.fields.size() || offs.size() != names.size() || types.size() != names.size() || ress.size() != names.size()) return bad + (bad.empty() ? "" : ", ") + std::to_string(names.size()) + " fields are listed";
  for (size_t i = 0; i < names.size(); ++i) {
    const auto& f = e.fields[i];
    if (names[i] != f.name || offs[i] != std::to_string(f.offset) || types[i] != ToString(f.type)) bad += (bad.empty() ? "" : ", ") + ("field " + f.name + " is listed as " + names[i] + " " + types[i] + " @" + offs[i]);
    if (f.resolution && std::fabs(strtod(ress[i].c_str(), nullptr) - *f.resolution) > 1e-4 * std::fabs(*f.resolution)) bad += (bad.empty() ? "" : ", ") + ("field " + f.name + " is listed with resolution " + ress[i]);
  }
  return bad;
}
void run(int id, const std::vector<disk::Fault>& faults, bool& nontrivial) {
  for (auto& [i, g] : g_bags) store(i);
  const bool exists = g_bags.count(id);
  std::vector<std::string> args = {"mcap_header_inspector", "-f", pathOf(id)};
  std::map<std::string, Bytes> before;
  for (auto& f : disk::list()) disk::get(f, before[f]);
  const size_t openBefore = disk::openFiles();
  disk::disarm();
  for (auto& f : faults) disk::arm(f);
  std::ostringstream cout, cerr;
  auto *oo = std::cout.rdbuf(cout.rdbuf()), *oe = std::cerr.rdbuf(cerr.rdbuf());
  std::vector<char*> argv;
  for (auto& x : args) argv.push_back(x.data());
  argv.push_back(nullptr);
  bool ok = false;
  std::string err;
  try {
    ok = inspector_tool_main(int(args.size()), argv.data()) == 0;
  } catch (const std::exception& x) {
    err = std::string("exception: ") + x.what() + " ";
  }
  std::cout.rdbuf(oo);
  std::cerr.rdbuf(oe);
  std::cout.clear();
  std::cerr.clear();
  err += cerr.str().substr(0, 300);
  const size_t hits = disk::hits();
  disk::disarm();
  countEval();
  const std::string text = cout.str();
  sim::log("run", uint64_t(ok), hits);
  sim::logBytes("out", reinterpret_cast<const uint8_t*>(text.data()), text.size());
  const std::string after = std::to_string(hits) + " disk faults; " + err;
  const bool shown = text.find("Number of fields") != std::string::npos;
  if (exists) {
    const Bag& g = g_bags[id];
    bool zips = false;
    for (auto& [c, x] : g.channels) zips |= isZip(g, c);
    const Message* first = nullptr;
    const Truth* t = nullptr;
    size_t at = 0;
    for (size_t i = 0; i < g.msgs.size() && !first; ++i)
      if (isZip(g, g.msgs[i].chan)) first = &g.msgs[i], at = i;
    if (first)
      if (auto it = g_cloudOf[id].find(at); it != g_cloudOf[id].end()) t = &g_truth[id][it->second];
    EncodingInfo e;
    size_t size = 0;
    bool readable = false;
    if (t && !t->damaged && t->header) {
      e = t->info;
      size = t->m.data.size();
      readable = true;
    } else if (first) {  // damaged or arbitrary content: what the library reads in it
      try {
        const auto pc = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(first->data.data(), first->data.size()));
        size = pc.data.size();
        ConstBufferView v(pc.data);
        e = DecodeHeader(v);
        readable = true;
      } catch (const std::exception&) {
      }
    }
    const bool mayFail = hits || g.isCut || !first || !(t && !t->damaged && t->header);
    if (!ok && !mayFail) violation("false-failure", "the tool failed although nothing was wrong: " + after);
    if (ok && zips && !shown && !g.isCut) violation("false-success", "success was reported but no header shown" + std::string(first ? "" : " (no message)") + ": " + after);
    if (shown && ok) {
      if (!first) violation("invented", "a header is shown for a bag without compressed clouds");
      if (!readable) violation("invented", "a header is shown for a message that has none");
      const std::string bad = verify(text, g, *first, e, size);
      if (!bad.empty()) violation("wrong-report", bad + ": " + after);
      if (t && !t->damaged) nontrivial = true;
      else SIM_PROBE("header of a damaged message shown as the library reads it");
    } else SIM_PROBE(ok ? "nothing to show" : "failure reported");
  } else if (ok) violation("false-success", "success was reported for a bag that does not exist: " + after);
  for (auto& [name, b] : before) {
    Bytes x;
    if (!disk::get(name, x) || x != b) violation("input-modified", name + " was modified or removed by " + after);
  }
  for (auto& name : disk::list())
    if (!before.count(name)) violation("stray-file", name + " was left behind by " + after);
  if (disk::openFiles() != openBefore) violation("leak", std::to_string(disk::openFiles()) + " files are still open after " + after);
}
}  // namespace
static void exec(const Scenario& sc) {
  disk::reset();
  for (int i = 0; i < kBags; ++i) disk::mkdir(dirOf(i));
  g_bags.clear();
  g_truth.clear();
  g_cloudOf.clear();
  std::vector<disk::Fault> faults;
  bool nontrivial = false;
  for (auto& op : sc.ops) {
    const int i = int(op.u(0) % kBags);
    if (op.name == "bag") {
      g_bags[i] = makeBag(op.u(1), op.u(2));
      g_truth[i].clear();
      g_cloudOf[i].clear();
    } else if (op.name == "other" && g_bags.count(i)) {
      Bytes d(size_t(std::min<int64_t>(std::max<int64_t>(0, op.arg(2)), 100000)));
      Rng r(op.u(3));
      for (auto& b : d) b = uint8_t(r.next());
      addMessage(g_bags[i], g_bags[i].order[op.u(1) % g_bags[i].order.size()], d, op.u(3));
    } else if (op.name == "cloud" && g_bags.count(i)) {
      Bag& g = g_bags[i];
      std::vector<uint16_t> zips;
      for (auto c : g.order)
        if (isZip(g, c)) zips.push_back(c);
      if (zips.empty()) continue;
      const Layout l = makeLayout(op.u(2), op.u(3));
      const size_t n = size_t(std::min<int64_t>(std::max<int64_t>(0, op.arg(4)), int64_t(chunkPoints()) * 3));
      Truth t;
      const EncodingInfo any = makeInfo(l, op.u(6), 1, 1);
      Bytes cloud = makeCloud(l, n, op.u(5), any.encoding_opt == EncodingOptions::LOSSY);
      t.m = rosmsg::make(l, cloud, n, op.u(5), true);
      t.info = makeInfo(l, op.u(6), t.m.width, t.m.height);
      t.m.data = n ? encodeFresh(t.info, cloud) : Bytes();
      t.header = n != 0;
      t.m.format = "cloudini/lossy/zstd";
      t.wire = rosmsg::write(t.m, true);
      g_cloudOf[i][g.msgs.size()] = g_truth[i].size();
      addMessage(g, zips[op.u(1) % zips.size()], t.wire, op.u(5));
      g_truth[i].push_back(std::move(t));
    } else if (op.name == "dmg" && g_bags.count(i) && !g_truth[i].empty()) {
      Truth& t = g_truth[i].back();
      size_t at = 0;
      for (auto& [m, k] : g_cloudOf[i])
        if (k == g_truth[i].size() - 1) at = m;
      Op d("dmg", {int64_t(op.u(1) & 63), op.arg(2), op.arg(3), op.arg(4)});
      bool hit;
      if (op.u(1) & 64) {
        hit = dmg::applyOp(t.wire, d, 0, 4, nullptr);
      } else {
        hit = dmg::applyOp(t.m.data, d, 0, dmg::headerEnd(t.m.data), nullptr);
        if (hit) t.wire = rosmsg::write(t.m, true);
      }
      if (hit) {
        countFault(F_NET_CORRUPT);
        t.damaged = true;
        g_bags[i].msgs[at].data = t.wire;
        g_bags[i].dirty = true;
      }
    } else if (op.name == "cut" && g_bags.count(i)) {
      g_bags[i].cut = op.arg(1);
      g_bags[i].dirty = true;
    } else if (op.name == "fault") {
      disk::Fault f;
      const int b = int(op.u(0) % 16 % kBags);
      f.path = op.u(0) >= 32 ? dirOf(b) : pathOf(b);
      f.op = int(op.u(1) % disk::kOps);
      f.at = op.arg(2);
      f.count = std::max<int64_t>(1, op.arg(3));
      f.mode = int(op.u(4) % 3);
      f.seed = op.u(5);
      faults.push_back(f);
    } else if (op.name == "run") {
      run(i, faults, nontrivial);
      faults.clear();
    }
  }
  if (nontrivial) markNontrivial();
}
static void setup() { chunkPoints(); }
const Prop kProp = {"C27", gen, exec, setup,
  "runs of the header inspector on bags with arbitrary channels (compressed clouds, clouds, other, look-alike and no types, shared topics), damaged and arbitrary messages, cut bags and failing or short disk operations; non-trivial: the header of an intact message was shown; distinct by event-log hash"};
