// The command-line bag cutter on a simulated disk: chains of runs over bags with arbitrary channels, cut bags, disk faults.
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include "../common/bag.hpp"
#include "../common/disk.hpp"
#include "../common/session.hpp"
using namespace sim;
using namespace cl;
using namespace bag;
int cutter_tool_main(int, char**);
// bag id seed style                       a bag. style as in the bag writer (1 chunks 2 summary 4 small chunks 16 index records 32 metadata records)
// msg id chan size seed                   a message of the bag's channel
// cut id at                               the bag was cut at that byte
// fault id op at count mode seed          disk fault of the next run. id: bag, 32+id: its folder
// full bytes                              free space of the next run
// run src dst n flags                     flags: 1 output named without extension, 2 n left at its default, 4 another name of the same file
constexpr int kBags = 4;
static const std::string kRaw = "sensor_msgs/msg/PointCloud2";
static void gen(Rng& r, Scenario& s) {
  session::genSched(r, s, haveShadow());
  s.sched.step_cap = 1600000000ull;
  const int bags = 1 + int(r.below(2));
  const auto bag = [&](int i) {
    s.ops.push_back({"bag", {i, int64_t(r.below(1u << 30)), int64_t(r.below(64))}});
    for (int m = int(r.below(3) ? r.below(12) : r.below(40)); m > 0; --m)
      s.ops.push_back({"msg", {i, int64_t(r.below(6)), r.below(6) ? r.range(0, 60) : r.below(3) ? r.range(0, 4000) : r.range(0, 40000), int64_t(r.below(1u << 30))}});
    if (r.below(8) == 0) s.ops.push_back({"cut", {i, r.below(2) ? r.range(0, 20000) : -r.range(1, 900)}});
  };
  for (int i = 0; i < bags; ++i) bag(i);
  int last = 0;
  for (int k = 1 + int(r.below(4)); k > 0; --k) {
    const int64_t src = r.below(3) ? int64_t(r.below(uint64_t(bags))) : last;
    int64_t dst = int64_t(r.below(kBags));
    if (dst == src && r.below(6)) dst = (src + 1 + int64_t(r.below(kBags - 1))) % kBags;
    for (int f = r.below(2) ? 0 : 1 + int(r.below(2)); f > 0; --f) switch (r.below(10)) {
        case 0: s.ops.push_back({"fault", {src, disk::OPEN_R, 0, 1, 0, int64_t(r.below(100))}}); break;
        case 1: s.ops.push_back({"fault", {dst, disk::OPEN_W, 0, 1, 0, int64_t(r.below(100))}}); break;
        case 2: s.ops.push_back({"fault", {src, disk::READ, r.range(0, 12), r.below(2) ? 1 : 1000, int64_t(r.below(2)), int64_t(r.below(1000))}}); break;
        case 3: case 4: s.ops.push_back({"fault", {dst, disk::WRITE, r.range(0, 6), r.below(2) ? 1 : 1000, int64_t(r.below(2)), int64_t(r.below(1000))}}); break;
        case 5: case 6: s.ops.push_back({"fault", {dst, disk::CLOSE, 0, 1, r.below(2) ? int64_t(disk::LOSE) : int64_t(disk::FAIL), int64_t(r.below(1000))}}); break;
        case 7: s.ops.push_back({"fault", {r.below(2) ? src : 32 + (r.below(2) ? src : dst), disk::STAT, r.range(0, 3), 1, 0, int64_t(r.below(100))}}); break;
        default: s.ops.push_back({"full", {r.below(3) ? r.range(0, 30000) : r.range(0, 1200)}});
      }
    s.ops.push_back({"run", {src, dst, r.below(4) ? r.range(1, 5) : r.below(4) ? r.range(1, 60) : r.range(-2, 0), int64_t(r.below(4) ? 0 : r.below(8))}});
    last = int(dst);
    if (r.below(8) == 0) bag(int(r.below(uint64_t(bags))));
  }
}
namespace {
std::map<int, Bag> g_bags;
Bag makeBag(uint64_t seed, uint64_t style) {
  Bag g;
  g.seed = seed;
  g.style = style;
  Rng r(sim::mix64(seed, 5));
  g.profile = r.below(4) ? "ros2" : "";
  uint16_t sid = uint16_t(1 + r.below(3)), cid = uint16_t(r.below(3));
  std::map<int, uint16_t> byKind;
  for (int i = 0, n = 1 + int(r.below(6)); i < n; ++i) {
    // 0 clouds, 1 compressed clouds, 2 others, 3 none, 4 a type whose name begins like a cloud's
    const int kind = r.below(2) ? 0 : int(r.below(5));
    Channel c;
    c.topic = "/t" + std::to_string(r.below(3)) + (r.below(3) ? "/" + std::to_string(i) : "");
    c.encoding = "cdr";
    if (kind != 3) {
      if (!byKind.count(kind) || r.below(6) == 0) {
        Schema s;
        s.name = kind == 0 ? kRaw : kind == 1 ? "point_cloud_interfaces/msg/CompressedPointCloud2" : kind == 4 ? kRaw + "Iterator" : "pkg/msg/T";
        s.encoding = "ros2msg";
        s.data = "# definition " + std::to_string(r.below(1000)) + "\nuint8 a\n";
        g.schemas[sid] = s;
        byKind[kind] = sid;
        sid = uint16_t(sid + 1 + r.below(4));
      }
      c.schema = byKind[kind];
    }
    for (int k = int(r.below(3)); k > 0; --k) c.meta["key" + std::to_string(k)] = std::string(r.below(30), char('a' + k));
    g.channels[cid] = c;
    g.order.push_back(cid);
    cid = uint16_t(cid + 1 + r.below(5));
  }
  if (style & 32) g.meta.push_back({"meta", {{"k", std::to_string(r.below(1000))}}});
  return g;
}
void addMsg(Bag& g, const Op& op) {
  Message m;
  m.chan = g.order[op.u(1) % g.order.size()];
  Rng r(sim::mix64(op.u(3), 9));
  m.seq = uint32_t(r.below(2) ? g.msgs.size() : r.next());
  m.log = r.below(3) ? 1700000000000000000ull + g.msgs.size() * 1000 : r.next() >> (1 + r.below(60));
  m.pub = r.below(2) ? m.log : r.next();
  m.data.resize(size_t(std::min<int64_t>(std::max<int64_t>(0, op.arg(2)), 100000)));
  for (auto& b : m.data) b = uint8_t(r.next());
  g.msgs.push_back(std::move(m));
  g.dirty = true;
}
void store(int id) {
  Bag& g = g_bags[id];
  if (!g.dirty) return;
  g.dirty = false;
  Bytes b = serialize(g);
  g.isCut = false;
  if (g.cut != INT64_MIN) {
    const int64_t size = int64_t(b.size());
    b.resize(size_t(std::max<int64_t>(0, std::min(size - 1, g.cut < 0 ? size + g.cut : g.cut % size))));
    g.isCut = true;
    countFault(F_STORE_CRASH);
  }
  disk::put(pathOf(id), b);
}
bool isCloud(const Bag& g, uint16_t chan) { return schemaOf(g, chan).name == kRaw; }
// empty: the output holds exactly the first n messages of every cloud channel
std::string verify(const Bag& in, int64_t n, const Bytes& file, Bag& out) {
  std::string why;
  if (!parseBag(file, out, why)) return "the output is not a complete bag: " + why;
  std::vector<const Message*> want;
  std::map<uint16_t, int64_t> count;
  for (auto& m : in.msgs)
    if (isCloud(in, m.chan) && count[m.chan]++ < n) want.push_back(&m);
  if (in.isCut ? out.msgs.size() > want.size() : out.msgs.size() != want.size())
    return "the output has " + std::to_string(out.msgs.size()) + " messages instead of " + std::to_string(want.size());
  std::map<uint16_t, uint16_t> chan;  // one channel for each
  std::set<uint16_t> used;
  for (size_t i = 0; i < out.msgs.size(); ++i) {
    const Message &a = *want[i], &b = out.msgs[i];
    const std::string which = " (message " + std::to_string(i) + " of " + std::to_string(want.size()) + ")";
    const Channel &ca = in.channels.at(a.chan), &cb = out.channels.at(b.chan);
    if (ca.topic != cb.topic) return "topic " + ca.topic + " became " + cb.topic + which;
    if (ca.encoding != cb.encoding) return "the message encoding became '" + cb.encoding + "'" + which;
    if (schemaOf(out, b.chan).name != kRaw) return "the type became '" + schemaOf(out, b.chan).name + "'" + which;
    if (a.seq != b.seq) return "the sequence number was changed" + which;
    if (a.log != b.log || a.pub != b.pub) return "a time was changed" + which;
    if (a.data != b.data) return "the message was changed" + which;
    if (auto it = chan.find(a.chan); it != chan.end() ? it->second != b.chan : !used.insert(b.chan).second) return "messages of one channel were mixed with those of another" + which;
    chan[a.chan] = b.chan;
  }
  if (in.isCut) return "";
  std::multiset<std::string> ta, tb;
  for (auto& [id, c] : in.channels)
    if (isCloud(in, id)) ta.insert(c.topic);
  for (auto& [id, c] : out.channels) tb.insert(c.topic);
  if (ta != tb) return "the output has " + std::to_string(tb.size()) + " channels, the input " + std::to_string(ta.size()) + " with clouds";
  return "";
}
struct Pending {
  std::vector<disk::Fault> faults;
  int64_t full = -1;
};
void run(const Op& op, const Pending& p, bool& nontrivial) {
  const int src = int(op.u(0) % kBags), dst = int(op.u(1) % kBags);
  const uint64_t flags = op.u(3);
  const int64_t n = flags & 2 ? 1000 : op.arg(2);
  for (auto& [i, g] : g_bags) store(i);
  const bool exists = g_bags.count(src);
  const std::string outPath = pathOf(dst);
  std::string outName = flags & 1 ? outPath.substr(0, outPath.size() - 5) : outPath;
  if (flags & 4) outName = dirOf(dst) + "/../b" + std::to_string(dst) + outName.substr(dirOf(dst).size());
  std::vector<std::string> args = {"mcap_cutter", "-f", pathOf(src), "-o", outName};
  if (!(flags & 2)) args.push_back("--max-messages=" + std::to_string(n));
  const bool inPlace = src == dst;
  std::map<std::string, Bytes> before;
  for (auto& f : disk::list()) disk::get(f, before[f]);
  std::string what;
  for (auto& a : args) what += a + " ";
  const size_t openBefore = disk::openFiles();
  disk::disarm();
  for (auto& f : p.faults)
    if (!(inPlace && f.op == disk::STAT)) disk::arm(f);
  disk::setFree(p.full);
  std::istringstream in("");
  std::ostringstream cout, cerr;
  auto *oi = std::cin.rdbuf(in.rdbuf()), *oo = std::cout.rdbuf(cout.rdbuf()), *oe = std::cerr.rdbuf(cerr.rdbuf());
  std::vector<char*> argv;
  for (auto& x : args) argv.push_back(x.data());
  argv.push_back(nullptr);
  bool ok = false;
  std::string err;
  try {
    ok = cutter_tool_main(int(args.size()), argv.data()) == 0;
  } catch (const std::exception& x) {
    err = std::string("exception: ") + x.what() + " ";
  }
  std::cin.rdbuf(oi);
  std::cout.rdbuf(oo);
  std::cerr.rdbuf(oe);
  std::cout.clear();
  std::cerr.clear();
  err += cerr.str().substr(0, 300);
  const size_t hits = disk::hits();
  disk::disarm();
  countEval();
  sim::log("run", uint64_t(ok), hits);
  Bytes now;
  const bool outThere = disk::get(outPath, now);
  sim::logBytes("out", now.data(), now.size());
  const std::string after = what + ", " + std::to_string(hits) + " disk faults; " + err;
  bool clouds = false;
  if (exists)
    for (auto& [id, c] : g_bags[src].channels) clouds |= isCloud(g_bags[src], id);
  const bool mayFail = !exists || inPlace || hits || n <= 0 || !clouds || g_bags[src].isCut;
  if (!ok && !mayFail) violation("false-failure", "the tool failed although nothing was wrong: " + after);
  if (ok && (!exists || n <= 0)) violation("false-success", "success was reported for an impossible request: " + after);
  if (ok && inPlace && clouds && !g_bags[src].isCut) violation("false-success", "success was reported for a bag that was its own output: " + after);
  const bool unchanged = outThere == (before.count(outPath) != 0) && (!outThere || now == before[outPath]);
  const bool nothing = ok && (!clouds || (exists && g_bags[src].isCut && unchanged));
  if (ok && nothing) {
    if (!unchanged) violation("overwritten", "the output was changed although there was nothing to extract: " + after);
  } else if (ok) {
    if (!outThere) violation("false-success", "success was reported but there is no output: " + after);
    Bag out;
    const std::string bad = verify(g_bags[src], n, now, out);
    if (!bad.empty()) violation(mayFail ? "false-success" : "not-extracted", "success was reported but " + bad + ": " + after);
    if (hits) SIM_PROBE("success in spite of a fault");
    if (!out.msgs.empty()) nontrivial = true;
    out.dirty = false;
    out.order.clear();
    g_bags[dst] = std::move(out);
  } else {
    SIM_PROBE("failure reported");
    if (!inPlace && !unchanged) {
      g_bags.erase(dst);  // what an unsuccessful run leaves behind is unspecified
      disk::remove(outPath);
    }
  }
  for (auto& [name, b] : before) {
    Bytes x;
    if (name == outPath && !inPlace) continue;
    if (!disk::get(name, x) || x != b) violation("input-modified", name + " was modified or removed by " + after);
  }
  for (auto& name : disk::list())
    if (name != outPath && !before.count(name)) violation("stray-file", name + " was left behind by " + after);
  if (disk::openFiles() != openBefore) violation("leak", std::to_string(disk::openFiles()) + " files are still open after " + after);
}
}  // namespace
static void exec(const Scenario& sc) {
  disk::reset();
  for (int i = 0; i < kBags; ++i) disk::mkdir(dirOf(i));
  disk::put("/simdisk/notes.txt", Bytes{'h', 'i'});
  g_bags.clear();
  Pending p;
  bool nontrivial = false;
  for (auto& op : sc.ops) {
    const int i = int(op.u(0) % kBags);
    if (op.name == "bag") g_bags[i] = makeBag(op.u(1), op.u(2));
    else if (op.name == "msg" && g_bags.count(i) && !g_bags[i].order.empty()) addMsg(g_bags[i], op);
    else if (op.name == "cut" && g_bags.count(i) && !g_bags[i].order.empty()) {
      g_bags[i].cut = op.arg(1);
      g_bags[i].dirty = true;
    } else if (op.name == "fault") {
      disk::Fault f;
      const uint64_t id = op.u(0);
      const int b = int(id % 16 % kBags);
      f.path = id >= 32 ? dirOf(b) : pathOf(b);
      f.op = int(op.u(1) % disk::kOps);
      f.at = op.arg(2);
      f.count = std::max<int64_t>(1, op.arg(3));
      f.mode = int(op.u(4) % 3);
      f.seed = op.u(5);
      p.faults.push_back(f);
    } else if (op.name == "full") {
      p.full = std::max<int64_t>(0, op.arg(0));
    } else if (op.name == "run") {
      run(op, p, nontrivial);
      p = Pending();
    }
  }
  if (disk::openFiles()) violation("leak", std::to_string(disk::openFiles()) + " files are still open");
  if (nontrivial) markNontrivial();
}
static void setup() {}
const Prop kProp = {"C21", gen, exec, setup,
  "1-2 bags with arbitrary channels (clouds, compressed clouds, other types, no type, look-alike types, several channels of one topic), schemas and messages, some cut short, cut to the first n clouds of each channel by chains of runs, outputs over existing files, in place and under another name of the same file, with failing, short and lost disk operations and a full disk; non-trivial: a run reported success and copied a message; distinct by event-log hash"};
