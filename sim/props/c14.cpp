// The bag converter (library class and command-line tool) on a simulated disk: repeated conversions with one converter object,
// over existing outputs, of bags that are cut or contain messages that cannot be converted, with faults of disk and library.
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include "../common/bag.hpp"
#include "../common/damage.hpp"
#include "../common/disk.hpp"
#include "../common/rosmsg.hpp"
#include "../common/session.hpp"
#include "cloudini_lib/ros_msg_utils.hpp"
#include "mcap_converter.hpp"
using namespace sim;
using namespace cl;
using namespace Cloudini;
int bag_tool_main(int, char**);
// bag id seed style                       a bag. style: 1 chunks 2 summary 4 small chunks 8 metadata.yaml 16 index records 32 metadata records
// msg id chan kind seed n cseed cfg       a message of the bag's channel
// dmg id kind a c d                       damages the last message of the bag
// cut id at                               the bag was cut at that byte
// fault id op at count mode seed          disk fault of the next run. id: bag, 16+id: metadata.yaml, 32+id: its folder
// full bytes                              free space of the next run
// lib type at                             0 compressor 1 decompressor 2 thread start fails at that call of the next run
// run conv src dst mode res prof comp flags   mode 0 encode 1 decode 2 tool encode 3 tool decode
//   flags: 1 viz 2 open again 4 input named by its folder 8 no output name 16 no -y 32 profile in a file
constexpr int kBags = 5;
static const std::string kRaw = "sensor_msgs/msg/PointCloud2", kComp = "point_cloud_interfaces/msg/CompressedPointCloud2";
struct Profile {
  const char* text;
  bool valid;
  std::vector<std::pair<const char*, float>> res;
};
static const Profile kProfiles[] = {
  {"xyz:0.01", true, {{"x", 0.01f}, {"y", 0.01f}, {"z", 0.01f}}},
  {"xyz:0.002; intensity:0.1; timestamp:remove", true, {{"x", 0.002f}, {"y", 0.002f}, {"z", 0.002f}, {"intensity", 0.1f}, {"timestamp", 0}}},
  {" intensity : remove ;x: 0.02", true, {{"intensity", 0}, {"x", 0.02f}}},
  {"ring:remove;y:remove", true, {{"ring", 0}, {"y", 0}}},
  {"f0:remove; f1:0.001; v:0.01; u:0.004;timestamp:0.001 ", true, {{"f0", 0}, {"f1", 0.001f}, {"v", 0.01f}, {"u", 0.004f}, {"timestamp", 0.001f}}},
  {"lat:0.001; lon:0.05; f2:0.01; rgb:remove; q3:remove", true, {{"lat", 0.001f}, {"lon", 0.05f}, {"f2", 0.01f}, {"rgb", 0}, {"q3", 0}}},
  {"z:0.1;f0:0.01;ring:0.5", true, {{"z", 0.1f}, {"f0", 0.01f}, {"ring", 0.5f}}},
  {"x:0.01; xyz", false, {}},
  {"x:abc", false, {}},
  {"x:0.01;;y:0.1", false, {}},
  {"xyz:0,01", false, {}},
  {"intensity:0.1; x:0.001m", false, {}},
  {"z:nan", false, {}},
  {"y : -0.01", false, {}},
};
constexpr int kNProfiles = 14;
static const double kRes[] = {0, 0.001, 0.01, 0.0005, 0.02};  // 0: none (library only)
static void gen(Rng& r, Scenario& s) {
  session::genSched(r, s, haveShadow());
  s.sched.step_cap = 1600000000ull;
  const int bags = 1 + int(r.below(2));
  const auto bag = [&](int i) {
    const int64_t seed = int64_t(r.below(1u << 30));
    s.ops.push_back({"bag", {i, seed, int64_t(r.below(64))}});
    for (int m = int(r.below(9)); m > 0; --m) {
      s.ops.push_back({"msg", {i, int64_t(r.below(6)), int64_t(r.below(kLayoutKinds)), int64_t(r.below(1u << 30)), r.below(8) == 0 ? session::genPoints(r, 2) : r.range(0, 20), int64_t(r.below(1u << 30)), int64_t(r.below(kCfgs))}});
      if (r.below(30) == 0) {
        Op d = dmg::gen(r);
        d.a.insert(d.a.begin(), i);
        s.ops.push_back(d);
      }
    }
    if (r.below(9) == 0) s.ops.push_back({"cut", {i, r.below(2) ? r.range(0, 20000) : -r.range(1, 900)}});
  };
  for (int i = 0; i < bags; ++i) bag(i);
  int last = 0;
  const int sticky = int(r.below(3));
  for (int k = 1 + int(r.below(4)); k > 0; --k) {
    int64_t src = r.below(3) ? int64_t(r.below(uint64_t(bags))) : last, dst = r.below(40) == 0 ? src : int64_t(r.below(kBags));
    if (dst == src && r.below(8)) dst = (src + 1 + int64_t(r.below(kBags - 1))) % kBags;
    for (int f = r.below(2) ? 0 : 1 + int(r.below(2)); f > 0; --f) switch (r.below(14)) {
        case 0: s.ops.push_back({"fault", {src, disk::OPEN_R, 0, 1, 0, int64_t(r.below(100))}}); break;
        case 1: s.ops.push_back({"fault", {dst, disk::OPEN_W, 0, 1, 0, int64_t(r.below(100))}}); break;
        case 2: s.ops.push_back({"fault", {src, disk::READ, r.range(0, 12), r.below(2) ? 1 : 1000, int64_t(r.below(2)), int64_t(r.below(1000))}}); break;
        case 3: case 4: s.ops.push_back({"fault", {dst, disk::WRITE, r.range(0, 6), r.below(2) ? 1 : 1000, int64_t(r.below(2)), int64_t(r.below(1000))}}); break;
        case 5: case 6: s.ops.push_back({"fault", {dst, disk::CLOSE, 0, 1, r.below(2) ? int64_t(disk::LOSE) : int64_t(disk::FAIL), int64_t(r.below(1000))}}); break;
        case 7: s.ops.push_back({"fault", {16 + (r.below(2) ? src : dst), int64_t(r.below(disk::kOps)), r.range(0, 2), 1, int64_t(r.below(3)), int64_t(r.below(100))}}); break;
        case 8: s.ops.push_back({"fault", {r.below(2) ? src : 32 + (r.below(2) ? src : dst), r.below(2) ? disk::STAT : disk::READDIR, r.range(0, 3), 1, 0, int64_t(r.below(100))}}); break;
        case 9: case 10: case 11: s.ops.push_back({"lib", {int64_t(r.below(3)), r.range(0, 6)}}); break;
        default: s.ops.push_back({"full", {r.below(3) ? r.range(0, 30000) : r.range(0, 1200)}});
      }
    const int64_t mode = int64_t(r.below(4));
    s.ops.push_back({"run", {sticky ? sticky - 1 : int64_t(r.below(3)), src, dst, mode, int64_t(r.below(5)), r.below(2) ? 0 : int64_t(1 + r.below(kNProfiles)), int64_t(r.below(2)), int64_t(r.below(64)) & ~int64_t(r.below(4) ? 1 : 0)}});
    last = int(dst);
    if (r.below(8) == 0) bag(int(r.below(uint64_t(bags))));
  }
}
namespace bag {
struct Cloud {
  rosmsg::Msg m;       // metadata; the points of a raw message
  EncodingInfo want;   // of a compressed message: what it was encoded with ...
  Bytes orig;          // ... and from what
  bool vague = false;  // content not known
};
}
using namespace bag;
namespace {
// --- bags
std::map<int, Bag> g_bags;
int g_version = 0;
Bag makeBag(uint64_t seed, uint64_t style) {
  Bag g;
  g.seed = seed;
  g.style = style;
  Rng r(sim::mix64(seed, 3));
  g.profile = r.below(4) ? "ros2" : "";
  const bool large = r.below(6) == 0;  // many channels and schemas
  const int n = large ? 6 + int(r.below(20)) : 1 + int(r.below(5));
  std::map<int, uint16_t> byKind;
  uint16_t sid = uint16_t(1 + r.below(3)), cid = uint16_t(r.below(3));
  const auto schema = [&](int kind) -> uint16_t {
    if (kind == 3) return 0;
    if (byKind.count(kind)) return byKind[kind];
    Schema s;
    static const char* const near[] = {"sensor_msgs/msg/PointCloud", "sensor_msgs/msg/PointCloud2x", "sensor_msgs/PointCloud2", "pkg/sensor_msgs/msg/PointCloud2", "point_cloud_interfaces/msg/CompressedPointCloud", ""};
    s.name = kind == 0 ? kRaw : kind == 1 ? kComp : r.below(8) ? "pkg/msg/T" + std::to_string(r.below(100)) : near[r.below(6)];
    s.encoding = kind < 2 || r.below(4) ? "ros2msg" : r.below(2) ? "ros2idl" : "";
    if (kind < 2 || r.below(8)) s.data = "# definition " + std::to_string(r.below(1000)) + "\nuint8 a\n";
    const uint16_t id = sid;
    sid = uint16_t(sid + 1 + r.below(large && r.below(4) == 0 ? 2000 : 4));
    g.schemas[id] = s;
    return byKind[kind] = id;
  };
  for (int i = 0; i < n; ++i) {
    const int kind = r.below(3) ? int(r.below(2)) : 2 + int(r.below(large ? 8 : 2));
    Channel c;
    c.topic = "/topic" + std::to_string(r.below(4));
    if (r.below(4)) c.topic += "/" + std::to_string(i);
    c.topic += "abcdefghij"[kind];  // the messages of a topic have one type
    c.encoding = kind < 2 || r.below(6) ? "cdr" : "json";
    c.schema = schema(kind);
    if (kind < 2 && r.below(10) == 0) byKind.erase(kind);  // the bags of two recordings were merged
    for (int k = int(r.below(3)); k > 0; --k) c.meta["key" + std::to_string(k)] = std::string(r.below(30), char('a' + k));
    if (r.below(3) == 0) c.meta["offered_qos_profiles"] = "- history: 3\n  depth: 0\n";
    g.channels[cid] = c;
    g.order.push_back(cid);
    cid = uint16_t(cid + 1 + r.below(large && r.below(4) == 0 ? 2000 : 5));
  }
  if (r.below(4) == 0)
    for (int k = large ? int(r.below(8)) : 1; k > 0; --k) schema(1 + k);
  if (style & 32)
    for (int k = 1 + int(r.below(3)); k > 0; --k) {
      Map m;
      for (int j = int(r.below(3)); j >= 0; --j) m["k" + std::to_string(j)] = "v" + std::to_string(r.below(1000));
      g.meta.push_back({"meta" + std::to_string(r.below(2)), m});
    }
  g.version = ++g_version;
  return g;
}
void addMsg(Bag& g, const Op& op) {
  Message m;
  m.chan = g.order[op.u(1) % g.order.size()];
  Rng r(sim::mix64(op.u(5), 9));
  m.seq = uint32_t(r.below(2) ? g.msgs.size() : r.next());
  m.log = r.below(3) ? 1700000000000000000ull + g.msgs.size() * 1000 : r.next() >> (1 + r.below(60));
  m.pub = r.below(2) ? m.log : r.next();
  const std::string& type = schemaOf(g, m.chan).name;
  if (type == kRaw || type == kComp) {
    Layout lay = makeLayout(op.u(2), op.u(3));
    for (auto& f : lay.fields)
      if (f.type == FieldType::FLOAT32 || f.type == FieldType::FLOAT64) f.resolution = 0.0005f;  // values every resolution here can represent
    const size_t n = size_t(std::min<int64_t>(std::max<int64_t>(0, op.arg(4)), int64_t(chunkPoints()) * 3));
    auto c = std::make_shared<Cloud>();
    c->m = rosmsg::make(lay, makeCloud(lay, n, op.u(5), true), n, op.u(5), true);
    if (n == 0 && r.below(2)) {
      c->m.width = 0;
      c->m.height = uint32_t(r.below(3));
    }
    if (type == kComp) {
      for (auto& f : lay.fields)
        if (r.below(3) == 0) f.resolution.reset();
      c->want = makeInfo(lay, op.u(6), c->m.width, c->m.height);
      c->want.use_threads = false;
      c->orig = c->m.data;
      const Bytes raw = rosmsg::write(c->m, false);
      auto pc = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(raw.data(), raw.size()));
      EncodingInfo ei = cloudini_ros::toEncodingInfo(pc);
      ei.encoding_opt = c->want.encoding_opt;
      ei.compression_opt = c->want.compression_opt;
      ei.version = c->want.version;
      ei.use_threads = false;
      for (size_t i = 0; i < ei.fields.size(); ++i) ei.fields[i].resolution = lay.fields[i].resolution;
      cloudini_ros::convertPointCloud2ToCompressedCloud(pc, ei, m.data);
    } else {
      m.data = rosmsg::write(c->m, false);
    }
    m.cloud = c;
  } else {
    m.data.resize(r.below(5) ? r.below(60) : r.below(3000));
    for (auto& b : m.data) b = uint8_t(r.next());
  }
  g.msgs.push_back(std::move(m));
  g.dirty = true;
}
std::string metaYaml(const Bag& g, int id) {
  std::string s = "rosbag2_bagfile_information:\n  version: 8\n  storage_identifier: mcap\n  relative_file_paths:\n    - bag_" + std::to_string(id) + ".mcap\n  topics_with_message_count:\n";
  for (auto& [cid, c] : g.channels) {
    auto sc = g.schemas.find(c.schema);
    s += "    - topic_metadata:\n        name: " + c.topic + "\n        type: " + (sc == g.schemas.end() ? std::string("x/msg/X") : sc->second.name) + "\n        serialization_format: cdr\n      message_count: 3\n";
  }
  return s + "  files:\n    - path: bag_" + std::to_string(id) + ".mcap\n      message_count: 7\n";
}
// what the metadata of the converted bag must be, line by line
std::string convertedYaml(const std::string& in, bool encode, const std::string& name) {
  std::istringstream is(in);
  std::vector<std::string> lines;
  for (std::string l; std::getline(is, l);) lines.push_back(l);
  std::string old;
  for (size_t i = 0; i + 1 < lines.size() && old.empty(); ++i)
    if (lines[i].find("relative_file_paths:") != std::string::npos) old = lines[i + 1].substr(lines[i + 1].find("- ") + 2);
  std::string out;
  const auto ends = [](const std::string& l, const std::string& e) { return l.size() >= e.size() && l.compare(l.size() - e.size(), e.size(), e) == 0; };
  for (auto& l : lines) {
    const std::string from = encode ? kRaw : kComp, to = encode ? kComp : kRaw;
    if (ends(l, "type: " + from)) l = l.substr(0, l.size() - from.size()) + to;
    else if (!old.empty() && (ends(l, "- " + old) || ends(l, "path: " + old))) l = l.substr(0, l.size() - old.size()) + name;
    out += l + "\n";
  }
  return out;
}
void store(int id) {
  Bag& g = g_bags[id];
  if (!g.dirty) return;
  g.dirty = false;
  Bytes b = serialize(g);
  g.isCut = false;
  if (g.cut != INT64_MIN) {
    const int64_t size = int64_t(b.size());
    const int64_t k = std::max<int64_t>(0, std::min(size - 1, g.cut < 0 ? size + g.cut : g.cut % size));
    b.resize(size_t(k));
    g.isCut = true;
    countFault(F_STORE_CRASH);
  }
  disk::put(pathOf(id), b);
  if (g.style & 8) {
    const std::string y = metaYaml(g, id);
    disk::put(dirOf(id) + "/metadata.yaml", Bytes(y.begin(), y.end()));
  } else {
    disk::remove(dirOf(id) + "/metadata.yaml");
  }
}
// --- the check of one converted bag
struct Setup {
  bool encode = true, viz = false;
  std::optional<float> res;
  std::map<std::string, float> profile;
};
std::string definitionOf(const std::string& text) {  // fields of a message definition, without comments
  std::string out;
  std::istringstream is(text);
  for (std::string l; std::getline(is, l) && l.compare(0, 4, "====") != 0;) {
    l = l.substr(0, l.find('#'));
    std::istringstream w(l);
    std::string t, n;
    if (w >> t >> n) {
      if (t == "std_msgs/Header") t = "std_msgs/msg/Header";
      const size_t slash = t.rfind('/');
      out += (slash == std::string::npos ? t : t.substr(slash + 1)) + " " + n + ";";
    }
  }
  return out;
}
const char* const kDefinition[] = {
  "Header header;uint32 height;uint32 width;PointField[] fields;bool is_bigendian;uint32 point_step;uint32 row_step;uint8[] data;bool is_dense;",
  "Header header;uint32 height;uint32 width;PointField[] fields;bool is_bigendian;uint32 point_step;uint32 row_step;uint8[] compressed_data;bool is_dense;string format;"};
std::string sameSchema(const Schema& in, const Schema& out, bool encode) {
  const bool conv = in.name == (encode ? kRaw : kComp);
  if (!conv) return in == out ? "" : "schema " + in.name + " was changed to " + out.name + ", " + out.encoding + ", " + std::to_string(in.data.size()) + " -> " + std::to_string(out.data.size()) + " bytes of text";
  if (out.name != (encode ? kComp : kRaw)) return "the schema of converted messages is named " + out.name;
  if (out.encoding != in.encoding) return "the encoding of schema " + in.name + " was changed";
  if (definitionOf(out.data) != kDefinition[encode]) return "the definition of schema " + out.name + " is '" + definitionOf(out.data) + "'";
  return "";
}
std::string sameChannel(const Bag& a, const Channel& in, const Bag& b, const Channel& out, bool encode) {
  if (in.topic != out.topic) return "topic " + in.topic + " became " + out.topic;
  if (in.encoding != out.encoding) return "the message encoding of " + in.topic + " became '" + out.encoding + "'";
  if (in.meta != out.meta) return "the channel metadata of " + in.topic + " was changed";
  if ((in.schema == 0) != (out.schema == 0)) return "the schema of " + in.topic + " was added or dropped";
  return in.schema ? sameSchema(a.schemas.at(in.schema), b.schemas.at(out.schema), encode) : "";
}
std::string checkCloud(const Message& in, Message& out, const Setup& s) {
  const Cloud& c = *in.cloud;
  auto n = std::make_shared<Cloud>();
  out.cloud = n;
  if (c.vague) {
    n->vague = true;
    return "";
  }
  std::string why;
  if (!rosmsg::read(out.data, n->m, s.encode, why)) return "the converted message is malformed: " + why;
  if (n->m.row_step != n->m.point_step * n->m.width) return "row_step of the converted message is " + std::to_string(n->m.row_step);
  if (s.encode) {
    rosmsg::Msg expect = c.m;
    EncodingInfo want = rosmsg::infoOf(c.m);
    want.encoding_opt = EncodingOptions::LOSSY;
    for (size_t i = expect.fields.size(); i-- > 0;) {
      auto p = s.profile.find(expect.fields[i].name);
      const FieldType t = want.fields[i].type;
      if (p != s.profile.end() && p->second == 0) {
        expect.fields.erase(expect.fields.begin() + long(i));
        want.fields.erase(want.fields.begin() + long(i));
      } else if (t == FieldType::FLOAT32 || t == FieldType::FLOAT64) {
        if (p != s.profile.end()) want.fields[i].resolution = p->second;
        else if (s.res && t == FieldType::FLOAT32) want.fields[i].resolution = *s.res;
      }
    }
    if (s.viz && expect.width * expect.height >= n->m.width * n->m.height) {
      if (n->m.width * n->m.height != expect.width * expect.height) expect.is_dense = n->m.is_dense;
      expect.width = n->m.width;
      expect.height = n->m.height;
    }
    if (!rosmsg::sameMeta(expect, n->m, why)) return "converted message: " + why + ", " + rosmsg::describe(n->m) + " from " + rosmsg::describe(c.m);
    if (n->m.format != "cloudini") return "the format of the converted message is '" + n->m.format.substr(0, 40) + "'";
    const size_t points = size_t(n->m.width) * n->m.height;
    Bytes dec;
    if (points || !n->m.data.empty()) try {
        ConstBufferView v(n->m.data.data(), n->m.data.size());
        const EncodingInfo h = DecodeHeader(v);
        PointcloudDecoder d;
        d.decode(h, v, dec);
      } catch (const std::exception& x) {
        return std::string("the converted cloud does not decode: ") + x.what();
      }
    if (s.viz) {
      if (dec.size() != points * n->m.point_step) return "the converted cloud has " + std::to_string(dec.size()) + " bytes instead of " + std::to_string(points * n->m.point_step);
      n->orig = dec;
      n->want = rosmsg::infoOf(n->m);
    } else {
      if (points && !matches(want, c.m.data, dec.data(), dec.size(), why)) return why + " (encoding " + rosmsg::describe(c.m) + ")";
      n->orig = c.m.data;
      n->want = want;
    }
  } else {
    if (!rosmsg::sameMeta(c.m, n->m, why)) return "converted message: " + why + ", " + rosmsg::describe(n->m) + " from " + rosmsg::describe(c.m);
    const size_t points = size_t(n->m.width) * n->m.height;
    if (n->m.data.size() != points * n->m.point_step) return "the converted cloud has " + std::to_string(n->m.data.size()) + " bytes instead of " + std::to_string(points * n->m.point_step);
    if (points && !matches(c.want, c.orig, n->m.data.data(), n->m.data.size(), why)) return why + " (decoding " + rosmsg::describe(c.m) + ")";
  }
  return "";
}
// empty: the output is the converted form of the input. out is completed for later conversions.
std::string verify(const Bag& in, const Bytes& file, const Setup& s, Bag& out) {
  std::string why;
  if (!parseBag(file, out, why)) return "the output is not a complete bag: " + why;
  if (out.profile != in.profile) return "the profile of the bag became '" + out.profile + "'";
  if (in.isCut ? out.msgs.size() > in.msgs.size() : out.msgs.size() != in.msgs.size())
    return "the output has " + std::to_string(out.msgs.size()) + " messages, the input " + std::to_string(in.msgs.size());
  for (size_t i = 0; i < out.msgs.size(); ++i) {
    const Message& a = in.msgs[i];
    Message& b = out.msgs[i];
    const std::string which = " (message " + std::to_string(i) + " of " + std::to_string(in.msgs.size()) + ")";
    why = sameChannel(in, in.channels.at(a.chan), out, out.channels.at(b.chan), s.encode);
    if (!why.empty()) return why + which;
    if (a.seq != b.seq) return "the sequence number was changed" + which;
    if (a.log != b.log || a.pub != b.pub) return "a time was changed" + which;
    if (schemaOf(in, a.chan).name != (s.encode ? kRaw : kComp)) {
      if (a.data != b.data) return "a message of type '" + schemaOf(in, a.chan).name + "' was changed" + which;
      b.cloud = a.cloud;
    } else {
      why = checkCloud(a, b, s);
      if (!why.empty()) return why + which;
    }
  }
  if (in.isCut) return "";
  if (out.channels.size() != in.channels.size()) return "the output has " + std::to_string(out.channels.size()) + " channels, the input " + std::to_string(in.channels.size());
  for (auto& [id, c] : in.channels) {
    bool found = false;
    for (auto& [oid, o] : out.channels) found |= sameChannel(in, c, out, o, s.encode).empty();
    if (!found) return "the channel of " + c.topic + " is not in the output as it was";
  }
  if (out.schemas.size() != in.schemas.size()) return "the output has " + std::to_string(out.schemas.size()) + " schemas, the input " + std::to_string(in.schemas.size());
  for (auto& [id, c] : in.schemas) {
    bool found = false;
    for (auto& [oid, o] : out.schemas) found |= sameSchema(c, o, s.encode).empty();
    if (!found) return "schema " + c.name + " is not in the output";
  }
  auto ma = in.meta, mb = out.meta;
  std::sort(ma.begin(), ma.end());
  std::sort(mb.begin(), mb.end());
  if (ma != mb) return "the metadata records differ (" + std::to_string(mb.size()) + " instead of " + std::to_string(ma.size()) + ")";
  return "";
}
struct Converter {
  std::unique_ptr<McapConverter> c;
  int src = -1, version = -1;
  std::map<std::string, float> profile;
  void fresh() { *this = Converter(); c = std::make_unique<McapConverter>(); }
};
Converter g_conv[2];
struct Pending {
  std::vector<disk::Fault> faults;
  int64_t full = -1;
  std::vector<std::pair<int, int64_t>> lib;
};
void run(const Op& op, const Pending& p, bool& nontrivial) {
  const int conv = int(op.u(0) % 3), src = int(op.u(1) % kBags), dst = int(op.u(2) % kBags), mode = int(op.u(3) % 4);
  const bool cli = mode >= 2, wantViz = op.u(7) & 1;
  Setup s;
  s.encode = mode % 2 == 0;
  s.viz = s.encode && wantViz;
  double res = kRes[op.u(4) % 5];
  if (cli && res == 0) res = 0.001;
  if (res > 0) s.res = float(res);
  const Profile* prof = s.encode && op.u(5) % (kNProfiles + 1) ? &kProfiles[op.u(5) % (kNProfiles + 1) - 1] : nullptr;
  const CompressionOption comp = op.u(6) & 1 ? CompressionOption::ZSTD : CompressionOption::NONE;
  for (auto& [i, g] : g_bags) store(i);
  const bool exists = g_bags.count(src);
  Bytes yaml;
  const bool hasYaml = disk::get(dirOf(src) + "/metadata.yaml", yaml);
  // arguments of the tool
  std::vector<std::string> args;
  std::string outPath = pathOf(dst), outDir = dirOf(dst);
  const bool byDir = cli && (op.u(7) & 4) && hasYaml && exists, noOut = cli && (op.u(7) & 8) && hasYaml && exists;
  const bool yes = !(op.u(7) & 16);
  if (cli) {
    args = {"cloudini_rosbag_converter", "-f", byDir ? dirOf(src) : pathOf(src), s.encode ? "-c" : "-d", "-m", op.u(6) & 1 ? "zstd" : "none"};
    if (noOut) {
      outDir = dirOf(src) + (s.encode ? "_encoded" : "_decoded");
      outPath = outDir + "/bag_" + std::to_string(src) + (s.encode ? "_encoded" : "_decoded") + ".mcap";
    } else {
      args.insert(args.end(), {"-o", outPath});
    }
    if (s.encode) {
      char b[32];
      snprintf(b, sizeof b, "%g", res);
      args.insert(args.end(), {"-r", b});
    }
    if (prof) {
      if (op.u(7) & 32) {
        const std::string t = prof->text;
        disk::put("/simdisk/profile.txt", Bytes(t.begin(), t.end()));
        args.insert(args.end(), {"--profile", "/simdisk/profile.txt"});
      } else {
        args.insert(args.end(), {"--profile", prof->text});
      }
    }
    if (yes) args.push_back("-y");
    if (s.viz) args.push_back("--viz");
  }
  const bool inPlace = outPath == pathOf(src);
  std::map<std::string, Bytes> before;
  for (auto& f : disk::list()) disk::get(f, before[f]);
  const bool declined = cli && !yes && before.count(outPath);
  std::string what = cli ? "" : std::string(s.encode ? "encodePointClouds" : "decodePointClouds") + "(" + pathOf(src) + " -> " + outPath + ") with converter " + std::to_string(conv);
  for (auto& a : args) what += a + " ";
  if (prof && !cli) what += std::string(" profile '") + prof->text + "'";
  // the run
  const size_t openBefore = disk::openFiles();
  disk::disarm();
  for (auto& f : p.faults)
    if (!(inPlace && f.op == disk::STAT)) disk::arm(f);
  disk::setFree(p.full);
  resetCallPlans();
  static const int kKind[] = {F_COMPRESS, F_DECOMPRESS, F_THREAD_CREATE};
  uint64_t firedBefore = 0;
  for (int k : kKind) firedBefore += g_sh->fault[k];
  for (auto& [type, at] : p.lib) (type == 0 ? g_plan_compress : type == 1 ? g_plan_decompress : g_plan_thread).at = at;
  bool ok = false, badProfile = false;
  std::string err;
  std::ostringstream cout, cerr;
  Converter temp, *cv = conv < 2 ? &g_conv[conv] : &temp;
  if (cli) {
    std::istringstream in("n\n");
    auto *oi = std::cin.rdbuf(in.rdbuf()), *oo = std::cout.rdbuf(cout.rdbuf()), *oe = std::cerr.rdbuf(cerr.rdbuf());
    std::cin.clear();
    std::vector<char*> argv;
    for (auto& x : args) argv.push_back(x.data());
    argv.push_back(nullptr);
    try {
      ok = bag_tool_main(int(args.size()), argv.data()) == 0;
    } catch (const std::exception& x) {
      err = std::string("exception: ") + x.what();
    }
    std::cin.rdbuf(oi);
    std::cout.rdbuf(oo);
    std::cerr.rdbuf(oe);
    std::cout.clear();
    std::cerr.clear();
    err += cerr.str().substr(0, 300);
    if (prof)
      for (auto& [n, v] : prof->res) s.profile[n] = v;
    badProfile = prof && !prof->valid;
  } else {
    if (!cv->c) cv->fresh();
    try {
      if (prof) {
        badProfile = !prof->valid;
        cv->c->addProfile(prof->text);
        if (badProfile) violation("profile-accepted", "an invalid profile was accepted: " + what);
        for (auto& [n, v] : prof->res) cv->profile[n] = v;
      }
      s.profile = cv->profile;
      if ((op.u(7) & 2) || cv->src != src || cv->version != (exists ? g_bags[src].version : -1)) {
        const auto topics = cv->c->open(pathOf(src));
        if (exists && !g_bags[src].isCut)
          for (auto& [id, c] : g_bags[src].channels) {
            const std::string n = schemaOf(g_bags[src], id).name;
            if (n == kRaw || n == kComp) {
              auto t = topics.find(c.topic);
              if (t == topics.end() || (t->second != kRaw && t->second != kComp)) violation("topics", "topic " + c.topic + " is missing in what open() returned for " + what);
            }
          }
        cv->src = src;
        cv->version = exists ? g_bags[src].version : -1;
      }
      if (s.encode) cv->c->encodePointClouds(outPath, s.res, comp, s.viz);
      else cv->c->decodePointClouds(outPath, comp);
      ok = true;
    } catch (const std::exception& x) {
      err = x.what();
      cv->src = -1;
    }
    if (badProfile) cv->fresh();  // what it remembers of an invalid profile is unspecified
  }
  uint64_t fired = 0;
  for (int k : kKind) fired += g_sh->fault[k];
  fired -= firedBefore;
  resetCallPlans();
  const size_t hits = disk::hits();
  disk::disarm();
  countEval();
  sim::log("run", uint64_t(ok), hits * 100 + fired);
  Bytes now;
  const bool outThere = disk::get(outPath, now);
  sim::logBytes("out", now.data(), now.size());
  const std::string after = what + ", " + std::to_string(hits) + " disk faults, " + std::to_string(fired) + " library faults; " + err;
  // whose turn is it: may this run fail?
  bool mayFail = !exists || inPlace || badProfile || hits || fired;
  bool clouds = false, any = false, emptied = false;
  const std::string from = s.encode ? kRaw : kComp;
  if (exists) {
    const Bag& g = g_bags[src];
    if (g.isCut) mayFail = true;
    for (auto& [id, c] : g.channels) {
      clouds |= schemaOf(g, id).name == from;
      any |= schemaOf(g, id).name == kRaw || schemaOf(g, id).name == kComp;
    }
    for (auto& m : g.msgs) {
      if (!m.cloud || schemaOf(g, m.chan).name != from) continue;
      if (m.cloud->vague) mayFail = true;
      if (s.encode && !m.cloud->vague) {
        size_t left = 0;
        for (auto& f : m.cloud->m.fields) {
          auto q = s.profile.find(f.name);
          left += q == s.profile.end() || q->second != 0;
        }
        if (!left) emptied = true;
      }
    }
  }
  if (emptied) mayFail = true;  // nothing is left of a cloud
  if (cli && !clouds) mayFail = true;
  if (!ok && !mayFail) violation("false-failure", "the conversion failed although nothing was wrong: " + after);
  if (ok && !declined && (!exists || ((inPlace || badProfile) && (any || !cli) && !g_bags[src].isCut))) violation("false-success", "success was reported for an impossible request: " + after);
  // a run of the tool without anything to convert, or declined, leaves the output alone
  const bool nothing = cli && ok && (declined || !any || (exists && g_bags[src].isCut && outThere == (before.count(outPath) != 0) && (!outThere || now == before[outPath])));
  if (ok && nothing) {
    if (outThere != (before.count(outPath) != 0) || (outThere && now != before[outPath])) violation("overwritten", "the output was changed although nothing was converted: " + after);
  } else if (ok) {
    if (!outThere) violation("false-success", "success was reported but there is no output: " + after);
    Bag out;
    const std::string bad = verify(g_bags[src], now, s, out);
    if (!bad.empty() && !emptied) violation(mayFail ? "false-success" : "not-converted", "success was reported but " + bad + ": " + after);
    if (cli && hasYaml) {
      Bytes y;
      if (!disk::get(outDir + "/metadata.yaml", y)) violation("false-success", "there is no metadata.yaml beside the output: " + after);
      const std::string want = convertedYaml(std::string(yaml.begin(), yaml.end()), s.encode, outPath.substr(outPath.rfind('/') + 1));
      if (std::string(y.begin(), y.end()) != want) violation("false-success", "metadata.yaml of the output is not that of the converted bag: " + after);
    }
    if (hits || fired) SIM_PROBE("success in spite of a fault");
    if (!out.msgs.empty() && clouds) nontrivial = true;
    if (bad.empty() && !noOut && !emptied) {
      out.dirty = false;
      out.style = 0;
      out.version = ++g_version;
      out.order.clear();
      for (auto& [id, c] : out.channels) out.order.push_back(id);
      g_bags[dst] = std::move(out);
    } else if (!noOut) {
      g_bags.erase(dst);
      disk::remove(outPath);
    }
  }
  if (!ok) {
    SIM_PROBE("failure reported");
    if (!noOut && !inPlace && (outThere != (before.count(outPath) != 0) || (outThere && now != before[outPath]))) {
      g_bags.erase(dst);  // what an unsuccessful conversion leaves behind is unspecified
      disk::remove(outPath);
    }
  }
  for (auto& [name, b] : before) {
    Bytes x;
    if (name == outPath && !inPlace) continue;
    if (cli && name == outDir + "/metadata.yaml" && outDir != dirOf(src)) continue;
    if (!disk::get(name, x) || x != b) violation("input-modified", name + " was modified or removed by " + after);
  }
  if (cli && disk::openFiles() != openBefore) violation("leak", std::to_string(disk::openFiles()) + " files are still open after " + after);
  temp.c.reset();
  if (disk::openFiles() > 2) violation("leak", std::to_string(disk::openFiles()) + " files are still open after " + after);
}
}  // namespace
static void exec(const Scenario& sc) {
  disk::reset();
  for (int i = 0; i < kBags; ++i) disk::mkdir(dirOf(i));
  disk::put("/simdisk/notes.txt", Bytes{'h', 'i'});
  g_bags.clear();
  for (auto& c : g_conv) c = Converter();
  Pending p;
  bool nontrivial = false;
  for (auto& op : sc.ops) {
    const int i = int(op.u(0) % kBags);
    if (op.name == "bag") {
      g_bags[i] = makeBag(op.u(1), op.u(2));
    } else if (op.name == "msg" && g_bags.count(i) && !g_bags[i].order.empty()) {
      Bag& g = g_bags[i];
      if (g.seed == 0 && g.style == 0) continue;  // the output of a conversion
      addMsg(g, op);
      g.version = ++g_version;
    } else if (op.name == "dmg" && g_bags.count(i) && !g_bags[i].msgs.empty()) {
      Bag& g = g_bags[i];
      if (g.seed == 0 && g.style == 0) continue;
      Message& m = g.msgs.back();
      if (m.cloud && dmg::applyOp(m.data, op, 1, 0, g.msgs.size() > 1 ? &g.msgs[0].data : nullptr)) {
        auto c = std::make_shared<Cloud>(*m.cloud);
        c->vague = true;
        m.cloud = c;
        g.dirty = true;
        g.version = ++g_version;
        countFault(F_BAD_INPUT);
      }
    } else if (op.name == "cut" && g_bags.count(i)) {
      if (g_bags[i].seed == 0 && g_bags[i].style == 0) continue;
      g_bags[i].cut = op.arg(1);
      g_bags[i].dirty = true;
      g_bags[i].version = ++g_version;
    } else if (op.name == "fault") {
      disk::Fault f;
      const uint64_t id = op.u(0);
      const int b = int(id % 16 % kBags);
      f.path = id >= 32 ? dirOf(b) : id >= 16 ? dirOf(b) + "/metadata.yaml" : pathOf(b);
      f.op = int(op.u(1) % disk::kOps);
      f.at = op.arg(2);
      f.count = std::max<int64_t>(1, op.arg(3));
      f.mode = int(op.u(4) % 3);
      f.seed = op.u(5);
      p.faults.push_back(f);
    } else if (op.name == "full") {
      p.full = std::max<int64_t>(0, op.arg(0));
    } else if (op.name == "lib") {
      p.lib.push_back({int(op.u(0) % 3), std::max<int64_t>(0, op.arg(1))});
    } else if (op.name == "run") {
      run(op, p, nontrivial);
      p = Pending();
    }
  }
  for (auto& c : g_conv) c = Converter();
  if (disk::openFiles()) violation("leak", std::to_string(disk::openFiles()) + " files are still open after the converters are gone");
  if (nontrivial) markNontrivial();
  if (liveThreads()) violation("thread-left", "a thread of the converter is still running");
}
static void setup() { chunkPoints(); }
const Prop kProp = {"C14", gen, exec, setup,
  "1-2 bags with arbitrary channels, schemas, messages and metadata records, some cut short or with damaged messages, encoded and decoded repeatedly by one or several converter objects or by the command-line tool, outputs being converted again, with failing or short disk operations, a full disk and failing compressor, decompressor and thread calls; non-trivial: a bag with point clouds converted correctly; distinct by event-log hash"};
