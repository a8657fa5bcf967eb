// The command-line PCD converter on a simulated disk: single files and batches, disk faults, truncated inputs.
#include <pcl/console/print.h>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include "../common/disk.hpp"
#include "../common/session.hpp"
#include "cloudini_lib/pcl_conversion.hpp"
using namespace sim;
using namespace cl;
using namespace Cloudini;
int pcd_tool_main(int, char**);
// file id layoutSeed n cseed fmt style    an input file (id < 6). fmt 0 ascii 1 binary 2 compressed; style: header variants
// cut id at                               the input was cut at that byte (a torn write of the recorder)
// out id kind                             something is already where the output goes
// fault id op at count mode seed          disk fault of the next run. id: input, 8+id: output, 16: the directory
// full at                                 free bytes for the next run
// run mode a res ires enc comp yes answer the converter. mode: 0 single file a, 1 batch, 2 single with -o
static const double kResolution[] = {0.001, 0.01, 0.0005, 0.02, 0.0};
static const char* const kEnc[] = {"lossy", "lossless", "none"};
static const char* const kComp[] = {"zstd", "lz4", "none"};
static const EncodingOptions kEncOpt[] = {EncodingOptions::LOSSY, EncodingOptions::LOSSLESS, EncodingOptions::NONE};
constexpr int kFiles = 6;
static void gen(Rng& r, Scenario& s) {
  session::genSched(r, s, haveShadow());
  s.sched.step_cap = 1600000000ull;
  const int files = 1 + int(r.below(4));
  const auto file = [&](int i) {
    s.ops.push_back({"file", {i, int64_t(r.below(1u << 30)), r.below(6) == 0 ? session::genPoints(r, 2) : r.range(1, 30), int64_t(r.below(1u << 30)), int64_t(r.below(3)), int64_t(r.below(64))}});
    if (r.below(6) == 0) s.ops.push_back({"cut", {i, r.below(2) ? r.range(0, 5000) : -r.range(1, 60)}});
    if (r.below(4) == 0) s.ops.push_back({"out", {i, int64_t(r.below(3))}});
  };
  for (int i = 0; i < files; ++i) file(i);
  for (int k = 1 + int(r.below(3)); k > 0; --k) {
    for (int f = r.below(4) == 0 ? 0 : 1 + int(r.below(2)); f > 0; --f) {
      const int64_t i = int64_t(r.below(uint64_t(files)));
      switch (r.below(12)) {
        case 0: s.ops.push_back({"fault", {i, disk::OPEN_R, r.range(0, 2), 1, 0, int64_t(r.below(100))}}); break;
        case 1: s.ops.push_back({"fault", {8 + i, disk::OPEN_W, 0, 1, 0, int64_t(r.below(100))}}); break;
        case 2: s.ops.push_back({"fault", {i, disk::READ, r.range(0, 4), r.below(2) ? 1 : 1000, disk::SHORT, int64_t(r.below(1000))}}); break;
        case 3: case 4: s.ops.push_back({"fault", {8 + i, disk::WRITE, r.range(0, 1), r.below(2) ? 1 : 1000, int64_t(r.below(2)), int64_t(r.below(1000))}}); break;
        case 5: case 6: s.ops.push_back({"fault", {8 + i, disk::CLOSE, 0, 1, r.below(2) ? int64_t(disk::LOSE) : int64_t(disk::FAIL), int64_t(r.below(1000))}}); break;
        case 7: s.ops.push_back({"fault", {i, disk::MMAP, 0, 1, 0, 0}}); break;
        case 8: s.ops.push_back({"fault", {r.below(2) ? i : 8 + i, disk::STAT, r.range(0, 3), 1, 0, int64_t(r.below(100))}}); break;
        case 9: s.ops.push_back({"fault", {16, r.below(2) ? disk::READDIR : disk::OPEN_R, r.range(0, 6), 1, 0, int64_t(r.below(100))}}); break;
        default: s.ops.push_back({"full", {r.below(3) ? r.range(0, 4000) : r.range(0, 40)}});
      }
    }
    s.ops.push_back({"run", {int64_t(r.below(3)), int64_t(r.below(uint64_t(files))), int64_t(r.below(5)), int64_t(r.below(5)), int64_t(r.below(3)), int64_t(r.below(3)), int64_t(r.below(4) != 0), int64_t(r.below(2) ? r.below(3) : r.below(8))}});
    if (r.below(3) == 0) file(int(r.below(uint64_t(files))));  // replaced by another cloud
  }
}
namespace {
const std::string kDir = "/simdisk/pcd";
std::string inPath(int i) { return kDir + "/cloud_" + std::to_string(i) + ".pcd"; }
std::string outPath(int i) { return kDir + "/cloud_" + std::to_string(i) + ".cldn"; }
struct File {
  Layout lay;
  Bytes cloud;  // packed points
  size_t n = 0;
  uint32_t w = 1, h = 1;
  Bytes pcd;    // what is on disk
  bool cut = false, vague = false;
  size_t header = 0;
  uint64_t seed = 0, cseed = 0;
};
char pcdType(FieldType t) {
  switch (t) {
    case FieldType::FLOAT32: case FieldType::FLOAT64: return 'F';
    case FieldType::UINT8: case FieldType::UINT16: case FieldType::UINT32: case FieldType::UINT64: return 'U';
    default: return 'I';
  }
}
Layout pcdLayout(uint64_t seed) {
  static const char* const names[] = {"x", "y", "z", "intensity", "ring", "time", "label", "normal_x", "rgb", "t", "range", "reflectivity"};
  static const FieldType types[] = {FieldType::INT8, FieldType::UINT8, FieldType::INT16, FieldType::UINT16, FieldType::INT32, FieldType::UINT32, FieldType::FLOAT32, FieldType::FLOAT64, FieldType::INT64, FieldType::UINT64};
  Rng r(seed);
  Layout l;
  std::vector<std::string> used;
  const int n = 1 + int(r.below(7));
  for (int i = 0; i < n; ++i) {
    PointField f;
    f.name = i < 3 && r.below(5) ? names[i] : names[r.below(12)];
    for (auto& u : used)
      if (u == f.name) f.name += std::to_string(i);
    used.push_back(f.name);
    f.type = i < 3 ? (r.below(6) ? FieldType::FLOAT32 : types[r.below(10)]) : types[r.below(10)];
    if (f.name == "intensity" && r.below(3)) f.type = FieldType::FLOAT32;
    f.offset = l.step;
    l.step += uint32_t(SizeOf(f.type));
    l.fields.push_back(f);
  }
  return l;
}
template <class T>
void num(std::string& s, const uint8_t* p, const char* fmt) {
  T v;
  memcpy(&v, p, sizeof v);
  char b[64];
  snprintf(b, sizeof b, fmt, v);
  s += b;
}
void value(std::string& s, const uint8_t* p, FieldType t) {
  switch (t) {
    case FieldType::INT8: s += std::to_string(int(int8_t(*p))); break;
    case FieldType::UINT8: s += std::to_string(int(*p)); break;
    case FieldType::INT16: num<int16_t>(s, p, "%d"); break;
    case FieldType::UINT16: num<uint16_t>(s, p, "%u"); break;
    case FieldType::INT32: num<int32_t>(s, p, "%d"); break;
    case FieldType::UINT32: num<uint32_t>(s, p, "%u"); break;
    case FieldType::INT64: num<int64_t>(s, p, "%ld"); break;
    case FieldType::UINT64: num<uint64_t>(s, p, "%lu"); break;
    case FieldType::FLOAT32: {
      float v;
      memcpy(&v, p, 4);
      char b[64];
      snprintf(b, sizeof b, std::isnan(v) ? "nan" : "%.9g", double(v));
      s += b;
      break;
    }
    default: {
      double v;
      memcpy(&v, p, 8);
      char b[64];
      snprintf(b, sizeof b, std::isnan(v) ? "nan" : "%.17g", v);
      s += b;
    }
  }
}
Bytes writePcd(File& f, uint64_t fmt, uint64_t style) {
  std::string h;
  if (style & 1) h += "# .PCD v0.7 - Point Cloud Data file format\n";
  if (style & 2) h += "\n";
  const std::string nl = (style & 4) && fmt % 3 == 0 ? "\r\n" : "\n";
  const std::string sep = (style & 8) ? "  " : " ";
  h += "VERSION 0.7" + nl + "FIELDS";
  for (auto& x : f.lay.fields) h += sep + x.name;
  h += nl + "SIZE";
  for (auto& x : f.lay.fields) h += sep + std::to_string(SizeOf(x.type));
  h += nl + "TYPE";
  for (auto& x : f.lay.fields) h += sep + pcdType(x.type);
  if (style & 16) h += nl + "# a comment";
  h += nl + "COUNT";
  for (size_t i = 0; i < f.lay.fields.size(); ++i) h += sep + "1";
  h += nl + "WIDTH " + std::to_string(f.w) + nl + "HEIGHT " + std::to_string(f.h) + nl + "VIEWPOINT 0 0 0 1 0 0 0" + nl + "POINTS " + std::to_string(f.n) + nl;
  static const char* const data[] = {"ascii", "binary", "binary_compressed"};
  h += std::string("DATA ") + data[fmt % 3] + nl;
  Bytes out(h.begin(), h.end());
  f.header = h.size();
  if (fmt % 3 == 0) {
    std::string s;
    for (size_t i = 0; i < f.n; ++i) {
      for (size_t k = 0; k < f.lay.fields.size(); ++k) {
        if (k) s += " ";
        value(s, f.cloud.data() + i * f.lay.step + f.lay.fields[k].offset, f.lay.fields[k].type);
      }
      s += nl;
    }
    out.insert(out.end(), s.begin(), s.end());
  } else if (fmt % 3 == 1) {
    out.insert(out.end(), f.cloud.begin(), f.cloud.end());
  } else {
    Bytes soa, lzf;
    for (auto& x : f.lay.fields)
      for (size_t i = 0; i < f.n; ++i) {
        const uint8_t* p = f.cloud.data() + i * f.lay.step + x.offset;
        soa.insert(soa.end(), p, p + SizeOf(x.type));
      }
    for (size_t i = 0; i < soa.size(); i += 32) {  // literal runs
      const size_t k = std::min<size_t>(32, soa.size() - i);
      lzf.push_back(uint8_t(k - 1));
      lzf.insert(lzf.end(), soa.begin() + long(i), soa.begin() + long(i + k));
    }
    const uint32_t sizes[2] = {uint32_t(lzf.size()), uint32_t(soa.size())};
    const auto* p = reinterpret_cast<const uint8_t*>(sizes);
    out.insert(out.end(), p, p + 8);
    out.insert(out.end(), lzf.begin(), lzf.end());
  }
  return out;
}
std::map<int, File> g_files;
std::string text(int i) {
  const File& f = g_files[i];
  std::string s = "file " + std::to_string(i) + " (" + std::to_string(f.n) + " points of " + std::to_string(f.lay.step) + " bytes:";
  for (auto& x : f.lay.fields) s += " " + x.name + ":" + std::to_string(int(x.type));
  return s + (f.cut ? ", cut)" : ")");
}
// is the output of file i complete and faithful? empty string: yes
std::string verify(int i, double res, double ires, int enc) {
  countEval();
  File& f = g_files[i];
  Bytes b;
  if (!disk::get(outPath(i), b)) return "there is no output file";
  if (f.vague) return "";
  try {
    ConstBufferView v(b.data(), b.size());
    const EncodingInfo h = DecodeHeader(v);
    if (h.width != f.w || h.height != f.h || h.point_step != f.lay.step || h.fields.size() != f.lay.fields.size()) return "the header of the output is not that of the input";
    EncodingInfo want = h;
    want.encoding_opt = kEncOpt[enc];
    want.width = f.w;
    want.height = f.h;
    for (size_t k = 0; k < h.fields.size(); ++k) {
      if (h.fields[k].name != f.lay.fields[k].name || h.fields[k].type != f.lay.fields[k].type || h.fields[k].offset != f.lay.fields[k].offset) return "field " + f.lay.fields[k].name + " is not as in the input";
      want.fields[k].resolution.reset();
      const double r = f.lay.fields[k].name == "intensity" ? ires : res;
      if (f.lay.fields[k].type == FieldType::FLOAT32 && r > 0) want.fields[k].resolution = float(r);
    }
    Bytes out;
    PointcloudDecoder d;
    d.decode(h, v, out);
    std::string why;
    if (!matches(want, f.cloud, out.data(), out.size(), why)) return why;
  } catch (const std::exception& x) {
    return std::string("the output does not decode: ") + x.what();
  }
  return "";
}
struct Pending {
  std::vector<disk::Fault> faults;
  int64_t full = -1;
};
void build(File& f, const Op& op) {
  f.lay = pcdLayout(op.u(1));
  f.n = size_t(std::min<int64_t>(std::max<int64_t>(1, op.arg(2)), int64_t(chunkPoints()) * 3));
  f.seed = op.u(4);
  f.cseed = op.u(3);
  dims(f.n, op.u(3), f.w, f.h);
  for (auto& x : f.lay.fields)  // values every resolution of this check can represent
    if (x.type == FieldType::FLOAT32) x.resolution = 0.0005f;
  f.cloud = makeCloud(f.lay, f.n, op.u(3), true);
  if (f.seed % 3 == 0) {  // what the text of a PCD file can carry, and what PCL reads of it
    const auto plain = [](auto v) {
      using T = decltype(v);
      if (std::isnan(v)) return std::numeric_limits<T>::quiet_NaN();
      if (std::isinf(v) || (v != 0 && !std::isnormal(v))) return T(1);
      return v;
    };
    for (size_t i = 0; i < f.n; ++i)
      for (auto& x : f.lay.fields) {
        uint8_t* q = f.cloud.data() + i * f.lay.step + x.offset;
        const auto fix = [&](auto v) {
          memcpy(&v, q, sizeof v);
          v = plain(v);
          memcpy(q, &v, sizeof v);
        };
        if (x.type == FieldType::FLOAT32) fix(0.0f);
        if (x.type == FieldType::FLOAT64) fix(0.0);
      }
  }
  f.pcd = writePcd(f, op.u(4), op.u(5));
  f.cut = f.vague = false;
}
void cut(File& f, int64_t at) {
  const int64_t size = int64_t(f.pcd.size());
  int64_t k = at < 0 ? size + at : at % size;
  k = std::max<int64_t>(0, std::min(k, size - 1));
  // PCL accepts some ASCII files that lost their end (numbers cut short, no "DATA ascii" line and no body): what such a
  // file contains is then PCL's to say, and a "DATA binary" line cut short makes an ASCII file
  if (f.seed % 3 == 0 || k < int64_t(f.header)) f.vague = true;
  f.pcd.resize(size_t(k));
  f.cut = true;
}
const char* const kAnswer[8] = {"", "y", "n", "Y", "\n", "q\n", "1", "N\n"};
void run(const Op& op, const Pending& p, bool& nontrivial) {
  const int mode = int(op.u(0) % 3), a = int(op.u(1) % kFiles);
  const double res = kResolution[op.u(2) % 5], ires = kResolution[op.u(3) % 5];
  const int enc = int(op.u(4) % 3), comp = int(op.u(5) % 3);
  const bool yes = op.u(6) & 1;
  std::vector<std::string> args = {"pcd_to_cloudini_converter"};
  const auto dbl = [](double d) {
    char b[32];
    snprintf(b, sizeof b, "%g", d);
    return std::string(b);
  };
  if (mode == 1) args.insert(args.end(), {"-b", kDir});
  else args.insert(args.end(), {"-f", inPath(a)});
  if (mode == 2) args.insert(args.end(), {"-o", outPath(a)});
  args.insert(args.end(), {"-r", dbl(res), "-i", dbl(ires), "-e", kEnc[enc], "-c", kComp[comp]});
  if (yes) args.push_back("-y");
  std::vector<char*> argv;
  for (auto& x : args) argv.push_back(x.data());
  argv.push_back(nullptr);
  // state before
  std::map<std::string, Bytes> before;
  for (auto& f : disk::list()) disk::get(f, before[f]);
  std::vector<int> todo;
  for (auto& [i, f] : g_files)
    if (mode == 1 || i == a) todo.push_back(i);
  bool declined = false;
  std::set<int> skip;  // not overwritten by request
  const std::string answer = kAnswer[op.u(7) % 8];
  if (!yes && (answer.empty() || (answer[0] != 'y' && answer[0] != 'Y')))
    for (int i : todo)
      if (before.count(outPath(i))) skip.insert(i);
  declined = !skip.empty();
  // stdin: nothing, or the same answer always; only yes is permission
  std::string typed;
  for (int k = 0; k < 16; ++k) typed += answer;
  std::istringstream in(typed);
  std::ostringstream out, err;
  auto *oi = std::cin.rdbuf(in.rdbuf()), *oo = std::cout.rdbuf(out.rdbuf()), *oe = std::cerr.rdbuf(err.rdbuf());
  std::cin.clear();
  disk::disarm();
  for (auto& f : p.faults) {
    // PCL 1.14 takes the size of compressed data, with which it checks the length of the file, from one read that may be
    // short: what it makes of the file then is its own affair
    bool pcls = false;
    for (auto& [i, x] : g_files) pcls |= f.op == disk::READ && f.path == inPath(i) && x.seed % 3 == 2;
    if (!pcls) disk::arm(f);
  }
  disk::setFree(p.full);
  int rc = -1;
  std::string escaped;
  try {
    rc = pcd_tool_main(int(args.size()), argv.data());
  } catch (const std::exception& x) {
    escaped = std::string("!") + x.what();
  }
  std::cin.rdbuf(oi);
  std::cout.rdbuf(oo);
  std::cerr.rdbuf(oe);
  std::cout.clear();
  std::cerr.clear();
  const size_t hits = disk::hits();
  std::set<int> touched;  // files whose own conversion a fault may have affected
  for (int i : todo)
    if (disk::wasHit(inPath(i)) || disk::wasHit(outPath(i))) touched.insert(i);
  const bool dirHit = disk::wasHit(kDir);
  disk::disarm();
  countEval();
  std::string what = "converter";
  for (size_t i = 1; i < args.size(); ++i) what += " " + args[i];
  if (!yes) what += answer.empty() ? " < /dev/null" : " (answer " + answer.substr(0, answer.size() - (answer.back() == '\n')) + ")";
  sim::log("run", uint64_t(rc), hits);
  if (!escaped.empty()) violation("terminated", "the converter ended by an exception (" + escaped.substr(1) + "): " + what);
  bool allGood = !todo.empty() && !dirHit, anyBad = todo.empty();
  for (int i : todo) {
    const bool ok = !g_files[i].cut && !touched.count(i) && !skip.count(i);
    allGood &= ok;
    const std::string bad = verify(i, res, ires, enc);
    if (rc == 0 && !bad.empty() && !skip.count(i))
      violation("false-success", "success was reported but " + bad + "; " + text(i) + ", " + what + ", " + std::to_string(hits) + " disk faults");
    if (rc == 0 && skip.count(i)) violation("false-success", "success was reported although the existing output was kept; " + text(i) + ", " + what);
    if (ok && !bad.empty() && !dirHit && p.full < 0)
      violation(mode == 1 ? "not-isolated" : "not-converted", "nothing was wrong with this file, but " + bad + "; " + text(i) + ", " + what + ", exit code " + std::to_string(rc) + ", " + std::to_string(hits) + " disk faults elsewhere; " + err.str().substr(0, 300));
    if (skip.count(i)) {
      Bytes now;
      if (!disk::get(outPath(i), now) || now != before[outPath(i)]) violation("overwritten", "an output file was changed without permission; " + text(i) + ", " + what);
    }
    if (ok && bad.empty()) nontrivial = true;
  }
  if (rc != 0 && allGood && !hits && !declined) violation("false-failure", "nothing went wrong but exit code is " + std::to_string(rc) + "; " + what + "; " + err.str().substr(0, 300));
  if (rc != 0) SIM_PROBE("failure reported");
  if (rc == 0 && hits) SIM_PROBE("success in spite of a disk fault");
  if (rc != 0 && hits && mode == 1 && todo.size() > touched.size()) SIM_PROBE("batch with some files hit by faults");
  // inputs and unrelated files are as before
  for (auto& [name, b] : before) {
    Bytes now;
    const bool there = disk::get(name, now);
    bool isOut = false;
    for (int i : todo) isOut |= name == outPath(i);
    if (isOut) continue;
    if (!there || now != b) violation("input-modified", name + " was modified or removed by " + what);
  }
  if (disk::openFiles()) violation("leak", std::to_string(disk::openFiles()) + " files are still open after " + what);
}
}  // namespace
static void exec(const Scenario& sc) {
  pcl::console::setVerbosityLevel(pcl::console::L_ALWAYS);
  disk::reset();
  disk::mkdir(kDir);
  disk::mkdir(kDir + "/folder.pcd.d");
  disk::put(kDir + "/notes.txt", Bytes{'h', 'i'});
  g_files.clear();
  Pending p;
  bool nontrivial = false;
  for (auto& op : sc.ops) {
    const int i = int(op.u(0) % kFiles);
    if (op.name == "file") {
      build(g_files[i], op);
      disk::put(inPath(i), g_files[i].pcd);
    } else if (op.name == "cut" && g_files.count(i)) {
      cut(g_files[i], op.arg(1));
      disk::put(inPath(i), g_files[i].pcd);
      countFault(F_STORE_CRASH);
    } else if (op.name == "out") {
      Bytes junk;
      Rng r(op.u(0) + op.u(1));
      for (int k = int(r.below(3000)); k > 0 && op.u(1) % 3; --k) junk.push_back(uint8_t(r.next()));
      disk::put(outPath(i), junk);
    } else if (op.name == "fault") {
      disk::Fault f;
      const uint64_t id = op.u(0);
      f.path = id >= 16 ? kDir : id >= 8 ? outPath(int((id - 8) % kFiles)) : inPath(int(id % kFiles));
      f.op = int(op.u(1) % disk::kOps);
      f.at = op.arg(2);
      f.count = std::max<int64_t>(1, op.arg(3));
      f.mode = int(op.u(4) % 3);
      f.seed = op.u(5);
      if (f.op == disk::READ) f.mode = disk::SHORT;  // PCL 1.14 reads "while (!eof())": a failing read makes the library loop
      p.faults.push_back(f);
    } else if (op.name == "full") {
      p.full = std::max<int64_t>(0, op.arg(0));
    } else if (op.name == "run") {
      run(op, p, nontrivial);
      p = Pending();
    }
  }
  if (nontrivial) markNontrivial();
  if (liveThreads()) violation("thread-left", "a thread of the converter is still running");
}
static void setup() { chunkPoints(); }
const Prop kProp = {"C13", gen, exec, setup,
  "1-4 PCD files of random layouts (ASCII, binary, compressed), some cut short, converted one by one or as a batch, once or repeatedly, over existing outputs, with failing or short opens, reads, writes, closes, mmaps, stats, directory reads and a full disk; non-trivial: a file converted correctly; distinct by event-log hash"};
