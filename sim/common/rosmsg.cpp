#include "rosmsg.hpp"
namespace rosmsg {
using sim::Rng;
namespace {
struct W {
  Bytes b;
  bool big;
  void align(size_t n) {
    while ((b.size() - 4) % n) b.push_back(0);
  }
  void u8(uint8_t v) { b.push_back(v); }
  void u32(uint32_t v) {
    align(4);
    for (int i = 0; i < 4; ++i) b.push_back(uint8_t(v >> (big ? 24 - 8 * i : 8 * i)));
  }
  void str(const std::string& s) {
    u32(uint32_t(s.size() + 1));
    b.insert(b.end(), s.begin(), s.end());
    b.push_back(0);
  }
  void bytes(const Bytes& d) {
    u32(uint32_t(d.size()));
    b.insert(b.end(), d.begin(), d.end());
  }
};
struct R {
  const Bytes& b;
  size_t p = 4;
  bool big = false;
  bool ok = true;
  bool need(size_t n) {
    if (b.size() < p || b.size() - p < n) ok = false;
    return ok;
  }
  void align(size_t n) {
    while ((p - 4) % n) ++p;
  }
  uint8_t u8() { return need(1) ? b[p++] : 0; }
  uint32_t u32() {
    align(4);
    if (!need(4)) return 0;
    uint32_t v = 0;
    for (int i = 0; i < 4; ++i) v |= uint32_t(b[p + i]) << (big ? 24 - 8 * i : 8 * i);
    p += 4;
    return v;
  }
  std::string str() {
    const uint32_t n = u32();
    if (!ok || n == 0 || !need(n) || b[p + n - 1] != 0) {
      ok = false;
      return "";
    }
    std::string s(b.begin() + p, b.begin() + p + n - 1);
    p += n;
    return s;
  }
  Bytes bytes() {
    const uint32_t n = u32();
    if (!ok || !need(n)) return {};
    Bytes r(b.begin() + p, b.begin() + p + n);
    p += n;
    return r;
  }
};
}  // namespace
Bytes write(const Msg& m, bool compressed) {
  W w;
  w.big = m.big;
  w.b = {0, uint8_t(m.big ? 0 : 1), 0, 0};
  w.u32(uint32_t(m.sec));
  w.u32(m.nsec);
  w.str(m.frame);
  w.u32(m.height);
  w.u32(m.width);
  w.u32(uint32_t(m.fields.size()));
  for (auto& f : m.fields) {
    w.str(f.name);
    w.u32(f.offset);
    w.u8(f.type);
    w.u32(f.count);
  }
  w.u8(m.is_bigendian);
  w.u32(m.point_step);
  w.u32(m.row_step);
  w.bytes(m.data);
  w.u8(m.is_dense);
  if (compressed) w.str(m.format);
  return w.b;
}
bool read(const Bytes& b, Msg& m, bool compressed, std::string& why) {
  if (b.size() < 4 || b[0] != 0 || b[1] > 1 || b[2] || b[3]) {
    why = "bad CDR header";
    return false;
  }
  R r{b};
  m = Msg();
  m.big = r.big = b[1] == 0;
  m.sec = int32_t(r.u32());
  m.nsec = r.u32();
  m.frame = r.str();
  m.height = r.u32();
  m.width = r.u32();
  const uint32_t n = r.u32();
  for (uint32_t i = 0; i < n && r.ok; ++i) {
    Field f;
    f.name = r.str();
    f.offset = r.u32();
    f.type = r.u8();
    f.count = r.u32();
    m.fields.push_back(f);
  }
  m.is_bigendian = r.u8();
  m.point_step = r.u32();
  m.row_step = r.u32();
  m.data = r.bytes();
  m.is_dense = r.u8();
  if (compressed) m.format = r.str();
  if (!r.ok) {
    why = "message too short or malformed string";
    return false;
  }
  if (r.p != b.size()) {
    why = "message has " + std::to_string(b.size() - r.p) + " bytes after its last field";
    return false;
  }
  return true;
}
bool sameMeta(const Msg& a, const Msg& b, std::string& why) {
  auto bad = [&](const char* w) {
    why = std::string(w) + " differs";
    return false;
  };
  if (a.big != b.big) return bad("byte order");
  if (a.sec != b.sec || a.nsec != b.nsec) return bad("stamp");
  if (a.frame != b.frame) return bad("frame id");
  if (a.height != b.height) return bad("height");
  if (a.width != b.width) return bad("width");
  if (a.point_step != b.point_step) return bad("point step");
  if (a.is_dense != b.is_dense) return bad("density flag");
  if (a.fields.size() != b.fields.size()) return bad("number of fields");
  for (size_t i = 0; i < a.fields.size(); ++i)
    if (a.fields[i].name != b.fields[i].name || a.fields[i].offset != b.fields[i].offset || a.fields[i].type != b.fields[i].type) return bad("a field");
  return true;
}
Msg make(const cl::Layout& l, Bytes cloud, size_t n, uint64_t seed, bool allow_big) {
  Rng r(sim::mix64(seed, 0x05));
  Msg m;
  m.big = allow_big && r.below(6) == 0;
  m.sec = int32_t(r.next());
  m.nsec = uint32_t(r.below(1000000000));
  const size_t len = r.below(4) == 0 ? r.below(300) : r.below(14);
  for (size_t i = 0; i < len; ++i) m.frame.push_back(char(r.below(8) == 0 ? 128 + r.below(127) : 33 + r.below(90)));
  cl::dims(n, r.next(), m.width, m.height);
  for (auto& f : l.fields) m.fields.push_back({f.name, f.offset, uint8_t(f.type), 1});
  m.point_step = l.step;
  m.row_step = l.step * m.width;
  m.is_dense = r.below(2);
  m.data = std::move(cloud);
  return m;
}
cl::EncodingInfo infoOf(const Msg& m) {
  cl::EncodingInfo i;
  for (auto& f : m.fields) {
    Cloudini::PointField pf;
    pf.name = f.name;
    pf.offset = f.offset;
    pf.type = static_cast<Cloudini::FieldType>(f.type);
    i.fields.push_back(pf);
  }
  i.width = m.width;
  i.height = m.height;
  i.point_step = m.point_step;
  return i;
}
std::string describe(const Msg& m) {
  std::string s = std::string(m.big ? "big-endian " : "") + std::to_string(m.width) + "x" + std::to_string(m.height) + " step " + std::to_string(m.point_step) + " frame " + std::to_string(m.frame.size()) + "B [";
  for (auto& f : m.fields) s += f.name + ":" + std::to_string(int(f.type)) + "@" + std::to_string(f.offset) + " ";
  return s + "] data " + std::to_string(m.data.size());
}
}  // namespace rosmsg
