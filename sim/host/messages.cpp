#include "messages.hpp"
namespace bmsg {
using namespace cl;
using sim::Rng;
// Messages whose seeds agree but for the low 10 bits have the same layout and size.
void make(Item& it, uint64_t kind, uint64_t seed, uint64_t n, uint64_t cfg, bool want_raw) {
  Rng d(sim::mix64(seed, kind + 77));
  seed >>= 10;
  Rng r(sim::mix64(seed, kind));
  kind %= kKinds;
  it.lay = Layout();
  if (kind < 12) it.lay = makeLayout(kind, seed);
  else if (kind == 12) {
    static const FieldType all[] = {FieldType::INT8,   FieldType::UINT8,   FieldType::INT16,   FieldType::UINT16, FieldType::INT32,
                                    FieldType::UINT32, FieldType::FLOAT32, FieldType::FLOAT64, FieldType::INT64,  FieldType::UINT64};
    const uint64_t k = 1 + r.below(r.below(3) ? 90 : 300), len = r.below(r.below(3) ? 24 : 180);
    uint32_t at = 0;
    for (uint64_t i = 0; i < k; ++i) {
      PointField f;
      f.name = "n" + std::to_string(i) + "_" + std::string(len ? r.below(len) : 0, char('a' + r.below(26)));
      f.offset = at;
      f.type = all[r.below(10)];
      if ((f.type == FieldType::FLOAT32 || f.type == FieldType::FLOAT64) && r.below(2)) f.resolution = 0.01f;
      at += uint32_t(Cloudini::SizeOf(f.type));
      it.lay.fields.push_back(f);
    }
    it.lay.step = at;
    n = n % 40;
  } else if (kind == 15) {
    it.lay = makeLayout(r.below(12), seed);
  } else {
    it.lay = makeLayout(r.below(3), seed);
    const uint64_t goal = kind == 13 ? (1u << 16) + r.below(r.below(4) ? 1u << 19 : 6u << 20) : (30u << 20) + r.below(8u << 20);
    it.lay.step = uint32_t(kind == 13 ? it.lay.step + r.below(512) : 4096 + r.below(2048));
    n = goal / it.lay.step;
  }
  if (n == 0) n = 1;
  const bool lossy = cfg % 3 == 1;
  it.n = n;
  if (kind == 14) {
    it.cloud.assign(n * it.lay.step, 0);
    const Bytes few = makeCloud(it.lay, 8, d.next(), lossy);
    for (size_t i = 0; i < n; ++i) memcpy(it.cloud.data() + i * it.lay.step, few.data() + (i % 8) * it.lay.step, std::min<size_t>(it.lay.step, 64));
  } else it.cloud = makeCloud(it.lay, n, d.next(), lossy);
  it.m = rosmsg::make(it.lay, it.cloud, n, d.next(), true);
  if (kind == 15) {
    it.m.width = uint32_t(n);
    it.m.height = 1;
    if (r.below(2)) std::swap(it.m.width, it.m.height);
    it.m.row_step = it.m.width * it.m.point_step;
  }
  if (want_raw) it.raw = rosmsg::write(it.m, false);
  it.info = makeInfo(it.lay, cfg % kCfgs, it.m.width, it.m.height);
  it.info.use_threads = false;
  it.m.data = encodeFresh(it.info, it.cloud);
  it.m.format = "cloudini";
  it.header = dmg::headerEnd(it.m.data);
  it.wire = rosmsg::write(it.m, true);
}
static const char* typeName(FieldType t) {
  switch (t) {
    case FieldType::INT8: return "INT8";
    case FieldType::UINT8: return "UINT8";
    case FieldType::INT16: return "INT16";
    case FieldType::UINT16: return "UINT16";
    case FieldType::INT32: return "INT32";
    case FieldType::UINT32: return "UINT32";
    case FieldType::FLOAT32: return "FLOAT32";
    case FieldType::FLOAT64: return "FLOAT64";
    case FieldType::INT64: return "INT64";
    case FieldType::UINT64: return "UINT64";
    default: return "UNKNOWN";
  }
}
std::string infoJson(const EncodingInfo& i) {
  static const char* enc[] = {"NONE", "LOSSY", "LOSSLESS"};
  static const char* comp[] = {"NONE", "LZ4", "ZSTD"};
  std::string s = "{\"version\":" + std::to_string(int(i.version)) + ",\"width\":" + std::to_string(i.width) + ",\"height\":" + std::to_string(i.height) +
                  ",\"point_step\":" + std::to_string(i.point_step) + ",\"encoding_opt\":\"" + enc[int(i.encoding_opt)] + "\",\"compression_opt\":\"" +
                  comp[int(i.compression_opt)] + "\",\"fields\":[";
  for (auto& f : i.fields) {
    char t[64] = "null";
    if (f.resolution) snprintf(t, sizeof t, "%.9g", double(*f.resolution));
    s += std::string(&f == &i.fields[0] ? "" : ",") + "{\"name\":" + host::q(f.name) + ",\"offset\":" + std::to_string(f.offset) + ",\"type\":\"" + typeName(f.type) + "\",\"resolution\":" + t + "}";
  }
  return s + "]}";
}
std::string rosJson(const rosmsg::Msg& m) {
  std::string s = "{\"header\":{\"stamp\":{\"sec\":" + std::to_string(m.sec) + ",\"nsec\":" + std::to_string(m.nsec) + "},\"frame_id\":" + host::q(m.frame) + "},\"height\":" + std::to_string(m.height) +
                  ",\"width\":" + std::to_string(m.width) + ",\"fields\":[";
  for (auto& f : m.fields)
    s += std::string(&f == &m.fields[0] ? "" : ",") + "{\"name\":" + host::q(f.name) + ",\"offset\":" + std::to_string(f.offset) + ",\"datatype\":" + std::to_string(f.type) + ",\"count\":" + std::to_string(f.count) + "}";
  return s + "],\"is_bigendian\":" + (m.is_bigendian ? "true" : "false") + ",\"point_step\":" + std::to_string(m.point_step) + ",\"row_step\":" + std::to_string(m.row_step) + ",\"is_dense\":" + (m.is_dense ? "true" : "false") +
         ",\"format\":" + host::q(m.format) + "}";
}
std::string text(const Item& it) {
  return cl::describe(it.info) + " " + std::to_string(it.info.width) + "x" + std::to_string(it.info.height) + " points of " + std::to_string(it.info.point_step) + " bytes";
}
}  // namespace bmsg
