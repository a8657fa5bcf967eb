#include "cloud.hpp"
#include <algorithm>
#include <limits>

#ifndef SIM_CHUNK
#define SIM_CHUNK 32768
#endif
#ifndef SIM_PROBE_PTS
#define SIM_PROBE_PTS 4096
#endif

namespace cl {
using sim::Rng;
using namespace Cloudini;

size_t probePoints() { return SIM_PROBE_PTS; }

static const float kRes[] = {0.001f, 0.01f, 0.0005f, 0.0001f, 0.1234567f, 0.0078125f, 1.0f, 0.05f, 0.003f, 12.5f, 3.3e-5f};

static void add(Layout& l, Rng& r, const std::string& name, FieldType t, bool res, bool gap) {
  PointField f;
  f.name = name;
  f.type = t;
  if (gap) l.step += uint32_t(r.below(6));
  f.offset = l.step;
  l.step += uint32_t(SizeOf(t));
  if (res) f.resolution = kRes[r.below(sizeof(kRes) / sizeof(kRes[0]))];
  l.fields.push_back(f);
}

Layout makeLayout(uint64_t kind, uint64_t seed) {
  Rng r(sim::mix64(seed, kind + 77));
  Layout l;
  const auto F = FieldType::FLOAT32;
  static const FieldType all[] = {FieldType::INT8,   FieldType::UINT8,   FieldType::INT16,   FieldType::UINT16, FieldType::INT32,
                                  FieldType::UINT32, FieldType::FLOAT32, FieldType::FLOAT64, FieldType::INT64,  FieldType::UINT64};
  static const FieldType ints[] = {FieldType::INT16, FieldType::UINT16, FieldType::INT32, FieldType::UINT32, FieldType::INT64, FieldType::UINT64};
  auto xyz = [&](bool gap = false) {
    add(l, r, "x", F, true, gap);
    add(l, r, "y", F, true, gap);
    add(l, r, "z", F, true, gap);
  };
  switch (kind % kLayoutKinds) {
    case 0: xyz(); break;
    case 1:
      xyz();
      add(l, r, "intensity", F, true, false);
      break;
    case 2:  // typical lidar driver
      xyz();
      add(l, r, "intensity", F, r.below(2), false);
      add(l, r, "ring", FieldType::UINT16, false, false);
      add(l, r, "timestamp", FieldType::FLOAT64, r.below(3) == 0, false);
      break;
    case 3: {
      const int n = 1 + int(r.below(7));
      for (int i = 0; i < n; ++i) {
        const FieldType t = all[r.below(10)];
        add(l, r, "f" + std::to_string(i), t, r.below(2), true);
      }
      break;
    }
    case 4: {
      const int n = 1 + int(r.below(4));
      for (int i = 0; i < n; ++i) add(l, r, "i" + std::to_string(i), ints[r.below(6)], false, false);
      break;
    }
    case 5: {
      xyz(r.below(2));
      const int n = 1 + int(r.below(3));
      for (int i = 0; i < n; ++i) add(l, r, "k" + std::to_string(i), ints[r.below(6)], false, r.below(2));
      break;
    }
    case 6: add(l, r, "v", all[seed % 10], r.below(2), false); break;
    case 7:
      xyz();
      l.step = 16;
      add(l, r, "rgb", F, false, false);
      add(l, r, "label", FieldType::UINT32, false, false);
      break;
    case 8:  // doubles and bytes
      add(l, r, "lat", FieldType::FLOAT64, r.below(2), false);
      add(l, r, "lon", FieldType::FLOAT64, r.below(2), false);
      add(l, r, "flag", FieldType::UINT8, false, false);
      add(l, r, "t", FieldType::INT64, false, false);
      break;
    case 9: {  // five leading lossy floats (no vector path) + int
      for (int i = 0; i < 5; ++i) add(l, r, "q" + std::to_string(i), F, true, false);
      add(l, r, "id", ints[r.below(6)], false, false);
      break;
    }
    case 10: {  // two lossy floats, byte, 32-bit
      add(l, r, "u", F, true, false);
      add(l, r, "v", F, true, false);
      add(l, r, "c", FieldType::INT8, false, false);
      add(l, r, "n", FieldType::INT32, false, false);
      break;
    }
    case 12: {  // wide points: long headers, large chunks
      const bool big = chunkPoints() > 1000;
      const int n = !big && !sim::haveShadow() && r.below(24) == 0 ? 250 + int(r.below(60)) : 6 + int(r.below(8));
      const bool noisy = r.below(3) == 0;
      for (int i = 0; i < n; ++i) {
        const FieldType t = n > 100 ? FieldType::UINT8 : noisy ? (r.below(2) ? FieldType::FLOAT64 : FieldType::UINT64) : all[r.below(10)];
        add(l, r, std::string(n > 100 ? 1 : r.below(big ? 9 : 40), 'w') + std::to_string(i), t, !noisy && r.below(3) == 0, r.below(5) == 0);
      }
      break;
    }
    default: {  // declaration order differs from memory order
      xyz();
      add(l, r, "ring", FieldType::UINT16, false, false);
      add(l, r, "time", FieldType::UINT32, false, true);
      std::vector<uint32_t> off;
      for (size_t i = l.fields.size(); i > 1; --i) std::swap(l.fields[i - 1], l.fields[r.below(i)]);
      break;
    }
  }
  if (r.below(3) == 0) l.step += uint32_t(r.below(9));
  return l;
}

EncodingInfo makeInfo(const Layout& l, uint64_t cfg, uint32_t w, uint32_t h) {
  cfg %= kCfgs;
  EncodingInfo i;
  i.fields = l.fields;
  i.point_step = l.step;
  i.width = w;
  i.height = h;
  i.encoding_opt = static_cast<EncodingOptions>(cfg % 3);
  i.compression_opt = static_cast<CompressionOption>((cfg / 3) % 3);
  i.version = uint8_t(3 + (cfg / 9) % 3);
  i.use_threads = (cfg / 27) % 2;
  return i;
}

void dims(size_t n, uint64_t sel, uint32_t& w, uint32_t& h) {
  w = uint32_t(n);
  h = 1;
  if (sel % 3 == 1 && n % 2 == 0 && n) {
    w = uint32_t(n / 2);
    h = 2;
  } else if (sel % 3 == 2 && n % 5 == 0 && n) {
    w = 5;
    h = uint32_t(n / 5);
  }
}

namespace {
// integer value process
struct IntProc {
  int kind;
  uint64_t v = 0, step = 0;
  std::vector<uint64_t> pal;
  uint64_t run_left = 0;
  int bits;
  void pick(Rng& r, int nbits) {
    bits = nbits;
    kind = int(r.below(12));
    v = r.next();
    if (r.below(3) == 0) v = r.below(100);
    step = r.below(4) == 0 ? r.next() : r.below(5);
    const size_t np = r.below(4) == 0 ? 1 + r.below(300) : 1 + r.below(9);
    pal.clear();
    for (size_t i = 0; i < np; ++i) pal.push_back(r.below(2) ? r.next() : r.below(1000));
    run_left = 0;
  }
  uint64_t next(Rng& r) {
    switch (kind) {
      case 0: return v;
      case 1: return v += step;
      case 2: return pal[r.below(pal.size())];
      case 3:
        if (run_left == 0) {
          run_left = 1 + r.below(40);
          v = r.next();
        }
        --run_left;
        return v;
      case 4: return v += r.below(7) - 3;
      case 5: return r.next();
      case 6:  // extremes
        switch (r.below(6)) {
          case 0: return 0;
          case 1: return ~0ull;
          case 2: return 1ull << (bits - 1);
          case 3: return (1ull << (bits - 1)) - 1;
          case 4: return 1;
          default: return r.next();
        }
      case 7:  // ramp with rare jumps
        if (r.below(50) == 0) v = r.next();
        return v += step;
      case 8: return v ^= 1ull << (bits - 1);  // alternate across the sign
      case 9: return r.below(256);
      case 10:  // few long runs of values far apart
        if (run_left == 0) {
          run_left = 4 + r.below(r.below(2) ? 40 : 400);
          v = r.below(3) ? r.next() : pal[r.below(pal.size())];
        }
        --run_left;
        return v;
      default:  // piecewise ramps of random slope
        if (run_left == 0) {
          run_left = 1 + r.below(60);
          step = r.below(2) ? r.below(9) - 4 : r.next();
        }
        --run_left;
        return v += step;
    }
  }
};
struct RealProc {
  int kind;
  double v, amp;
  uint64_t bits = 0;
  uint64_t left = 0;
  bool nan_run = false;
  void pick(Rng& r, bool any_bits) {
    kind = int(r.below(any_bits ? 9 : 7));
    amp = std::pow(10.0, double(r.range(-2, 5)));
    v = (r.unit() - 0.5) * amp;
    bits = r.next();
    left = 0;
    nan_run = false;
  }
  // returns value; is_bits: raw pattern in `bits`
  double next(Rng& r, bool& is_bits) {
    is_bits = false;
    switch (kind) {
      case 0: return v;
      case 1: return v += (r.unit() - 0.5) * amp * 0.01;
      case 2: return (r.unit() - 0.5) * amp;
      case 3:
        if (left == 0) {
          left = 1 + r.below(20);
          nan_run = r.below(3) == 0;
        }
        --left;
        if (nan_run) return std::numeric_limits<double>::quiet_NaN();
        return v += (r.unit() - 0.5) * amp * 0.001;
      case 4: return r.below(2) ? v : -v;
      case 5: return r.below(4) == 0 ? 0.0 : (r.below(8) == 0 ? -0.0 : v);
      case 6: return double(int64_t(v = v + 1.0));
      case 7:
        is_bits = true;
        bits = r.next();
        return 0;
      default:
        is_bits = true;
        switch (r.below(6)) {
          case 0: bits ^= r.below(256); break;
          case 1: bits ^= 1ull << r.below(64); break;
          case 2: bits = 0; break;
          case 3: bits = ~0ull; break;
          case 4: bits ^= 0xFFull << 56; break;
          default: break;
        }
        return 0;
    }
  }
};
}  // namespace

Bytes makeCloud(const Layout& l, size_t n, uint64_t seed, bool lossy_domain) {
  Rng r(sim::mix64(seed, 0xC10D));
  Bytes out(n * l.step);
  {
    // padding / don't-care bytes
    uint64_t s = r.next();
    for (size_t i = 0; i < out.size(); ++i) {
      s = s * 6364136223846793005ull + 1442695040888963407ull;
      out[i] = uint8_t(s >> 56);
    }
  }
  const size_t C = chunkPoints(), P = probePoints();
  const bool noise = r.below(10) == 0;  // nothing to compress anywhere
  for (const auto& f : l.fields) {
    Rng fr(r.next());
    const size_t sz = size_t(SizeOf(f.type));
    const bool real = f.type == FieldType::FLOAT32 || f.type == FieldType::FLOAT64;
    IntProc ip;
    RealProc rp;
    // regime switches: random, and around chunk / probe boundaries
    std::vector<size_t> sw;
    if (fr.below(2)) {
      const int k = int(fr.below(4));
      for (int i = 0; i < k; ++i) {
        size_t b;
        switch (fr.below(4)) {
          case 0: b = P; break;
          case 1: b = C; break;
          case 2: b = C + P; break;
          default: b = fr.below(n + 1); break;
        }
        const int64_t d = int64_t(b) + fr.range(-2, 2);
        sw.push_back(size_t(std::max<int64_t>(0, d)));
      }
    }
    const bool lossy = lossy_domain && real && f.resolution.has_value();
    if (real) rp.pick(fr, !lossy);
    else ip.pick(fr, int(sz * 8));
    if (noise) {
      ip.kind = 5;
      rp.kind = 2;
      sw.clear();
    }
    const double lim = lossy ? double(*f.resolution) * double(f.type == FieldType::FLOAT32 ? (1 << 28) : (1ll << 40)) : 0;
    for (size_t i = 0; i < n; ++i) {
      if (std::find(sw.begin(), sw.end(), i) != sw.end()) {
        if (real) rp.pick(fr, !lossy);
        else ip.pick(fr, int(sz * 8));
      }
      uint8_t* p = out.data() + i * l.step + f.offset;
      if (!real) {
        const uint64_t v = ip.next(fr);
        memcpy(p, &v, sz);
        continue;
      }
      bool bits = false;
      double v = rp.next(fr, bits);
      if (bits) {
        const uint64_t b = sz == 4 ? (rp.bits ^ (rp.bits >> 32)) : rp.bits;
        memcpy(p, &b, sz);
        continue;
      }
      if (lossy && std::isfinite(v)) {
        if (std::fabs(v) > lim) v = std::fmod(v, lim);
        if (fr.below(16) == 0) v = (fr.unit() - 0.5) * 1.99 * lim * (fr.below(2) ? 1.0 : 0.001);
      }
      if (f.type == FieldType::FLOAT32) {
        const float w = float(v);
        memcpy(p, &w, 4);
      } else {
        memcpy(p, &v, 8);
      }
    }
  }
  return out;
}

bool matches(const EncodingInfo& info, const Bytes& orig, const uint8_t* dec, size_t dec_size, std::string& why) {
  if (dec_size != orig.size()) {
    why = "decoded size " + std::to_string(dec_size) + " instead of " + std::to_string(orig.size());
    return false;
  }
  const size_t n = info.point_step ? orig.size() / info.point_step : 0;
  for (const auto& f : info.fields) {
    const size_t sz = size_t(SizeOf(f.type));
    const bool real = f.type == FieldType::FLOAT32 || f.type == FieldType::FLOAT64;
    const bool lossy = real && info.encoding_opt == EncodingOptions::LOSSY && f.resolution.has_value();
    for (size_t i = 0; i < n; ++i) {
      const uint8_t* a = orig.data() + i * info.point_step + f.offset;
      const uint8_t* b = dec + i * info.point_step + f.offset;
      if (!lossy) {
        if (memcmp(a, b, sz)) {
          why = "field '" + f.name + "' (" + ToString(f.type) + ") of point " + std::to_string(i) + " of " + std::to_string(n) + " is not bit-exact";
          return false;
        }
        continue;
      }
      double x, y;
      const double res = double(*f.resolution);
      double eps;
      if (f.type == FieldType::FLOAT32) {
        float u, v;
        memcpy(&u, a, 4);
        memcpy(&v, b, 4);
        x = u;
        y = v;
        eps = std::fabs(x) * 5e-7;
      } else {
        memcpy(&x, a, 8);
        memcpy(&y, b, 8);
        eps = std::fabs(x) * 1e-14;
      }
      if (std::isnan(x)) {
        if (std::isnan(y)) continue;
        why = "NaN of field '" + f.name + "' at point " + std::to_string(i) + " became " + std::to_string(y);
        return false;
      }
      const double tol = 0.5 * res * (1 + 1e-5) + eps;
      if (!(std::fabs(x - y) <= tol)) {
        char m[240];
        snprintf(m, sizeof m, "field '%s' of point %zu of %zu: |%.9g - %.9g| = %.4g exceeds half the resolution %.6g", f.name.c_str(), i, n, x, y,
                 std::fabs(x - y), res);
        why = m;
        return false;
      }
    }
  }
  return true;
}
bool sameFields(const EncodingInfo& info, const uint8_t* a, const uint8_t* b, size_t n, std::string& why) {
  for (const auto& f : info.fields) {
    const size_t sz = size_t(SizeOf(f.type));
    for (size_t i = 0; i < n; ++i)
      if (memcmp(a + i * info.point_step + f.offset, b + i * info.point_step + f.offset, sz)) {
        why = "field '" + f.name + "' of point " + std::to_string(i) + " differs";
        return false;
      }
  }
  return true;
}
uint64_t fieldsHash(const EncodingInfo& info, const uint8_t* d, size_t n) {
  uint64_t h = n;
  for (const auto& f : info.fields) {
    const size_t sz = size_t(SizeOf(f.type));
    if (uint64_t(f.offset) + sz > info.point_step) continue;  // a field that is not stored
    for (size_t i = 0; i < n; ++i) {
      uint64_t v = 0;
      memcpy(&v, d + i * info.point_step + f.offset, sz);
      h = sim::mix64(h, v);
    }
  }
  return h;
}

static size_t measureChunk() {
  EncodingInfo i;
  PointField f;
  f.name = "b";
  f.type = FieldType::UINT8;
  i.fields = {f};
  i.point_step = 1;
  i.encoding_opt = EncodingOptions::NONE;
  i.compression_opt = CompressionOption::NONE;
  i.use_threads = false;
  Bytes in(300000), out;
  i.width = uint32_t(in.size());
  PointcloudEncoder e(i);
  e.encode(ConstBufferView(in.data(), in.size()), out);
  uint32_t c = 0;
  memcpy(&c, out.data() + e.getHeader().size(), 4);
  return c;
}
size_t chunkPoints() {
  static const size_t c = measureChunk();
  return c;
}
std::string describe(const EncodingInfo& i) {
  std::string s = std::string(ToString(i.encoding_opt)) + "/" + ToString(i.compression_opt) + "/v" + std::to_string(i.version) +
                  (i.use_threads ? "/threads" : "/sync") + " step " + std::to_string(i.point_step) + " [";
  for (auto& f : i.fields) s += (s.back() == '[' ? "" : ",") + f.name + ":" + ToString(f.type) + "@" + std::to_string(f.offset) + (f.resolution ? "r" : "");
  return s + "] " + std::to_string(i.width) + "x" + std::to_string(i.height);
}
bool splitChunks(const Bytes& s, size_t header, std::vector<ChunkSpan>& out) {
  size_t p = header;
  while (p < s.size()) {
    if (p + 4 > s.size()) return false;
    uint32_t c;
    memcpy(&c, s.data() + p, 4);
    if (p + 4 + c > s.size()) return false;
    out.push_back({p, p + 4 + c});
    p += 4 + size_t(c);
  }
  return true;
}
Bytes encodeFresh(const EncodingInfo& info, const Bytes& cloud) {
  EncodingInfo i = info;
  i.use_threads = false;
  PointcloudEncoder e(i);
  Bytes out;
  e.encode(ConstBufferView(cloud.data(), cloud.size()), out);
  return out;
}
}  // namespace cl
