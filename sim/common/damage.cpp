#include "damage.hpp"
#include <lz4.h>
#include <zstd.h>
#include <algorithm>
#include <cctype>
namespace dmg {
size_t headerEnd(const Bytes& b) {
  if (b.size() < 14 || memcmp(b.data(), "CLOUDINI_V", 10)) return 0;
  for (size_t i = 12; i < b.size(); ++i)
    if (b[i] == 0) return i + 1;
  return 0;
}
static const uint32_t kInteresting[] = {0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 63, 64, 65, 127, 128, 255, 256, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFEu, 0xFFFFFFFFu, 0x80808080u, 0x20000000u, 1000000u};
static const char* const kTokens[] = {"0", "1", "4294967295", "4294967296", "-1", "null", "INT8", "UINT64", "FLOAT64", "FLOAT32", "INT16", "UNKNOWN", "NONE", "LZ4", "ZSTD", "LOSSY", "LOSSLESS", "65535",
                                      "2147483648", "1e30", "0.001", "1e-30", "nan", "", "- ", "x", "12", "99999999999999999999"};
static size_t pick(uint64_t a, size_t lo, size_t n) {  // position biased to starts and ends
  if (n <= lo) return lo;
  const size_t len = n - lo;
  const uint64_t v = a >> 2;
  switch (a & 3) {
    case 0: return lo + v % std::min<size_t>(len, 24);
    case 1: return n - 1 - v % std::min<size_t>(len, 24);
    default: return lo + v % len;
  }
}
// Where the compressed chunks of a stream are: the stream may be embedded in a serialized message.
struct Where {
  size_t begin = 0, end = 0;  // chunks
  size_t length = 0;          // position of the length of the embedding sequence, 0: not embedded
  int comp = 0;               // 1 LZ4 2 ZSTD
  std::vector<cl::ChunkSpan> spans;
};
static bool locate(const Bytes& b, Where& w) {
  static const char kMagic[] = "CLOUDINI_V";
  const auto it = std::search(b.begin(), b.end(), kMagic, kMagic + 10);
  const size_t pos = size_t(it - b.begin());
  if (it == b.end()) return false;
  size_t he = pos + 12;
  while (he < b.size() && b[he]) ++he;
  if (++he > b.size()) return false;
  const std::string head(b.begin() + long(pos), b.begin() + long(he));
  w.comp = head.find("LZ4") != std::string::npos ? 1 : head.find("ZSTD") != std::string::npos ? 2 : 0;
  w.begin = he;
  w.end = b.size();
  if (pos >= 4) {
    uint32_t n;
    memcpy(&n, b.data() + pos - 4, 4);
    if (n < he - pos || n > b.size() - pos) return false;
    w.length = pos - 4;
    w.end = pos + n;
  }
  return cl::splitChunks(Bytes(b.begin(), b.begin() + long(w.end)), w.begin, w.spans) && !w.spans.empty();
}
// replaces the chunks; what follows the sequence in a serialized message (bool, string) keeps its alignment
static void replaceChunks(Bytes& b, const Where& w, const Bytes& chunks) {
  Bytes out(b.begin(), b.begin() + long(w.begin));
  out.insert(out.end(), chunks.begin(), chunks.end());
  if (w.length) {
    const uint32_t n = uint32_t(out.size() - w.length - 4);
    memcpy(out.data() + w.length, &n, 4);
    size_t at = w.end;
    if (at < b.size()) out.push_back(b[at++]);
    while (at < b.size() && (at - 4) % 4) ++at;
    while (at < b.size() && (out.size() - 4) % 4) out.push_back(0);
    out.insert(out.end(), b.begin() + long(at), b.end());
  }
  b = std::move(out);
}
static bool unpack(const Bytes& in, int comp, Bytes& out) {
  if (!comp) { out = in; return true; }
  out.resize(1u << 18);
  long n;
  if (comp == 1) {
    n = LZ4_decompress_safe(reinterpret_cast<const char*>(in.data()), reinterpret_cast<char*>(out.data()), int(in.size()), int(out.size()));
  } else {
    const size_t k = ZSTD_decompress(out.data(), out.size(), in.data(), in.size());
    n = ZSTD_isError(k) ? -1 : long(k);
  }
  if (n < 0) return false;
  out.resize(size_t(n));
  return true;
}
static bool packUp(const Bytes& in, int comp, Bytes& out) {
  if (!comp) { out = in; return true; }
  out.resize(comp == 1 ? size_t(LZ4_compressBound(int(in.size()))) : ZSTD_compressBound(in.size()));
  long n;
  if (comp == 1) {
    n = LZ4_compress_default(reinterpret_cast<const char*>(in.data()), reinterpret_cast<char*>(out.data()), int(in.size()), int(out.size()));
    if (n <= 0) n = -1;
  } else {
    const size_t k = ZSTD_compress(out.data(), out.size(), in.data(), in.size(), 1);
    n = ZSTD_isError(k) ? -1 : long(k);
  }
  if (n < 0) return false;
  out.resize(size_t(n));
  return true;
}
bool apply(Bytes& b, uint64_t kind, uint64_t a, uint64_t c, uint64_t d, size_t start, const Bytes* other) {
  const Bytes before = b;
  if (b.empty()) return false;
  start = std::min(start, b.size());
  const size_t from = (d & 7) == 0 ? 0 : start;  // mostly the part behind the header
  const size_t p = std::min(pick(a, from, b.size()), b.size() - 1);
  auto put32 = [&](size_t at, uint32_t v) {
    for (size_t i = 0; i < 4 && at + i < b.size(); ++i) b[at + i] = uint8_t(v >> (8 * i));
  };
  switch (kind % kKinds) {
    case 0: b[p] ^= uint8_t(1u << (c & 7)); break;
    case 1: b[p] = uint8_t(c); break;
    case 2: put32(p, kInteresting[c % (sizeof kInteresting / 4)]); break;
    case 3: b.resize(a % b.size()); break;
    case 4: b.resize(p); break;
    case 5:
      for (uint64_t i = 0; i < 1 + c % 40; ++i) b.push_back(uint8_t(sim::mix64(d, i)));
      break;
    case 6:
      if (other && !other->empty()) {
        const size_t q = size_t(c % other->size());
        b.resize(p);
        b.insert(b.end(), other->begin() + q, other->end());
      }
      break;
    case 7: {
      const size_t n = std::min<size_t>(1 + c % 64, b.size() - p);
      b.erase(b.begin() + p, b.begin() + p + n);
      break;
    }
    case 8: {
      const size_t n = std::min<size_t>(1 + c % 64, b.size() - p);
      Bytes t(b.begin() + p, b.begin() + p + n);
      b.insert(b.begin() + p, t.begin(), t.end());
      break;
    }
    case 9: {
      const size_t n = std::min<size_t>(1 + c % 64, b.size() - p);
      std::fill(b.begin() + p, b.begin() + p + n, uint8_t((d & 1) ? 0xFF : (d & 2) ? 0x80 : 0));
      break;
    }
    case 10: {  // overwrite with bytes of elsewhere in the message
      const size_t n = std::min<size_t>(1 + c % 64, b.size() - p);
      for (size_t i = 0; i < n; ++i) b[p + i] = before[(p + i + size_t(d)) % before.size()];
      break;
    }
    case 11:
    case 12: {  // a whole chunk lost, repeated or swapped
      std::vector<cl::ChunkSpan> s;
      if (!cl::splitChunks(b, start, s) || s.empty()) { b[p] ^= 0x40; break; }
      const size_t i = a % s.size();
      Bytes t(b.begin() + s[i].begin, b.begin() + s[i].end);
      if (c % 3 == 0) b.erase(b.begin() + s[i].begin, b.begin() + s[i].end);
      else if (c % 3 == 1) b.insert(b.begin() + s[i].begin, t.begin(), t.end());
      else {
        b.erase(b.begin() + s[i].begin, b.begin() + s[i].end);
        b.insert(b.end(), t.begin(), t.end());
      }
      break;
    }
    case 13: {  // chunk length prefix off
      std::vector<cl::ChunkSpan> s;
      if (!cl::splitChunks(b, start, s) || s.empty()) { b[p] ^= 1; break; }
      const size_t i = a % s.size();
      uint32_t len;
      memcpy(&len, b.data() + s[i].begin, 4);
      if (c & 1) len = kInteresting[d % (sizeof kInteresting / 4)];
      else len = uint32_t(int64_t(len) + int64_t(d % 9) - 4);
      memcpy(b.data() + s[i].begin, &len, 4);
      break;
    }
    case 14:
    case 15: {  // a number or word of the text header replaced
      const size_t he = start;
      if (he < 16) { b[p] ^= 4; break; }
      std::vector<std::pair<size_t, size_t>> tok;
      for (size_t i = 12; i + 1 < he; ++i)
        if (b[i] == ':' && b[i + 1] == ' ') {
          size_t e = i + 2;
          while (e < he && b[e] != '\n' && b[e] != 0) ++e;
          tok.push_back({i + 2, e});
        }
      if (tok.empty()) { b[p] ^= 4; break; }
      const auto t = tok[a % tok.size()];
      std::string v = (c & 1) ? kTokens[d % (sizeof kTokens / sizeof *kTokens)] : std::to_string(kInteresting[d % (sizeof kInteresting / 4)]);
      b.erase(b.begin() + t.first, b.begin() + t.second);
      b.insert(b.begin() + t.first, v.begin(), v.end());
      break;
    }
    case 16: {  // one header digit or letter changed
      const size_t he = start > 16 ? start : b.size();
      const size_t q = 10 + size_t(a % (he > 11 ? he - 10 : 1));
      if (q < b.size()) b[q] = uint8_t((c & 1) ? '0' + d % 10 : 32 + d % 95);
      break;
    }
    case 18: {  // the contents of a chunk differ: seen by the field decoders, not by the general purpose decompressor
      Where w;
      if (!locate(b, w)) { b[p] ^= 0x10; break; }
      const size_t i = a % w.spans.size();
      Bytes raw, packed, all;
      if (!unpack(Bytes(b.begin() + long(w.spans[i].begin) + 4, b.begin() + long(w.spans[i].end)), w.comp, raw) || raw.empty()) { b[p] ^= 0x20; break; }
      const size_t q = std::min(pick(a >> 4, 0, raw.size()), raw.size() - 1);
      switch (c % 8) {
        case 0: raw[q] ^= uint8_t(1u << (d & 7)); break;
        case 1: raw[q]++; break;
        case 2: raw[q]--; break;
        case 3: raw[q] = uint8_t(d); break;
        case 4:
          for (size_t k = 0; k < 4 && q + k < raw.size(); ++k) raw[q + k] = uint8_t(kInteresting[d % (sizeof kInteresting / 4)] >> (8 * k));
          break;
        case 5: raw.resize(q); break;
        case 6: raw.erase(raw.begin() + long(q)); break;
        default: raw.insert(raw.begin() + long(q), 1 + d % 3, uint8_t(d >> 3)); break;
      }
      if (!packUp(raw, w.comp, packed)) { b[p] ^= 0x20; break; }
      for (size_t k = 0; k < w.spans.size(); ++k)
        if (k == i) {
          const uint32_t n = uint32_t(packed.size());
          for (int z = 0; z < 4; ++z) all.push_back(uint8_t(n >> (8 * z)));
          all.insert(all.end(), packed.begin(), packed.end());
        } else {
          all.insert(all.end(), b.begin() + long(w.spans[k].begin), b.begin() + long(w.spans[k].end));
        }
      replaceChunks(b, w, all);
      break;
    }
    case 19: {  // a chunk of another message
      Where w, v;
      if (!locate(b, w) || !other || !locate(*other, v)) { b[p] ^= 0x08; break; }
      const size_t i = a % w.spans.size(), j = c % v.spans.size();
      Bytes all;
      for (size_t k = 0; k < w.spans.size(); ++k) {
        if (k == i) all.insert(all.end(), other->begin() + long(v.spans[j].begin), other->begin() + long(v.spans[j].end));
        if (k != i || d % 3 == 0) all.insert(all.end(), b.begin() + long(w.spans[k].begin), b.begin() + long(w.spans[k].end));
      }
      replaceChunks(b, w, all);
      break;
    }
    default: {  // burst of random bytes
      const size_t n = std::min<size_t>(1 + c % 12, b.size() - p);
      for (size_t i = 0; i < n; ++i) b[p + i] = uint8_t(sim::mix64(d, i));
      break;
    }
  }
  return b != before;
}
Op gen(sim::Rng& r) {
  return Op{"dmg", {int64_t(r.below(4) ? r.below(kKinds) : 18), int64_t(r.below(1u << 22)), int64_t(r.below(1u << 16)), int64_t(r.below(1u << 16))}};
}
bool applyOp(Bytes& b, const Op& op, size_t k, size_t start, const Bytes* other) {
  return apply(b, op.u(k), op.u(k + 1), op.u(k + 2), op.u(k + 3), start, other);
}
}  // namespace dmg
