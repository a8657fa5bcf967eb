// Cloud layouts, payload generators and the reference model of what decoding must give back.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include "cloudini_lib/cloudini.hpp"
#include "harness.hpp"

namespace cl {
using Cloudini::EncodingInfo;
using Cloudini::FieldType;
using Cloudini::PointField;
using Bytes = std::vector<uint8_t>;

struct Layout {
  std::vector<PointField> fields;
  uint32_t step = 0;
};
// kind selects a family, seed the details. Always usable with every codec setting.
Layout makeLayout(uint64_t kind, uint64_t seed);
constexpr int kLayoutKinds = 13;

// Settings packed in one integer: encoding (3) x compression (3) x version (3..5) x threads (2)
EncodingInfo makeInfo(const Layout& l, uint64_t cfg, uint32_t width, uint32_t height);
inline uint64_t cfgOf(int enc, int comp, int ver, int thr) { return uint64_t(enc + 3 * comp + 9 * (ver - 3) + 27 * thr); }
constexpr uint64_t kCfgs = 54;

// Payload of `n` points. seed selects per-field value processes (constant, ramps, palettes, runs, noise,
// extremes, regime switches near chunk and probe boundaries, NaN bursts ...). Padding bytes are random.
Bytes makeCloud(const Layout& l, size_t n, uint64_t seed, bool lossy_domain);

// Reference: what the decoded points must look like.
bool matches(const EncodingInfo& info, const Bytes& original, const uint8_t* decoded, size_t decoded_size, std::string& why);
// exact equality of field bytes (ignoring padding)
bool sameFields(const EncodingInfo& info, const uint8_t* a, const uint8_t* b, size_t n, std::string& why);
// Bytes of a decoded cloud restricted to fields (padding zeroed)
uint64_t fieldsHash(const EncodingInfo& info, const uint8_t* d, size_t n);

size_t chunkPoints();  // points per chunk of the library build under test (measured)
size_t probePoints();  // assumed length of the adaptive probe
std::string describe(const EncodingInfo& i);
struct ChunkSpan {
  size_t begin, end;  // including the length prefix
};
// splits an encoded stream (after its header) by its length prefixes; false if malformed
bool splitChunks(const Bytes& stream, size_t header, std::vector<ChunkSpan>& out);
// Encodes with a fresh encoder in the calling thread. Throws what the library throws.
Bytes encodeFresh(const EncodingInfo& info, const Bytes& cloud);
// width x height variants for n points
void dims(size_t n, uint64_t sel, uint32_t& w, uint32_t& h);
}  // namespace cl
