// Independent CDR writer and strict reader for PointCloud2 / CompressedPointCloud2 messages, and a message generator.
#pragma once
#include "cloud.hpp"
namespace rosmsg {
using cl::Bytes;
struct Field {
  std::string name;
  uint32_t offset = 0;
  uint8_t type = 0;
  uint32_t count = 1;
  bool operator==(const Field& o) const { return name == o.name && offset == o.offset && type == o.type && count == o.count; }
};
struct Msg {
  bool big = false;  // byte order of the message
  int32_t sec = 0;
  uint32_t nsec = 0;
  std::string frame;
  uint32_t height = 1, width = 0;
  std::vector<Field> fields;
  bool is_bigendian = false;
  uint32_t point_step = 0, row_step = 0;
  Bytes data;
  bool is_dense = true;
  std::string format;  // compressed messages only
};
Bytes write(const Msg& m, bool compressed);
// Reads every field and requires the message to end exactly there.
bool read(const Bytes& b, Msg& m, bool compressed, std::string& why);
// Metadata equality (everything but data, row_step and format).
bool sameMeta(const Msg& a, const Msg& b, std::string& why);
// A well-formed message around a cloud. seed decides strings, stamp, flags, byte order (big only if allow_big).
Msg make(const cl::Layout& l, Bytes cloud, size_t n, uint64_t seed, bool allow_big);
cl::EncodingInfo infoOf(const Msg& m);  // fields without resolutions
std::string describe(const Msg& m);
}  // namespace rosmsg
