// Compressed and raw messages for the bindings, with what must come out of them.
#pragma once
#include "../common/damage.hpp"
#include "../common/rosmsg.hpp"
#include "host.hpp"
namespace bmsg {
using cl::Bytes;
constexpr int kKinds = 16;
struct Item {
  cl::Layout lay;
  cl::EncodingInfo info;
  Bytes cloud;       // original points
  rosmsg::Msg m;     // the compressed message
  Bytes raw, wire;   // serialised raw and compressed message
  size_t n = 0;
  size_t header = 0;  // bytes of the text header inside m.data
  uint64_t decoded() const { return cloud.size(); }
};
// kind: 0..11 layouts, 12 very many or long fields, 13 large, 14 huge (beyond 32 MiB), 15 unusual dimensions
void make(Item& it, uint64_t kind, uint64_t seed, uint64_t n, uint64_t cfg, bool want_raw = false);
std::string infoJson(const cl::EncodingInfo& i);
std::string rosJson(const rosmsg::Msg& m);  // header, dims, fields ... as a ROS message without data
std::string text(const Item& it);
}  // namespace bmsg
