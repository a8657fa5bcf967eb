// One interface to several builds of the library (instruction sets) inside one simulated process.
#pragma once
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
namespace fleet {
using Bytes = std::vector<uint8_t>;
struct Field {
  std::string name;
  uint32_t offset;
  int type;
  bool has_res;
  float res;
};
struct Info {
  std::vector<Field> fields;
  uint32_t width = 0, height = 1, point_step = 0;
  int enc = 1, comp = 2, version = 5;
  bool threads = true;
};
struct Encoder {
  virtual ~Encoder() = default;
  virtual void encode(const Bytes& cloud, Bytes& out) = 0;
};
struct Decoder {
  virtual ~Decoder() = default;
  virtual void decode(const Bytes& in, Info& header, Bytes& out) = 0;
};
struct Build {
  virtual ~Build() = default;
  virtual std::unique_ptr<Encoder> encoder(const Info& i) const = 0;
  virtual std::unique_ptr<Decoder> decoder() const = 0;
  virtual size_t header(const Bytes& stream, Info& i) const = 0;                    // size of the header of a stream
  virtual void binaryHeader(const Info& i, Bytes& out) const = 0;
  virtual void compress(const Bytes& raw, const Info& i, Bytes& out) const = 0;    // message to compressed message
  virtual void decompress(const Bytes& msg, Bytes& out) const = 0;                 // and back
};
constexpr int kBuilds = 4;  // of this tree
constexpr int kBase = 4;    // the frozen release
const char* name(int b);
// null when this machine cannot run that build
const Build* get(int b);
}  // namespace fleet
