// Compiled once per build of the library; FLEET_BUILD names it. The namespaces of the library are renamed by macros.
#include "fleet.hpp"
#include "cloudini_lib/cloudini.hpp"
#include "cloudini_lib/ros_msg_utils.hpp"
#define FLEET_CAT2(a, b) a##b
#define FLEET_CAT(a, b) FLEET_CAT2(a, b)
namespace fleet {
namespace FLEET_CAT(impl_, FLEET_BUILD) {
using namespace Cloudini;
EncodingInfo to(const Info& i) {
  EncodingInfo e;
  for (auto& f : i.fields) {
    PointField p;
    p.name = f.name;
    p.offset = f.offset;
    p.type = static_cast<FieldType>(f.type);
    if (f.has_res) p.resolution = f.res;
    e.fields.push_back(p);
  }
  e.width = i.width;
  e.height = i.height;
  e.point_step = i.point_step;
  e.encoding_opt = static_cast<EncodingOptions>(i.enc);
  e.compression_opt = static_cast<CompressionOption>(i.comp);
  e.version = uint8_t(i.version);
  e.use_threads = i.threads;
  return e;
}
Info from(const EncodingInfo& e) {
  Info i;
  for (auto& f : e.fields) i.fields.push_back({f.name, f.offset, int(f.type), f.resolution.has_value(), f.resolution ? *f.resolution : 0.f});
  i.width = e.width;
  i.height = e.height;
  i.point_step = e.point_step;
  i.enc = int(e.encoding_opt);
  i.comp = int(e.compression_opt);
  i.version = e.version;
  return i;
}
struct E : Encoder {
  PointcloudEncoder e;
  explicit E(const Info& i) : e(to(i)) {}
  void encode(const Bytes& cloud, Bytes& out) override { e.encode(ConstBufferView(cloud.data(), cloud.size()), out); }
};
struct D : Decoder {
  PointcloudDecoder d;
  void decode(const Bytes& in, Info& header, Bytes& out) override {
    ConstBufferView v(in.data(), in.size());
    const EncodingInfo h = DecodeHeader(v);
    header = from(h);
    d.decode(h, v, out);
  }
};
struct B : Build {
  std::unique_ptr<Encoder> encoder(const Info& i) const override { return std::make_unique<E>(i); }
  std::unique_ptr<Decoder> decoder() const override { return std::make_unique<D>(); }
  size_t header(const Bytes& stream, Info& i) const override {
    ConstBufferView v(stream.data(), stream.size());
    i = from(DecodeHeader(v));
    return stream.size() - v.size();
  }
  void binaryHeader(const Info& i, Bytes& out) const override { EncodeHeader(to(i), out, HeaderEncoding::BINARY); }
  void compress(const Bytes& raw, const Info& i, Bytes& out) const override {
    const auto pc = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(raw.data(), raw.size()));
    cloudini_ros::convertPointCloud2ToCompressedCloud(pc, to(i), out);
  }
  void decompress(const Bytes& msg, Bytes& out) const override {
    const auto pc = cloudini_ros::getDeserializedPointCloudMessage(ConstBufferView(msg.data(), msg.size()));
    cloudini_ros::convertCompressedCloudToPointCloud2(pc, out);
  }
};
}  // namespace
const Build* FLEET_CAT(build_, FLEET_BUILD)() {
  static const FLEET_CAT(impl_, FLEET_BUILD)::B b;
  return &b;
}
}  // namespace fleet
