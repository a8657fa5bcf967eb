// Stand-in for the mcap C++ library (not installed here): same interface and error behaviour, real MCAP byte layout, chunks
// stored without compression. Reading and writing go through the real iostream/stdio objects the caller hands over.
#pragma once
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
namespace mcap {
using SchemaId = uint16_t;
using ChannelId = uint16_t;
using Timestamp = uint64_t;
using ByteOffset = uint64_t;
using KeyValueMap = std::unordered_map<std::string, std::string>;
using ByteArray = std::vector<std::byte>;
constexpr Timestamp MaxTime = std::numeric_limits<Timestamp>::max();
constexpr ByteOffset EndOffset = std::numeric_limits<ByteOffset>::max();
constexpr uint8_t Magic[] = {137, 77, 67, 65, 80, 48, 13, 10};
constexpr uint64_t DefaultChunkSize = 1024 * 768;
enum class Compression { None, Lz4, Zstd };
enum class CompressionLevel { Fastest, Fast, Default, Slow, Slowest };
enum class StatusCode {
  Success = 0, NotOpen, InvalidSchemaId, InvalidChannelId, FileTooSmall, ReadFailed, MagicMismatch, InvalidFile, InvalidRecord, InvalidOpCode,
  InvalidChunkOffset, InvalidFooter, DecompressionFailed, DecompressionSizeMismatch, UnrecognizedCompression, OpenFailed, MissingStatistics,
  InvalidMessageReadOptions, NoMessageIndexesAvailable, UnsupportedCompression
};
struct Status {
  StatusCode code = StatusCode::Success;
  std::string message;
  Status() = default;
  Status(StatusCode c) : code(c), message(c == StatusCode::Success ? "" : "error " + std::to_string(int(c))) {}
  Status(StatusCode c, const std::string& m) : code(c), message(m) {}
  bool ok() const { return code == StatusCode::Success; }
};
using ProblemCallback = std::function<void(const Status&)>;
enum class OpCode : uint8_t {
  Header = 1, Footer, Schema, Channel, Message, Chunk, MessageIndex, ChunkIndex, Attachment, AttachmentIndex, Statistics, Metadata, MetadataIndex,
  SummaryOffset, DataEnd
};
struct Record {
  OpCode opcode{};
  uint64_t dataSize = 0;
  std::byte* data = nullptr;
  uint64_t recordSize() const { return 9 + dataSize; }
};
struct Header {
  std::string profile, library;
};
struct Footer {
  ByteOffset summaryStart = 0, summaryOffsetStart = 0;
  uint32_t summaryCrc = 0;
};
struct Schema {
  SchemaId id = 0;
  std::string name, encoding;
  ByteArray data;
  Schema() = default;
  Schema(const std::string_view n, const std::string_view e, const std::string_view d)
      : name(n), encoding(e), data(reinterpret_cast<const std::byte*>(d.data()), reinterpret_cast<const std::byte*>(d.data() + d.size())) {}
  Schema(const std::string_view n, const std::string_view e, const ByteArray& d) : name(n), encoding(e), data(d) {}
};
struct Channel {
  ChannelId id = 0;
  std::string topic, messageEncoding;
  SchemaId schemaId = 0;
  KeyValueMap metadata;
  Channel() = default;
  Channel(const std::string_view t, const std::string_view e, SchemaId s, const KeyValueMap& m = {}) : topic(t), messageEncoding(e), schemaId(s), metadata(m) {}
};
using SchemaPtr = std::shared_ptr<Schema>;
using ChannelPtr = std::shared_ptr<Channel>;
struct Message {
  ChannelId channelId = 0;
  uint32_t sequence = 0;
  Timestamp logTime = 0, publishTime = 0;
  uint64_t dataSize = 0;
  const std::byte* data = nullptr;
};
struct Attachment {
  Timestamp logTime = 0, createTime = 0;
  std::string name, mediaType;
  uint64_t dataSize = 0;
  const std::byte* data = nullptr;
  uint32_t crc = 0;
};
struct AttachmentIndex {
  ByteOffset offset = 0, length = 0;
  Timestamp logTime = 0, createTime = 0;
  uint64_t dataSize = 0;
  std::string name, mediaType;
};
struct Metadata {
  std::string name;
  KeyValueMap metadata;
};
struct MetadataIndex {
  uint64_t offset = 0, length = 0;
  std::string name;
};
struct ChunkIndex {
  Timestamp messageStartTime = 0, messageEndTime = 0;
  ByteOffset chunkStartOffset = 0, chunkLength = 0;
};
struct Statistics {
  uint64_t messageCount = 0;
  uint16_t schemaCount = 0;
  uint32_t channelCount = 0, attachmentCount = 0, metadataCount = 0, chunkCount = 0;
  Timestamp messageStartTime = 0, messageEndTime = 0;
  std::unordered_map<ChannelId, uint64_t> channelMessageCounts;
};
struct RecordOffset {
  ByteOffset offset = 0;
  std::optional<ByteOffset> chunkOffset;
};
struct MessageView {
  const Message& message;
  const ChannelPtr channel;
  const SchemaPtr schema;
  const RecordOffset messageOffset;
};
namespace internal {
struct In {  // bounds-checked cursor
  const std::byte* p;
  uint64_t left;
  bool good = true;
  In(const std::byte* d, uint64_t n) : p(d), left(n) {}
  template <class T>
  T num() {
    T v{};
    if (left < sizeof(T)) return good = false, v;
    std::memcpy(&v, p, sizeof v);
    p += sizeof v;
    left -= sizeof v;
    return v;
  }
  std::string str() {
    const uint32_t n = num<uint32_t>();
    if (!good || left < n) return good = false, std::string();
    std::string s(reinterpret_cast<const char*>(p), n);
    p += n;
    left -= n;
    return s;
  }
  KeyValueMap map() {
    KeyValueMap m;
    const uint32_t n = num<uint32_t>();
    if (!good || left < n) return good = false, m;
    In in(p, n);
    p += n;
    left -= n;
    while (in.good && in.left) {
      std::string k = in.str(), v = in.str();
      if (in.good) m[k] = v;
    }
    good &= in.good;
    return m;
  }
};
struct Out {
  std::string b;
  template <class T>
  void num(T v) {
    b.append(reinterpret_cast<const char*>(&v), sizeof v);
  }
  void str(const std::string& s) {
    num(uint32_t(s.size()));
    b += s;
  }
  void map(const KeyValueMap& m) {
    Out o;
    const std::map<std::string, std::string> sorted(m.begin(), m.end());
    for (auto& [k, v] : sorted) {
      o.str(k);
      o.str(v);
    }
    str(o.b);
  }
  void record(OpCode op, const std::string& content) {
    num(uint8_t(op));
    num(uint64_t(content.size()));
    b += content;
  }
};
}  // namespace internal
}  // namespace mcap
