#pragma once
#include "types.hpp"
namespace mcap {
struct McapWriterOptions {
  bool noChunkCRC = false, noAttachmentCRC = false, enableDataCRC = false, noSummaryCRC = false, noChunking = false, noMessageIndex = false,
       noSummary = false;
  uint64_t chunkSize = DefaultChunkSize;
  Compression compression = Compression::Zstd;
  CompressionLevel compressionLevel = CompressionLevel::Default;
  bool forceCompression = false;
  std::string profile, library = "stub";
  bool noRepeatedSchemas = false, noRepeatedChannels = false, noAttachmentIndex = false, noMetadataIndex = false, noChunkIndex = false,
       noStatistics = false, noSummaryOffsets = false;
  McapWriterOptions(const std::string_view p) : profile(p) {}
};
class IWritable {
 public:
  virtual ~IWritable() = default;
  void write(const std::byte* d, uint64_t n) { handleWrite(d, n); }
  virtual void end() = 0;
  virtual uint64_t size() const = 0;
  virtual void flush() {}

 protected:
  virtual void handleWrite(const std::byte* d, uint64_t n) = 0;
};
class FileWriter final : public IWritable {  // like the real one, it does not look at the results of stdio
 public:
  ~FileWriter() override { end(); }
  Status open(std::string_view name) {
    end();
    f_ = std::fopen(std::string(name).c_str(), "wb");
    if (!f_) return Status(StatusCode::OpenFailed, "failed to open file \"" + std::string(name) + "\" for writing");
    return StatusCode::Success;
  }
  void end() override {
    if (f_) std::fclose(f_);
    f_ = nullptr;
  }
  uint64_t size() const override { return size_; }
  void flush() override {
    if (f_) std::fflush(f_);
  }

 private:
  void handleWrite(const std::byte* d, uint64_t n) override {
    const size_t w = std::fwrite(d, 1, n, f_);
    (void)w;
    size_ += n;
  }
  std::FILE* f_ = nullptr;
  uint64_t size_ = 0;
};
class StreamWriter final : public IWritable {
 public:
  StreamWriter(std::ostream& s) : s_(s) {}
  void end() override { flush(); }
  uint64_t size() const override { return size_; }
  void flush() override { s_.flush(); }

 private:
  void handleWrite(const std::byte* d, uint64_t n) override {
    s_.write(reinterpret_cast<const char*>(d), std::streamsize(n));
    size_ += n;
  }
  std::ostream& s_;
  uint64_t size_ = 0;
};
class McapWriter final {
 public:
  ~McapWriter() { close(); }
  Status open(const std::string_view filename, const McapWriterOptions& o) {
    auto f = std::make_unique<FileWriter>();
    if (auto s = f->open(filename); !s.ok()) return s;
    owned_ = std::move(f);
    open(*owned_, o);
    return StatusCode::Success;
  }
  void open(IWritable& w, const McapWriterOptions& o) {
    opened_ = true;
    out_ = &w;
    opt_ = o;
    put(std::string(reinterpret_cast<const char*>(Magic), sizeof Magic));
    internal::Out h;
    h.str(o.profile);
    h.str(o.library);
    record(OpCode::Header, h.b);
  }
  void open(std::ostream& s, const McapWriterOptions& o) {
    owned_ = std::make_unique<StreamWriter>(s);
    open(*owned_, o);
  }
  void close() {
    if (!opened_) return;
    flushChunk();
    internal::Out d;
    d.num(uint32_t(0));
    record(OpCode::DataEnd, d.b);
    const uint64_t start = out_->size();
    internal::Out f;
    if (!opt_.noSummary) {
      for (auto& s : schemas_) record(OpCode::Schema, schemaBytes(s));
      for (auto& c : channels_) record(OpCode::Channel, channelBytes(c));
      internal::Out st;
      st.num(stats_.messageCount);
      st.num(uint16_t(schemas_.size()));
      st.num(uint32_t(channels_.size()));
      st.num(uint32_t(0));
      st.num(stats_.metadataCount);
      st.num(stats_.chunkCount);
      st.num(stats_.messageStartTime);
      st.num(stats_.messageEndTime);
      st.num(uint32_t(0));
      record(OpCode::Statistics, st.b);
      for (auto& m : metadata_) {
        internal::Out i;
        i.num(m.offset);
        i.num(m.length);
        i.str(m.name);
        record(OpCode::MetadataIndex, i.b);
      }
      f.num(start);
    } else {
      f.num(uint64_t(0));
    }
    f.num(uint64_t(0));
    f.num(uint32_t(0));
    record(OpCode::Footer, f.b);
    put(std::string(reinterpret_cast<const char*>(Magic), sizeof Magic));
    out_->end();
    terminate();
  }
  void terminate() {
    opened_ = false;
    out_ = nullptr;
    owned_.reset();
    schemas_.clear();
    channels_.clear();
    writtenSchemas_.clear();
    writtenChannels_.clear();
    metadata_.clear();
    stats_ = {};
    chunk_.b.clear();
  }
  void addSchema(Schema& s) {
    s.id = SchemaId(schemas_.size() + 1);
    schemas_.push_back(s);
  }
  void addChannel(Channel& c) {
    c.id = ChannelId(channels_.size() + 1);
    channels_.push_back(c);
  }
  Status write(const Message& m) {
    if (!opened_) return StatusCode::NotOpen;
    internal::Out o;
    if (m.channelId == 0 || m.channelId > channels_.size()) return Status(StatusCode::InvalidChannelId, "invalid channel id " + std::to_string(m.channelId));
    const Channel& c = channels_[m.channelId - 1];
    if (!writtenChannels_.count(c.id)) {
      if (c.schemaId != 0 && !writtenSchemas_.count(c.schemaId)) {
        if (c.schemaId > schemas_.size()) return Status(StatusCode::InvalidSchemaId, "invalid schema id " + std::to_string(c.schemaId));
        o.record(OpCode::Schema, schemaBytes(schemas_[c.schemaId - 1u]));
        writtenSchemas_.insert(c.schemaId);
      }
      o.record(OpCode::Channel, channelBytes(c));
      writtenChannels_.insert(c.id);
    }
    internal::Out b;
    b.num(m.channelId);
    b.num(m.sequence);
    b.num(m.logTime);
    b.num(m.publishTime);
    if (m.dataSize) b.b.append(reinterpret_cast<const char*>(m.data), m.dataSize);
    o.record(OpCode::Message, b.b);
    if (stats_.messageCount == 0 || m.logTime < stats_.messageStartTime) stats_.messageStartTime = m.logTime;
    if (m.logTime > stats_.messageEndTime) stats_.messageEndTime = m.logTime;
    stats_.messageCount++;
    if (opt_.noChunking) {
      put(o.b);
    } else {
      chunk_.b += o.b;
      if (chunk_.b.size() >= opt_.chunkSize) flushChunk();
    }
    return StatusCode::Success;
  }
  Status write(Attachment& a) {
    if (!opened_) return StatusCode::NotOpen;
    flushChunk();
    internal::Out b;
    b.num(a.logTime);
    b.num(a.createTime);
    b.str(a.name);
    b.str(a.mediaType);
    b.num(a.dataSize);
    if (a.dataSize) b.b.append(reinterpret_cast<const char*>(a.data), a.dataSize);
    b.num(uint32_t(0));
    record(OpCode::Attachment, b.b);
    return StatusCode::Success;
  }
  Status write(const Metadata& m) {
    if (!opened_) return StatusCode::NotOpen;
    flushChunk();
    internal::Out b;
    b.str(m.name);
    b.map(m.metadata);
    MetadataIndex i;
    i.offset = out_->size();
    i.length = 9 + b.b.size();
    i.name = m.name;
    metadata_.push_back(i);
    stats_.metadataCount++;
    record(OpCode::Metadata, b.b);
    return StatusCode::Success;
  }
  void closeLastChunk() { flushChunk(); }
  const Statistics& statistics() const { return stats_; }
  IWritable* dataSink() { return out_; }

 private:
  static std::string schemaBytes(const Schema& s) {
    internal::Out o;
    o.num(s.id);
    o.str(s.name);
    o.str(s.encoding);
    o.str(std::string(reinterpret_cast<const char*>(s.data.data()), s.data.size()));
    return o.b;
  }
  static std::string channelBytes(const Channel& c) {
    internal::Out o;
    o.num(c.id);
    o.num(c.schemaId);
    o.str(c.topic);
    o.str(c.messageEncoding);
    o.map(c.metadata);
    return o.b;
  }
  void put(const std::string& s) { out_->write(reinterpret_cast<const std::byte*>(s.data()), s.size()); }
  void record(OpCode op, const std::string& content) {
    internal::Out o;
    o.record(op, content);
    put(o.b);
  }
  void flushChunk() {
    if (chunk_.b.empty()) return;
    internal::Out b;
    b.num(stats_.messageStartTime);
    b.num(stats_.messageEndTime);
    b.num(uint64_t(chunk_.b.size()));
    b.num(uint32_t(0));
    b.str("");
    b.num(uint64_t(chunk_.b.size()));
    b.b += chunk_.b;
    chunk_.b.clear();
    stats_.chunkCount++;
    record(OpCode::Chunk, b.b);
  }
  bool opened_ = false;
  IWritable* out_ = nullptr;
  std::unique_ptr<IWritable> owned_;
  McapWriterOptions opt_{""};
  std::vector<Schema> schemas_;
  std::vector<Channel> channels_;
  std::set<SchemaId> writtenSchemas_;
  std::set<ChannelId> writtenChannels_;
  std::vector<MetadataIndex> metadata_;
  Statistics stats_;
  internal::Out chunk_;
};
}  // namespace mcap
