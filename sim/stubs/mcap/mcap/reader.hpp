#pragma once
#include "types.hpp"
namespace mcap {
enum class ReadSummaryMethod { NoFallbackScan, AllowFallbackScan, ForceScan };
struct IReadable {
  virtual ~IReadable() = default;
  virtual uint64_t size() const = 0;
  virtual uint64_t read(std::byte** output, uint64_t offset, uint64_t size) = 0;
};
class FileStreamReader final : public IReadable {
 public:
  FileStreamReader(std::ifstream& s) : s_(s), pos_(0) {
    s_.seekg(0, std::ios::end);
    size_ = uint64_t(s_.tellg());
    s_.seekg(0, std::ios::beg);
  }
  uint64_t size() const override { return size_; }
  uint64_t read(std::byte** output, uint64_t offset, uint64_t size) override {
    if (offset >= size_) return 0;
    if (offset != pos_) {
      s_.seekg(std::streamoff(offset));
      pos_ = offset;
    }
    if (size > buf_.size()) buf_.resize(std::min(size, size_));
    size = std::min<uint64_t>(size, buf_.size());
    s_.read(reinterpret_cast<char*>(buf_.data()), std::streamsize(size));
    *output = buf_.data();
    const uint64_t n = uint64_t(s_.gcount());
    pos_ += n;
    return n;
  }

 private:
  std::ifstream& s_;
  std::vector<std::byte> buf_;
  uint64_t size_, pos_;
};
struct ReadMessageOptions {
  Timestamp startTime = 0, endTime = MaxTime;
  std::function<bool(std::string_view)> topicFilter;
  enum struct ReadOrder { FileOrder, LogTimeOrder, ReverseLogTimeOrder };
  ReadOrder readOrder = ReadOrder::FileOrder;
  ReadMessageOptions(Timestamp s, Timestamp e) : startTime(s), endTime(e) {}
  ReadMessageOptions() = default;
  Status validate() const { return startTime > endTime ? StatusCode::InvalidMessageReadOptions : StatusCode::Success; }
};
class McapReader;
// Walks over the records of the data section, chunk contents included.
struct RecordWalker {
  McapReader& reader;
  IReadable& in;
  ByteOffset offset, end;
  ByteArray chunk;        // records of the chunk being read
  uint64_t at = 0;
  ByteOffset chunkOffset = 0;
  Status status;
  ByteArray hold;
  RecordWalker(McapReader& r, IReadable& i, ByteOffset b, ByteOffset e) : reader(r), in(i), offset(b), end(e) {}
  bool next(Record& rec, RecordOffset& where);
};
struct LinearMessageView {
  struct Iterator {
    using iterator_category = std::input_iterator_tag;
    using difference_type = int64_t;
    using value_type = MessageView;
    using pointer = const MessageView*;
    using reference = const MessageView&;
    reference operator*() const { return *impl->cur; }
    pointer operator->() const { return &*impl->cur; }
    Iterator& operator++() {
      increment();
      return *this;
    }
    void operator++(int) { increment(); }
    friend bool operator==(const Iterator& a, const Iterator& b) { return a.done() == b.done() && (a.done() || a.impl == b.impl); }
    friend bool operator!=(const Iterator& a, const Iterator& b) { return !(a == b); }

   private:
    friend LinearMessageView;
    struct Impl {
      LinearMessageView& view;
      RecordWalker walk;
      Message message;
      std::optional<MessageView> cur;
      std::vector<std::pair<Message, ByteArray>> sorted;  // other orders than that of the file
      size_t next = 0;
    };
    std::shared_ptr<Impl> impl;
    bool done() const { return !impl || !impl->cur; }
    void increment();
  };
  LinearMessageView(McapReader& r, ProblemCallback p, ReadMessageOptions o) : reader(r), problem(std::move(p)), opt(std::move(o)) {}
  LinearMessageView(LinearMessageView&&) = default;
  Iterator begin();
  Iterator end() { return Iterator(); }
  McapReader& reader;
  ProblemCallback problem;
  ReadMessageOptions opt;
};
class McapReader final {
 public:
  ~McapReader() { close(); }
  Status open(IReadable& r) {
    close();
    std::byte* d = nullptr;
    if (r.size() < sizeof(Magic) || r.size() == uint64_t(-1)) return StatusCode::FileTooSmall;
    if (r.read(&d, 0, sizeof Magic) != sizeof Magic) return Status(StatusCode::ReadFailed, "cannot read the magic");
    if (std::memcmp(d, Magic, sizeof Magic) != 0) return Status(StatusCode::MagicMismatch, "wrong magic");
    Record rec;
    if (auto s = ReadRecord(r, sizeof Magic, &rec); !s.ok()) return s;
    if (rec.opcode != OpCode::Header) return Status(StatusCode::InvalidFile, "no header");
    Header h;
    if (auto s = ParseHeader(rec, &h); !s.ok()) return s;
    header_ = h;
    input_ = &r;
    dataStart_ = sizeof(Magic) + rec.recordSize();
    dataEnd_ = r.size();
    return StatusCode::Success;
  }
  Status open(std::ifstream& s) {
    owned_ = nullptr;
    auto o = std::make_unique<FileStreamReader>(s);
    auto st = open(*o);
    owned_ = std::move(o);
    return st;
  }
  Status open(std::string_view filename) {
    ownedStream_ = std::make_unique<std::ifstream>(std::string(filename), std::ios::binary);
    if (!ownedStream_->is_open()) return Status(StatusCode::OpenFailed, "failed to open \"" + std::string(filename) + "\"");
    auto keep = std::move(ownedStream_);
    auto st = open(*keep);
    ownedStream_ = std::move(keep);
    return st;
  }
  void close() {
    input_ = nullptr;
    header_.reset();
    footer_.reset();
    stats_.reset();
    schemas_.clear();
    channels_.clear();
    metadata_.clear();
    attachments_.clear();
    parsedSummary_ = false;
  }
  Status readSummary(ReadSummaryMethod method, const ProblemCallback& onProblem = [](const Status&) {}) {
    if (!input_) return StatusCode::NotOpen;
    Status s = StatusCode::InvalidFooter;
    if (method != ReadSummaryMethod::ForceScan) {
      s = fromSummary();
      if (!s.ok()) onProblem(s);
    }
    if (!s.ok() && method != ReadSummaryMethod::NoFallbackScan) s = fromScan();
    parsedSummary_ = s.ok();
    return s;
  }
  LinearMessageView readMessages(Timestamp b = 0, Timestamp e = MaxTime) {
    return LinearMessageView(*this, [](const Status&) {}, ReadMessageOptions(b, e));
  }
  LinearMessageView readMessages(const ProblemCallback& p, Timestamp b = 0, Timestamp e = MaxTime) { return LinearMessageView(*this, p, ReadMessageOptions(b, e)); }
  LinearMessageView readMessages(const ProblemCallback& p, const ReadMessageOptions& o) { return LinearMessageView(*this, p, o); }
  IReadable* dataSource() { return input_; }
  const std::optional<Header>& header() const { return header_; }
  const std::optional<Footer>& footer() const { return footer_; }
  const std::optional<Statistics>& statistics() const { return stats_; }
  const std::unordered_map<ChannelId, ChannelPtr> channels() const { return channels_; }
  const std::unordered_map<SchemaId, SchemaPtr> schemas() const { return schemas_; }
  ChannelPtr channel(ChannelId i) const {
    auto it = channels_.find(i);
    return it == channels_.end() ? nullptr : it->second;
  }
  SchemaPtr schema(SchemaId i) const {
    auto it = schemas_.find(i);
    return it == schemas_.end() ? nullptr : it->second;
  }
  const std::multimap<std::string, MetadataIndex>& metadataIndexes() const { return metadata_; }
  const std::multimap<std::string, AttachmentIndex>& attachmentIndexes() const { return attachments_; }
  std::pair<ByteOffset, ByteOffset> byteRange(Timestamp, Timestamp = MaxTime) const { return {dataStart_, dataEnd_}; }

  static Status ReadRecord(IReadable& r, uint64_t offset, Record* rec) {
    std::byte* d = nullptr;
    if (r.size() < 9 || offset > r.size() - 9) return Status(StatusCode::InvalidFile, "no record at " + std::to_string(offset));
    if (r.read(&d, offset, 9) != 9) return Status(StatusCode::ReadFailed, "cannot read the record at " + std::to_string(offset));
    rec->opcode = OpCode(d[0]);
    std::memcpy(&rec->dataSize, d + 1, 8);
    const uint64_t room = r.size() - offset - 9;
    if (rec->dataSize > room) return Status(StatusCode::InvalidRecord, "record at " + std::to_string(offset) + " exceeds the file");
    d = nullptr;
    if (rec->dataSize && r.read(&d, offset + 9, rec->dataSize) != rec->dataSize) return Status(StatusCode::ReadFailed, "cannot read the record at " + std::to_string(offset));
    rec->data = d;
    return StatusCode::Success;
  }
  static Status bad() { return Status(StatusCode::InvalidRecord, "malformed record"); }
  static Status ParseHeader(const Record& r, Header* h) {
    internal::In in(r.data, r.dataSize);
    h->profile = in.str();
    h->library = in.str();
    return in.good ? Status() : bad();
  }
  static Status ParseFooter(const Record& r, Footer* f) {
    internal::In in(r.data, r.dataSize);
    f->summaryStart = in.num<uint64_t>();
    f->summaryOffsetStart = in.num<uint64_t>();
    f->summaryCrc = in.num<uint32_t>();
    return in.good ? Status() : bad();
  }
  static Status ParseSchema(const Record& r, Schema* s) {
    internal::In in(r.data, r.dataSize);
    s->id = in.num<uint16_t>();
    s->name = in.str();
    s->encoding = in.str();
    const std::string d = in.str();
    s->data.resize(d.size());
    if (!d.empty()) std::memcpy(s->data.data(), d.data(), d.size());
    return in.good ? Status() : bad();
  }
  static Status ParseChannel(const Record& r, Channel* c) {
    internal::In in(r.data, r.dataSize);
    c->id = in.num<uint16_t>();
    c->schemaId = in.num<uint16_t>();
    c->topic = in.str();
    c->messageEncoding = in.str();
    c->metadata = in.map();
    return in.good ? Status() : bad();
  }
  static Status ParseMessage(const Record& r, Message* m) {
    internal::In in(r.data, r.dataSize);
    m->channelId = in.num<uint16_t>();
    m->sequence = in.num<uint32_t>();
    m->logTime = in.num<uint64_t>();
    m->publishTime = in.num<uint64_t>();
    m->data = in.p;
    m->dataSize = in.left;
    return in.good ? Status() : bad();
  }
  static Status ParseMetadata(const Record& r, Metadata* m) {
    internal::In in(r.data, r.dataSize);
    m->name = in.str();
    m->metadata = in.map();
    return in.good ? Status() : bad();
  }
  static Status ParseMetadataIndex(const Record& r, MetadataIndex* m) {
    internal::In in(r.data, r.dataSize);
    m->offset = in.num<uint64_t>();
    m->length = in.num<uint64_t>();
    m->name = in.str();
    return in.good ? Status() : bad();
  }
  static Status ParseAttachment(const Record& r, Attachment* a) {
    internal::In in(r.data, r.dataSize);
    a->logTime = in.num<uint64_t>();
    a->createTime = in.num<uint64_t>();
    a->name = in.str();
    a->mediaType = in.str();
    a->dataSize = in.num<uint64_t>();
    a->data = in.p;
    if (!in.good || in.left < a->dataSize) return bad();
    return StatusCode::Success;
  }
  static Status ParseAttachmentIndex(const Record& r, AttachmentIndex* a) {
    internal::In in(r.data, r.dataSize);
    a->offset = in.num<uint64_t>();
    a->length = in.num<uint64_t>();
    a->logTime = in.num<uint64_t>();
    a->createTime = in.num<uint64_t>();
    a->dataSize = in.num<uint64_t>();
    a->name = in.str();
    a->mediaType = in.str();
    return in.good ? Status() : bad();
  }
  Status note(const Record& r) {  // a schema or channel
    if (r.opcode == OpCode::Schema) {
      auto s = std::make_shared<Schema>();
      if (auto st = ParseSchema(r, s.get()); !st.ok()) return st;
      schemas_.try_emplace(s->id, s);
    } else if (r.opcode == OpCode::Channel) {
      auto c = std::make_shared<Channel>();
      if (auto st = ParseChannel(r, c.get()); !st.ok()) return st;
      channels_.try_emplace(c->id, c);
    }
    return StatusCode::Success;
  }

 private:
  friend struct LinearMessageView;
  Status fromSummary() {
    const uint64_t size = input_->size(), tail = 9 + 20 + sizeof(Magic);
    if (size < dataStart_ + tail) return Status(StatusCode::InvalidFooter, "no footer");
    std::byte* d = nullptr;
    if (input_->read(&d, size - sizeof Magic, sizeof Magic) != sizeof Magic) return StatusCode::ReadFailed;
    if (std::memcmp(d, Magic, sizeof Magic) != 0) return Status(StatusCode::MagicMismatch, "wrong trailing magic");
    Record rec;
    if (auto s = ReadRecord(*input_, size - tail, &rec); !s.ok()) return s;
    if (rec.opcode != OpCode::Footer) return StatusCode::InvalidFooter;
    Footer f;
    if (auto s = ParseFooter(rec, &f); !s.ok()) return s;
    if (f.summaryStart == 0) return Status(StatusCode::MissingStatistics, "no summary");
    for (uint64_t o = f.summaryStart; o < size - tail;) {
      if (auto s = ReadRecord(*input_, o, &rec); !s.ok()) return s;
      if (auto s = note(rec); !s.ok()) return s;
      if (rec.opcode == OpCode::MetadataIndex) {
        MetadataIndex m;
        if (auto s = ParseMetadataIndex(rec, &m); !s.ok()) return s;
        metadata_.emplace(m.name, m);
      } else if (rec.opcode == OpCode::AttachmentIndex) {
        AttachmentIndex a;
        if (auto s = ParseAttachmentIndex(rec, &a); !s.ok()) return s;
        attachments_.emplace(a.name, a);
      }
      o += rec.recordSize();
    }
    footer_ = f;
    return StatusCode::Success;
  }
  Status fromScan() {
    schemas_.clear();
    channels_.clear();
    metadata_.clear();
    attachments_.clear();
    RecordWalker w(*this, *input_, dataStart_, dataEnd_);
    Record rec;
    RecordOffset where;
    while (w.next(rec, where)) {
      if (auto s = note(rec); !s.ok()) return s;
      if (rec.opcode == OpCode::Metadata) {
        Metadata m;
        if (auto s = ParseMetadata(rec, &m); !s.ok()) return s;
        MetadataIndex i;
        i.offset = where.offset;
        i.length = rec.recordSize();
        i.name = m.name;
        metadata_.emplace(m.name, i);
      }
    }
    return w.status;
  }
  IReadable* input_ = nullptr;
  std::unique_ptr<IReadable> owned_;
  std::unique_ptr<std::ifstream> ownedStream_;
  std::optional<Header> header_;
  std::optional<Footer> footer_;
  std::optional<Statistics> stats_;
  std::unordered_map<SchemaId, SchemaPtr> schemas_;
  std::unordered_map<ChannelId, ChannelPtr> channels_;
  std::multimap<std::string, MetadataIndex> metadata_;
  std::multimap<std::string, AttachmentIndex> attachments_;
  ByteOffset dataStart_ = 0, dataEnd_ = EndOffset;
  bool parsedSummary_ = false;
};
inline bool RecordWalker::next(Record& rec, RecordOffset& where) {
  for (;;) {
    if (at < chunk.size()) {
      internal::In in(chunk.data() + at, chunk.size() - at);
      rec.opcode = OpCode(in.num<uint8_t>());
      rec.dataSize = in.num<uint64_t>();
      if (!in.good || rec.dataSize > in.left) {
        status = Status(StatusCode::InvalidRecord, "record exceeds its chunk");
        return false;
      }
      rec.data = chunk.data() + at + 9;
      where.offset = at;
      where.chunkOffset = chunkOffset;
      at += rec.recordSize();
      return true;
    }
    if (offset >= end) return false;
    status = McapReader::ReadRecord(in, offset, &rec);
    if (!status.ok()) return false;
    where.offset = offset;
    where.chunkOffset.reset();
    chunkOffset = offset;
    offset += rec.recordSize();
    if (rec.opcode == OpCode::DataEnd || rec.opcode == OpCode::Footer) return false;
    if (rec.opcode == OpCode::Chunk) {
      internal::In c(rec.data, rec.dataSize);
      c.num<uint64_t>();
      c.num<uint64_t>();
      const uint64_t size = c.num<uint64_t>();
      c.num<uint32_t>();
      const std::string comp = c.str();
      const uint64_t stored = c.num<uint64_t>();
      if (!c.good || stored > c.left || stored != size) {
        status = Status(StatusCode::InvalidRecord, "malformed chunk");
        return false;
      }
      if (!comp.empty()) {
        status = Status(StatusCode::UnrecognizedCompression, "compression " + comp);
        return false;
      }
      chunk.assign(c.p, c.p + stored);
      at = 0;
      continue;
    }
    return true;
  }
}
inline LinearMessageView::Iterator LinearMessageView::begin() {
  Iterator it;
  if (!reader.input_) {
    problem(Status(StatusCode::NotOpen));
    return it;
  }
  it.impl = std::make_shared<Iterator::Impl>(Iterator::Impl{*this, RecordWalker(reader, *reader.input_, reader.dataStart_, reader.dataEnd_), {}, std::nullopt, {}, 0});
  it.increment();
  return it;
}
inline void LinearMessageView::Iterator::increment() {
  Impl& i = *impl;
  i.cur.reset();
  Record rec;
  RecordOffset where;
  const auto take = [&](const Message& m) {
    const ChannelPtr c = i.view.reader.channel(m.channelId);
    if (!c) {
      i.view.problem(Status(StatusCode::InvalidChannelId, "message of unknown channel " + std::to_string(m.channelId)));
      return false;
    }
    const SchemaPtr s = i.view.reader.schema(c->schemaId);
    if (c->schemaId != 0 && !s) {
      i.view.problem(Status(StatusCode::InvalidSchemaId, "channel of unknown schema " + std::to_string(c->schemaId)));
      return false;
    }
    if (m.logTime < i.view.opt.startTime || m.logTime >= i.view.opt.endTime) return false;
    if (i.view.opt.topicFilter && !i.view.opt.topicFilter(c->topic)) return false;
    i.message = m;
    i.cur.emplace(MessageView{i.message, c, s, where});
    return true;
  };
  if (i.view.opt.readOrder != ReadMessageOptions::ReadOrder::FileOrder) {
    if (i.next == 0) {
      while (i.walk.next(rec, where)) {
        i.view.reader.note(rec);
        if (rec.opcode != OpCode::Message) continue;
        Message m;
        if (McapReader::ParseMessage(rec, &m).ok()) i.sorted.emplace_back(m, ByteArray(m.data, m.data + m.dataSize));
      }
      if (!i.walk.status.ok()) i.view.problem(i.walk.status);
      const bool rev = i.view.opt.readOrder == ReadMessageOptions::ReadOrder::ReverseLogTimeOrder;
      std::stable_sort(i.sorted.begin(), i.sorted.end(), [&](auto& a, auto& b) { return rev ? a.first.logTime > b.first.logTime : a.first.logTime < b.first.logTime; });
    }
    while (i.next < i.sorted.size()) {
      auto& [m, d] = i.sorted[i.next++];
      m.data = d.data();
      if (take(m)) return;
    }
    return;
  }
  while (i.walk.next(rec, where)) {
    if (auto s = i.view.reader.note(rec); !s.ok()) {
      i.view.problem(s);
      return;
    }
    if (rec.opcode != OpCode::Message) continue;
    Message m;
    if (auto s = McapReader::ParseMessage(rec, &m); !s.ok()) {
      i.view.problem(s);
      return;
    }
    if (take(m)) return;
  }
  if (!i.walk.status.ok()) i.view.problem(i.walk.status);
}
}  // namespace mcap
