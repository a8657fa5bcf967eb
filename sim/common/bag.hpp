// Bags for the checks of the bag tools: description, byte-level writer and strict parser (independent of the mcap library).
#pragma once
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "cloud.hpp"
namespace bag {
using cl::Bytes;
using sim::Rng;
using Map = std::map<std::string, std::string>;
struct Schema {
  std::string name, encoding, data;
  auto operator<=>(const Schema&) const = default;
};
struct Channel {
  std::string topic, encoding;
  uint16_t schema = 0;
  Map meta;
};
struct Cloud;  // defined by the check that needs it
struct Message {
  uint16_t chan = 0;
  uint32_t seq = 0;
  uint64_t log = 0, pub = 0;
  Bytes data;
  std::shared_ptr<Cloud> cloud;
};
struct Bag {
  std::string profile;
  std::map<uint16_t, Schema> schemas;
  std::map<uint16_t, Channel> channels;
  std::vector<Message> msgs;
  std::vector<std::pair<std::string, Map>> meta;
  // generated bags
  uint64_t seed = 0, style = 0;
  int64_t cut = INT64_MIN;
  bool dirty = true, sane = true, isCut = false;
  int version = 0;
  std::vector<uint16_t> order;
};
inline const Schema& schemaOf(const Bag& b, uint16_t chan) {
  static const Schema none;
  auto c = b.channels.find(chan);
  if (c == b.channels.end()) return none;
  auto s = b.schemas.find(c->second.schema);
  return s == b.schemas.end() ? none : s->second;
}
inline std::string dirOf(int i) { return "/simdisk/b" + std::to_string(i); }
inline std::string pathOf(int i) { return dirOf(i) + "/bag_" + std::to_string(i) + ".mcap"; }
// --- MCAP writer, independent of the one under the converter
struct W {
  Bytes b;
  template <class T>
  void num(T v) {
    const auto* p = reinterpret_cast<const uint8_t*>(&v);
    b.insert(b.end(), p, p + sizeof v);
  }
  void raw(const Bytes& x) { b.insert(b.end(), x.begin(), x.end()); }
  void str(const std::string& s) {
    num(uint32_t(s.size()));
    b.insert(b.end(), s.begin(), s.end());
  }
  void map(const Map& m) {
    W o;
    for (auto& [k, v] : m) {
      o.str(k);
      o.str(v);
    }
    num(uint32_t(o.b.size()));
    raw(o.b);
  }
  void rec(uint8_t op, const Bytes& c) {
    b.push_back(op);
    num(uint64_t(c.size()));
    raw(c);
  }
};
const Bytes kMagic = {137, 77, 67, 65, 80, 48, 13, 10};
inline Bytes recSchema(uint16_t id, const Schema& s) {
  W w;
  w.num(id);
  w.str(s.name);
  w.str(s.encoding);
  w.str(s.data);
  return w.b;
}
inline Bytes recChannel(uint16_t id, const Channel& c) {
  W w;
  w.num(id);
  w.num(c.schema);
  w.str(c.topic);
  w.str(c.encoding);
  w.map(c.meta);
  return w.b;
}
inline Bytes serialize(const Bag& g) {
  W f;
  f.raw(kMagic);
  W h;
  h.str(g.profile);
  h.str("harness");
  f.rec(1, h.b);
  Rng r(g.seed);
  W body;  // the current chunk
  std::set<uint16_t> seenS, seenC;
  std::vector<std::pair<std::string, std::pair<uint64_t, uint64_t>>> metaIndex;
  uint64_t chunkMsgs = 0;
  const auto flush = [&] {
    if (body.b.empty()) return;
    W c;
    c.num(uint64_t(0));
    c.num(~uint64_t(0));
    c.num(uint64_t(body.b.size()));
    c.num(uint32_t(0));
    c.str("");
    c.num(uint64_t(body.b.size()));
    c.raw(body.b);
    f.rec(6, c.b);
    if (g.style & 16) {
      W i;
      i.num(uint16_t(1));
      i.num(uint32_t(0));
      f.rec(7, i.b);
    }
    body.b.clear();
    chunkMsgs = 0;
  };
  const auto put = [&](uint8_t op, const Bytes& c) { (g.style & 1 ? body : f).rec(op, c); };
  size_t nextMeta = 0;
  const auto meta = [&](size_t upTo) {
    for (; nextMeta < upTo; ++nextMeta) {
      flush();
      W m;
      m.str(g.meta[nextMeta].first);
      m.map(g.meta[nextMeta].second);
      metaIndex.push_back({g.meta[nextMeta].first, {f.b.size(), 9 + m.b.size()}});
      f.rec(12, m.b);
    }
  };
  const bool declareFirst = g.style & 2 ? r.below(2) : true;  // without a summary, unused channels appear only here
  if (declareFirst) {
    for (auto& [id, s] : g.schemas) {
      put(3, recSchema(id, s));
      seenS.insert(id);
    }
    for (auto& [id, c] : g.channels) {
      put(4, recChannel(id, c));
      seenC.insert(id);
    }
  }
  for (size_t i = 0; i < g.msgs.size(); ++i) {
    const Message& m = g.msgs[i];
    if (r.below(3) == 0) meta(std::min(nextMeta + 1, g.meta.size()));
    const Channel& c = g.channels.at(m.chan);
    if (seenC.insert(m.chan).second) {
      if (c.schema && seenS.insert(c.schema).second) put(3, recSchema(c.schema, g.schemas.at(c.schema)));
      put(4, recChannel(m.chan, c));
    }
    W w;
    w.num(m.chan);
    w.num(m.seq);
    w.num(m.log);
    w.num(m.pub);
    w.raw(m.data);
    put(5, w.b);
    if ((g.style & 4) && ++chunkMsgs >= 2) flush();
  }
  flush();
  meta(g.meta.size());
  W d;
  d.num(uint32_t(0));
  f.rec(15, d.b);
  const uint64_t start = f.b.size();
  if (g.style & 2) {
    for (auto& [id, s] : g.schemas) f.rec(3, recSchema(id, s));
    for (auto& [id, c] : g.channels) f.rec(4, recChannel(id, c));
    for (auto& [name, at] : metaIndex) {
      W i;
      i.num(at.first);
      i.num(at.second);
      i.str(name);
      f.rec(13, i.b);
    }
  }
  W foot;
  foot.num(g.style & 2 ? start : uint64_t(0));
  foot.num(uint64_t(0));
  foot.num(uint32_t(0));
  f.rec(2, foot.b);
  f.raw(kMagic);
  return f.b;
}
// --- strict MCAP parser
struct In {
  const uint8_t* p;
  size_t left;
  bool ok = true;
  template <class T>
  T num() {
    T v{};
    if (left < sizeof v) return ok = false, v;
    memcpy(&v, p, sizeof v);
    p += sizeof v;
    left -= sizeof v;
    return v;
  }
  std::string str() {
    const uint32_t n = num<uint32_t>();
    if (!ok || left < n) return ok = false, std::string();
    std::string s(reinterpret_cast<const char*>(p), n);
    p += n;
    left -= n;
    return s;
  }
  Map map() {
    const std::string s = str();
    Map m;
    In i{reinterpret_cast<const uint8_t*>(s.data()), s.size()};
    while (i.ok && i.left) {
      const std::string k = i.str();
      m[k] = i.str();
    }
    ok &= i.ok;
    return m;
  }
};
inline bool parseRecords(In in, Bag& g, bool& end, int depth, std::string& why, const uint8_t* file) {
  uint64_t dataEnd = 0;
  while (in.left) {
    const uint8_t op = in.num<uint8_t>();
    const uint64_t n = in.num<uint64_t>();
    if (!in.ok || n > in.left) {
      why = "a record exceeds the " + std::string(depth ? "chunk" : "file");
      return false;
    }
    In r{in.p, size_t(n)};
    in.p += n;
    in.left -= n;
    if (op == 3) {
      const uint16_t id = r.num<uint16_t>();
      Schema s;
      s.name = r.str();
      s.encoding = r.str();
      s.data = r.str();
      if (auto it = g.schemas.find(id); it != g.schemas.end() && it->second != s) return why = "two different schemas have one id", false;
      g.schemas[id] = s;
    } else if (op == 4) {
      const uint16_t id = r.num<uint16_t>();
      Channel c;
      c.schema = r.num<uint16_t>();
      c.topic = r.str();
      c.encoding = r.str();
      c.meta = r.map();
      if (c.schema && !g.schemas.count(c.schema)) return why = "a channel precedes its schema", false;
      g.channels[id] = c;
    } else if (op == 5) {
      Message m;
      m.chan = r.num<uint16_t>();
      m.seq = r.num<uint32_t>();
      m.log = r.num<uint64_t>();
      m.pub = r.num<uint64_t>();
      m.data.assign(r.p, r.p + r.left);
      if (!g.channels.count(m.chan)) return why = "a message precedes its channel", false;
      g.msgs.push_back(std::move(m));
    } else if (op == 6 && depth == 0) {
      for (int i = 0; i < 3; ++i) r.num<uint64_t>();
      r.num<uint32_t>();
      if (!r.str().empty()) return why = "compressed chunk", false;
      if (r.num<uint64_t>() != r.left) return why = "wrong size of a chunk", false;
      if (!r.ok || !parseRecords(r, g, end, 1, why, file)) return false;
    } else if (op == 12) {
      std::pair<std::string, Map> m;
      m.first = r.str();
      m.second = r.map();
      g.meta.push_back(std::move(m));
    } else if (op == 15) {
      dataEnd = uint64_t(in.p - file);
    } else if (op == 2) {
      end = true;
      const uint64_t summary = r.num<uint64_t>();
      if (!dataEnd || (summary && summary != dataEnd)) return why = "the footer does not say where the summary is", false;
      return in.left == 0 ? true : (why = "records after the footer", false);
    }
    if (!r.ok) return why = "malformed record", false;
  }
  return true;
}
inline bool parseBag(const Bytes& b, Bag& g, std::string& why) {
  if (b.size() < 16 || !std::equal(kMagic.begin(), kMagic.end(), b.begin())) return why = "it does not start like a bag", false;
  if (!std::equal(kMagic.begin(), kMagic.end(), b.end() - 8)) return why = "it does not end like a bag", false;
  In in{b.data() + 8, b.size() - 16};
  if (in.num<uint8_t>() != 1) return why = "there is no header", false;
  const uint64_t n = in.num<uint64_t>();
  if (!in.ok || n > in.left) return why = "the header is cut", false;
  In h{in.p, size_t(n)};
  g.profile = h.str();
  in.p += n;
  in.left -= n;
  bool end = false;
  if (!parseRecords(in, g, end, 0, why, b.data())) return false;
  if (!end) return why = "there is no footer", false;
  return true;
}
}  // namespace bag
