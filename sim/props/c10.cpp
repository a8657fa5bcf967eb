// Voxel preprocessing of streams of clouds on several threads, with allocation failures, against a quadratic reference.
#include <cmath>
#include <map>
#include <memory>
#include <thread>
#include "../common/cloud.hpp"
#include "../common/session.hpp"
#include "cloudini_lib/ros_msg_utils.hpp"
using namespace sim;
using namespace cl;
using namespace Cloudini;
using cloudini_ros::RosPointCloud2;
// viz t n seed res mode    one cloud. mode: 1 copy the result, 2 move it, 4 process it twice, 8 as a stream of the same points, 16 two objects interleaved
// plain t what n seed      a cloud without a geometry triple (what is missing)
// fault t at once          next viz: that allocation fails
// thread t                 the rest of this thread's clouds is handled by a new thread
static void gen(Rng& r, Scenario& s) {
  const bool sh = haveShadow();
  session::genSched(r, s, sh);
  s.sched.step_cap = sh ? 40000000 : 800000000;
  const int threads = r.below(2) ? 1 : 2 + int(r.below(3));
  for (int t = 0; t < threads; ++t) {
    const int m = 2 + int(r.below(8));
    const int64_t base = int64_t(r.below(1u << 30));
    const int64_t res = int64_t(r.below(8));
    for (int i = 0; i < m; ++i) {
      if (r.below(6) == 0) s.ops.push_back({"plain", {t, int64_t(r.below(9)), r.range(0, 40), int64_t(r.below(1u << 30))}});
      if (r.below(10) == 0) s.ops.push_back({"thread", {t}});
      if (r.below(4) == 0) s.ops.push_back({"fault", {t, r.below(3) ? r.range(0, 8) : r.range(0, 40), int64_t(r.below(2))}});
      const int64_t n = r.below(4) == 0 ? r.range(0, 5) : r.below(4) ? r.range(0, 120) : r.range(0, sh ? 300 : 1200);
      s.ops.push_back({"viz", {t, n, r.below(3) ? base : int64_t(r.below(1u << 30)), r.below(3) ? res : int64_t(r.below(8)), int64_t(r.below(32))}});
    }
  }
}
namespace {
const float kRes[8] = {0.001f, 0.01f, 0.5f, 1.f, 0.0123f, 20.f, 0.1f, 1024.f};
struct Cloud {
  RosPointCloud2 pc;
  Bytes data;  // what pc views
  float res = 0;
  Bytes expect;
  std::vector<float> xyz;  // as published
  std::vector<PointField> fields;
  uint32_t w = 0, h = 0;
};
float coord(Rng& r, float res, int64_t k, double frac) {
  for (int t = 0; t < 8; ++t) {
    const float f = float((double(k) + frac) * double(res));
    const double q = double(f) / double(res);
    if (std::fabs(q - double(k)) < 0.36) return f;
    frac = 0;
  }
  return 0.f;
}
void build(Cloud& c, uint64_t n, uint64_t seed, float res) {
  Rng r(seed);
  c.res = res;
  auto& pc = c.pc;
  pc = RosPointCloud2();
  const uint32_t lead = uint32_t(r.below(3) == 0 ? 4 * r.below(3) : 0);
  PointField f;
  f.type = FieldType::FLOAT32;
  f.resolution = res;
  static const char* const names[] = {"x", "y", "z"};
  for (uint32_t i = 0; i < 3; ++i) {
    f.name = r.below(9) ? names[i] : "g" + std::to_string(i);
    f.offset = lead + 4 * i;
    pc.fields.push_back(f);
  }
  uint32_t step = lead + 12;
  static const FieldType extra[] = {FieldType::FLOAT32, FieldType::UINT16, FieldType::FLOAT64, FieldType::UINT8, FieldType::INT64};
  for (uint64_t k = r.below(4); k > 0; --k) {
    PointField e;
    e.name = "e" + std::to_string(k);
    e.type = extra[r.below(5)];
    step += uint32_t(r.below(3));
    e.offset = step;
    if (r.below(3) == 0) e.resolution = 0.25f;
    step += uint32_t(SizeOf(e.type));
    pc.fields.push_back(e);
  }
  step += uint32_t(r.below(5) ? 0 : r.below(7));
  pc.point_step = step;
  dims(n, r.next(), pc.width, pc.height);
  pc.row_step = pc.width * step;
  c.data.resize(n * step);
  for (auto& b : c.data) b = uint8_t(r.next());
  // few voxels, many collisions; some clouds reach the ends of the documented range
  const int64_t span = r.below(4) == 0 ? 200 : r.range(0, 6);
  const int64_t mid = r.below(5) == 0 ? r.range(-500000, 500000) : 0;
  const bool ends = r.below(6) == 0;
  for (uint64_t i = 0; i < n; ++i) {
    float v[3];
    for (int a = 0; a < 3; ++a) {
      int64_t k = mid + r.range(-span, span);
      double fr = (r.unit() - 0.5) * (mid ? 0.3 : 0.7);
      if (ends && r.below(3) == 0) {
        k = r.below(2) ? (1 << 20) - 1 : -(1 << 20);
        fr = 0;
      }
      v[a] = coord(r, res, k, fr);
      if (r.below(40) == 0) {
        static const float bad[] = {NAN, INFINITY, -INFINITY};
        v[a] = bad[r.below(3)];
      }
      if (r.below(30) == 0) v[a] = r.below(2) ? -0.0f : 0.0f;
    }
    memcpy(c.data.data() + i * step + lead, v, 12);
  }
  pc.data = ConstBufferView(c.data.data(), c.data.size());
  c.fields = pc.fields;
  c.w = pc.width;
  c.h = pc.height;
  // reference: quadratic
  std::vector<std::array<int64_t, 3>> seen;
  c.expect.clear();
  for (uint64_t i = 0; i < n; ++i) {
    float v[3];
    memcpy(v, c.data.data() + i * step + lead, 12);
    if (!std::isfinite(v[0]) || !std::isfinite(v[1]) || !std::isfinite(v[2])) continue;
    std::array<int64_t, 3> q;
    for (int a = 0; a < 3; ++a) q[a] = std::llround(double(v[a]) / double(res));
    bool dup = false;
    for (auto& o : seen)
      if (o == q) {
        dup = true;
        break;
      }
    if (dup) continue;
    seen.push_back(q);
    c.expect.insert(c.expect.end(), c.data.begin() + i * step, c.data.begin() + (i + 1) * step);
  }
  if (n > 3 && c.expect.size() < c.data.size() && !c.expect.empty()) markNontrivial();
}
std::string text(const Cloud& c) {
  return std::to_string(c.w) + "x" + std::to_string(c.h) + " points of " + std::to_string(c.pc.point_step) + " bytes, resolution " + std::to_string(c.res);
}
bool untouched(const Cloud& c, const RosPointCloud2& p) {
  return p.width == c.w && p.height == c.h && p.data.size() == c.data.size() && (c.data.empty() || memcmp(p.data.data(), c.data.data(), c.data.size()) == 0);
}
void check(const Cloud& c, const RosPointCloud2& p, const char* when) {
  countEval();
  const std::string w = std::string(when) + ", " + text(c);
  const uint64_t exp_n = c.expect.size() / p.point_step;
  if (c.data.empty()) {
    if (p.data.size() || uint64_t(p.width) * p.height != 0) violation("empty", "an empty cloud is not empty any more: " + w);
    return;
  }
  if (uint64_t(p.width) * p.height * p.point_step != p.data.size()) violation("dimensions", "width x height " + std::to_string(p.width) + "x" + std::to_string(p.height) + " does not match " + std::to_string(p.data.size()) + " data bytes: " + w);
  if (p.row_step != p.width * p.point_step) violation("dimensions", "row step " + std::to_string(p.row_step) + " does not match width " + std::to_string(p.width) + ": " + w);
  if (p.data.size() != c.expect.size()) violation("selection", std::to_string(p.data.size() / p.point_step) + " points kept instead of " + std::to_string(exp_n) + ": " + w);
  if (!c.expect.empty() && memcmp(p.data.data(), c.expect.data(), c.expect.size()) != 0) {
    size_t k = 0;
    while (p.data.data()[k] == c.expect[k]) ++k;
    violation("selection", "kept point " + std::to_string(k / p.point_step) + " is not the expected one: " + w);
  }
  if (p.fields.size() != c.fields.size()) violation("fields", "fields lost: " + w);
  for (size_t i = 0; i < c.fields.size(); ++i)
    if (p.fields[i].name != c.fields[i].name || p.fields[i].offset != c.fields[i].offset || p.fields[i].type != c.fields[i].type) violation("fields", "field " + c.fields[i].name + " changed: " + w);
}
void doViz(const Op& o, const Op* fault) {
  const uint64_t n = std::min<uint64_t>(o.u(1), 1500), mode = o.u(4);
  Cloud c;
  build(c, n, o.u(2), kRes[o.u(3) % 8]);
  if (fault) {
    bool threw = false;
    allocArm(std::max<int64_t>(0, fault->arg(1)), fault->arg(2) & 1);
    try {
      applyVizLossyPreprocessing(c.pc);
    } catch (const std::bad_alloc&) {
      threw = true;
    } catch (const std::exception& e) {
      allocDisarm();
      violation("exception", std::string("allocation failure became ") + e.what());
    }
    const bool fired = allocFired();
    allocDisarm();
    sim::log("viz_fault", threw, fired);
    if (threw && !fired) violation("exception", "out of memory without a failed allocation, " + text(c));
    if (threw) {
      SIM_PROBE("preprocessing ended by an allocation failure, then repeated on the same object");
      // usable: either still the published cloud or already the result; a repetition gives the result in both cases
      if (!untouched(c, c.pc)) check(c, c.pc, "after a failed allocation");
    } else {
      check(c, c.pc, "with a failed allocation");
    }
  }
  try {
    applyVizLossyPreprocessing(c.pc);
    if (mode & 16) {
      Cloud d;
      build(d, n / 2, o.u(2) + 1, kRes[o.u(3) % 8]);
      applyVizLossyPreprocessing(d.pc);
      check(d, d.pc, "a second object");
      RosPointCloud2 keep = d.pc;
      d.pc = c.pc;
      check(c, d.pc, "assigned over another cloud");
    }
    check(c, c.pc, "first pass");
    sim::logBytes("viz", c.pc.data.data(), c.pc.data.size());
    if (mode & 4) {
      applyVizLossyPreprocessing(c.pc);
      if (!c.expect.empty()) check(c, c.pc, "second pass");
    }
    if (mode & 3) {
      auto q = std::make_unique<RosPointCloud2>();
      if (mode & 1) *q = c.pc;
      else *q = std::move(c.pc);
      if (mode & 1) c.pc = RosPointCloud2();
      c.pc.point_step = q->point_step;
      check(c, *q, mode & 1 ? "copied" : "moved");
    }
  } catch (const std::exception& e) {
    violation("exception", std::string("preprocessing failed without a fault: ") + e.what() + ", " + text(c));
  }
}
void doPlain(const Op& o) {
  Cloud c;
  build(c, std::min<uint64_t>(o.u(2), 200), o.u(3), 0.01f);
  auto& f = c.pc.fields;
  switch (o.u(1) % 9) {
    case 0: f[1].resolution = 0.02f; break;
    case 1: f[2].resolution.reset(); break;
    case 2: f[0].type = FieldType::INT32; break;
    case 3: f[2].offset += 1; break;
    case 4: std::swap(f[0], f[1]); break;
    case 5: f.resize(2); break;
    case 6: f[1].type = FieldType::FLOAT64; break;
    case 7: f[0].resolution.reset(); break;
    default: f.insert(f.begin(), f.back()); f[0].type = FieldType::UINT8; break;
  }
  const auto fields = c.pc.fields;
  const uint32_t row = c.pc.row_step, w = c.pc.width, h = c.pc.height;
  try {
    applyVizLossyPreprocessing(c.pc);
  } catch (const std::exception& e) {
    violation("exception", std::string("preprocessing a cloud without a geometry triple failed: ") + e.what());
  }
  countEval();
  SIM_PROBE("cloud without a geometry triple");
  bool same = c.pc.fields.size() == fields.size();
  for (size_t i = 0; same && i < fields.size(); ++i) same = c.pc.fields[i] == fields[i];
  if (!untouched(c, c.pc) || c.pc.row_step != row || c.pc.width != w || c.pc.height != h || !same) violation("touched", "a cloud without a geometry triple was changed (kind " + std::to_string(o.u(1) % 9) + "), " + text(c));
}
void run(std::vector<const Op*> ops, size_t from, bool single) {
  const Op* fault = nullptr;
  for (size_t i = from; i < ops.size(); ++i) {
    const Op& o = *ops[i];
    if (o.name == "thread") {
      std::thread t([&] { run(ops, i + 1, single); });
      t.join();
      return;
    }
    if (o.name == "fault") fault = single ? &o : nullptr;
    if (o.name == "plain") doPlain(o);
    if (o.name == "viz") {
      doViz(o, fault);
      fault = nullptr;
    }
  }
}
}  // namespace
static void exec(const Scenario& s) {
  std::map<int64_t, std::vector<const Op*>> th;
  for (auto& op : s.ops) th[op.arg(0) & 7].push_back(&op);
  if (th.size() <= 1) {
    for (auto& [t, v] : th) run(v, 0, true);
    return;
  }
  SIM_PROBE("several threads");
  std::vector<std::thread> ts;
  for (auto& [t, v] : th) {
    auto* p = &v;
    ts.emplace_back([p] { run(*p, 0, false); });
  }
  for (auto& t : ts) t.join();
}
static void setup() { chunkPoints(); }
const Prop kProp = {"C10", gen, exec, setup,
  "streams of clouds of 0-1200 points with few voxels, NaN and infinite coordinates and range ends on 1-4 threads, clouds without a geometry triple, failed allocations and repeated, copied and moved objects, compared with a quadratic reference; non-trivial: a cloud that loses some but not all points; distinct by event-log hash"};
