#include "../common/session.hpp"
using namespace sim;
static void gen(Rng& r, Scenario& s) {
  const bool sh = haveShadow();
  session::genSched(r, s, sh);
  s.sched.step_cap = sh ? 40000000 : 400000000;
  const int slots = r.below(4) == 0 ? 2 : 1;
  for (int k = 0; k < slots; ++k) {
    int64_t kind, seed, cfg;
    session::genLayoutArgs(r, kind, seed, cfg, r.below(6) != 0);
    if (((cfg / 3) % 3) == 0) cfg += 3;
    if (r.below(12) == 0) s.ops.push_back({"tfault", {0, 0, 1}});
    s.ops.push_back({"enc", {0, k, kind, seed, cfg}});
    if (s.ops.size() > 1 && s.ops[s.ops.size() - 2].name == "tfault") s.ops.push_back({"enc", {0, k, kind, seed, cfg}});
  }
  const int n = 2 + int(r.below(sh ? 6 : 4));
  for (int i = 0; i < n; ++i) {
    const int64_t k = int64_t(r.below(slots));
    if (r.below(2)) s.ops.push_back({"cfault", {0, r.range(0, 4), r.below(4) == 0 ? 99 : r.range(1, 2), int64_t(r.below(3))}});
    if (r.below(4) == 0) s.ops.push_back({"tfault", {0, 0, r.below(3) == 0 ? 2 : 1}});
    s.ops.push_back({"encode", {0, k, session::genPoints(r, 5), int64_t(r.below(1u << 30)), int64_t(r.below(4)), r.below(4) == 0 ? r.range(1, 20) : 0}});
    if (r.below(10) == 0) s.ops.push_back({"bad", {0, k, int64_t(r.below(2))}});
    if (r.below(6) == 0) s.ops.push_back({"spin", {0, r.range(1, 40)}});
  }
  if (r.below(2)) s.ops.push_back({"free", {0, 0}});
}
static void setup() { cl::chunkPoints(); }
const Prop kProp = {"C02", gen, session::run, setup,
  "histories of encode calls with compressor and thread-start failures at random chunk ordinals under random schedules; non-trivial: multi-chunk encode and at least one fault fired or preemptive switch; distinct by event-log hash"};
