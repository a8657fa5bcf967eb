#include "../common/session.hpp"
using namespace sim;
static void gen(Rng& r, Scenario& s) {
  const bool sh = haveShadow();
  session::genSched(r, s, sh);
  s.sched.step_cap = sh ? 40000000 : 400000000;
  const int callers = r.below(3) == 0 ? 2 + int(r.below(2)) : 1;
  for (int t = 0; t < callers; ++t) {
    const int slots = 1 + int(r.below(2));
    for (int k = 0; k < slots; ++k) {
      int64_t kind, seed, cfg;
      session::genLayoutArgs(r, kind, seed, cfg, true);
      s.ops.push_back({"enc", {t, k, kind, seed, cfg}});
    }
    const int n = 1 + int(r.below(sh ? 5 : 2));
    for (int i = 0; i < n; ++i) {
      const int64_t k = int64_t(r.below(slots));
      s.ops.push_back({"encode", {t, k, session::genPoints(r, callers > 1 ? 3 : (sh ? 5 : 3)), int64_t(r.below(1u << 30)), int64_t(r.below(4)), r.below(3) == 0 ? r.range(1, 30) : 0}});
      if (r.below(8) == 0) s.ops.push_back({"bad", {t, k, int64_t(r.below(2))}});
      if (r.below(8) == 0) s.ops.push_back({"spin", {t, r.range(1, 40)}});
    }
    if (r.below(3) == 0) s.ops.push_back({"free", {t, 0}});
  }
}
static void setup() { cl::chunkPoints(); }
const Prop kProp = {"C01", gen, session::run, setup,
  "random codec settings, layouts and multi-chunk clouds encoded by 1-3 caller threads with background compression; every scheduling decision drawn from the seed; non-trivial: a cloud of more than one chunk was encoded and at least one preemptive switch happened; distinct by event-log hash"};
