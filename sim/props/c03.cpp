#include "../common/session.hpp"
using namespace sim;
static void gen(Rng& r, Scenario& s) {
  const bool sh = haveShadow();
  session::genSched(r, s, sh);
  s.sched.step_cap = sh ? 40000000 : 400000000;
  const int slots = 1;
  for (int k = 0; k < slots; ++k) {
    int64_t kind, seed, cfg;
    session::genLayoutArgs(r, kind, seed, cfg, true);
    if (r.below(2)) {  // adaptive integers: the caller's own stage allocates, so it can fail between chunks
      static const int kinds[] = {2, 4, 5, 7, 9, 10, 11};
      kind = kinds[r.below(7)];
      cfg = int64_t(cl::cfgOf(1, 1 + int(r.below(2)), 5, 1));
    }
    s.ops.push_back({"enc", {0, k, kind, seed, cfg}});
  }
  const int n = 1 + int(r.below(4));
  for (int i = 0; i < n; ++i) {
    const int64_t k = int64_t(r.below(slots));
    switch (r.below(4)) {
      case 0: s.ops.push_back({"cfault", {0, r.range(0, 3), r.below(4) == 0 ? 99 : 1, int64_t(r.below(3))}}); break;
      case 1:
      case 2: s.ops.push_back({"afault", {0, r.below(3) == 0 ? r.range(0, 400) : r.range(0, 60), int64_t(r.below(2)), 0}}); if (r.below(2)) { s.ops.back().a[1] = r.range(0, 3); s.ops.back().a[3] = r.range(1, 9); } break;
      default: break;
    }
    s.ops.push_back({"encode", {0, k, session::genPoints(r, 5), int64_t(r.below(1u << 30)), int64_t(r.below(4)), r.below(2) ? r.range(1, 40) : 0}});
    if (r.below(6) == 0) s.ops.push_back({"spin", {0, r.range(1, 40)}});
    if (r.below(3) == 0) s.ops.push_back({"free", {0, k}});
  }
  s.ops.push_back({"free", {0, 0}});
}
static void setup() { cl::chunkPoints(); }
const Prop kProp = {"C03", gen, session::run, setup,
  "encode calls that end normally, by a failed chunk, or by an allocation failure in the caller's own stage while a chunk is in flight; afterwards the buffers are forbidden to other threads, freed, reused, or the encoder destroyed; every access is race- and lifetime-checked; non-trivial: multi-chunk encode with a fault or preemptive switch; distinct by event-log hash"};
