#include "session.hpp"
#include <algorithm>
#include <map>
#include <memory>
#include <thread>

namespace session {
using namespace cl;
using namespace Cloudini;
using sim::Rng;

int64_t genPoints(Rng& r, int max_chunks) {
  const int64_t C = int64_t(chunkPoints()), P = int64_t(probePoints());
  switch (r.below(8)) {
    case 0: return r.range(0, 3);
    case 1: return C + r.range(-1, 1);
    case 2: return std::max<int64_t>(0, P + r.range(-1, 2));
    case 3: return C * r.range(1, max_chunks);
    case 4: return C * r.range(1, max_chunks) + r.range(0, 2);
    default: return r.range(1, C * max_chunks);
  }
}
void genLayoutArgs(Rng& r, int64_t& kind, int64_t& seed, int64_t& cfg, bool threads_only) {
  kind = int64_t(r.below(r.below(3) ? kLayoutKinds - 1 : kLayoutKinds));
  seed = int64_t(r.below(1000000));
  int enc = int(r.below(3));
  if (r.below(2)) enc = 1;
  const int comp = threads_only ? 1 + int(r.below(2)) : int(r.below(3));
  const int ver = r.below(2) ? 5 : 3 + int(r.below(3));
  cfg = int64_t(cfgOf(enc, comp, ver, threads_only ? 1 : int(r.below(4) != 0)));
}
void genSched(Rng& r, Scenario& s, bool shadow) {
  static const uint32_t gaps[] = {2, 10, 50, 200, 1000, 5000, 30000};
  s.sched.strategy = r.below(4) == 0 ? 2 : 1;
  s.sched.acc_gap = gaps[r.below(7)] * (shadow ? 1 : 4);
  static const uint32_t pcts[] = {0, 5, 30, 50, 70, 95};
  s.sched.sync_pct = pcts[r.below(6)];
  s.sched.pct_depth = 1 + uint32_t(r.below(6));
  static const uint32_t lens[] = {300, 3000, 20000, 100000};
  s.sched.pct_len = lens[r.below(4)];
  s.sched.spurious_pml = r.below(3) == 0 ? 0 : uint32_t(r.below(100));
}

namespace {
struct Slot {
  std::unique_ptr<PointcloudEncoder> enc;
  EncodingInfo info;
  Layout layout;
  Bytes reuse;
};
struct Plan {  // one caller's operations with everything the oracle needs
  const Op* op;
  Bytes cloud;
  Bytes expect;   // full stream with header, from a fresh synchronous encoder
  size_t header = 0;
  bool has_expect = false;
};
struct Caller {
  std::vector<Plan> plan;
  std::map<int64_t, Slot> slots;
};
enum { MAXN_FACTOR = 8 };

std::string opText(const Op& o) {
  std::string s = o.name;
  for (auto v : o.a) s += " " + std::to_string(v);
  return s;
}

void exec(Caller& c, bool single) {
  Op none;
  const Op* cf = nullptr;
  const Op* af = nullptr;
  const Op* tf = nullptr;
  size_t idx = 0;
  for (auto& p : c.plan) {
    const Op& op = *p.op;
    sim::g_sh->last_op = uint32_t(idx++);
    if (op.name == "cfault") { cf = &op; continue; }
    if (op.name == "afault") { af = &op; continue; }
    if (op.name == "tfault") { tf = &op; continue; }
    Slot& s = c.slots[op.arg(1)];
    if (op.name == "spin") {
      for (int64_t i = 0; i < std::min<int64_t>(op.arg(1), 200); ++i) sim::yield();
      continue;
    }
    const bool tfaulty = single && tf;
    if (tfaulty) {
      sim::g_n_thread = 0;
      sim::g_plan_thread.at = std::max<int64_t>(0, tf->arg(1));
      sim::g_plan_thread.len = std::max<int64_t>(1, tf->arg(2));
    }
    const uint64_t tf0 = sim::g_sh->fault[sim::F_THREAD_CREATE];
    const uint64_t cf0 = sim::g_sh->fault[sim::F_COMPRESS];
    if (op.name == "free") {
      if (s.enc) {
        sim::log("destroy", op.u(1));
        s.enc.reset();
        if (single && sim::liveThreads() && c.slots.size() == 1)
          sim::violation("thread-leak", "a thread of a destroyed encoder is still running");
      }
      continue;
    }
    if (op.name == "enc") {
      s.enc.reset();
      s.layout = makeLayout(op.u(2), op.u(3));
      s.info = makeInfo(s.layout, op.u(4), 1, 1);
      sim::log("construct", op.u(1), op.u(4));
      try {
        s.enc = std::make_unique<PointcloudEncoder>(s.info);
      } catch (const std::exception& e) {
        const bool fired = sim::g_sh->fault[sim::F_THREAD_CREATE] != tf0;
        sim::log("construct_throw", fired);
        if (!fired) sim::violation("constructor-throws", std::string("constructing an encoder failed without any fault: ") + e.what() + " " + describe(s.info));
        SIM_PROBE("constructor failed to start its thread");
      }
      if (tfaulty) {
        sim::g_plan_thread = sim::CallPlan();
        tf = nullptr;
      }
      continue;
    }
    if (!s.enc) continue;
    if (op.name == "bad") {
      sim::countFault(sim::F_BAD_INPUT);
      Bytes in(s.info.point_step * 3 + 1), out;
      bool threw = false;
      try {
        if (op.arg(2) % 2 == 0 && s.info.point_step > 1) {
          s.enc->encode(ConstBufferView(in.data(), in.size()), out);
        } else {
          out.resize(s.enc->getHeader().size());
          BufferView v(out.data(), out.size());
          s.enc->encode(ConstBufferView(in.data(), s.info.point_step * 3), v, true);
        }
      } catch (const std::exception&) {
        threw = true;
      }
      sim::log("bad", threw);
      if (!threw) sim::violation("bad-request-accepted", "an encode call with an impossible request reported success");
      continue;
    }
    if (op.name != "encode") continue;

    // ---------------------------------------------------------------- encode
    const size_t n = s.info.point_step ? p.cloud.size() / s.info.point_step : 0;
    const int mode = int(op.u(4) % 4);
    auto input = std::make_unique<Bytes>(p.cloud);  // exact-size copies owned by this call
    std::unique_ptr<Bytes> output;
    Bytes* outv = nullptr;
    size_t ret = 0;
    bool threw = false, std_exc = true;
    std::string what;
    sim::resetCallPlans();
    if (tfaulty) {
      sim::g_plan_thread.at = std::max<int64_t>(0, tf->arg(1));
      sim::g_plan_thread.len = std::max<int64_t>(1, tf->arg(2));
    }
    if (single && cf) {
      sim::g_plan_compress.at = std::max<int64_t>(0, cf->arg(1));
      sim::g_plan_compress.len = std::max<int64_t>(1, cf->arg(2));
      sim::g_plan_compress.mode = int(cf->arg(3) & 7);
    }
    size_t cap = 0;
    if (mode == 0) {
      output = std::make_unique<Bytes>();
      outv = output.get();
    } else if (mode == 1) {
      outv = &s.reuse;
    } else {
      cap = MaxCompressedSize(s.info, n, mode == 2);
      output = std::make_unique<Bytes>(cap);
      outv = output.get();
    }
    sim::log("encode", n, uint64_t(mode));
    const bool armed = single && af;
    if (armed) sim::allocArm(std::max<int64_t>(0, af->arg(1)), af->arg(2) == 0, std::max<int64_t>(0, af->arg(3)));
    try {
      if (mode <= 1) {
        ret = s.enc->encode(ConstBufferView(input->data(), input->size()), *outv);
      } else {
        BufferView v(outv->data(), outv->size());
        ret = s.enc->encode(ConstBufferView(input->data(), input->size()), v, mode == 2);
      }
    } catch (const std::exception& e) {
      threw = true;
      sim::AllocPause ap;
      what = e.what();
    } catch (...) {
      threw = true;
      std_exc = false;
    }
    const uint64_t afired = sim::allocFired();
    if (armed) sim::allocDisarm();
    // from here on nothing may touch this call's buffers but this thread
    sim::forbid(input->data(), input->size(), "input");
    if (outv->capacity()) sim::forbid(outv->data(), outv->size(), "output");
    sim::resetCallPlans();
    const bool cfired = sim::g_sh->fault[sim::F_COMPRESS] != cf0;
    const bool tfired = sim::g_sh->fault[sim::F_THREAD_CREATE] != tf0;
    const bool afail = armed && afired;
    sim::log("encode_end", threw ? ~0ull : ret, n);
    sim::countEval();
    if (n > chunkPoints()) markNontrivial();
    if (!std_exc) sim::violation("odd-exception", "encode threw something that is not a std::exception");
    if (threw) {
      if (!cfired && !tfired && !afail)
        sim::violation("spurious-failure", "encode failed without any fault in this call: " + what + " op: " + opText(op) + " " + describe(s.info));
      if (cfired) SIM_PROBE("encode failed by a compression failure");
      if (tfired) SIM_PROBE("encode failed by a thread start failure");
      if (afail) SIM_PROBE("encode failed by an allocation failure");
    } else {
      if (cfired) sim::violation("failure-not-reported", "compression of a chunk failed but encode reported success, op: " + opText(op) + " " + describe(s.info));
      const uint8_t* got = outv->data();
      const size_t skip = mode == 3 ? p.header : 0;
      if (ret != p.expect.size() - skip)
        sim::violation("size-differs", "encode returned " + std::to_string(ret) + " bytes, the synchronous encoder " + std::to_string(p.expect.size() - skip) + ", op: " + opText(op) + " " + describe(s.info));
      if (mode <= 1 && outv->size() != ret)
        sim::violation("size-differs", "output vector holds " + std::to_string(outv->size()) + " bytes but encode returned " + std::to_string(ret));
      if (ret && memcmp(got, p.expect.data() + skip, ret)) {
        size_t k = 0;
        while (got[k] == p.expect[k + skip]) ++k;
        sim::violation("bytes-differ", "byte " + std::to_string(k) + " of " + std::to_string(ret) + " differs from the synchronous encoder, op: " + opText(op) + " " + describe(s.info));
      }
      sim::logBytes("out", got, ret);
    }
    // let any straggler run while the ranges are forbidden
    if (op.arg(5, 0) > 0)
      for (int64_t i = 0; i < std::min<int64_t>(op.arg(5), 60); ++i) sim::yield();
    sim::allow(input->data(), input->size());
    if (outv->capacity()) sim::allow(outv->data(), outv->size());
    if (mode == 1 && threw) {
      Bytes().swap(s.reuse);
    }
    cf = af = tf = nullptr;
  }
}
}  // namespace

void run(const Scenario& s) {
  // group by caller, build inputs and references before any concurrency
  std::map<int64_t, Caller> callers;
  struct Ref {
    EncodingInfo info;
    Layout l;
    bool ok = false;
  };
  std::map<std::pair<int64_t, int64_t>, Ref> refs;
  int64_t total = 0;
  for (const auto& op : s.ops) {
    const int64_t t = op.name == "cfault" || op.name == "afault" || op.name == "tfault" ? 0 : op.arg(0) & 3;
    Caller& c = callers[t];
    Plan p;
    p.op = &op;
    if (op.name == "enc") {
      Ref& r = refs[{t, op.arg(1)}];
      r.l = makeLayout(op.u(2), op.u(3));
      r.info = makeInfo(r.l, op.u(4), 1, 1);
      r.info.use_threads = false;
      r.ok = true;
    } else if (op.name == "encode") {
      Ref& r = refs[{t, op.arg(1)}];
      if (!r.ok) continue;
      const size_t n = size_t(std::min<int64_t>(std::max<int64_t>(0, op.arg(2)), int64_t(chunkPoints()) * MAXN_FACTOR));
      total += int64_t(n);
      if (total > int64_t(chunkPoints()) * 40) continue;
      p.cloud = makeCloud(r.l, n, op.u(3), r.info.encoding_opt == EncodingOptions::LOSSY);
      try {
        PointcloudEncoder e(r.info);
        p.header = e.getHeader().size();
        e.encode(ConstBufferView(p.cloud.data(), p.cloud.size()), p.expect);
      } catch (const std::exception& e) {
        sim::violation("synchronous-encode-fails", std::string("encoding a legitimate cloud failed: ") + e.what() + " op: " + opText(op) + " " + describe(r.info));
      }
    }
    c.plan.push_back(std::move(p));
  }
  sim::log("refs_done", callers.size());
  if (callers.size() <= 1) {
    for (auto& [t, c] : callers) exec(c, true);
  } else {
    SIM_PROBE("several callers");
    std::vector<std::thread> th;
    for (auto& [t, c] : callers) {
      Caller* pc = &c;
      th.emplace_back([pc] { exec(*pc, false); pc->slots.clear(); });
    }
    for (auto& t : th) t.join();
  }
  for (auto& [t, c] : callers) {
    sim::log("clear", uint64_t(t));
    c.slots.clear();
  }
  if (sim::g_sh->switches || sim::g_sh->fault[sim::F_COMPRESS] || sim::g_sh->fault[sim::F_ALLOC] || sim::g_sh->fault[sim::F_THREAD_CREATE]) {
  } else {
    sim::g_sh->nontrivial = 0;
  }
}
}  // namespace session
