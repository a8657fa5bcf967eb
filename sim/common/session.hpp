// Executor shared by the encoder-concurrency properties (C01, C02, C03).
#pragma once
#include "cloud.hpp"
namespace session {
// Ops (first argument: caller thread):
//  enc    t slot layoutKind layoutSeed cfg          create an encoder in a slot
//  encode t slot n cloudSeed mode                   encode (mode: 0 new vector, 1 reused vector, 2 view+header, 3 view)
//  free   t slot                                    destroy the encoder
//  spin   t n                                       n voluntary scheduling points
//  cfault 0 at len mode                             next encode: compressor calls [at,at+len) fail
//  afault 0 at from                                 next encode: at-th allocation fails (from: and all later)
//  tfault 0 at len                                  next enc/encode: thread creations [at,at+len) fail
//  bad    t slot kind                               invalid request (size not multiple / output too small)
void run(const Scenario& s);
void genLayoutArgs(sim::Rng& r, int64_t& kind, int64_t& seed, int64_t& cfg, bool threads_only);
int64_t genPoints(sim::Rng& r, int max_chunks);
void genSched(sim::Rng& r, Scenario& s, bool shadow);
}
