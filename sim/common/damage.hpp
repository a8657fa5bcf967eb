// What a network or a disk can do to the bytes of a message.
#pragma once
#include "cloud.hpp"
namespace dmg {
using cl::Bytes;
constexpr int kKinds = 20;
// Applies one kind of damage. `start` is where the interesting part (chunks) begins, `other` an unrelated message.
// Returns false when the bytes came out unchanged.
bool apply(Bytes& b, uint64_t kind, uint64_t a, uint64_t c, uint64_t d, size_t start, const Bytes* other);
// op "dmg" <kind> <a> <c> <d>
Op gen(sim::Rng& r);
bool applyOp(Bytes& b, const Op& op, size_t first_arg, size_t start, const Bytes* other);
size_t headerEnd(const Bytes& b);  // end of the text header, 0 when there is none
}
