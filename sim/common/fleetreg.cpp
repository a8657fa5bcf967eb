#include "fleet.hpp"
namespace fleet {
const Build* build_sse41();
// the ones a check does not link stay null
__attribute__((weak)) const Build* build_sse2();
__attribute__((weak)) const Build* build_scalar();
__attribute__((weak)) const Build* build_fma();
__attribute__((weak)) const Build* build_base();
const char* name(int b) {
  static const char* const n[] = {"sse41", "scalar", "sse2", "fma", "the deployed release"};
  return n[b];
}
const Build* get(int b) {
  switch (b) {
    case 0: return build_sse41();
    case 1: return build_scalar ? build_scalar() : nullptr;
    case 2: return build_sse2 ? build_sse2() : nullptr;
    case 4: return build_base ? build_base() : nullptr;
    default: return build_fma && __builtin_cpu_supports("avx2") && __builtin_cpu_supports("fma") ? build_fma() : nullptr;
  }
}
}  // namespace fleet
