// Scenario representation, search driver interface, cloud generators and reference model.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
#include "../rt/simrt.hpp"

struct Op {
  std::string name;
  std::vector<int64_t> a;
  int64_t arg(size_t i, int64_t def = 0) const { return i < a.size() ? a[i] : def; }
  uint64_t u(size_t i) const { return uint64_t(arg(i)); }
};
struct Scenario {
  uint64_t seed = 0;
  sim::SchedCfg sched;
  std::vector<Op> ops;
};
struct Prop {
  const char* id;
  void (*generate)(sim::Rng& r, Scenario& s);  // fills ops and sched
  void (*execute)(const Scenario& s);          // runs inside the simulation; reports via sim::violation
  void (*setup)();                             // once per process, before forking (may be null)
  const char* rule;
};
extern const Prop kProp;
int g_tier();              // 0 quick, 1 thorough
void markNontrivial();
