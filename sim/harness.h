#pragma once
#include "core.h"

#include <map>
#include <string>
#include <vector>

// One simulated run: everything is derived from the draws W, the scheduler and
// the fault policy.
struct Violation { std::string prop, cls, detail; };
struct Ctx {
  std::string prop;            // property being checked
  sim::Draws W;
  bool thorough = false;
  std::vector<Violation> violations;
  std::map<std::string, uint64_t> probes;   // reach counters
  std::string sample;                        // human-readable description of the case
  std::string crash_prop;                    // property broken if the code dies from a signal
  uint64_t state_hash = 0;                   // for counting distinct cases
  bool nontrivial = false;
  void Violate(const std::string &p, const std::string &cls, const std::string &detail) {
    for (auto &v : violations) if (v.prop == p && v.cls == cls) return;
    violations.push_back({p, cls, detail});
  }
  void Probe(const std::string &n, uint64_t c = 1) { probes[n] += c; }
};
extern sim::Image *g_tidy, *g_bant;
using ScenarioFn = void (*)(Ctx &);
struct PropScenario { const char *prop; ScenarioFn fn; bool tidy, bant; };
extern const std::vector<PropScenario> kScenarios;

// Convenience for scenarios.
namespace sim { void SchedInit(); }
void RandomSchedule(Ctx &c, bool threads_matter);
std::string Clip(const std::string &s, size_t n = 600);
