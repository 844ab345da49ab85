#pragma once
#include "kernel.h"
#include <functional>

namespace props {
typedef std::function<void(const sim::Scenario &, sim::RunRec &)> Dry;
struct Info { const char *id; const char *rule; int quick; int thorough; bool asan; };
extern const Info table[];
extern const int ntable;
const Info *info(const std::string &id);
// the scenario for this seed; dry runs a scenario without faults to learn where its events are
sim::Scenario make(const std::string &prop, uint64_t seed, const Dry &dry);
// checks made while the run proceeds
sim::Hooks hooks(const sim::Scenario &sc);
// "" or "class: what is wrong", over the recorded history
std::string check(const sim::Scenario &sc, const sim::RunRec &rec);
bool nontrivial(const sim::Scenario &sc, const sim::RunRec &rec);
}  // namespace props
