#pragma once
#include "kernel.h"
#include <functional>
namespace mini {
struct Outcome {
    bool ran = false;
    std::string verdict;
    uint64_t hash = 0;
    std::vector<std::pair<int, int>> sched;
    int sched_phase = -1;
};
std::string cls(const std::string &verdict);   // the violation class: the text before the first colon
typedef std::function<Outcome(const sim::Scenario &)> Exec;
sim::Scenario minimise(const sim::Scenario &, const Outcome &, const Exec &, double deadline);
}  // namespace mini
