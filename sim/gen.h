// Seeded generation of source texts.
#pragma once
#include "kernel.h"
#include "model.h"

namespace gen {
struct Style {
    int maxsteps = 30;
    bool big = false;        // sources larger than any stdio buffer
    bool refs_heavy = false;
    bool labels_heavy = false;
    bool want_end = false;   // .END with a line end
    bool giant = false;        // with huge: one line that is longer than a stack
    bool huge = false;       // as much code as there is address space, or more lines than fit in 16 bits
};
// a program the model accepts; res is the model's view
std::string valid(sim::Rng &r, const Style &st, model::Result &res);
// a program the model rejects (one injected error, mostly)
std::string invalid(sim::Rng &r, const Style &st, model::Result &res);
// anything at all: mutated programs, long tokens and lines, arbitrary bytes
std::string bytes(sim::Rng &r);
Style style(sim::Rng &r);
}  // namespace gen
