#include "sim.h"
#define SC(n) void sc_##n();
#include "scenarios.inc"
#undef SC
void scenario_run(const Str &name) {
#define SC(n) if (name == #n) { sc_##n(); return; }
#include "scenarios.inc"
#undef SC
    harness_error("unknown scenario %s", name.c_str());
}
void sc_noop() {}
