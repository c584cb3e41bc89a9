#pragma once
#include "world.h"
namespace scen {
void init();                                            // once per worker
void run(const std::string &prop, sim::u32 inc, int logfd); // inside the simulated process; ends in finish_ok or violation
const char *probe_name(sim::u32 i);
} // namespace scen
