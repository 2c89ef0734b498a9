// Clock and entropy seam.
#pragma once
#include <cstdint>
namespace sim {
// mode 0: frozen, 1: steady ticks, 2: jumps forward and backward, 3: runs backward, 4: huge leaps
void clockInit(int mode, uint64_t seed);
void clockJump(int64_t ns);
uint64_t clockReads();
int64_t clockSpan(); // absolute simulated nanoseconds travelled
double realNow();    // not simulated; for the harness' own reporting only
}
