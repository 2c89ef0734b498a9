// Allocator seam: every heap allocation made while control is inside tsym ("in SUT") is
// counted, placed by a seeded policy, can be failed on demand and is accounted for.
#pragma once
#include <cstddef>
#include <cstdint>
#include <new>

namespace sim {
struct InjectedAlloc : std::bad_alloc {
    const char* what() const noexcept override { return "injected allocation failure"; }
};
struct BudgetExceeded {};

struct AllocFault {
    uint64_t nth = 0;    // fail allocation number nth (1-based) of the step; 0 = none
    uint64_t burst = 1;  // how many consecutive allocations fail; ~0 = until the step ends
    uint64_t bigger = 0; // fail every allocation of at least that many bytes; 0 = none
    uint64_t quota = 0;  // fail while live bytes would exceed (bytes at step begin + quota); 0 = none
};

struct HeapStats {
    uint64_t liveBlocks = 0, liveBytes = 0, totalAllocs = 0, totalBytes = 0;
    uint64_t corrupt = 0;     // header damaged, double delete, foreign delete
    uint64_t writeAfterFree = 0;
    uint64_t injected = 0;
};

extern HeapStats heap;

// depth/ownership of the control flow
bool inSut();
struct SutScope {
    SutScope();
    ~SutScope();
    bool prev;
};
struct HarnessScope {
    HarnessScope();
    ~HarnessScope();
    bool prev;
};

struct StepAlloc { // per step (nested steps push/pop)
    AllocFault fault;
    uint64_t count = 0;
    uint64_t fired = 0;
    uint64_t budget = 0; // 0 = unlimited
    uint64_t baseBytes = 0;
};
StepAlloc*& currentStepAlloc();

void heapInit(int placement, uint64_t seed, unsigned char fill);
// Walk all free blocks and check that their poison is intact.
void heapCheckFree();
}
