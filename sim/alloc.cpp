#include "alloc.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>
#include <unistd.h>

namespace sim {
HeapStats heap;

namespace {
    // Only one thread ever runs at a time (baton), so plain globals are enough.
    bool gInSut = false;
    StepAlloc* gStep = nullptr;

    constexpr uint64_t kSut = 0x5C7A11C0DE5017EDull, kHarness = 0x4A12E55A11C0FFEEull, kFreed = 0xDEADBEEFF4EEDB10ull;

    struct Header {
        uint64_t size;
        uint64_t magic;
    };
    struct FreeNode {
        Header* h;
    };

    int gPlacement = 0;
    uint64_t gRng = 1;
    unsigned char gFill = 0xA5;
    char* gArena = nullptr;
    size_t gArenaSize = 0, gLow = 0, gHigh = 0;

    constexpr int kClasses = 64; // 16 byte classes up to 1024
    struct FreeList {            // plain malloc'ed ring, harness memory
        Header** items = nullptr;
        size_t n = 0, cap = 0, head = 0;
        void push(Header* h)
        {
            if (n == cap) {
                size_t nc = cap ? cap * 2 : 64;
                auto** ni = static_cast<Header**>(std::malloc(nc * sizeof(Header*)));
                for (size_t i = 0; i < n; ++i)
                    ni[i] = items[(head + i) % cap];
                std::free(items);
                items = ni;
                cap = nc;
                head = 0;
            }
            items[(head + n) % cap] = h;
            ++n;
        }
        Header* popBack()
        {
            --n;
            return items[(head + n) % cap];
        }
        Header* popFront()
        {
            Header* h = items[head];
            head = (head + 1) % cap;
            --n;
            return h;
        }
        Header* popAt(size_t k)
        {
            size_t a = (head + k) % cap, b = (head + n - 1) % cap;
            Header* h = items[a];
            items[a] = items[b];
            --n;
            return h;
        }
    };
    FreeList gFree[kClasses + 1];
    FreeList gLarge;
    size_t gLargeBytes = 0;

    uint64_t rnd()
    {
        gRng += 0x9E3779B97F4A7C15ull;
        uint64_t z = gRng;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }

    bool inArena(const void* p)
    {
        return gArena && p >= gArena && p < gArena + gArenaSize;
    }

    void checkPoison(const Header* h)
    {
        const auto* b = reinterpret_cast<const unsigned char*>(h + 1);
        for (uint64_t i = 0; i < h->size; ++i)
            if (b[i] != 0xDB) {
                ++heap.writeAfterFree;
                return;
            }
    }

    size_t rounded(size_t n)
    {
        return (n + 15) & ~size_t(15);
    }

    Header* carve(size_t payload)
    {
        size_t need = sizeof(Header) + payload;
        if (gPlacement == 3)
            need += 16 * (rnd() % 5);
        if (gLow + need + 4096 > gHigh)
            return nullptr;
        bool down = gPlacement == 2 || (gPlacement == 3 && (rnd() & 1));
        if (down) {
            gHigh -= need;
            return reinterpret_cast<Header*>(gArena + gHigh);
        }
        auto* h = reinterpret_cast<Header*>(gArena + gLow);
        gLow += need;
        return h;
    }

    void* sutAlloc(size_t n)
    {
        size_t payload = rounded(n ? n : 1);
        size_t cls = payload / 16 - 1;
        Header* h = nullptr;
        if (gArena && cls < kClasses) {
            FreeList& fl = gFree[cls];
            if (fl.n && gPlacement != 0) {
                if (gPlacement == 1)
                    h = fl.popBack();
                else if (gPlacement == 2) {
                    if (fl.n > 32)
                        h = fl.popFront();
                } else if (rnd() % 4)
                    h = fl.popAt(rnd() % fl.n);
            }
            if (h)
                checkPoison(h);
            else
                h = carve(payload);
            if (!h && fl.n) {
                h = fl.popFront();
                checkPoison(h);
            }
        }
        if (!h)
            h = static_cast<Header*>(std::malloc(sizeof(Header) + payload));
        if (!h) {
            if (payload < (size_t(64) << 20))
                _exit(77);
            throw std::bad_alloc();
        }
        h->size = payload;
        h->magic = kSut ^ reinterpret_cast<uint64_t>(h);
        std::memset(h + 1, gFill, payload);
        ++heap.liveBlocks;
        heap.liveBytes += payload;
        return h + 1;
    }

    void sutFree(Header* h)
    {
        --heap.liveBlocks;
        heap.liveBytes -= h->size;
        h->magic = kFreed ^ reinterpret_cast<uint64_t>(h);
        std::memset(h + 1, 0xDB, h->size);
        if (inArena(h))
            gFree[h->size / 16 - 1].push(h);
        else {
            // Blocks outside of the arena (large ones) are recycled late, so that a second delete or a late
            // read or write remains visible.
            gLarge.push(h);
            gLargeBytes += h->size;
            while (gLargeBytes > (size_t(256) << 20)) {
                Header* old = gLarge.popFront();
                checkPoison(old);
                gLargeBytes -= old->size;
                std::free(old);
            }
        }
    }

    void* allocate(size_t n)
    {
        if (!gInSut) {
            auto* h = static_cast<Header*>(std::malloc(sizeof(Header) + n));
            if (!h)
                _exit(77); // the simulator itself is out of memory: no answer
            h->size = n;
            h->magic = kHarness ^ reinterpret_cast<uint64_t>(h);
            return h + 1;
        }
        ++heap.totalAllocs;
        heap.totalBytes += n;
        if (gStep) {
            StepAlloc& s = *gStep;
            ++s.count;
            if (s.budget && s.count > s.budget)
                throw BudgetExceeded{};
            bool fail = false;
            const AllocFault& f = s.fault;
            if (f.nth && s.count >= f.nth && (f.burst == ~0ull || s.count < f.nth + f.burst))
                fail = true;
            if (f.bigger && n >= f.bigger)
                fail = true;
            if (f.quota && heap.liveBytes + n > s.baseBytes + f.quota)
                fail = true;
            if (fail) {
                ++s.fired;
                ++heap.injected;
                throw InjectedAlloc{};
            }
        }
        return sutAlloc(n);
    }

    void release(void* p)
    {
        if (!p)
            return;
        auto* h = static_cast<Header*>(p) - 1;
        uint64_t m = h->magic ^ reinterpret_cast<uint64_t>(h);
        if (m == kHarness) {
            h->magic = kFreed ^ reinterpret_cast<uint64_t>(h);
            std::free(h);
        } else if (m == kSut)
            sutFree(h);
        else
            ++heap.corrupt; // double delete, damaged header or not ours: keep going, report later
    }
}

bool inSut() { return gInSut; }
SutScope::SutScope() : prev(gInSut) { gInSut = true; }
SutScope::~SutScope() { gInSut = prev; }
HarnessScope::HarnessScope() : prev(gInSut) { gInSut = false; }
HarnessScope::~HarnessScope() { gInSut = prev; }
StepAlloc*& currentStepAlloc() { return gStep; }

void heapInit(int placement, uint64_t seed, unsigned char fill)
{
    gPlacement = placement;
    gRng = seed * 2 + 1;
    gFill = fill;
    gArenaSize = size_t(1) << 30;
    // A fixed address, so that a run is repeatable down to its pointer values.
    void* want = reinterpret_cast<void*>(0x100000000000ull + (seed % 4096) * 0x40000000ull * 4);
    void* p = mmap(want, gArenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        gArena = nullptr;
        return;
    }
    gArena = static_cast<char*>(p);
    gLow = 16 * (seed % 97);
    gHigh = gArenaSize - 16 * (seed % 89);
}

void heapCheckFree()
{
    for (auto& fl : gFree)
        for (size_t i = 0; i < fl.n; ++i)
            checkPoison(fl.items[(fl.head + i) % fl.cap]);
    for (size_t i = 0; i < gLarge.n; ++i)
        checkPoison(gLarge.items[(gLarge.head + i) % gLarge.cap]);
}
}

void* operator new(size_t n) { return sim::allocate(n); }
void* operator new[](size_t n) { return sim::allocate(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept
{
    try {
        return sim::allocate(n);
    } catch (const std::bad_alloc&) {
        return nullptr;
    }
}
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept { sim::release(p); }
void operator delete[](void* p) noexcept { sim::release(p); }
void operator delete(void* p, size_t) noexcept { sim::release(p); }
void operator delete[](void* p, size_t) noexcept { sim::release(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::release(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::release(p); }
