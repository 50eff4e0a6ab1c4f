// Allocation faults for single-threaded scenarios: the n-th allocation after
// arming throws std::bad_alloc.  Linked only where a scenario uses it.
#include "sim.hpp"
#include <malloc.h>
#include <new>

namespace sim {
extern int g_in_kernel;
static std::uint64_t countdown = 0;
static bool fired              = false;
static int nofail              = 0;
std::size_t alloc_limit        = std::size_t{256} << 20;
static std::uint64_t live      = 0;
static std::uint64_t bytes     = 0;

void arm_alloc_failure(std::uint64_t n)
{
    countdown = n;
    fired     = false;
}
void disarm_alloc_failure() { countdown = 0; }
bool alloc_failure_fired() { return fired; }
std::uint64_t live_allocs() { return live; }
std::uint64_t live_bytes() { return bytes; }
NoFail::NoFail() { ++nofail; }
NoFail::~NoFail() { --nofail; }
static inline bool should_fail()
{
    if (countdown && !nofail && !g_in_kernel) {
        if (--countdown == 0) {
            fired = true;
            return true;
        }
    }
    return false;
}
static inline void note(void* p, int d)
{
    if (g_in_kernel)
        return;
    live += d;
    bytes += d * (long long) malloc_usable_size(p);
}
} // namespace sim

static void* do_alloc(std::size_t n)
{
    if (n > sim::alloc_limit || sim::should_fail())
        throw std::bad_alloc{};
    void* p = std::malloc(n ? n : 1);
    if (!p)
        std::abort();
    sim::note(p, 1);
    return p;
}
static void do_free(void* p)
{
    if (p)
        sim::note(p, -1);
    std::free(p);
}
void* operator new(std::size_t n) { return do_alloc(n); }
void* operator new[](std::size_t n) { return do_alloc(n); }
void operator delete(void* p) noexcept { do_free(p); }
void operator delete[](void* p) noexcept { do_free(p); }
void operator delete(void* p, std::size_t) noexcept { do_free(p); }
void operator delete[](void* p, std::size_t) noexcept { do_free(p); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept
{
    if (sim::should_fail())
        return nullptr;
    void* p = std::malloc(n ? n : 1);
    if (p)
        sim::note(p, 1);
    return p;
}
void operator delete(void* p, const std::nothrow_t&) noexcept { do_free(p); }
