// Deterministic simulation kernel shared by every scenario.
//
// One run = one pure function of (scenario, property, tape).  A tape is a list
// of bounded choices in two streams: MAIN (operations, data, faults) and SCHED
// (which task or thread runs next, and for how long).  In search mode each
// choice is drawn from a PRNG seeded from VERIF_SEED and the run number and
// recorded; in replay mode choices come from the recorded tape, and an
// exhausted tape answers 0, which every generator treats as the simplest choice.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <map>
#include <string>
#include <string_view>
#include <vector>

namespace sim {

struct Rng
{
    std::uint64_t s[2];
    explicit Rng(std::uint64_t seed = 1) { reseed(seed); }
    static std::uint64_t mix(std::uint64_t& x)
    {
        std::uint64_t z = (x += 0x9e3779b97f4a7c15ull);
        z               = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z               = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    void reseed(std::uint64_t seed)
    {
        s[0] = mix(seed);
        s[1] = mix(seed);
        if (!s[0] && !s[1])
            s[0] = 1;
    }
    std::uint64_t next()
    {
        std::uint64_t a = s[0], b = s[1], r = a + b;
        b ^= a;
        s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16);
        s[1] = (b << 37) | (b >> 27);
        return r;
    }
    std::uint32_t below(std::uint32_t n) { return n <= 1 ? 0 : next() % n; }
};

enum Stream : int
{
    MAIN  = 0,
    SCHED = 1
};

struct Ev
{
    const char* tag;
    long long a, b, c;
};

//! Everything about the run in progress.
struct Run
{
    Rng rng;
    bool replay = false;
    std::vector<std::uint32_t> tape[2]; // what was chosen (recorded always)
    std::vector<std::uint32_t> in[2];   // replay input
    std::size_t pos[2] = {0, 0};
    std::vector<std::pair<std::size_t, std::size_t>> spans; // MAIN spans
    std::uint64_t hash       = 0;
    std::uint64_t sched_hash = 0;
    std::vector<Ev> trace;
    std::uint64_t nevents = 0;
    bool nontrivial       = false;
    std::uint64_t sim_time_us = 0; // simulated time covered by this run
    std::uint64_t steps       = 0; // scheduler steps of this run
};

extern Run g_run;
extern const char* g_prop;     // active property
extern bool g_fork_each;       // one process per run (thread scenarios)
extern bool g_thorough;        // thorough tier: larger programs
extern std::map<std::string, std::uint64_t> g_faults, g_probes, g_known;

//! Bounded choice in [0, n).  0 must always be the simplest answer.
std::uint32_t choose(std::uint32_t n, Stream s = MAIN);
//! true with probability pct/100; shrinks to false.
inline bool chance(unsigned pct, Stream s = MAIN)
{
    auto v = choose(100, s);
    return v >= 100 - pct && pct > 0;
}
inline int range(int lo, int hi, Stream s = MAIN) // inclusive; shrinks to lo
{
    return lo + (int) choose((std::uint32_t)(hi - lo + 1), s);
}
//! Loop guard for operation lists: false (stop) when the tape is exhausted.
inline bool more(unsigned avg)
{
    return choose(avg + 1) != 0;
}

//! Marks one operation, so that the minimiser can drop it as a whole.
struct Span
{
    std::size_t from;
    Span();
    ~Span();
    Span(const Span&)            = delete;
    Span& operator=(const Span&) = delete;
};

//! Appends to the event log (and its hash).  Never draws choices.
void ev(const char* tag, long long a = 0, long long b = 0, long long c = 0);
void ev_text(const char* tag, std::string_view text);

void fault(const char* kind); // an injected fault actually fired
void probe(const char* name); // a rare condition was reached
void nontrivial();

//! Ends the run with a violation.
[[noreturn]] void violation(const char* oracle, const std::string& msg);
//! A listed finding was met: counted, reported by the driver.
void known(const char* id);

inline bool active(const char* prop)
{
    return std::strcmp(g_prop, prop) == 0;
}
bool active_any(std::initializer_list<const char*> props);

//! Harness bug (not a finding about the code under test).
[[noreturn]] void harness_error(const std::string& msg);

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

struct Scenario
{
    const char* name;
    void (*fn)();
    static std::vector<Scenario>& all();
};
struct Register
{
    Register(const char* name, void (*fn)())
    {
        Scenario::all().push_back({name, fn});
    }
};
#define SIM_SCENARIO(NAME)                                                     \
    static void scen_##NAME();                                                 \
    static ::sim::Register reg_##NAME{#NAME, &scen_##NAME};                    \
    static void scen_##NAME()

//! Oracle: only judged when property P is the one being checked.
#define SIM_CHECK(P, cond, ...)                                                \
    do {                                                                       \
        if (::sim::active(P) && !(cond))                                       \
            ::sim::violation(#cond, ::sim::fmt(__VA_ARGS__));                  \
    } while (0)
#define SIM_CHECK_ANY(PS, cond, ...)                                           \
    do {                                                                       \
        if (::sim::active_any PS && !(cond))                                   \
            ::sim::violation(#cond, ::sim::fmt(__VA_ARGS__));                  \
    } while (0)

// ---- allocation faults (alloc.cpp; only in binaries that link it) ----------
//! Fail the n-th allocation from now (1 = the next); 0 disarms.
void arm_alloc_failure(std::uint64_t n);
void disarm_alloc_failure();
bool alloc_failure_fired();
//! Larger allocations fail.
extern std::size_t alloc_limit;
std::uint64_t live_allocs();
std::uint64_t live_bytes();
struct NoFail // harness bookkeeping: allocations here never fail
{
    NoFail();
    ~NoFail();
};

// hooks used by rt_threads.cpp
void rt_begin_run();
void rt_end_run();
extern void (*g_before_run)();
extern void (*g_after_run)();

} // namespace sim
