// Simulated threads.  A scenario translation unit that is compiled with
// -fsanitize=thread (and linked with rt_threads.cpp instead of the TSan
// runtime) has every one of its memory accesses, atomic operations and pthread
// calls routed to the scheduler of rt_threads.cpp: exactly one thread runs at a
// time, and the SCHED tape decides at which of those points it is preempted and
// which thread goes next.
#pragma once
#include "sim.hpp"

namespace sim {

//! Runs `main_fn` as simulated thread 0 with a scheduler configured by the
//! tape; returns when it and every thread it (transitively) created finished.
void run_threads(const std::function<void()>& main_fn);

//! Simulated thread id, -1 outside.
int self();
//! Number of simulated threads created so far in this run.
int thread_count();
//! Global order of events: a counter incremented on each call.
long long stamp();

//! Blocks until every other simulated thread has finished.
void join_all_others();
//! Explicit scheduling point.
void yield();
//! Blocks the calling thread until pred() holds (evaluated by the scheduler
//! whenever it looks for a runnable thread; must be pure).
void wait_until(const std::function<bool()>& pred);
//! Like wait_until, but gives up (returns false) once nothing else can run.
bool wait_until_or_idle(const std::function<bool()>& pred);

//! Harness bookkeeping: memory accesses in scope are not scheduling points and
//! not judged for races.
struct Quiet
{
    Quiet();
    ~Quiet();
    Quiet(const Quiet&) = delete;
};

//! Property to which races / deadlocks / use-after-free count.
extern bool g_judge_races;
extern bool g_judge_deadlock;

} // namespace sim
