// Cooperative scheduler + happens-before checker behind the TSan compiler
// instrumentation interface and the pthread API.  This file itself is compiled
// without instrumentation.
#include "rt.hpp"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <map>
#include <set>
#include <unordered_map>

namespace sim {

bool g_judge_races    = true;
bool g_judge_deadlock = true;

namespace rt {

constexpr int MAXT           = 24;
constexpr std::size_t STKSZ  = 512 * 1024;
constexpr std::uint64_t MAXP = 6000000; // scheduling points per run

struct VC
{
    std::uint32_t c[MAXT] = {};
    void join(const VC& o)
    {
        for (int i = 0; i < MAXT; ++i)
            if (o.c[i] > c[i])
                c[i] = o.c[i];
    }
};

enum Block
{
    b_none,
    b_mutex,
    b_cond,
    b_join,
    b_pred,
    b_idle, // predicate with idle wake-up
    b_epoll
};

struct Thread
{
    int id;
    std::atomic<int> go{0};
    pthread_t real{};
    void* (*fn)(void*) = nullptr;
    void* arg          = nullptr;
    void* ret          = nullptr;
    bool started       = false;
    bool done          = false;
    bool detached      = false;
    Block block        = b_none;
    void* wait_on      = nullptr; // mutex / cond
    int wait_join      = -1;
    bool signalled     = false;
    bool timed         = false; // timed cond wait: may time out
    bool timed_out     = false;
    int ep_fd          = -1;
    const std::function<bool()>* pred = nullptr;
    VC vc, fence_acq, fence_rel;
    char* stk = nullptr;
    int prio  = 0;
};

struct Access
{
    std::uint32_t clk;
    std::uint8_t tid, mask, write, atomic;
};

struct Granule
{
    Access a[8];
    std::uint8_t n     = 0;
    bool freed         = false;
};

struct Mutex
{
    int owner = -1;
    int depth = 0;
    VC vc;
};
struct RwLock
{
    int writer  = -1;
    int readers = 0;
    std::map<int, int> held; // by which threads, how often, for reading
    VC written, read;        // released by writers, by readers
};

struct State
{
    Thread* t[MAXT] = {};
    int n           = 0;
    int cur         = 0;
    bool active     = false;
    std::uint64_t points = 0, countdown = 0, switches = 0;
    std::uint64_t mean_gap = 0; // 0: never preempt
    int mode               = 0;
    std::unordered_map<std::uintptr_t, Granule> shadow;
    std::unordered_map<std::uintptr_t, Mutex> mutexes;
    std::unordered_map<std::uintptr_t, VC> conds;
    std::unordered_map<std::uintptr_t, VC> atomics;
    std::unordered_map<std::uintptr_t, std::size_t> sizes;
    std::vector<void*> quarantine;
    std::map<std::uintptr_t, int> guards; // static init guards in progress
    std::unordered_map<std::uintptr_t, RwLock> rwlocks;
    long long stamp = 0;
    std::atomic<int> all_done{0};
};

static State* S;
[[maybe_unused]] static const bool fork_each_set = g_fork_each = true;
static __thread Thread* me = nullptr; // simulated thread running this code
static __thread int quiet  = 1;       // >0: instrumentation ignored
static __thread int inner  = 0;       // >0: inside the runtime itself
static bool ready          = false;

struct In // runtime section: nested instrumentation ignored
{
    In() { ++quiet, ++inner; }
    ~In() { --quiet, --inner; }
};

static inline bool on() { return me && quiet == 0 && S->active; }

static void futex_wait(std::atomic<int>& a, int v)
{
    syscall(SYS_futex, (int*) &a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0);
}
static void futex_wake(std::atomic<int>& a)
{
    syscall(SYS_futex, (int*) &a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
static void park(Thread* t)
{
    while (t->go.load(std::memory_order_acquire) == 0)
        futex_wait(t->go, 0);
    t->go.store(0, std::memory_order_relaxed);
}
static void unpark(Thread* t)
{
    t->go.store(1, std::memory_order_release);
    futex_wake(t->go);
}

static void draw_gap()
{
    if (S->mean_gap == 0) {
        S->countdown = ~0ull;
        return;
    }
    // 0 = no further preemption until the next forced switch
    auto v = choose((std::uint32_t) (2 * S->mean_gap + 1), SCHED);
    S->countdown = v == 0 ? ~0ull : v;
}

static int (*real_epoll_wait)(int, struct epoll_event*, int, int);

static bool runnable(Thread* t)
{
    if (!t || t->done)
        return false;
    switch (t->block) {
    case b_none:
        return true;
    case b_mutex:
        return S->mutexes[(std::uintptr_t) t->wait_on].owner == -1;
    case b_cond:
        return t->signalled;
    case b_join:
        if (t->wait_join >= 0)
            return S->t[t->wait_join]->done;
        for (int i = 0; i < S->n; ++i)
            if (i != t->id && !S->t[i]->done)
                return false;
        return true;
    case b_pred:
    case b_idle:
        return (*t->pred)();
    case b_epoll: {
        // level check on the real (in-process) descriptors, without consuming
        struct epoll_event e;
        (void) e;
        struct timespec ts = {0, 0};
        (void) ts;
        fd_set f;
        FD_ZERO(&f);
        FD_SET(t->ep_fd, &f);
        struct timeval tv = {0, 0};
        return select(t->ep_fd + 1, &f, nullptr, nullptr, &tv) > 0;
    }
    }
    return false;
}

static const char* block_name(Block b)
{
    switch (b) {
    case b_none: return "running";
    case b_mutex: return "mutex";
    case b_cond: return "condition";
    case b_join: return "join";
    case b_pred: return "predicate";
    case b_idle: return "idle";
    case b_epoll: return "epoll";
    }
    return "?";
}

// Picks the next thread.  `self_ok`: the caller may keep running.
static int pick(bool voluntary)
{
    int cand[MAXT], k = 0;
    // candidates in a canonical order; the current thread first so that the
    // simplest choice (0) is "no switch"
    if (!voluntary && runnable(S->t[S->cur]))
        cand[k++] = S->cur;
    for (int i = 0; i < S->n; ++i) {
        if (i == S->cur && !voluntary)
            continue;
        if (runnable(S->t[i]))
            cand[k++] = i;
    }
    if (k == 0) {
        // idle: threads that asked to be woken then
        for (int i = 0; i < S->n; ++i)
            if (!S->t[i]->done && S->t[i]->block == b_idle)
                cand[k++] = i;
        if (k == 0)
            for (int i = 0; i < S->n; ++i)
                if (!S->t[i]->done && S->t[i]->block == b_cond && S->t[i]->timed) {
                    S->t[i]->timed_out = true;
                    cand[k++]          = i;
                }
    }
    if (k == 0)
        return -1;
    if (k == 1)
        return cand[0];
    return cand[choose(k, SCHED)];
}

static void deadlock()
{
    std::string m = "no simulated thread can run:";
    for (int i = 0; i < S->n; ++i)
        if (!S->t[i]->done)
            m += fmt(" T%d waits on %s;", i, block_name(S->t[i]->block));
    if (!g_judge_deadlock)
        _exit(0);
    violation("every thread makes progress", m);
}

static void switch_to(int next)
{
    Thread* self = me;
    if (next == self->id)
        return;
    S->switches++;
    auto& h = g_run.sched_hash;
    h = (h ^ (self->id * 31 + next + (S->points << 8))) * 0xff51afd7ed558ccdull;
    h ^= h >> 29;
    S->cur = next;
    unpark(S->t[next]);
    if (!self->done)
        park(self);
}

// Gives up the processor; caller has set its block reason.
static void reschedule(bool voluntary)
{
    int n = pick(voluntary);
    if (n < 0)
        deadlock();
    switch_to(n);
}

static void block_until_runnable()
{
    // blocked: pick someone (maybe ourselves if already runnable)
    reschedule(true);
    me->block = b_none;
    draw_gap();
}

static void point()
{
    S->points++;
    g_run.steps++;
    if (S->points > MAXP)
        violation("every thread makes progress",
                  "step budget exhausted: livelock");
    if (--S->countdown == 0) {
        reschedule(false);
        draw_gap();
    }
}

// ---------------------------------------------------------------- races ----
static void report_race(std::uintptr_t addr,
                        const Access& o,
                        bool w,
                        bool atomic)
{
    if (!g_judge_races)
        return;
    violation("no data race",
              fmt("T%d %s%s conflicts with an unordered %s%s by T%d",
                  me->id,
                  atomic ? "atomic " : "",
                  w ? "write" : "read",
                  o.atomic ? "atomic " : "",
                  o.write ? "write" : "read",
                  o.tid));
}

static inline bool own_stack(std::uintptr_t a)
{
    return me->stk && a >= (std::uintptr_t) me->stk &&
           a < (std::uintptr_t) me->stk + STKSZ;
}

static void track(std::uintptr_t addr, std::size_t size, bool w, bool atomic)
{
    auto first = addr >> 3, last = (addr + size - 1) >> 3;
    for (auto g = first; g <= last; ++g) {
        std::uint8_t mask = 0xff;
        if (g == first)
            mask &= 0xff << (addr & 7);
        if (g == last)
            mask &= 0xff >> (7 - ((addr + size - 1) & 7));
        auto& gr = S->shadow[g];
        if (gr.freed && g_judge_races)
            violation("no use after free",
                      fmt("T%d %s memory that was freed", me->id,
                          w ? "writes" : "reads"));
        int slot = -1;
        for (int i = 0; i < gr.n; ++i) {
            auto& o = gr.a[i];
            if (!(o.mask & mask))
                continue;
            if (o.tid == me->id) {
                if (o.mask == mask && o.write == w && o.atomic == atomic)
                    slot = i;
                continue;
            }
            if (!(o.write || w) || (o.atomic && atomic))
                continue;
            if (o.clk > me->vc.c[o.tid])
                report_race(addr, o, w, atomic);
        }
        Access na{me->vc.c[me->id], (std::uint8_t) me->id, mask,
                  (std::uint8_t) w, (std::uint8_t) atomic};
        if (slot >= 0) {
            gr.a[slot] = na;
            continue;
        }
        // drop entries that happen before us and are subsumed
        if (w && !atomic) {
            int k = 0;
            for (int i = 0; i < gr.n; ++i) {
                auto& o = gr.a[i];
                if ((o.mask & ~mask) == 0 && o.clk <= me->vc.c[o.tid])
                    continue;
                gr.a[k++] = o;
            }
            gr.n = k;
        }
        if (gr.n < 8)
            gr.a[gr.n++] = na;
        else
            gr.a[S->points % 8] = na;
    }
}

static inline void mem(void* p, std::size_t size, bool w)
{
    if (!on())
        return;
    auto a = (std::uintptr_t) p;
    In in;
    if (!own_stack(a))
        point();
    track(a, size, w, false);
}

static void tick() { me->vc.c[me->id]++; }

static void do_acquire(VC& v) { me->vc.join(v); }
static void do_release(VC& v)
{
    v.join(me->vc);
    tick();
}

static bool mo_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static bool mo_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

// before an atomic access: scheduling point + race judgement
static void atomic_pre(const volatile void* p, std::size_t size, bool w)
{
    auto a = (std::uintptr_t) p;
    if (!own_stack(a))
        point();
    track(a, size, w, true);
}
static void atomic_sync(const volatile void* p, bool ld, bool st, int mo)
{
    auto& v = S->atomics[(std::uintptr_t) p];
    if (ld) {
        if (mo_acq(mo))
            do_acquire(v);
        else
            me->fence_acq.join(v);
    }
    if (st) {
        if (mo_rel(mo))
            do_release(v);
        else if (ld)
            v.join(me->fence_rel); // RMW continues the release sequence
        else
            v = me->fence_rel;
    }
}
static void atomic_fence(int mo)
{
    if (mo_acq(mo))
        me->vc.join(me->fence_acq);
    if (mo_rel(mo)) {
        me->fence_rel = me->vc;
        tick();
    }
}

// ------------------------------------------------------------- real API ----
static int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
static int (*real_join)(pthread_t, void**);
static int (*real_detach)(pthread_t);
static int (*real_lock)(pthread_mutex_t*);
static int (*real_trylock)(pthread_mutex_t*);
static int (*real_unlock)(pthread_mutex_t*);
static int (*real_cwait)(pthread_cond_t*, pthread_mutex_t*);
static int (*real_ctwait)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
static int (*real_ccwait)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
static int (*real_csig)(pthread_cond_t*);
static int (*real_cbcast)(pthread_cond_t*);
static int (*real_mdestroy)(pthread_mutex_t*);

template <class F>
static void sym(F& f, const char* n)
{
    f = (F) dlsym(RTLD_NEXT, n);
}

static void init_real()
{
    static bool done = false;
    if (done)
        return;
    done = true;
    sym(real_create, "pthread_create");
    sym(real_join, "pthread_join");
    sym(real_detach, "pthread_detach");
    sym(real_lock, "pthread_mutex_lock");
    sym(real_trylock, "pthread_mutex_trylock");
    sym(real_unlock, "pthread_mutex_unlock");
    sym(real_cwait, "pthread_cond_wait");
    sym(real_ctwait, "pthread_cond_timedwait");
    sym(real_ccwait, "pthread_cond_clockwait");
    sym(real_csig, "pthread_cond_signal");
    sym(real_cbcast, "pthread_cond_broadcast");
    sym(real_mdestroy, "pthread_mutex_destroy");
    sym(real_epoll_wait, "epoll_wait");
}

static void finish_thread(Thread* t)
{
    In in;
    t->done = true;
    tick();
    int nx = pick(true);
    if (nx < 0) {
        // everyone done, or the rest is stuck
        for (int i = 0; i < S->n; ++i)
            if (!S->t[i]->done)
                deadlock();
        S->all_done.store(1);
        futex_wake(S->all_done);
        return;
    }
    switch_to(nx);
}

static void* trampoline(void* p)
{
    Thread* t = (Thread*) p;
    me        = t;
    quiet     = 1;
    park(t);
    quiet  = 0;
    t->ret = t->fn(t->arg);
    quiet  = 1;
    // thread-local destructors run after this returns, outside the simulation;
    // they only touch thread-local memory.
    finish_thread(t);
    me = nullptr;
    return t->ret;
}

static Thread* new_thread(void* (*fn)(void*), void* arg)
{
    if (S->n >= MAXT)
        harness_error("too many simulated threads");
    auto t   = new Thread;
    t->id    = S->n++;
    t->fn    = fn;
    t->arg   = arg;
    t->stk   = (char*) mmap(nullptr, STKSZ, PROT_READ | PROT_WRITE,
                            MAP_PRIVATE | MAP_ANONYMOUS | MAP_STACK, -1, 0);
    S->t[t->id] = t;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, t->stk, STKSZ);
    if (real_create(&t->real, &at, trampoline, t))
        harness_error("pthread_create failed");
    pthread_attr_destroy(&at);
    return t;
}

static Thread* by_handle(pthread_t h)
{
    for (int i = 0; i < S->n; ++i)
        if (pthread_equal(S->t[i]->real, h))
            return S->t[i];
    return nullptr;
}

static void lock_mutex(void* m, bool recursive)
{
    point();
    auto& mx = S->mutexes[(std::uintptr_t) m];
    if (mx.owner == me->id) {
        if (recursive) {
            mx.depth++;
            return;
        }
        if (g_judge_deadlock)
            violation("every thread makes progress",
                      fmt("T%d locks a mutex it already holds", me->id));
        _exit(0);
    }
    while (mx.owner != -1) {
        probe("rt:mutex contention");
        me->block   = b_mutex;
        me->wait_on = m;
        block_until_runnable();
    }
    mx.owner = me->id;
    mx.depth = 1;
    do_acquire(mx.vc);
}
static void unlock_mutex(void* m, bool preempt = true)
{
    auto& mx = S->mutexes[(std::uintptr_t) m];
    if (mx.owner != me->id) {
        if (g_judge_races)
            violation("no data race", fmt("T%d unlocks a mutex it does not hold", me->id));
    }
    if (--mx.depth > 0)
        return;
    mx.owner = -1;
    do_release(mx.vc);
    if (preempt)
        point();
}

static int wait_cond(void* c, void* m, bool timed)
{
    unlock_mutex(m, false); // atomic with the start of the wait
    me->block     = b_cond;
    me->wait_on   = c;
    me->signalled = false;
    me->timed     = timed;
    me->timed_out = false;
    block_until_runnable();
    me->timed = false;
    bool to   = me->timed_out && !me->signalled;
    if (!to)
        do_acquire(S->conds[(std::uintptr_t) c]);
    lock_mutex(m, false);
    return to ? ETIMEDOUT : 0;
}
static void signal_cond(void* c, bool all)
{
    do_release(S->conds[(std::uintptr_t) c]);
    Thread* w[MAXT];
    int k = 0;
    for (int i = 0; i < S->n; ++i) {
        auto t = S->t[i];
        if (!t->done && t->block == b_cond && t->wait_on == c && !t->signalled)
            w[k++] = t;
    }
    if (k) {
        if (all)
            for (int i = 0; i < k; ++i)
                w[i]->signalled = true;
        else
            w[choose(k, SCHED)]->signalled = true;
    }
    point();
}

} // namespace rt

using namespace rt;

Quiet::Quiet() { ++rt::quiet; }
Quiet::~Quiet() { --rt::quiet; }
int self() { return me ? me->id : -1; }
int thread_count() { return S ? S->n : 0; }
long long stamp() { return S ? ++S->stamp : 0; }

void yield()
{
    if (!me)
        return;
    In in;
    S->points++;
    if (S->points > MAXP)
        violation("every thread makes progress", "step budget exhausted");
    reschedule(false);
    draw_gap();
}

void join_all_others()
{
    In in;
    me->block     = b_join;
    me->wait_join = -1;
    block_until_runnable();
    for (int i = 0; i < S->n; ++i)
        if (i != me->id)
            me->vc.join(S->t[i]->vc);
}

void wait_until(const std::function<bool()>& pred)
{
    In in;
    me->block = b_pred;
    me->pred  = &pred;
    block_until_runnable();
}

bool wait_until_or_idle(const std::function<bool()>& pred)
{
    In in;
    me->block = b_idle;
    me->pred  = &pred;
    block_until_runnable();
    return pred();
}

static const std::function<void()>* g_main;
static void* main_tramp(void*)
{
    // scenario code: uncaught exceptions are findings
    try {
        (*g_main)();
    } catch (const std::exception& e) {
        In in;
        violation("no unexpected exception escapes", e.what());
    }
    return nullptr;
}

static void* dummy(void*) { return nullptr; }

void run_threads(const std::function<void()>& fn)
{
    init_real();
    static bool warm = false;
    if (!warm) { // make libc decide "multi-threaded" once and for all
        pthread_t t;
        real_create(&t, nullptr, dummy, nullptr);
        real_join(t, nullptr);
        warm = true;
    }
    S = new State;
    S->shadow.reserve(1 << 14);
    // schedule style of this run (swarm)
    switch (choose(6, SCHED)) {
    case 0: S->mean_gap = 0; break;
    case 1: S->mean_gap = 8; break;
    case 2: S->mean_gap = 30; break;
    case 3: S->mean_gap = 120; break;
    case 4: S->mean_gap = 500; break;
    case 5: S->mean_gap = 2000; break;
    }
    draw_gap();
    g_main   = &fn;
    ready    = true;
    auto t   = new_thread(main_tramp, nullptr);
    S->active = true;
    S->cur    = 0;
    t->vc.c[0] = 1;
    unpark(t);
    while (S->all_done.load() == 0)
        futex_wait(S->all_done, 0);
    S->active = false;
    for (int i = 0; i < S->n; ++i) {
        auto x = S->t[i];
        real_join(x->real, nullptr);
        munmap(x->stk, STKSZ);
    }
    ready = false;
    g_probes["rt:context switches"] += S->switches;
    g_probes["rt:scheduling points"] += S->points;
    for (int i = 0; i < S->n; ++i)
        delete S->t[i];
    auto q = std::move(S->quarantine);
    delete S;
    S = nullptr;
    for (auto p : q)
        std::free(p);
}

} // namespace sim

using namespace sim;
using namespace sim::rt;

// ------------------------------------------------------------- pthread -----
extern "C" {

int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
    init_real();
    if (!me || !S || !S->active)
        return real_create(h, a, fn, arg);
    In in;
    auto t     = new_thread(fn, arg);
    t->vc      = me->vc;
    t->vc.c[t->id]++;
    tick();
    *h = t->real;
    point();
    return 0;
}
int pthread_join(pthread_t h, void** r)
{
    init_real();
    if (!me || !S || !S->active)
        return real_join(h, r);
    In in;
    auto t = by_handle(h);
    if (!t)
        return ESRCH;
    me->block     = b_join;
    me->wait_join = t->id;
    block_until_runnable();
    me->vc.join(t->vc);
    if (r)
        *r = t->ret;
    return 0;
}
int pthread_detach(pthread_t h)
{
    init_real();
    if (!me || !S || !S->active)
        return real_detach(h);
    In in;
    auto t = by_handle(h);
    if (t)
        t->detached = true; // the kernel joins it at the end of the run
    return 0;
}
static bool is_recursive(pthread_mutex_t* m)
{
    return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!on()) {
        init_real();
        return real_lock(m);
    }
    In in;
    lock_mutex(m, is_recursive(m));
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!on()) {
        init_real();
        return real_trylock(m);
    }
    In in;
    point();
    auto& mx = S->mutexes[(std::uintptr_t) m];
    if (mx.owner == me->id && is_recursive(m)) {
        mx.depth++;
        return 0;
    }
    if (mx.owner != -1)
        return EBUSY;
    mx.owner = me->id;
    mx.depth = 1;
    do_acquire(mx.vc);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!on()) {
        init_real();
        return real_unlock(m);
    }
    In in;
    unlock_mutex(m);
    return 0;
}
// (how long a deadline is off is up to the schedule)
static int lock_before_deadline(pthread_mutex_t* m)
{
    while (true) {
        int e = pthread_mutex_trylock(m);
        if (e != EBUSY)
            return e;
        In in;
        if (choose(4, SCHED) == 0)
            return ETIMEDOUT;
        sim::yield();
    }
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts)
{
    if (!on()) {
        auto f = (int (*)(pthread_mutex_t*, const struct timespec*)) dlsym(RTLD_NEXT, "pthread_mutex_timedlock");
        return f(m, ts);
    }
    return lock_before_deadline(m);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t k, const struct timespec* ts)
{
    if (!on()) {
        auto f =
            (int (*)(pthread_mutex_t*, clockid_t, const struct timespec*)) dlsym(RTLD_NEXT, "pthread_mutex_clocklock");
        return f(m, k, ts);
    }
    return lock_before_deadline(m);
}
#define REAL_RW(NAME)                                                          \
    auto f = (int (*)(pthread_rwlock_t*)) dlsym(RTLD_NEXT, NAME);       \
    return f(l)
static int rw_lock(pthread_rwlock_t* l, bool write, bool wait)
{
    In in;
    point();
    auto& x = S->rwlocks[(std::uintptr_t) l];
    if (x.writer == me->id || (write && x.held.count(me->id))) {
        if (!wait)
            return EBUSY;
        if (g_judge_deadlock)
            violation("every thread makes progress", fmt("T%d locks a lock it already holds", me->id));
        _exit(0);
    }
    auto free = std::function<bool()>([l, write] {
        auto& x = S->rwlocks[(std::uintptr_t) l];
        return x.writer == -1 && (!write || x.readers == 0);
    });
    while (!free()) {
        if (!wait)
            return EBUSY;
        probe("rt:mutex contention");
        me->block = b_pred;
        me->pred  = &free;
        block_until_runnable();
    }
    do_acquire(x.written);
    if (write) {
        do_acquire(x.read);
        x.writer = me->id;
    } else {
        ++x.readers;
        ++x.held[me->id];
    }
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l)
{
    if (!on()) {
        REAL_RW("pthread_rwlock_rdlock");
    }
    return rw_lock(l, false, true);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l)
{
    if (!on()) {
        REAL_RW("pthread_rwlock_wrlock");
    }
    return rw_lock(l, true, true);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l)
{
    if (!on()) {
        REAL_RW("pthread_rwlock_tryrdlock");
    }
    return rw_lock(l, false, false);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l)
{
    if (!on()) {
        REAL_RW("pthread_rwlock_trywrlock");
    }
    return rw_lock(l, true, false);
}
int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    if (!on()) {
        REAL_RW("pthread_rwlock_unlock");
    }
    In in;
    auto& x = S->rwlocks[(std::uintptr_t) l];
    if (x.writer == me->id) {
        x.writer = -1;
        do_release(x.written);
    } else if (auto i = x.held.find(me->id); i != x.held.end()) {
        if (--i->second == 0)
            x.held.erase(i);
        --x.readers;
        do_release(x.read);
    } else if (g_judge_races)
        violation("no data race", fmt("T%d unlocks a lock it does not hold", me->id));
    point();
    return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)())
{
    if (!me || !S || !S->active) {
        auto f = (int (*)(pthread_once_t*, void (*)())) dlsym(RTLD_NEXT, "pthread_once");
        return f(o, fn);
    }
    const int DONE = 2; // as in glibc
    auto key       = (std::uintptr_t) o;
    {
        In in;
        while (true) {
            if (*o == DONE) {
                do_acquire(S->atomics[key]);
                return 0;
            }
            if (!S->guards.count(key)) {
                S->guards[key] = me->id;
                break;
            }
            auto pred = std::function<bool()>([key] { return !S->guards.count(key); });
            me->block = b_pred;
            me->pred  = &pred;
            block_until_runnable();
        }
    }
    try {
        fn();
    } catch (...) {
        In in;
        S->guards.erase(key);
        throw;
    }
    In in;
    *o = DONE;
    do_release(S->atomics[key]);
    S->guards.erase(key);
    return 0;
}

int pthread_mutex_destroy(pthread_mutex_t* m)
{
    init_real();
    if (me && S && S->active)
        S->mutexes.erase((std::uintptr_t) m);
    return real_mdestroy(m);
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!on()) {
        init_real();
        return real_cwait(c, m);
    }
    In in;
    return wait_cond(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
    if (!on()) {
        init_real();
        return real_ctwait(c, m, ts);
    }
    In in;
    return wait_cond(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts)
{
    if (!on()) {
        init_real();
        return real_ccwait(c, m, k, ts);
    }
    In in;
    return wait_cond(c, m, true);
}
int pthread_cond_signal(pthread_cond_t* c)
{
    if (!on()) {
        init_real();
        return real_csig(c);
    }
    In in;
    signal_cond(c, false);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (!on()) {
        init_real();
        return real_cbcast(c);
    }
    In in;
    signal_cond(c, true);
    return 0;
}
int epoll_wait(int fd, struct epoll_event* e, int n, int timeout)
{
    init_real();
    if (!on())
        return real_epoll_wait(fd, e, n, timeout);
    In in;
    point();
    if (timeout != 0) {
        me->block = b_epoll;
        me->ep_fd = fd;
        block_until_runnable();
    }
    int r = real_epoll_wait(fd, e, n, 0);
    return r;
}
int sched_yield()
{
    if (on())
        sim::yield();
    return 0;
}
int nanosleep(const struct timespec*, struct timespec*)
{
    if (on())
        sim::yield();
    return 0;
}
int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*)
{
    if (on())
        sim::yield();
    return 0;
}

// function-local statics: libstdc++ would block on a futex
int __cxa_guard_acquire(std::uint64_t* g)
{
    if (!on()) {
        if (__atomic_load_n((char*) g, __ATOMIC_ACQUIRE))
            return 0;
        return 1;
    }
    In in;
    auto key = (std::uintptr_t) g;
    while (true) {
        if (__atomic_load_n((char*) g, __ATOMIC_ACQUIRE)) {
            do_acquire(S->atomics[key]);
            return 0;
        }
        auto it = S->guards.find(key);
        if (it == S->guards.end()) {
            S->guards[key] = me->id;
            return 1;
        }
        auto pred = std::function<bool()>([key] { return !S->guards.count(key); });
        me->block = b_pred;
        me->pred  = &pred;
        block_until_runnable();
    }
}
void __cxa_guard_release(std::uint64_t* g)
{
    __atomic_store_n((char*) g, 1, __ATOMIC_RELEASE);
    if (me && S && S->active) {
        In in;
        do_release(S->atomics[(std::uintptr_t) g]);
        S->guards.erase((std::uintptr_t) g);
    }
}
void __cxa_guard_abort(std::uint64_t* g)
{
    if (me && S && S->active)
        S->guards.erase((std::uintptr_t) g);
}

// ------------------------------------------------------------ tsan ABI -----
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void* v)
{
    // storing the same vtable again (empty base destructor chains) is benign
    if (*p != v)
        mem(p, sizeof(void*), true);
}
void __tsan_vptr_read(void** p) { mem(p, sizeof(void*), false); }
#define RW(N)                                                                  \
    void __tsan_read##N(void* p) { mem(p, N, false); }                         \
    void __tsan_write##N(void* p) { mem(p, N, true); }                         \
    void __tsan_unaligned_read##N(void* p) { mem(p, N, false); }               \
    void __tsan_unaligned_write##N(void* p) { mem(p, N, true); }               \
    void __tsan_volatile_read##N(void* p) { mem(p, N, false); }                \
    void __tsan_volatile_write##N(void* p) { mem(p, N, true); }                \
    void __tsan_read##N##_pc(void* p, void*) { mem(p, N, false); }             \
    void __tsan_write##N##_pc(void* p, void*) { mem(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n)
{
    if (n)
        mem(p, n, false);
}
void __tsan_write_range(void* p, unsigned long n)
{
    if (n)
        mem(p, n, true);
}

#define ATOMIC(BITS, T)                                                        \
    T __tsan_atomic##BITS##_load(const volatile T* p, int mo)                  \
    {                                                                          \
        if (!on())                                                             \
            return __atomic_load_n(p, __ATOMIC_SEQ_CST);                       \
        In in;                                                                 \
        atomic_pre(p, sizeof(T), false);                                       \
        T r = __atomic_load_n(p, __ATOMIC_SEQ_CST);                            \
        atomic_sync(p, true, false, mo);                                       \
        return r;                                                              \
    }                                                                          \
    void __tsan_atomic##BITS##_store(volatile T* p, T v, int mo)               \
    {                                                                          \
        if (!on()) {                                                           \
            __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                          \
            return;                                                            \
        }                                                                      \
        In in;                                                                 \
        atomic_pre(p, sizeof(T), true);                                        \
        atomic_sync(p, false, true, mo);                                       \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                              \
    }                                                                          \
    int __tsan_atomic##BITS##_compare_exchange_strong(                         \
        volatile T* p, T* e, T d, int mo, int fmo)                             \
    {                                                                          \
        if (!on())                                                             \
            return __atomic_compare_exchange_n(                                \
                p, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);           \
        In in;                                                                 \
        atomic_pre(p, sizeof(T), true);                                        \
        bool r = __atomic_compare_exchange_n(                                  \
            p, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);               \
        atomic_sync(p, true, r, r ? mo : fmo);                                 \
        return r;                                                              \
    }                                                                          \
    int __tsan_atomic##BITS##_compare_exchange_weak(                           \
        volatile T* p, T* e, T d, int mo, int fmo)                             \
    {                                                                          \
        return __tsan_atomic##BITS##_compare_exchange_strong(p, e, d, mo, fmo);\
    }                                                                          \
    T __tsan_atomic##BITS##_compare_exchange_val(                              \
        volatile T* p, T e, T d, int mo, int fmo)                              \
    {                                                                          \
        __tsan_atomic##BITS##_compare_exchange_strong(p, &e, d, mo, fmo);      \
        return e;                                                              \
    }
#define ARMW(BITS, T, NAME, OP)                                                \
    T __tsan_atomic##BITS##_##NAME(volatile T* p, T v, int mo)                 \
    {                                                                          \
        if (!on())                                                             \
            return OP(p, v, __ATOMIC_SEQ_CST);                                 \
        In in;                                                                 \
        atomic_pre(p, sizeof(T), true);                                        \
        T r = OP(p, v, __ATOMIC_SEQ_CST);                                      \
        atomic_sync(p, true, true, mo);                                        \
        return r;                                                              \
    }
#define ATOMICS(BITS, T)                                                       \
    ATOMIC(BITS, T)                                                            \
    ARMW(BITS, T, exchange, __atomic_exchange_n)                               \
    ARMW(BITS, T, fetch_add, __atomic_fetch_add)                               \
    ARMW(BITS, T, fetch_sub, __atomic_fetch_sub)                               \
    ARMW(BITS, T, fetch_and, __atomic_fetch_and)                               \
    ARMW(BITS, T, fetch_or, __atomic_fetch_or)                                 \
    ARMW(BITS, T, fetch_xor, __atomic_fetch_xor)                               \
    ARMW(BITS, T, fetch_nand, __atomic_fetch_nand)
ATOMICS(8, std::uint8_t)
ATOMICS(16, std::uint16_t)
ATOMICS(32, std::uint32_t)
ATOMICS(64, std::uint64_t)
void __tsan_atomic_thread_fence(int mo)
{
    if (!on())
        return;
    In in;
    atomic_fence(mo);
}
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------- allocation -----
void* __libc_malloc(std::size_t);
void* __libc_calloc(std::size_t, std::size_t);
void* __libc_realloc(void*, std::size_t);
void* __libc_memalign(std::size_t, std::size_t);
void __libc_free(void*);
}

// Memory freed by simulated threads stays quarantined until the run is over, so
// that a later access is recognised as a use after free, and addresses are not
// recycled into false conflicts.
static void sim_note_alloc(void* p, std::size_t n)
{
    if (!me || inner || !S->active || !p)
        return;
    bool noted = on();
    In in;
    // (what harness code frees while quiet is recycled at once: what was known
    // of the block is about another object)
    if (n && n <= 65536 && !S->shadow.empty())
        for (auto a = (std::uintptr_t) p, g = a >> 3; g <= (a + n - 1) >> 3; ++g)
            S->shadow.erase(g);
    if (noted)
        S->sizes[(std::uintptr_t) p] = n;
}
static bool sim_free(void* p)
{
    if (!on() || !p)
        return false;
    In in;
    auto a  = (std::uintptr_t) p;
    auto it = S->sizes.find(a);
    if (it == S->sizes.end())
        return false;
    auto n = it->second;
    S->sizes.erase(it);
    // a free is a write to the whole block
    if (n && n <= 65536) {
        for (auto g = a >> 3; g <= (a + n - 1) >> 3; ++g) {
            auto& gr = S->shadow[g];
            if (gr.freed && g_judge_races)
                violation("no use after free", "double free");
            for (int i = 0; i < gr.n; ++i) {
                auto& o = gr.a[i];
                if (o.tid != me->id && o.clk > me->vc.c[o.tid])
                    report_race(a, o, true, false);
            }
            gr.n     = 0;
            gr.freed = true;
        }
    }
    S->quarantine.push_back(p);
    return true;
}

extern "C" {
std::size_t malloc_usable_size(void*);
void* malloc(std::size_t n)
{
    void* p = __libc_malloc(n);
    sim_note_alloc(p, n);
    return p;
}
void free(void* p)
{
    if (!sim_free(p))
        __libc_free(p);
}
void* calloc(std::size_t a, std::size_t b)
{
    void* p = __libc_calloc(a, b);
    sim_note_alloc(p, a * b);
    return p;
}
void* realloc(void* p, std::size_t n)
{
    if (!on() || !p)
        return __libc_realloc(p, n);
    void* q = malloc(n);
    auto o  = malloc_usable_size(p);
    std::memcpy(q, p, o < n ? o : n);
    free(p);
    return q;
}
void* memalign(std::size_t a, std::size_t n)
{
    void* p = __libc_memalign(a, n);
    sim_note_alloc(p, n);
    return p;
}
void* aligned_alloc(std::size_t a, std::size_t n) { return memalign(a, n); }
int posix_memalign(void** r, std::size_t a, std::size_t n)
{
    *r = memalign(a, n);
    return *r ? 0 : ENOMEM;
}
}
