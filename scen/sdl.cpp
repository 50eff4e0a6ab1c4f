// The SDL loop on a simulated SDL: virtual clock, bounded event queue (C22).
#include "sim.hpp"

#include <lager/event_loop/sdl.hpp>
#include <lager/store.hpp>

#include <optional>
#include <string>
#include <variant>
#include <vector>

namespace {

using sim::active;
using sim::chance;
using sim::choose;
using sim::ev;
using sim::fault;
namespace ls = lager_simulation;

struct Injected : std::exception
{
    const char* what() const noexcept override { return "injected"; }
};

struct Job // a posted callback
{
    int id;
    bool accepted = false;
    int runs      = 0;
    bool via_store = false;
};
struct Tick
{
    Uint64 at;        // the clock when it was made
    Uint64 ready;     // when the events had been handled
    Uint64 late;      // how much the sleep before it took too long
    float dt;
    int era;          // clock steps back so far
};
struct Input
{
    int id;
    bool delivered = false;
};

struct World
{
    ls::Sdl sdl;
    lager::sdl_event_loop* loop = nullptr;
    std::function<void(int)> dispatch;
    std::vector<Job> jobs;
    std::vector<int> order; // accepted jobs, in order
    std::size_t next_run = 0;
    std::vector<Input> inputs;
    int popped_input = -1; // popped and to be handled now
    bool paused = false, finished = false, running = false, ended = false;
    int after_finish = 0, after_finish_ticks = 0;
    int fps = 120, sim_fps = 15;
    Uint64 ready = 0, late = 0, last_mark = 0;
    int era = 0, ready_era = 0;
    std::vector<Tick> ticks;
    Uint64 lo_prev = 0, hi_prev = 0; // when the previous step was taken
    int prev_era = 0;
    bool fresh = false; // the loop has not asked for events yet
    bool grace = false; // paused by another thread while the tick was on its way
    bool lengthy = false; // many ticks before the user quits
    bool refused = false, any_refused = false;
    bool plain = false; // the loop without ticks
    bool calm  = false; // nothing fails any more
    unsigned budget = 0; // things that may still happen by themselves
    unsigned depth  = 0;
    unsigned calls  = 0;
    int wait_errors = 0;
    Uint32 post_type = 0;
};
World* W;

void act(bool inside);

void advance(Uint64 ms)
{
    W->sdl.now += ms;
    sim::g_run.sim_time_us += ms * 1000;
}

void post(int how)
{
    auto& w = *W;
    int id  = (int) w.jobs.size();
    w.jobs.push_back({id});
    auto fn = [id] {
        auto& w = *W;
        auto& j = w.jobs[id];
        ev("job", id);
        SIM_CHECK("C22", w.running, "callback %d runs outside of the loop", id);
        SIM_CHECK("C22", !w.ended, "callback %d runs after the loop was told to end", id);
        SIM_CHECK("C22", ++j.runs == 1, "callback %d runs %d times", id, j.runs);
        SIM_CHECK("C22", w.next_run < w.order.size() && w.order[w.next_run] == id, "callback %d runs out of order (%d is next)", id,
                  w.next_run < w.order.size() ? w.order[w.next_run] : -1);
        ++w.next_run;
        if (++w.depth < 4 && choose(3) == 2)
            act(true);
        --w.depth;
        if (!w.calm && choose(25) == 24) {
            fault("callback throws");
            throw Injected{};
        }
    };
    // a callback posted may already be in order before post() returns
    w.order.push_back(id);
    bool ok = false;
    try {
        if (how == 2) {
            w.jobs[id].via_store = true;
            w.dispatch(id);
        } else if (how == 1)
            lager::with_sdl_event_loop{*w.loop}.post(fn);
        else
            w.loop->post(fn);
        ok = true;
    } catch (const Injected&) {
        throw;
    } catch (const std::exception&) {
    }
    ev("post", id, ok);
    w.jobs[id].accepted = ok;
    if (!ok) {
        sim::probe("post refused");
        for (std::size_t i = w.order.size(); i-- > 0;)
            if (w.order[i] == id) {
                w.order.erase(w.order.begin() + i);
                break;
            }
    }
}

void input()
{
    auto& w = *W;
    SDL_Event e;
    SDL_zero(e);
    e.type      = SDL_KEYDOWN;
    e.user.code = (int) w.inputs.size();
    if (w.sdl.push(e) > 0) {
        w.inputs.push_back({e.user.code});
        ev("input", e.user.code);
    }
}

// something happens: from inside a callback, handler or tick, or from outside
void act(bool inside)
{
    auto& w = *W;
    if (!w.budget)
        return;
    --w.budget;
    sim::Span sp;
    switch (choose(11)) {
    case 0:
    case 1: post(choose(3)); break;
    case 2:
    case 3: input(); break;
    case 4:
        w.loop->pause();
        w.paused = true;
        ev("pause");
        break;
    case 5:
        if (choose(2))
            w.loop->resume();
        else
            lager::with_sdl_event_loop{*w.loop}.resume();
        w.paused = false;
        ev("resume");
        break;
    case 6:
    case 7:
        advance(1 + choose(30));
        break;
    case 8:
        fault("stall");
        advance(100 + choose(5000));
        break;
    case 9:
        if (choose(3))
            break;
        if (choose(2)) {
            fault("clock jumps ahead");
            static const Uint64 d[] = {60000, 1u << 24, 1u << 28, 1ull << 31, (1ull << 32) - 5};
            w.sdl.now += d[choose(5)];
        } else if (w.sdl.now > 100000) {
            fault("clock steps back");
            w.sdl.now -= 1 + choose(2) * 5000 + choose(90000);
            ++w.era;
        }
        break;
    default:
        if (choose(6) == 5 && !w.finished) {
            if (choose(2))
                w.loop->finish();
            else
                lager::with_sdl_event_loop{*w.loop}.finish();
            w.finished = true;
            ev("finish");
        }
        break;
    }
}

void note_event()
{
    auto& w = *W;
    if (w.finished) {
        ++w.after_finish;
        SIM_CHECK("C22", w.after_finish <= 3, "the loop takes another event after it was asked to finish (%s)",
                  w.paused ? "paused" : "running");
    }
}

bool handler(const SDL_Event& e)
{
    auto& w = *W;
    SIM_CHECK("C22", !w.ended, "the handler is called after the loop was told to end");
    SIM_CHECK("C22", e.type == SDL_KEYDOWN || e.type == SDL_QUIT, "the handler is given an event that is not an ordinary one");
    // (only the loop that ticks withholds events while paused)
    SIM_CHECK("C22", w.popped_input == e.user.code || (w.plain && w.paused && w.popped_input == -1), "the handler is given event %d, not %d", e.user.code, w.popped_input);
    w.popped_input = -1;
    ev("handle", e.user.code);
    if (e.user.code >= 0)
        w.inputs[e.user.code].delivered = true;
    if (e.type == SDL_QUIT) {
        w.ended = true;
        return false;
    }
    if (++w.depth < 4 && choose(3) == 2)
        act(true);
    --w.depth;
    if (!w.calm && choose(30) == 29) {
        w.ended = true;
        ev("handler ends");
        return false;
    }
    if (!w.calm && choose(40) == 39) {
        fault("handler throws");
        throw Injected{};
    }
    return true;
}

void over(bool expected) // nothing is to be handled any more
{
    auto& w = *W;
    SIM_CHECK("C22", w.popped_input < 0, "event %d was taken from the queue while running and never handled", w.popped_input);
    (void) expected;
}

bool tick(float dt)
{
    auto& w = *W;
    over(true);
    SIM_CHECK("C22", !w.ended, "a tick after the loop was told to end");
    SIM_CHECK("C22", !w.paused || w.grace, "a tick while paused");
    w.grace = false;
    auto max = 1000.f / w.sim_fps;
    ev("tick", (long long) (dt * 16), (long long) (Uint32) w.sdl.now);
    SIM_CHECK("C22", dt >= 0 && dt <= max * 1.0001f, "a tick is given the time step %g, the maximum is %g", dt, max);
    if (w.finished) {
        ++w.after_finish_ticks;
        SIM_CHECK("C22", w.after_finish_ticks <= 2, "the loop ticks on after it was asked to finish");
    }
    // (stepped back while this tick was on its way: comparable with no other)
    Tick t{w.sdl.now, w.ready, w.late, dt, w.ready_era == w.era ? w.era : -1 - w.era};
    w.late = 0;
    // the step is the time since the last one, up to the maximum
    if (t.era >= 0 && t.era == w.prev_era && !w.finished) {
        double lo = (double) t.ready - (double) w.hi_prev, hi = (double) t.at - (double) w.lo_prev;
        lo = std::max(0., std::min<double>(lo, max)) - 1.01;
        hi = std::min<double>(hi, max) + 1.01;
        // (the clock shows 32 bits)
        if (t.at - w.lo_prev < (1ull << 31))
            SIM_CHECK("C22", dt >= lo && dt <= hi, "a tick is given the time step %g, between %g and %g passed", dt, lo, hi);
    }
    w.lo_prev  = t.ready;
    w.hi_prev  = t.at;
    w.prev_era = t.era;
    // pace
    double per = 1000. / w.fps;
    double n   = 0;
    for (std::size_t i = w.ticks.size(); i-- > 0 && t.era >= 0 && w.ticks[i].era == t.era;) {
        ++n;
        double d = (double) (t.at - w.ticks[i].at);
        SIM_CHECK("C22", d + 2 + (double) w.ticks[i].late >= n * per, "%d ticks within %g ms at %d frames per second", (int) n, d, w.fps);
        if (n > 200)
            break;
    }
    w.ticks.push_back(t);
    if (++w.depth < 4 && choose(3) == 2)
        act(true);
    --w.depth;
    if (!w.calm && choose(w.lengthy ? 400 : 40) == 39) {
        w.ended = true;
        ev("tick ends");
        return false;
    }
    if (!w.calm && choose(w.lengthy ? 400 : 60) == 59) {
        fault("tick throws");
        throw Injected{};
    }
    return true;
}

void quit()
{
    auto& w = *W;
    SDL_Event e;
    SDL_zero(e);
    e.type      = SDL_QUIT;
    e.user.code = -2;
    w.sdl.push(e);
    ev("quit");
}

struct model
{
    std::vector<int> seen;
};

} // namespace

SIM_SCENARIO(sdl_history)
{
    World w;
    W         = &w;
    ls::sdl() = &w.sdl;
    static const Uint64 starts[] = {0, 1000, (1u << 24) - 3, (1u << 27) + 12345, (1ull << 31) - 40, (1ull << 31) + 77777, (1ull << 32) - 200, (5ull << 32) + 7};
    w.sdl.now = starts[choose(8)];
    static const int caps[] = {65535, 65535, 8, 3, 1};
    w.sdl.capacity = caps[choose(5)];
    w.budget       = 4 + choose(sim::g_thorough ? 200 : 60);
    w.lengthy      = choose(20) == 19;
    int push_fail  = choose(3) == 2 ? 10 : 0;
    int drift      = choose(3); // time passes while the program computes
    auto clock     = [&] {
        if (++w.calls > 200000)
            sim::violation("the loop makes progress", "the loop spins without end");
        if (drift && choose(4) == 3)
            advance(choose(3));
    };
    w.sdl.on_clock = clock;
    w.sdl.sleep    = [&](Uint32 ms) {
        ++w.calls;
        if (ms > 100000)
            sim::violation("the loop keeps pace", sim::fmt("the loop goes to sleep for %u ms", ms));
        ev("sleep", ms);
        advance(ms);
        auto due = w.sdl.now;
        auto era = w.era;
        if (choose(5) == 4) {
            fault("overslept");
            advance(choose(20));
        }
        if (choose(4) == 3) {
            bool before = w.paused;
            act(false);
            w.grace = w.paused && !before; // from another thread, with a tick on the way
        }
        if (w.era == era)
            w.late += w.sdl.now - due;
    };
    w.sdl.on_push = [&] {
        if (push_fail && chance(push_fail)) {
            fault("event refused");
            w.refused = true;
            return choose(2) ? -1 : 0;
        }
        if (w.sdl.queue.size() >= w.sdl.capacity)
{
            fault("event queue full");
            w.refused = true;
        }
        return 1;
    };
    w.sdl.on_poll = [&] {
        if (w.fresh) {
            w.hi_prev = w.sdl.now;
            w.fresh   = false;
        }
        clock();
        over(true);
        if (choose(4) == 3)
            act(false);
        // left to itself, and not asked to end: the user quits
        if (!w.budget && w.sdl.queue.empty() && !w.finished && choose(w.lengthy ? 150 : 3) == 0) {
            if (w.paused) {
                w.loop->resume();
                w.paused = false;
                ev("resume");
            } else
                quit();
        }
    };
    w.sdl.on_none = [&] {
        w.ready     = w.sdl.now;
        w.ready_era = w.era;
        over(true);
    };
    w.sdl.idle = [&] { // blocked on an empty queue
        clock();
        advance(1 + choose(100));
        if (w.wait_errors < 3 && choose(10) == 9) {
            ++w.wait_errors;
            fault("waiting fails");
            return false;
        }
        if (w.budget && choose(2)) {
            act(false);
            return true;
        }
        if (w.paused && !w.finished && choose(2)) {
            w.loop->resume();
            w.paused = false;
            ev("resume");
            input(); // something has to wake it up
            return true;
        }
        if (w.finished) {
            input();
        } else if (!w.paused)
            quit();
        else
            input();
        return true;
    };
    w.sdl.on_pop = [&](const SDL_Event& e) {
        note_event();
        ev("pop", e.type, e.user.code);
        over(true);
        if (e.type == SDL_KEYDOWN || e.type == SDL_QUIT) {
            if (!w.paused)
                w.popped_input = e.user.code;
        }
    };
    {
        lager::sdl_event_loop loop;
        w.loop = &loop;
        auto store = lager::make_store<int>(model{}, lager::with_sdl_event_loop{loop}, lager::with_reducer([](model m, int id) {
                                                m.seen.push_back(id);
                                                auto& w = *W;
                                                auto& j = w.jobs[id];
                                                ev("reduce", id);
                                                SIM_CHECK("C22", w.running, "action %d is reduced outside of the loop", id);
                                                SIM_CHECK("C22", !w.ended, "action %d is reduced after the loop was told to end", id);
                                                SIM_CHECK("C22", ++j.runs == 1, "action %d is reduced %d times", id, j.runs);
                                                SIM_CHECK("C22", w.next_run < w.order.size() && w.order[w.next_run] == id,
                                                          "action %d is reduced out of order", id);
                                                ++w.next_run;
                                                return m;
                                            }));
        w.dispatch = [&](int id) { store.dispatch(id); };
        sim::nontrivial();
        int rounds = 1 + choose(3);
        for (int i = 0; i < 30; ++i) {
            if (i >= rounds) { // the last one only ends what is left
                w.budget = 0;
                w.calm   = true;
            } else
                for (int k = choose(4); k > 0; --k)
                    act(false);
            bool fin_before = w.finished;
            w.running       = true;
            w.ended         = false;
            w.popped_input  = -1;
            w.ticks.clear();
            w.late    = 0;
            w.lo_prev = w.hi_prev = w.ready = w.sdl.now;
            w.prev_era                      = w.era;
            w.fresh = true;
            bool threw                      = false;
            bool timed                      = choose(3) != 2;
            w.plain                         = !timed;
            ev("run", timed);
            try {
                if (timed) {
                    static const int f[] = {60, 120, 30, 1, 250, 1000, 7};
                    w.fps                = f[choose(7)];
                    static const int m[] = {15, 1, 60, 100};
                    w.sim_fps            = m[choose(4)];
                    // the limiter reads the clock before the first event
                    loop.run(handler, tick, w.fps, w.sim_fps);
                } else
                    loop.run(handler);
            } catch (const Injected&) {
                threw          = true;
                w.popped_input = -1;
            } catch (const std::exception& e) { // a post of the store's own was refused
                if (!w.refused)
                    throw;
                w.any_refused  = true;
                threw          = true;
                w.popped_input = -1;
            }
            w.refused = false;
            w.depth   = 0;
            w.running = false;
            ev("over", threw);
            if (!threw) {
                over(true);
                SIM_CHECK("C22", w.ended || w.finished, "the loop ends by itself");
            }
            if (w.finished || fin_before)
                break;
            if (i >= rounds && !threw)
                break;
        }
        if (!w.finished) {
            SIM_CHECK("C22", w.next_run == w.order.size(), "callback %d was posted and never ran", w.order[w.next_run]);
        }
        for (auto& j : w.jobs)
            SIM_CHECK("C22", j.runs <= (int) j.accepted, "callback %d ran although posting it failed", j.id);
        if (!w.finished && !w.any_refused) // (an action whose effect is refused is given up)
            SIM_CHECK("C22", std::size_t(store->seen.size()) == [&] {
                std::size_t n = 0;
                for (auto& j : w.jobs)
                    n += j.via_store && j.accepted;
                return n;
            }(), "the store saw %d actions", (int) store->seen.size());
    }
    // what a finished loop leaves behind
    for (auto& e : w.sdl.queue)
        if (e.type >= SDL_USEREVENT)
            delete static_cast<lager::sdl_event_loop::event_fn*>(e.user.data1);
    ls::sdl() = nullptr;
    W         = nullptr;
}
