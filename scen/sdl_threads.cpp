// The SDL loop with other threads posting, pausing, resuming and finishing (C22).
#include "rt.hpp"

#include <lager/event_loop/sdl.hpp>
#include <lager/store.hpp>

#include <optional>
#include <thread>
#include <vector>

namespace {
using sim::active;
using sim::choose;
using sim::ev;
using sim::Quiet;
namespace ls = lager_simulation;

struct model
{
    int n = 0;
};
} // namespace

SIM_SCENARIO(th_sdl)
{
    sim::g_judge_races = active("C22");
    sim::run_threads([] {
        ls::Sdl sdl;
        sdl.threads = true;
        ls::sdl()   = &sdl;
        long long ticks = 0, events = 0;
        bool calm = false, threaded_quit = false;
        sdl.sleep = [&](Uint32 ms) {
            Quiet z;
            sdl.now += ms;
        };
        sdl.on_clock = [&] {
            Quiet z;
            sdl.now += choose(2);
        };
        int n       = 2 + choose(2);
        int per     = 1 + choose(3);
        bool timed  = choose(3) != 2;
        int last_op = choose(3); // how it ends: 0 finish from a callback, 1 from a thread, 2 a quit event
        struct Posted
        {
            int runs = 0;
        };
        std::vector<std::vector<Posted>> jobs(n, std::vector<Posted>(per));
        std::vector<int> next(n, 0);
        int reduced = 0;
        {
            lager::sdl_event_loop loop;
            auto store = std::make_optional(lager::make_store<int>(
                model{}, lager::with_sdl_event_loop{loop}, lager::with_reducer([&](model m, int k) {
                    {
                        Quiet z;
                        reduced += k;
                    }
                    m.n += k;
                    return m;
                })));
            int actions = 0;
            auto ctx    = lager::context<int>{*store};
            std::thread::id self = std::this_thread::get_id();
            std::vector<std::thread> ts;
            int live = n;
            for (int t = 0; t < n; ++t) {
                std::vector<int> ops;
                for (int k = 0; k < per; ++k)
                    ops.push_back(choose(4));
                ts.emplace_back([&, t, ops] {
                    for (int k = 0; k < per; ++k) {
                        switch (ops[k]) {
                        case 1:
                            loop.pause();
                            loop.resume();
                            break;
                        case 2:
                            ctx.dispatch(1);
                            {
                                Quiet z;
                                ++actions;
                            }
                            break;
                        default: break;
                        }
                        loop.post([&, t, k] {
                            Quiet z;
                            ev("job", t, k);
                            SIM_CHECK("C22", std::this_thread::get_id() == self, "callback runs on another thread");
                            SIM_CHECK("C22", ++jobs[t][k].runs == 1, "callback %d of thread %d runs twice", k, t);
                            SIM_CHECK("C22", next[t] == k, "callback %d of thread %d runs out of order", k, t);
                            ++next[t];
                        });
                    }
                    bool last;
                    {
                        Quiet z;
                        last = --live == 0;
                    }
                    if (!last)
                        return;
                    // everything is posted: end the run
                    loop.post([&] {
                        Quiet z;
                        calm = true;
                        ev("all posted");
                    });
                    if (last_op == 0) {
                        loop.post([&] { loop.finish(); });
                    } else if (last_op == 1) {
                        loop.finish();
                    }
                    SDL_Event e;
                    SDL_zero(e);
                    e.type = last_op == 2 ? SDL_QUIT : SDL_KEYDOWN;
                    SDL_PushEvent(&e); // (a finish from outside needs an event to be seen)
                    {
                        Quiet z;
                        threaded_quit = true;
                    }
                });
            }
            auto handler = [&](const SDL_Event& e) {
                Quiet z;
                ++events;
                ev("event", e.type);
                return e.type != SDL_QUIT;
            };
            auto tick = [&](float) {
                Quiet z;
                ++ticks;
                // leave the others room
                return true;
            };
            if (timed)
                loop.run(handler,
                         [&](float dt) {
                             tick(dt);
                             if (ticks > 2)
                                 sim::wait_until_or_idle([&] { return !sdl.queue.empty() || threaded_quit; });
                             return ticks < 100000;
                         },
                         60);
            else
                loop.run(handler);
            {
                Quiet z;
                ev("over");
            }
            for (auto& t : ts)
                t.join();
            Quiet z;
            if (last_op != 1)
                for (int t = 0; t < n; ++t)
                    SIM_CHECK("C22", next[t] == per, "%d of %d callbacks of thread %d ran", next[t], per, t);
            if (last_op != 1)
                SIM_CHECK("C22", reduced == actions, "%d of %d actions were reduced", reduced, actions);
        }
        sim::nontrivial();
        Quiet z;
        for (auto& e : sdl.queue)
            if (e.type >= SDL_USEREVENT)
                delete static_cast<lager::sdl_event_loop::event_fn*>(e.user.data1);
        ls::sdl() = nullptr;
    });
}
