// The Qt and QML event loops (C25): their home thread runs a simulated Qt event
// dispatcher with a window, while other threads and the pool's workers post.
#include "rt.hpp"

#include <lager/event_loop/qml.hpp>
#include <lager/event_loop/qt.hpp>
#include <lager/extra/qt.hpp>
#include <lager/store.hpp>

#include <map>
#include <optional>
#include <thread>
#include <vector>

namespace {
using sim::active;
using sim::choose;
using sim::ev;
using sim::Quiet;
namespace ls = lager_simulation;

struct model
{
    int n = 0;
    bool operator==(const model& o) const { return n == o.n; }
    bool operator!=(const model& o) const { return n != o.n; }
};

using app_store = lager::store<int, model>;

enum Loop
{
    L_QT,
    L_QML,
    L_DOOMED,
    N_LOOPS
};

// what is known about the callbacks; touched under Quiet only
struct Book
{
    std::thread::id home;
    struct Job
    {
        int loop, poster, seq, runs = 0;
        bool accepted = false; // posted before the receiver was destroyed
    };
    std::vector<std::unique_ptr<Job>> jobs;
    std::map<std::pair<int, int>, int> posted, ran;
    int running[N_LOOPS] = {0, 0, 0};
    bool doomed_gone     = false;
    int actions = 0, reduced = 0, effects_due = 0, effects = 0;
    int asyncs_due = 0, asyncs = 0;
    int frames = 0, steps = 0;

    Job* post(int loop, int poster)
    {
        jobs.push_back(std::make_unique<Job>(Job{loop, poster, posted[{loop, poster}]++}));
        return jobs.back().get();
    }
    void begin(Job* j)
    {
        ev("job", j->loop, j->poster, j->seq);
        SIM_CHECK("C25", std::this_thread::get_id() == home, "callback of loop %d runs on another thread", j->loop);
        SIM_CHECK("C25", ++j->runs == 1, "callback %d of thread %d on loop %d runs twice", j->seq, j->poster, j->loop);
        auto& r = ran[{j->loop, j->poster}];
        SIM_CHECK("C25", r == j->seq, "callback %d of thread %d on loop %d runs when %d of them ran", j->seq, j->poster,
                  j->loop, r);
        ++r;
        SIM_CHECK("C25", running[j->loop] == 0, "callback %d of thread %d on loop %d runs inside another one", j->seq,
                  j->poster, j->loop);
        SIM_CHECK("C25", j->loop != L_DOOMED || !doomed_gone, "callback runs after its receiver was destroyed");
        ++running[j->loop];
    }
    void end(Job* j) { --running[j->loop]; }
};

// an application of the kind test/event_loop/qml.cpp has
struct App : lager::event_loop_quick_item
{
    Book& b;
    lager::store<int, model> store;
    int in_step = 0;

    App(Book& b_, std::function<void()> on_effect)
        : b{b_}
        , store{lager::make_store<int, lager::transactional_tag>(
              model{}, lager::with_qml_event_loop{*this},
              lager::with_reducer(
                  [&b_, on_effect](model m, int k) -> std::pair<model, lager::effect<int>> {
                      Quiet z;
                      SIM_CHECK("C25", std::this_thread::get_id() == b_.home, "reducer runs on another thread");
                      SIM_CHECK("C25", b_.running[L_QML] == 0, "reducer runs inside another callback of its loop");
                      b_.reduced += k;
                      m.n += k;
                      if (k < 100)
                          return {m, lager::noop};
                      ++b_.effects_due;
                      return {m, [&b_, on_effect](auto&&) {
                                  {
                                      Quiet z;
                                      SIM_CHECK("C25", std::this_thread::get_id() == b_.home,
                                                "effect runs on another thread");
                                      ++b_.effects;
                                  }
                                  on_effect();
                              }};
                  }))}
    {}

    void step() override
    {
        {
            Quiet z;
            SIM_CHECK("C25", std::this_thread::get_id() == b.home, "the queue is stepped on another thread");
            ++b.steps;
        }
        ++in_step;
        event_loop_quick_item::step();
        --in_step;
        lager::commit(store);
        Quiet z;
        SIM_CHECK("C25", store.get().n == b.reduced, "after a step and a commit the model shows %d of %d", store.get().n,
                  b.reduced);
    }
};

enum What
{
    W_POST_QT,
    W_POST_QML,
    W_DISPATCH,
    W_DISPATCH_EFFECT,
    W_BOTH,
    W_ASYNC,
    W_QT_DISPATCH,
    N_WHAT
};
} // namespace

SIM_SCENARIO(th_qt)
{
    sim::g_judge_races = active("C25");
    sim::run_threads([] {
        ls::QtWorld w;
        ls::qt() = &w;
        {
            QThreadPool global, own;
            ls::global_pool() = &global;
            bool own_pool     = choose(2);
            auto& pool        = own_pool ? own : global;
            Book b;
            b.home = std::this_thread::get_id();

            QObject receiver;
            auto doomed = std::make_optional<QObject>();
            std::function<void()> on_effect = [] {};
            auto app   = std::make_optional<App>(b, [&] { on_effect(); });
            bool paints = choose(2);
            if (paints)
                app->setFlag(QQuickItem::ItemHasContents);
            auto qt = own_pool ? lager::with_qt_event_loop{receiver, own} : lager::with_qt_event_loop{receiver};
            std::optional<lager::store<int, model>> qstore;
            int qreduced = 0, qactions = 0;
            qstore.emplace(lager::make_store<int, lager::automatic_tag>(
                model{}, qt, lager::with_reducer([&](model m, int k) -> std::pair<model, lager::effect<int>> {
                    {
                        Quiet z;
                        SIM_CHECK("C25", std::this_thread::get_id() == b.home, "reducer runs on another thread");
                        qreduced += k;
                    }
                    m.n += k;
                    if (k < 100)
                        return {m, lager::noop};
                    return {m, [&](auto&& ctx) {
                                auto c = ctx;
                                {
                                    Quiet z;
                                    ++b.asyncs_due;
                                    ++qactions;
                                }
                                ctx.loop().async([&, c] {
                                    {
                                        Quiet z;
                                        SIM_CHECK("C25", pool.mine(), "asynchronous work runs outside the loop's pool");
                                        ++b.asyncs;
                                        ev("async");
                                    }
                                    c.dispatch(1);
                                });
                            }};
                })));
            auto qctx = lager::context<int>{*qstore};
            auto actx = lager::context<int>{app->store};

            // one operation on behalf of thread `me`
            std::function<void(int, int, int)> doit = [&](int what, int me, int depth) {
                auto job = [&](int loop) {
                    Book::Job* j;
                    int nested;
                    {
                        Quiet z;
                        j      = b.post(loop, me);
                        nested = depth < 2 && choose(4) == 0 ? 1 + choose(N_WHAT) : 0;
                    }
                    return [&, j, nested, depth] {
                        {
                            Quiet z;
                            b.begin(j);
                        }
                        if (nested)
                            doit(nested - 1, -1, depth + 1);
                        Quiet z;
                        b.end(j);
                    };
                };
                switch (what) {
                case W_POST_QT: {
                    auto f = job(L_QT);
                    if (depth)
                        qt.post(f);
                    else
                        qctx.loop().post(f);
                    break;
                }
                case W_BOTH: {
                    auto f = job(L_QT);
                    qt.post(f);
                    [[fallthrough]];
                }
                case W_POST_QML: {
                    auto f = job(L_QML);
                    if (depth)
                        app->post(f);
                    else
                        actx.loop().post(f);
                    break;
                }
                case W_DISPATCH:
                    {
                        Quiet z;
                        b.actions += 1;
                    }
                    actx.dispatch(1);
                    break;
                case W_DISPATCH_EFFECT:
                    {
                        Quiet z;
                        b.actions += 100;
                    }
                    actx.dispatch(100);
                    break;
                case W_ASYNC:
                    {
                        Quiet z;
                        qactions += 100;
                    }
                    qctx.dispatch(100);
                    break;
                case W_QT_DISPATCH:
                    {
                        Quiet z;
                        qactions += 1;
                    }
                    qctx.dispatch(1);
                    break;
                }
            };
            on_effect = [&] { doit(choose(3), -1, 1); };

            // an object whose property follows the store
            int seen = 0, notified = 0;
            auto rd = lager::reader<model>{app->store};
            auto wt = rd.xform(zug::map([](const model& m) { return m.n; })).make();
            lager::watch(wt, [&](int v) {
                Quiet z;
                SIM_CHECK("C25", std::this_thread::get_id() == b.home, "watcher runs on another thread");
                SIM_CHECK("C25", v > seen, "watcher shows %d after %d", v, seen);
                seen = v;
                ++notified;
            });

            int n   = 1 + choose(3);
            int per = 1 + choose(3);
            int live = n;
            std::vector<std::thread> ts;
            for (int t = 0; t < n; ++t) {
                std::vector<int> ops;
                for (int k = 0; k < per; ++k)
                    ops.push_back(choose(N_WHAT));
                ts.emplace_back([&, t, ops] {
                    for (auto o : ops)
                        doit(o, t, 0);
                    Quiet z;
                    --live;
                });
            }

            // what may happen on the home thread
            auto turn = [&](int what) {
                switch (what) {
                case 0:
                case 1:
                case 2: w.deliver(); break;
                case 3:
                    w.now += choose(60);
                    break;
                case 4: w.fire(choose(2)); break;
                case 5:
                    if (w.frame())
                        ++b.frames;
                    break;
                case 6: app->enter(); break;
                case 7: w.exposed = choose(3) != 0; break;
                case 8: doit(choose(N_WHAT), -1, 0); break;
                case 9:
                    if (doomed) {
                        Book::Job* job;
                        {
                            Quiet z;
                            job = b.post(L_DOOMED, -1);
                        }
                        lager::with_qt_event_loop{*doomed, pool}.post([&, job] {
                            Quiet z;
                            b.begin(job);
                            b.end(job);
                        });
                    }
                    break;
                case 10:
                    if (doomed) {
                        doomed.reset();
                        Quiet z;
                        b.doomed_gone = true;
                    }
                    break;
                }
                sim::yield();
            };
            int turns = 6 + choose(30);
            for (int k = 0; k < turns; ++k)
                turn(choose(11));
            for (int k = 0; live; ++k) {
                turn(choose(8));
                if (k % 8 == 7)
                    sim::wait_until_or_idle([&] { return live == 0; });
            }
            for (auto& t : ts)
                t.join();
            // calm: shown or not, once the item has been polished its timer
            // keeps the queue going
            app->enter();
            w.exposed = true;
            bool hide = choose(2);
            auto done = [&] {
                Quiet z;
                if (qstore->get().n != qreduced || b.reduced != b.actions || qreduced != qactions || b.effects != b.effects_due ||
                    b.asyncs != b.asyncs_due)
                    return false;
                for (auto& j : b.jobs)
                    if (j->runs == 0 && j->loop != L_DOOMED)
                        return false;
                return true;
            };
            int rounds = 0;
            for (; rounds < 40 && !done(); ++rounds) {
                w.now += 34;
                for (int k = 0; k < 200 && w.deliver(); ++k)
                    ;
                w.fire(0);
                w.frame();
                if (hide && b.frames)
                    w.exposed = false;
                sim::wait_until_or_idle([&] { return b.asyncs == b.asyncs_due && !w.posted.empty(); });
            }
            {
                Quiet z;
                for (auto& j : b.jobs)
                    SIM_CHECK("C25", j->runs == 1 || j->loop == L_DOOMED,
                              "callback %d of thread %d on loop %d has not run after %d frames", j->seq, j->poster, j->loop,
                              rounds);
                SIM_CHECK("C25", b.reduced == b.actions, "%d of %d actions were reduced on the QML loop", b.reduced,
                          b.actions);
                SIM_CHECK("C25", qreduced == qactions, "%d of %d actions were reduced on the Qt loop", qreduced, qactions);
                SIM_CHECK("C25", b.effects == b.effects_due, "%d of %d effects ran", b.effects, b.effects_due);
                SIM_CHECK("C25", b.asyncs == b.asyncs_due, "%d of %d asynchronous jobs ran", b.asyncs, b.asyncs_due);
                SIM_CHECK("C25", seen == b.reduced, "the watcher saw %d of %d", seen, b.reduced);
                SIM_CHECK("C25", qstore->get().n == qreduced, "the model shows %d of %d", qstore->get().n, qreduced);
            }
            // a shown item with contents follows the frames, however slowly
            // time goes
            if (paints && !hide) {
                while (w.deliver())
                    ;
                w.frame();
                for (int k = 0; k < 3; ++k) {
                    auto job = b.post(L_QML, -1);
                    actx.loop().post([&, job] {
                        Quiet z;
                        b.begin(job);
                        b.end(job);
                    });
                    for (int i = 0; i < 200 && w.deliver(); ++i)
                        ;
                    w.frame();
                    Quiet z;
                    SIM_CHECK("C25", job->runs == 1, "a callback waits longer than a frame while the item is shown");
                }
                for (int k = 0; k < 3; ++k) {
                    int before = b.steps;
                    for (int i = 0; i < 200 && w.deliver(); ++i)
                        ;
                    w.frame();
                    Quiet z;
                    SIM_CHECK("C25", b.steps > before, "a frame of the shown item goes by without a step");
                }
            }
            // finish ends the dispatcher
            qctx.loop().finish();
            {
                Quiet z;
                SIM_CHECK("C25", w.quit, "finish does not end the dispatcher");
            }
            // work that is still under way when the store goes
            int late = choose(3);
            for (int k = 0; k < late; ++k) {
                {
                    Quiet z;
                    ++b.asyncs_due;
                }
                qctx.loop().async([&] {
                    Quiet z;
                    ++b.asyncs;
                });
            }
            qctx = {};
            qstore.reset();
            {
                Quiet z;
                SIM_CHECK("C25", b.asyncs == b.asyncs_due,
                          "%d of %d asynchronous jobs are done when their loop is gone", b.asyncs, b.asyncs_due);
            }
            {
                Quiet z;
                ev("over", b.asyncs, b.reduced, rounds);
            }
            if (b.jobs.size() > 1)
                sim::nontrivial();
        }
        ls::qt()          = nullptr;
        ls::global_pool() = nullptr;
    });
}
