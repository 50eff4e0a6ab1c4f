// Failures in user code and failing allocations while readers, cursors and
// watchers are at work (C28).  Every value is a string that says how it came
// about, so that each node's value is an injective function of its sources'.
#include "any_loop.hpp"
#include "sim.hpp"

#include <lager/commit.hpp>
#include <lager/cursor.hpp>
#include <lager/lenses/attr.hpp>
#include <lager/reader.hpp>
#include <lager/sensor.hpp>
#include <lager/setter.hpp>
#include <lager/state.hpp>
#include <lager/store.hpp>
#include <lager/watch.hpp>
#include <lager/with.hpp>

#include <zug/transducer/filter.hpp>
#include <zug/transducer/map.hpp>

#include <list>
#include <memory>
#include <optional>
#include <string>
#include <vector>

namespace {
using sim::active;
using sim::choose;
using sim::ev;
using str = std::string;

struct Injected : std::exception
{
    const char* what() const noexcept override { return "injected"; }
};

// user code fails at the n-th call from here
int g_fuse   = 0;
bool g_blown = false;
void poke()
{
    if (g_fuse && --g_fuse == 0) {
        g_blown = true;
        throw Injected{};
    }
}

struct S
{
    str a, b;
    bool operator==(const S& o) const { return a == o.a && b == o.b; }
    bool operator!=(const S& o) const { return !(*this == o); }
};
struct Act
{
    S s;
    bool effect = false;
};

enum Source
{
    AUTO,
    TX,
    STORE,
    SENSOR,
    N_SRC
};
// what a node computes
enum Kind
{
    K_A, // .a of a source
    K_B,
    K_MAP,
    K_FILTER,
    K_JOIN,
    K_ZOOM,
    K_XF,
    K_SENSOR,
    K_SETTER
};
struct Node
{
    int kind, id;
    int src = 0;
    std::vector<std::shared_ptr<Node>> par;
    bool from[N_SRC] = {};

    bool settered() const { return kind == K_SETTER || (!par.empty() && par[0]->settered()); }
    bool plain() const { return kind != K_SETTER && (par.empty() || (par.size() == 1 && par[0]->plain())); }
    str eval(const S* now) const
    {
        switch (kind) {
        case K_A: return now[src].a;
        case K_B: return now[src].b;
        case K_MAP: return par[0]->eval(now) + "." + std::to_string(id % 10);
        case K_FILTER: return par[0]->eval(now);
        case K_JOIN: return par[0]->eval(now) + "|" + par[1]->eval(now);
        case K_ZOOM: return "z" + par[0]->eval(now);
        case K_XF: return "x" + par[0]->eval(now);
        case K_SENSOR: return now[SENSOR].a;
        default: return par[0]->eval(now);
        }
    }
};
using NodeP = std::shared_ptr<Node>;

struct Rd
{
    lager::reader<str> r;
    NodeP n;
    // watchers of it
    std::vector<std::unique_ptr<int>> calls;
    str last;
};
struct Cu
{
    lager::cursor<str> c;
    NodeP n;
    int depth = 0;
};

struct World
{
    std::shared_ptr<LoopImpl> loop;
    AnyLoop any;
    lager::state<S, lager::automatic_tag> s;
    lager::state<S, lager::transactional_tag> t;
    std::optional<lager::store<Act, S>> st;
    str env = "e";
    lager::sensor<str> sens;
    S cur[N_SRC];        // what each source was last given
    std::list<Rd> R;
    std::list<Cu> C;
    int ids = 0;
    int effects = 0;
    int setter_calls   = 0;
    bool setter_failed = false; // its last call did

    World()
        : s{lager::make_state(S{}, lager::automatic_tag{})}
        , t{lager::make_state(S{}, lager::transactional_tag{})}
        , sens{lager::make_sensor([this] {
            poke();
            return env;
        })}
    {}
};

NodeP leaf(World& w, int kind, int src)
{
    auto n  = std::make_shared<Node>();
    n->kind = kind, n->id = w.ids++, n->src = src;
    n->from[src] = true;
    return n;
}
NodeP above(World& w, int kind, std::vector<NodeP> par)
{
    auto n  = std::make_shared<Node>();
    n->kind = kind, n->id = w.ids++;
    for (auto& p : par)
        for (int i = 0; i < N_SRC; ++i)
            n->from[i] |= p->from[i];
    n->par = std::move(par);
    return n;
}

template <typename L>
auto& pick(L& l, int i)
{
    auto it = l.begin();
    std::advance(it, i % l.size());
    return *it;
}

auto zooml = lager::lenses::getset(
    [](const str& x) {
        poke();
        return "z" + x;
    },
    [](const str&, const str& y) {
        poke();
        return y.empty() ? str{} : y.substr(1);
    });

// everything disarmed: the next changes of all the sources, after which all
// must be as if nothing had ever failed
void heal(World& w, int step)
{
    sim::disarm_alloc_failure();
    g_fuse      = 0;
    auto fresh  = [&](const char* x) { return str(x) + " at " + std::to_string(step) + ", long enough to be allocated"; };
    // what is still posted, first
    for (int k = 0; k < 50; ++k)
        w.loop->step();
    lager::commit(w.t, *w.st, w.sens);
    for (auto& r : w.R)
        for (auto& c : r.calls)
            *c = 0;
    w.cur[AUTO] = {fresh("auto a"), fresh("auto b")};
    w.s.set(w.cur[AUTO]);
    w.cur[TX] = {fresh("tx a"), fresh("tx b")};
    w.t.set(w.cur[TX]);
    w.cur[STORE] = {fresh("store a"), fresh("store b")};
    w.st->dispatch(Act{w.cur[STORE]});
    for (int k = 0; k < 5; ++k)
        w.loop->step();
    w.cur[SENSOR] = {fresh("sensor"), ""};
    w.env         = w.cur[SENSOR].a;
    lager::commit(w.t, *w.st, w.sens);
    SIM_CHECK("C28", w.s.get() == w.cur[AUTO], "the automatic state lost a write");
    SIM_CHECK("C28", w.t.get() == w.cur[TX], "the transactional state lost a write");
    SIM_CHECK("C28", w.st->get() == w.cur[STORE], "the store lost an action");
    SIM_CHECK("C28", w.sens.get() == w.cur[SENSOR].a, "the sensor shows '%s'", w.sens.get().c_str());
    for (auto& r : w.R) {
        auto want = r.n->eval(w.cur);
        SIM_CHECK("C28", r.r.get() == want, "reader %d (kind %d) shows '%s', its sources say '%s'", r.n->id, r.n->kind,
                  r.r.get().c_str(), want.c_str());
        // one publication for the automatic state, one for the commit
        int n = r.n->from[AUTO] + (r.n->from[TX] || r.n->from[STORE] || r.n->from[SENSOR]);
        for (auto& c : r.calls)
            SIM_CHECK("C28", *c == n, "a watcher of reader %d was called %d times for %d changes", r.n->id, *c, n);
        if (!r.calls.empty())
            SIM_CHECK("C28", r.last == want, "the watcher of reader %d was told '%s', not '%s'", r.n->id, r.last.c_str(),
                      want.c_str());
    }
    for (auto& c : w.C) {
        auto want = c.n->eval(w.cur);
        SIM_CHECK("C28", c.c.get() == want, "cursor %d (kind %d) shows '%s', its sources say '%s'", c.n->id, c.n->kind,
                  c.c.get().c_str(), want.c_str());
    }
}
} // namespace

SIM_SCENARIO(fault_history)
{
    auto start = sim::live_allocs();
    {
        std::optional<World> ww;
        ww.emplace();
        World& w = *ww;
        w.loop   = make_loop(choose(3));
        w.any.l  = w.loop;
        w.st.emplace(lager::make_store<Act, lager::transactional_tag>(
            S{}, w.any, lager::with_reducer([&w](S m, Act a) -> std::pair<S, lager::effect<Act>> {
                poke();
                m = a.s;
                if (!a.effect)
                    return {m, lager::noop};
                return {m, [&w](auto&&) {
                            poke();
                            ++w.effects;
                        }};
            })));
        heal(w, 0);
        int steps = 3 + choose(25);
        bool deep = choose(2);
        for (int step = 1; step <= steps; ++step) {
            int fault = choose(4); // 0, 3: user code; 1: an allocation; 2: none
            int when  = 1 + choose(deep ? 24 : 6);
            int op    = choose(20);
            int x = choose(8), y = choose(8);
            ev("step", op, fault, when);
            bool threw = false;
            auto text = [&](const char* t) { return str(t) + " of step " + std::to_string(step) + " also long enough"; };
            // (prepared before anything can fail)
            S val{text("a"), text("b")};
            str one = text("one");
            Rd nr;
            Cu nc;
            if (w.C.empty() && op >= 4 && op <= 7)
                op = choose(2) ? 0 : 1;
            if (w.R.empty() && (op == 19 || (op >= 8 && op <= 13)))
                op = 2;
            NodeP node;
            switch (op) {
            case 0: node = leaf(w, x % 2 ? K_A : K_B, AUTO); break;
            case 1: node = leaf(w, x % 2 ? K_A : K_B, TX); break;
            case 2: node = leaf(w, x % 2 ? K_A : K_B, STORE); break;
            case 3: node = leaf(w, K_SENSOR, SENSOR); break;
            case 4: node = above(w, K_ZOOM, {pick(w.C, x).n}); break;
            case 5: node = above(w, K_XF, {pick(w.C, x).n}); break;
            case 6: node = pick(w.C, x).n; break;
            case 8: node = above(w, K_MAP, {pick(w.R, x).n}); break;
            case 9: node = above(w, K_FILTER, {pick(w.R, x).n}); break;
            case 10:
                node = above(w, K_JOIN, {pick(w.R, x).n, above(w, K_MAP, {pick(w.R, y).n})});
                break;
            case 19: node = above(w, K_SETTER, {pick(w.R, x).n}); break;
            default: break;
            }
            int mapid = node ? node->id % 10 : 0;
            auto mapf = [](int id) {
                return [id](const str& v) {
                    poke();
                    return v + "." + std::to_string(id);
                };
            };
            int inner_id = node && op == 10 ? node->par[1]->id % 10 : 0;
            auto count   = std::make_unique<int>(0);
            auto* cp     = count.get();
            bool unpublished_write = false; // a write that must be all or nothing
            S before[N_SRC] = {w.cur[0], w.cur[1], w.cur[2], w.cur[3]};
            if (op == 11)
                pick(w.R, x).calls.reserve(8);
            if (fault == 1)
                sim::arm_alloc_failure(when);
            else if (fault != 2)
                g_fuse = when;
            g_blown         = false;
            w.setter_failed = false;
            try {
                switch (op) {
                case 0: nc.c = node->kind == K_A ? w.s[&S::a] : w.s[&S::b]; break;
                case 1: nc.c = node->kind == K_A ? w.t[&S::a] : w.t[&S::b]; break;
                case 2: nr.r = lager::reader<S>{*w.st}[node->kind == K_A ? &S::a : &S::b]; break;
                case 3: nr.r = w.sens; break;
                case 4: nc.c = pick(w.C, x).c.zoom(zooml); break;
                case 5:
                    nc.c = pick(w.C, x).c.xform(zug::map([](const str& v) {
                                                    poke();
                                                    return "x" + v;
                                                }),
                                                zug::map([](const str& v) {
                                                    poke();
                                                    return v.empty() ? str{} : v.substr(1);
                                                }));
                    break;
                case 6: nr.r = pick(w.C, x).c; break;
                case 7: {
                    auto& c = pick(w.C, x);
                    unpublished_write = c.n->from[TX] && !c.n->settered();
                    if (y % 3 == 0)
                        c.c.update([&](str) {
                            poke();
                            return one;
                        });
                    else if (y % 3 == 1)
                        c.c.set(one);
                    else
                        lager::writer<str>{c.c}.set(std::move(one));
                    break;
                }
                case 8: nr.r = pick(w.R, x).r.map(mapf(mapid)); break;
                case 9:
                    nr.r = pick(w.R, x).r.filter([](const str&) {
                        poke();
                        return true;
                    });
                    break;
                case 10: {
                    lager::reader<str> b = pick(w.R, y).r.map(mapf(inner_id));
                    nr.r = lager::with(pick(w.R, x).r, b).map([](const str& a, const str& b) {
                        poke();
                        return a + "|" + b;
                    });
                    break;
                }
                case 11: {
                    auto& r = pick(w.R, x);
                    if (r.calls.size() < 4)
                        r.r.watch([cp, &r](const str& v) {
                            ++*cp;
                            {
                                sim::NoFail z;
                                r.last = v;
                            }
                            poke();
                        });
                    break;
                }
                case 12: {
                    auto copy = pick(w.R, x).r;
                    copy.watch([](const str&) { poke(); });
                    auto moved = std::move(copy);
                    (void) moved;
                    break;
                }
                case 13: break; // drop, below
                case 14: w.s.set(val); break;
                case 15:
                    unpublished_write = true;
                    w.t.update([&](S o) {
                        poke();
                        o.a = val.a;
                        return o;
                    });
                    break;
                case 16:
                    w.env = one;
                    lager::commit(w.t, *w.st, w.sens);
                    break;
                case 17: w.st->dispatch(Act{val, bool(x % 2)}); break;
                case 18: w.loop->step(); break;
                case 19:
                    nc.c = lager::with_setter(
                               pick(w.R, x).r,
                               [&w](const str&) {
                                   ++w.setter_calls;
                                   w.setter_failed = true;
                                   poke();
                                   w.setter_failed = false;
                               },
                               lager::automatic_tag{})
                               .make();
                    break;
                }
            } catch (const Injected&) {
                threw = true;
            } catch (const std::bad_alloc&) {
                threw = true;
            }
            bool fired = fault == 1 ? sim::alloc_failure_fired() : g_blown;
            sim::disarm_alloc_failure();
            g_fuse = 0;
            if (fired) {
                sim::fault(fault == 1 ? "allocation fails" : "user code throws");
                sim::nontrivial();
            }
            SIM_CHECK("C28", !fired || threw, "an exception from user code did not reach the caller");
            SIM_CHECK("C28", fired || !threw, "an exception came from nowhere");
            // a write that failed before anything was published changes nothing
            if (unpublished_write) {
                if (threw) {
                    lager::commit(w.t);
                    // (what had been written by earlier steps was published by
                    // their healing)
                    SIM_CHECK("C28", w.t.get() == before[TX], "a write that failed changed the state");
                }
            }
            if (w.setter_failed && op == 7) {
                auto& c = pick(w.C, x);
                SIM_CHECK("C28", c.c.get() == c.n->eval(before), "the setter failed and yet the cursor shows '%s'",
                          c.c.get().c_str());
            }
            // half way through, a reader of one path shows what was or what is
            if (threw)
                for (auto& r : w.R)
                    if (r.n->plain()) {
                        S after[N_SRC] = {w.s.get(), w.t.get(), w.st->get(), {w.sens.get(), ""}};
                        auto got = r.r.get();
                        SIM_CHECK("C28", got == r.n->eval(before) || got == r.n->eval(after),
                                  "after a failure reader %d (kind %d) shows '%s'", r.n->id, r.n->kind, got.c_str());
                    }
            if (!threw && node) {
                if (op == 0 || op == 1 || op == 4 || op == 5 || op == 19) {
                    nc.n = node;
                    if (w.C.size() < 6)
                        w.C.push_back(std::move(nc));
                } else {
                    nr.n = node;
                    if (w.R.size() < 10)
                        w.R.push_back(std::move(nr));
                }
            }
            nr = Rd{};
            nc = Cu{};
            // (when it failed, nothing was installed and `count` is gone)
            if (op == 11 && !threw && pick(w.R, x).calls.size() < 4)
                pick(w.R, x).calls.push_back(std::move(count));
            if (op == 13) {
                auto it = w.R.begin();
                std::advance(it, x % w.R.size());
                w.R.erase(it);
            }
            heal(w, step);
        }
        ev("end", w.effects, w.R.size(), w.C.size());
        w.R.clear();
        w.C.clear();
        for (int k = 0; k < 50; ++k)
            w.loop->step();
    }
    auto left = sim::live_allocs();
    SIM_CHECK("C28", left == start, "%lld blocks are left after everything was destroyed", (long long) (left - start));
}
