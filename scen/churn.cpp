// Long histories of things made and dropped (C27): the same seeded script is
// played many times over one world; what is allocated after each time, with
// everything dropped and the sources changed once more, must not grow.
#include "any_loop.hpp"
#include "sim.hpp"

#include <lager/commit.hpp>
#include <lager/constant.hpp>
#include <lager/context.hpp>
#include <lager/cursor.hpp>
#include <lager/effect.hpp>
#include <lager/extra/thunk.hpp>
#include <lager/future.hpp>
#include <lager/lenses/attr.hpp>
#include <lager/reader.hpp>
#include <lager/sensor.hpp>
#include <lager/setter.hpp>
#include <lager/state.hpp>
#include <lager/store.hpp>
#include <lager/watch.hpp>
#include <lager/with.hpp>

#include <zug/transducer/filter.hpp>
#include <zug/transducer/map.hpp>

#include <deque>
#include <list>
#include <optional>
#include <string>
#include <vector>

namespace {
using sim::active;
using sim::choose;
using sim::ev;

struct P
{
    int a = 0, b = 0;
    std::string s;
    bool operator==(const P& o) const { return a == o.a && b == o.b && s == o.s; }
    bool operator!=(const P& o) const { return !(*this == o); }
};
struct Act
{
    int kind = 0, v = 0, depth = 0;
};
struct Cfg
{
    int v = 5;
};
struct Act2
{
    int v = 0;
};
using deps_t  = lager::deps<lager::dep::ref<Cfg>, std::string>;
using ctx_t   = lager::context<Act, deps_t>;
using eff_t   = lager::effect<Act, deps_t>;
using store_t = lager::store<Act, P, deps_t>;

// user code fails at the n-th call from here
struct Boom
{};
int g_fuse = 0;
void poke()
{
    if (g_fuse && --g_fuse == 0)
        throw Boom{};
}

enum Op
{
    O_NONE,
    O_CUR_A,
    O_CUR_B,
    O_CUR_ZOOM,
    O_CUR_XF,
    O_CUR_JOIN,
    O_CUR_TX,
    O_CUR_SETTER,
    O_RD_CUR,
    O_RD_STORE,
    O_RD_MAP,
    O_RD_FILTER,
    O_RD_JOIN,
    O_RD_SENSOR,
    O_RD_CONST,
    O_RD_COPY,
    O_RD_MOVE,
    O_RD_ASSIGN,
    O_RD_ERASE,
    O_CUR_ERASE,
    O_WATCH,
    O_WATCH_DROPS,
    O_BIND,
    O_UNBIND,
    O_SET,
    O_UPDATE,
    O_SET_STATE,
    O_COMMIT,
    O_DISPATCH,
    O_DISPATCH_THEN,
    O_STEP,
    O_FULFIL,
    O_ABANDON,
    O_CTX,
    O_CTX_DISPATCH,
    O_CTX_DROP,
    O_STORE,
    O_STATE,
    O_CAPSULE,
    O_STANDING,
    O_FAIL,
    O_FAN,
    N_OPS
};
struct Step
{
    int op, x, y, z;
};

struct World
{
    std::shared_ptr<LoopImpl> loop;
    AnyLoop any;
    Cfg cfg;
    bool st_tx, s_tx;
    std::vector<lager::promise> promises;
    std::function<void(int)> on_effect;
    std::optional<lager::state<P, lager::automatic_tag>> s;
    std::optional<lager::state<P, lager::transactional_tag>> t;
    std::optional<store_t> st;
    // (a store outlives the work it has under way)
    std::deque<store_t> extra;
    lager::reader<int> standing; // lives as long as the world
    int env = 0;
    int base = 0; // what this round adds to every value
    int effects = 0, ran = 0, told = 0;

    lager::result<P, Act, deps_t> reduce(P m, Act a)
    {
        poke();
        m.a = a.v;
        m.b += 2;
        switch (a.kind) {
        case 0: return m;
        case 1: return {m, lager::noop};
        case 2:
            return {m, [this, a](auto&& ctx) {
                        ++ran;
                        poke();
                        if (a.depth < 2)
                            ctx.dispatch(Act{choose_kind(a), a.v + 2, a.depth + 1});
                    }};
        case 3:
            return {m, [this](auto&& ctx) -> lager::future {
                        ++ran;
                        auto [p, f] = lager::promise::with_loop(*loop);
                        promises.push_back(std::move(p));
                        return std::move(f);
                    }};
        case 4:
            return {m, lager::sequence(
                           eff_t{[this](auto&& ctx) {
                               ++ran;
                               lager::get<std::string>(ctx);
                           }},
                           eff_t{[this, a](auto&& ctx) -> lager::future {
                               ++ran;
                               if (a.depth > 1)
                                   return {};
                               return ctx.dispatch(Act{3, a.v + 4, a.depth + 2});
                           }})};
        case 5:
            return {m, [this](auto&& ctx) {
                        auto keep = std::make_shared<ctx_t>(ctx);
                        ++ran;
                        ctx.loop().post([this, keep] { ++ran; });
                    }};
        default:
            return {m, [this](auto&& ctx) -> lager::future {
                        ++ran;
                        auto [p, f] = lager::promise::with_loop(*loop);
                        promises.push_back(std::move(p));
                        return std::move(f).then([this] { ++ran; }).also(ctx.dispatch(Act{0, 8, 3}));
                    }};
        }
    }
    static int choose_kind(Act a) { return (a.v % 1000 / 2 + a.depth) % 6; }
};

template <typename Tag>
store_t make_store(World& w)
{
    return lager::make_store<Act, Tag>(
        P{}, w.any, lager::with_reducer([&w](P m, Act a) { return w.reduce(std::move(m), a); }),
        lager::with_deps(std::ref(w.cfg), std::string("a dependency that is too long to be inline")), lager::with_futures);
}

// one time through the script
void play(World& w, const std::vector<Step>& script, int round)
{
    w.base = round * 1000;
    std::deque<lager::reader<int>> R;
    std::deque<lager::cursor<int>> C;
    std::list<lager::reader<int>> W; // with watchers
    std::vector<ctx_t> X;
    std::vector<lager::context<Act>> Y;
    std::deque<lager::state<int, lager::automatic_tag>> T;
    auto rd = [&](int i) -> lager::reader<int> {
        if (R.empty())
            R.push_back((*w.s)[&P::a]);
        return R[i % R.size()];
    };
    auto cu = [&](int i) -> lager::cursor<int> {
        if (C.empty())
            C.push_back((*w.t)[&P::a]);
        return C[i % C.size()];
    };
    auto erase = [](auto& q, int i) {
        if (!q.empty())
            q.erase(q.begin() + i % q.size());
    };
    auto one = [&](const Step& p) {
        switch (p.op) {
        case O_CUR_A: C.push_back((*w.s)[&P::a]); break;
        case O_CUR_B: C.push_back((*w.t)[&P::b]); break;
        case O_CUR_ZOOM: C.push_back(cu(p.x).zoom(lager::lenses::getset([](int x) { return x + 1; }, [](int, int y) { return y - 1; }))); break;
        case O_CUR_XF:
            C.push_back(cu(p.x).xform(zug::map([](int x) { return x * 2; }), zug::map([](int x) { return x / 2; })));
            break;
        case O_CUR_JOIN: {
            // (a node may not be joined with itself)
            lager::cursor<int> a = cu(p.x), b = cu(p.y).zoom(lager::lenses::getset([](int x) { return x; }, [](int, int y) { return y; }));
            C.push_back(lager::with(a, b).zoom(lager::lenses::getset(
                    [](std::tuple<int, int> t) { return std::get<0>(t); },
                    [](std::tuple<int, int> t, int v) {
                        std::get<0>(t) = v;
                        return t;
                    })));
            break;
        }
        case O_CUR_TX: C.push_back((*w.t)[&P::a]); break;
        case O_CUR_SETTER:
            C.push_back(lager::with_setter(
                            lager::reader<P>{*w.st}[&P::a].make(), [&w](int v) { w.st->dispatch(Act{0, v}); },
                            lager::automatic_tag{})
                            .make());
            break;
        case O_RD_CUR: R.push_back(cu(p.x)); break;
        case O_RD_STORE: R.push_back(lager::reader<P>{*w.st}[p.x % 2 ? &P::a : &P::b]); break;
        case O_RD_MAP: R.push_back(rd(p.x).map([](int x) {
                poke();
                return x - 4;
            })); break;
        case O_RD_FILTER: R.push_back(rd(p.x).filter([](int x) { return x % 4 == 0; })); break;
        case O_RD_JOIN: {
            lager::reader<int> a = rd(p.x), b = rd(p.y).map([](int x) { return x; });
            R.push_back(lager::with(a, b).map([](int x, int y) { return x + y; }));
            break;
        }
        case O_RD_SENSOR: R.push_back(lager::make_sensor([&w] { return w.env; })); break;
        case O_RD_CONST: R.push_back(lager::make_constant(p.x)); break;
        case O_RD_COPY: R.push_back(rd(p.x)); break;
        case O_RD_MOVE: {
            rd(p.x);
            auto& r = R[p.x % R.size()];
            auto m  = std::move(r);
            r       = std::move(m);
            break;
        }
        case O_RD_ASSIGN: {
            auto n            = rd(p.y);
            R[p.x % R.size()] = n;
            if (!W.empty())
                W.front() = n;
            break;
        }
        case O_RD_ERASE: erase(R, p.x); break;
        case O_CUR_ERASE: erase(C, p.x); break;
        case O_WATCH:
            W.push_back(rd(p.x));
            W.back().watch([&w](int) {
                ++w.told;
                poke();
            });
            break;
        case O_WATCH_DROPS:
            W.push_back(rd(p.x));
            W.back().watch([&w, &R](int) {
                ++w.told;
                if (R.size() > 2)
                    R.pop_back();
            });
            break;
        case O_BIND:
            W.push_back(rd(p.x));
            lager::watch(W.back(), [&w](int) { ++w.told; });
            W.back().bind([&w](int) { ++w.told; });
            break;
        case O_UNBIND:
            if (!W.empty()) {
                if (p.x % 2)
                    W.back().unbind();
                else
                    W.back().nudge();
            }
            break;
        case O_SET: cu(p.x).set(w.base + p.y * 2); break;
        case O_UPDATE: cu(p.x).update([](int x) { return x + 2; }); break;
        case O_SET_STATE: {
            P v{w.base + p.x * 2, w.base + p.y * 2, std::string(p.z * 20, 'x')};
            if (p.x % 2)
                w.s->set(v);
            else
                w.t->set(v);
            break;
        }
        case O_COMMIT:
            w.env = w.base + p.x;
            lager::commit(*w.t, *w.st);
            break;
        case O_DISPATCH: w.st->dispatch(Act{p.x % 7, w.base + p.y * 2}); break;
        case O_DISPATCH_THEN: {
            auto f = w.st->dispatch(Act{p.x % 7, w.base + p.y * 2});
            if (p.z % 3 == 0)
                std::move(f).then([&w] { ++w.ran; });
            else if (p.z % 3 == 1)
                std::move(f).also(w.st->dispatch(Act{3, w.base})).then([&w] { return w.st->dispatch(Act{0, 1}); });
            break;
        }
        case O_STEP: w.loop->step(); break;
        case O_FULFIL:
            if (!w.promises.empty()) {
                auto i = w.promises.begin() + p.x % w.promises.size();
                auto q = std::move(*i);
                w.promises.erase(i);
                q();
            }
            break;
        case O_ABANDON:
            if (!w.promises.empty())
                w.promises.erase(w.promises.begin() + p.x % w.promises.size());
            break;
        case O_CTX:
            X.push_back(*w.st);
            Y.push_back(X[p.x % X.size()]);
            break;
        case O_CTX_DISPATCH:
            if (!Y.empty())
                Y[p.x % Y.size()].dispatch(Act{p.y % 7, w.base + p.z * 2});
            break;
        case O_CTX_DROP:
            erase(X, p.x);
            erase(Y, p.y);
            break;
        case O_STORE:
            if (p.x % 2)
                w.extra.push_back(make_store<lager::transactional_tag>(w));
            else
                w.extra.push_back(make_store<lager::automatic_tag>(w));
            R.push_back(lager::reader<P>{w.extra.back()}[&P::a]);
            X.push_back(w.extra.back());
            w.extra.back().dispatch(Act{p.y % 7, w.base + 2});
            break;
        case O_STATE:
            T.push_back(lager::make_state(w.base, lager::automatic_tag{}));
            C.push_back(T.back());
            if (p.x % 2)
                T.pop_back();
            break;
        case O_CAPSULE: {
            // an object that watches its own reader
            struct Cap
            {
                lager::reader<int> r;
                int n = 0;
                Cap(lager::reader<int> x)
                    : r{std::move(x)}
                {
                    r.watch([this](int) { ++n; });
                }
            };
            Cap cap{rd(p.x)};
            (*w.s).set(P{w.base + p.y * 2, w.base, "capsule"});
            break;
        }
        case O_STANDING:
            if (p.x % 2)
                w.standing = rd(p.y);
            w.standing.watch([&w](int) { ++w.told; });
            if (p.z)
                w.standing.unbind();
            break;
        case O_FAIL: g_fuse = 1 + p.x; break;
        case O_FAN: { // many of one
            auto r = rd(p.x);
            for (int k = 0; k < 4 + p.y * 6; ++k) {
                if (p.x % 2)
                    R.push_back(r.map([k](int x) { return x + k; }));
                else if (p.x % 4)
                    R.push_back((*w.s)[&P::b]);
                else
                    R.push_back(lager::reader<P>{*w.st}[&P::a]);
                if (p.z == 1 && k % 2)
                    R.erase(R.end() - 2);
                if (p.z == 2) {
                    W.push_back(R.back());
                    W.back().watch([&w](int) { ++w.told; });
                }
            }
            break;
        }
        default: break;
        }
    };
    for (auto& p : script)
        try {
            one(p);
        } catch (const Boom&) {
        }
    g_fuse = 0;
    w.standing.unbind();
    w.standing = (*w.s)[&P::a];
    w.effects += R.size() + C.size();
}

// everything dropped: what is still under way comes to its end
bool drain(World& w, int round)
{
    int calm = 0;
    for (int k = 0; k < 400; ++k) {
        auto before = w.ran;
        if (!w.promises.empty()) {
            auto q = std::move(w.promises.back());
            w.promises.pop_back();
            q();
        }
        w.loop->step();
        calm = before == w.ran && w.promises.empty() ? calm + 1 : 0;
        if (calm > 8)
            break;
    }
    std::deque<store_t>{}.swap(w.extra);
    // the next changes of the sources
    P fresh{round * 1000 + 996, round * 1000 + 994, "fresh"};
    w.s->set(fresh);
    w.t->set(fresh);
    w.st->dispatch(Act{0, round * 1000 + 998});
    w.loop->step();
    lager::commit(*w.t, *w.st);
    w.loop->step();
    w.promises.shrink_to_fit();
    return calm > 8;
}
} // namespace

SIM_SCENARIO(churn_history)
{
    std::vector<Step> script;
    int n = 3 + choose(40);
    for (int i = 0; i < n; ++i) {
        Step s{int(choose(N_OPS)), int(choose(8)), int(choose(8)), int(choose(3))};
        script.push_back(s);
        ev("op", s.op, s.x, s.y);
    }
    int kind = choose(3);
    bool tx  = choose(2);
    const int rounds = 9;
    std::vector<std::uint64_t> live, bytes, told;
    live.reserve(rounds);
    bytes.reserve(rounds);
    told.reserve(rounds);
    auto start = sim::live_allocs();
    {
        World w;
        w.loop = make_loop(kind);
        w.any.l = w.loop;
        w.s.emplace(lager::make_state(P{}, lager::automatic_tag{}));
        w.t.emplace(lager::make_state(P{}, lager::transactional_tag{}));
        w.st.emplace(tx ? make_store<lager::transactional_tag>(w) : make_store<lager::automatic_tag>(w));
        w.standing = (*w.s)[&P::a];
        for (int r = 0; r < rounds; ++r) {
            auto t0 = w.told + w.ran;
            play(w, script, r);
            bool ok = drain(w, r);
            SIM_CHECK("C27", ok, "work is still under way after 400 loop steps");
            live.push_back(sim::live_allocs());
            bytes.push_back(sim::live_bytes());
            told.push_back(w.told + w.ran - t0);
        }
        if (told[3])
            sim::nontrivial();
        // (the first rounds settle capacities)
        for (int r = 4; r < rounds; ++r) {
            SIM_CHECK("C27", live[r] <= live[3], "%lld blocks more after round %d than after round 3",
                      (long long) (live[r] - live[3]), r);
            SIM_CHECK("C27", bytes[r] <= bytes[3], "%lld bytes more after round %d than after round 3",
                      (long long) (bytes[r] - bytes[3]), r);
        }
    }
    auto left = sim::live_allocs();
    SIM_CHECK("C27", left == start, "%lld blocks are left after everything was destroyed", (long long) (left - start));
    for (int r = 0; r < rounds; ++r)
        ev("round", r, live[r] - start, told[r]);
}
