// Store moves, conversions and context restriction (C24).
#include "any_loop.hpp"
#include "sim.hpp"

#include <lager/commit.hpp>
#include <lager/lenses/attr.hpp>
#include <lager/reader.hpp>
#include <lager/store.hpp>
#include <lager/util.hpp>

#include <zug/transducer/map.hpp>

#include <optional>
#include <string>
#include <variant>

namespace {

using sim::active;
using sim::chance;
using sim::choose;
using sim::ev;
using sim::more;

struct Injected : std::exception
{
    const char* what() const noexcept override { return "injected"; }
};

struct Model
{
    int store       = 0;
    int n           = 0;
    std::uint64_t h = 0;
    int val         = 0;
    bool operator==(const Model& o) const { return store == o.store && n == o.n && h == o.h && val == o.val; }
    bool operator!=(const Model& o) const { return !(*this == o); }
};
Model step_model(Model m, int id, int delta)
{
    if (delta) {
        m.n++;
        m.h = (m.h ^ (id + 1)) * 0x9e3779b97f4a7c15ull + 17;
        m.val += delta;
    }
    return m;
}

// ============================================ C24: moves and conversions ====
namespace mv {

struct EA
{
    int store, idx;
};
struct EB
{
    int store, idx;
};
struct EC
{
    int x = 0;
};
struct Val
{
    std::string s;
};
struct Num
{
    int v = 0;
};
struct K1 {};
struct K2 {};
struct K3 {};

namespace dep = lager::dep;
using fullspec =
    lager::deps<EA&, dep::key<K1, EA&>, Val, dep::key<K2, Val>, dep::fn<EB&>, dep::key<K3, dep::fn<Num>>>;
using dA = lager::deps<EA&>;
using dB = lager::deps<dep::key<K1, EA&>, dep::opt<Val>, dep::key<K2, Val>>;
using dC = lager::deps<EB&, dep::key<K3, dep::fn<Num>>>; // one function called while converting, one kept
using dD = lager::deps<dep::opt<EC&>, dep::opt<EA&>, dep::opt<dep::key<K2, Val>>, Val>;
using dE = lager::deps<>;

struct ActA
{
    int id;
};
struct ActB
{
    int id;
};
struct ActC
{
    int id;
};
struct Wrapped
{
    int id;
    int kind;
};
using Act = std::variant<ActA, ActB, ActC>;

struct Spec
{
    int id, store, kind, delta;
    std::vector<int> sends;  // by its effect, kind chosen there
    int route = 0;           // which restricted context the effect uses
    bool eff  = false;
};
struct StoreW // one underlying store
{
    int id;
    bool transactional = false, futures = false;
    bool alive = true;
    EA a0, a, k;
    EB b[2];
    int cur_b = 0, num = 0;
    std::vector<int> order;
    std::size_t pos = 0;
    Model cur;
    std::vector<Model> byver;
    Model visible; // transactional: as of the last commit
    int in_red = 0;
};
struct World
{
    std::vector<std::unique_ptr<StoreW>> stores;
    std::vector<Spec> specs;
    std::vector<int> folded;
    std::vector<int> ran, cbs, has_cb;
    LoopImpl* loop = nullptr;
    int in_red = 0, in_eff = 0;
    int budget = 150;
};
World* W = nullptr;

std::string text(const char* what, int k) { return std::string(what) + " of the store number " + std::to_string(k); }

// what a bag of dependencies should answer
struct Expect
{
    int store = -1;
    int b_at  = -1; // EB and Num as of the conversion that called the functions
};

template <typename D>
void check_deps(const D& d, const Expect& x, const char* who)
{
    auto& w = *W->stores[x.store];
    if constexpr (std::is_convertible_v<const D&, dA>) {
        dA c = d;
        SIM_CHECK("C24", &lager::get<EA&>(c) == &w.a, "%s: dependency EA& is not the one supplied", who);
    }
    if constexpr (std::is_convertible_v<const D&, lager::deps<dep::key<K1, EA&>>>) {
        lager::deps<dep::key<K1, EA&>> c = d;
        SIM_CHECK("C24", &lager::get<K1>(c) == &w.k, "%s: keyed dependency is not the one supplied", who);
        SIM_CHECK("C24", lager::has<K1>(c), "%s: has() denies a required dependency", who);
    }
    if constexpr (std::is_convertible_v<const D&, lager::deps<Val>>) {
        lager::deps<Val> c = d;
        SIM_CHECK("C24", lager::get<Val>(c).s == text("value", x.store), "%s: value dependency reads '%s'", who,
                  lager::get<Val>(c).s.c_str());
    }
    if constexpr (std::is_convertible_v<const D&, lager::deps<dep::key<K2, Val>>>) {
        lager::deps<dep::key<K2, Val>> c = d;
        SIM_CHECK("C24", lager::get<K2>(c).s == text("keyed value", x.store), "%s: keyed value dependency reads '%s'",
                  who, lager::get<K2>(c).s.c_str());
    }
}
void check_fns_full(const lager::deps<dep::fn<EB&>, dep::key<K3, dep::fn<Num>>>& d, const Expect& x, const char* who)
{
    auto& w = *W->stores[x.store];
    SIM_CHECK("C24", &lager::get<EB&>(d) == &w.b[w.cur_b], "%s: a function dependency is not evaluated when asked", who);
    SIM_CHECK("C24", lager::get<K3>(d).v == w.num, "%s: a keyed function dependency answers %d, the function %d", who,
              lager::get<K3>(d).v, w.num);
}
void check_c(const dC& d, const Expect& x, const char* who)
{
    auto& w = *W->stores[x.store];
    SIM_CHECK("C24", &lager::get<EB&>(d) == &w.b[x.b_at], "%s: the dependency taken from a function is not what it gave",
              who);
    SIM_CHECK("C24", lager::get<K3>(d).v == w.num, "%s: a keyed function dependency answers %d, the function %d", who,
              lager::get<K3>(d).v, w.num);
}
void check_d(const dD& d, const Expect& x, const char* who)
{
    auto& w = *W->stores[x.store];
    SIM_CHECK("C24", !lager::has<EC&>(d), "%s: a missing optional dependency is present", who);
    bool threw = false;
    try {
        (void) lager::get<EC&>(d);
    } catch (const lager::missing_dependency_error&) {
        threw = true;
    }
    SIM_CHECK("C24", threw, "%s: a missing optional dependency could be obtained", who);
    SIM_CHECK("C24", lager::has<EA&>(d) && &lager::get<EA&>(d) == &w.a, "%s: optional EA& is not the one supplied", who);
    SIM_CHECK("C24", lager::has<K2>(d) && lager::get<K2>(d).s == text("keyed value", x.store),
              "%s: optional keyed value reads '%s'", who, lager::has<K2>(d) ? lager::get<K2>(d).s.c_str() : "(missing)");
    SIM_CHECK("C24", lager::get<Val>(d).s == text("value", x.store), "%s: value next to optionals reads '%s'", who,
              lager::get<Val>(d).s.c_str());
}

// bags that still hold the functions themselves
template <typename D>
constexpr bool is_full_v = !std::is_same_v<D, dA> && !std::is_same_v<D, dB> && !std::is_same_v<D, dC> &&
                           !std::is_same_v<D, dD> && !std::is_same_v<D, dE>;

// every check a bag of this type allows
template <typename D>
void check_all_deps(const D& d, const Expect& x, const char* who)
{
    check_deps(d, x, who);
    if constexpr (is_full_v<D>)
        check_fns_full(d, x, who);
    if constexpr (std::is_same_v<D, dC>)
        check_c(d, x, who);
    else if constexpr (is_full_v<D>) {
        Expect y = x;
        y.b_at   = W->stores[x.store]->cur_b;
        check_c(dC{d}, y, who);
    }
    if constexpr (std::is_same_v<D, dD>)
        check_d(d, x, who);
    else if constexpr (std::is_convertible_v<const D&, dA> &&
                       std::is_convertible_v<const D&, lager::deps<dep::key<K2, Val>, Val>>)
        check_d(dD{d}, x, who);
    if constexpr (std::is_convertible_v<const D&, lager::deps<dep::key<K2, Val>>>) {
        lager::deps<dep::opt<Val>, dep::key<K2, Val>, dep::opt<EC&>> o = d;
        SIM_CHECK("C24", lager::get<K2>(o).s == text("keyed value", x.store), "%s: keyed value next to optionals reads '%s'",
                  who, lager::get<K2>(o).s.c_str());
        if (lager::has<Val>(o))
            SIM_CHECK("C24", lager::get<Val>(o).s == text("value", x.store), "%s: optional value reads '%s'", who,
                      lager::get<Val>(o).s.c_str());
        else
            SIM_CHECK("C24", !(std::is_convertible_v<const D&, lager::deps<Val>>), "%s: optional value lost", who);
    }
}

int new_spec(int store, int depth)
{
    int id = W->specs.size();
    W->specs.push_back({});
    W->folded.push_back(0);
    W->ran.push_back(0);
    W->cbs.push_back(0);
    W->has_cb.push_back(0);
    Spec s{};
    s.id    = id;
    s.store = store;
    s.kind  = choose(3);
    s.delta = chance(85) ? 1 + (int) choose(4) : 0;
    s.eff   = chance(45);
    s.route = choose(5);
    if (s.eff && depth > 0 && chance(60)) {
        int n = 1 + choose(2);
        for (int i = 0; i < n; ++i) {
            int c = new_spec(store, depth - 1);
            s.sends.push_back(c);
        }
    }
    W->specs[id] = s;
    return id;
}
Act make_act(int id)
{
    switch (W->specs[id].kind) {
    case 0: return ActA{id};
    case 1: return ActB{id};
    default: return ActC{id};
    }
}
void accept(int id)
{
    auto& s = W->specs[id];
    W->stores[s.store]->order.push_back(id);
    ev("dispatch", id, s.store, s.kind);
}

// dispatch the action through whatever this context accepts
template <typename Ctx>
lager::future send(const Ctx& ctx, int id)
{
    using acts = typename Ctx::actions_t;
    auto& s    = W->specs[id];
    if constexpr (std::is_same_v<acts, lager::actions<Act>>) {
        accept(id);
        switch (s.kind) {
        case 0: return ctx.dispatch(ActA{id});
        case 1: return ctx.dispatch(Act{ActB{id}});
        default: return ctx.dispatch(ActC{id});
        }
    } else if constexpr (std::is_same_v<acts, lager::actions<ActA, ActB>>) {
        s.kind &= 1;
        accept(id);
        if (s.kind)
            return ctx.dispatch(ActB{id});
        return ctx.dispatch(ActA{id});
    } else if constexpr (std::is_same_v<acts, lager::actions<ActC>>) {
        s.kind = 2;
        accept(id);
        return ctx.dispatch(ActC{id});
    } else {
        static_assert(std::is_same_v<acts, lager::actions<Wrapped>>);
        accept(id);
        return ctx.dispatch(Wrapped{id, s.kind});
    }
}
struct Conv
{
    Act operator()(Wrapped w) const
    {
        switch (w.kind) {
        case 0: return ActA{w.id};
        case 1: return ActB{w.id};
        default: return ActC{w.id};
        }
    }
};

using eff_deps = lager::deps<EA&, dep::key<K1, EA&>, Val, dep::key<K2, Val>, dep::fn<EB&>, dep::key<K3, dep::fn<Num>>>;
using ctx_full = lager::context<Act, eff_deps>;
using ctx_a    = lager::context<Act, dA>;
using ctx_ab   = lager::context<lager::actions<ActA, ActB>, dB>;
using ctx_c    = lager::context<ActC, dE>;
using ctx_w    = lager::context<Wrapped, dC>;
using ctx_v    = lager::context<void, dD>;
using ctx_n    = lager::context<Act, dE>;

template <typename Ctx>
void run_effect(const Ctx& ctx, int id)
{
    auto& s = W->specs[id];
    ev("effect", id, s.store, s.route);
    W->ran[id]++;
    SIM_CHECK("C24", W->ran[id] == 1, "effect of action %d ran %d times", id, W->ran[id]);
    SIM_CHECK("C24", W->folded[id] == 1, "effect of action %d ran, folded %d times", id, W->folded[id]);
    auto& w = *W->stores[s.store];
    Expect x{s.store, w.cur_b};
    if constexpr (std::is_same_v<Ctx, ctx_full>)
        check_all_deps(static_cast<const typename Ctx::deps_t&>(ctx), x, "effect's context");
    for (auto c : s.sends) {
        switch (s.route) {
        case 0: send(ctx, c); break;
        case 1: {
            ctx_ab r = ctx;
            check_all_deps(static_cast<const dB&>(r), x, "restricted context");
            send(r, c);
            break;
        }
        case 2: {
            ctx_c r = ctx;
            send(r, c);
            break;
        }
        case 3: {
            ctx_w r{ctx, Conv{}};
            check_all_deps(static_cast<const dC&>(r), x, "converting context");
            send(r, c);
            break;
        }
        default: {
            ctx_a r = ctx;
            check_all_deps(static_cast<const dA&>(r), x, "narrower context");
            send(r, c);
        }
        }
    }
}

struct Reducer
{
    int store;
    lager::result<Model, Act, eff_deps> operator()(Model m, Act a) const
    {
        int id   = lager::match(a)([](auto& x) { return x.id; });
        int kind = a.index();
        auto& s  = W->specs[id];
        ev("fold", id, store, m.n);
        SIM_CHECK("C24", s.store == store, "action %d, sent to store %d, reached store %d", id, s.store, store);
        SIM_CHECK("C24", s.kind == kind, "action %d of kind %d arrived as kind %d", id, s.kind, kind);
        auto& w = *W->stores[store];
        SIM_CHECK("C24", w.pos < w.order.size() && w.order[w.pos] == id, "action %d folded out of order or again", id);
        SIM_CHECK("C24", m == w.cur, "store %d folds onto model %d/%d, the fold so far is %d", store, m.store, m.n,
                  w.cur.n);
        w.pos++;
        W->folded[id]++;
        w.cur = step_model(m, id, s.delta);
        w.byver.resize(w.cur.n + 1);
        w.byver[w.cur.n] = w.cur;
        if (!s.eff)
            return w.cur;
        // declared with more or fewer actions and dependencies than the store's
        switch (s.route) {
        case 2: {
            lager::effect<ActC, dE> e = [id](auto&& ctx) { run_effect_c(ctx, id); };
            return {w.cur, e};
        }
        default: return {w.cur, lager::effect<Act, eff_deps>{[id](const ctx_full& ctx) { run_effect(ctx, id); }}};
        }
    }
    static void run_effect_c(const lager::context<ActC, dE>& ctx, int id)
    {
        auto& s = W->specs[id];
        ev("narrow effect", id, s.store);
        W->ran[id]++;
        SIM_CHECK("C24", W->ran[id] == 1, "effect of action %d ran %d times", id, W->ran[id]);
        for (auto c : s.sends)
            send(ctx, c);
    }
};

// with_deps() takes no keyed references: the same thing from a ready bag
template <typename Bag>
auto with_bag(Bag bag)
{
    return [bag](auto next) {
        return [bag, next](auto action, auto&& model, auto&& reducer, auto&& loop, auto&& deps, auto&& tags) {
            return next(action, LAGER_FWD(model), LAGER_FWD(reducer), LAGER_FWD(loop), LAGER_FWD(deps).merge(bag),
                        LAGER_FWD(tags));
        };
    };
}

template <typename Tag>
auto mk_store(StoreW& w, std::shared_ptr<LoopImpl> loop)
{
    auto kval = Val{text("keyed value", w.id)};
    return lager::make_store<Act, Tag>(
        w.cur, AnyLoop{loop}, lager::with_reducer(Reducer{w.id}),
        with_bag(lager::deps<dep::key<K1, EA&>>::with(std::ref(w.k))),
        // the later supplier of the same key wins
        lager::with_deps(std::ref(w.a0), dep::as<dep::key<K2, Val>>(Val{"overridden"})),
        lager::with_deps(std::ref(w.a), Val{text("value", w.id)},
                         dep::as<dep::key<K2, Val>>(kval),
                         dep::as<dep::fn<EB&>>([&w] { return std::ref(w.b[w.cur_b]); }),
                         dep::as<dep::key<K3, dep::fn<Num>>>([&w] { return Num{w.num}; })));
}
template <typename Tag>
auto mk_store_f(StoreW& w, std::shared_ptr<LoopImpl> loop)
{
    auto kval = Val{text("keyed value", w.id)};
    return lager::make_store<Act, Tag>(
        w.cur, AnyLoop{loop}, lager::with_futures, lager::with_reducer(Reducer{w.id}),
        with_bag(lager::deps<dep::key<K1, EA&>>::with(std::ref(w.k))),
        lager::with_deps(std::ref(w.a0), dep::as<dep::key<K2, Val>>(Val{"overridden"})),
        lager::with_deps(std::ref(w.a), Val{text("value", w.id)},
                         dep::as<dep::key<K2, Val>>(kval),
                         dep::as<dep::fn<EB&>>([&w] { return std::ref(w.b[w.cur_b]); }),
                         dep::as<dep::key<K3, dep::fn<Num>>>([&w] { return Num{w.num}; })));
}
using SFull = decltype(mk_store<lager::automatic_tag>(std::declval<StoreW&>(), nullptr));
using SA    = lager::store<Act, Model, dA>;
using SB    = lager::store<Act, Model, dB>;
using SC    = lager::store<Act, Model, dC>;
using SD    = lager::store<Act, Model, dD>;
using SE    = lager::store<Act, Model, dE>;
static_assert(std::is_same_v<SFull, decltype(mk_store_f<lager::transactional_tag>(std::declval<StoreW&>(), nullptr))>);

struct Watcher // on a store object itself: follows what is assigned to it
{
    int calls = 0, seen = 0;
};
struct Slot
{
    std::variant<std::monostate, SFull, SA, SB, SC, SD, SE> s;
    Expect x;
    std::shared_ptr<Watcher> watch; // set: never moved from
    bool empty() const { return s.index() == 0; }
};
struct CtxSlot
{
    std::variant<std::monostate, ctx_full, ctx_a, ctx_ab, ctx_c, ctx_w, ctx_v, ctx_n> c;
    Expect x;
};
struct Obs
{
    int store;
    int kind;
    lager::reader<Model> m;
    lager::reader<int> i;
    int seen = 0; // newest version shown
    bool watching = false;
    int calls     = 0;
    int last      = 0;
};

template <typename From, typename To>
constexpr bool can_convert = !std::is_same_v<From, To> && std::is_constructible_v<To, From&&>;

struct Runner
{
    World w;
    std::shared_ptr<LoopImpl> loop;
    std::vector<std::unique_ptr<Slot>> slots;
    std::vector<std::unique_ptr<Slot>> moved; // moved-from objects still around
    std::vector<std::unique_ptr<CtxSlot>> ctxs;
    std::vector<std::unique_ptr<Obs>> obs;
    std::vector<int> posts;

    StoreW& sw(int k) { return *w.stores[k]; }
    bool settled(int k) { return sw(k).pos == sw(k).order.size(); }
    bool idle()
    {
        for (auto& s : w.stores)
            if (s->pos != s->order.size())
                return false;
        for (std::size_t i = 0; i < w.specs.size(); ++i)
            if (w.folded[i] && w.specs[i].eff && !w.ran[i])
                return false;
        return true;
    }
    void drain()
    {
        for (int i = 0; i < 200; ++i) {
            loop->step();
            if (idle() && i > 8)
                break;
        }
        SIM_CHECK("C24", idle(), "dispatched actions or effects did not run though the loop did");
    }
    template <typename F>
    void visit(Slot& s, F&& f)
    {
        std::visit(
            [&](auto& x) {
                if constexpr (!std::is_same_v<std::decay_t<decltype(x)>, std::monostate>)
                    f(x);
            },
            s.s);
    }
    template <typename F>
    void visit(CtxSlot& s, F&& f)
    {
        std::visit(
            [&](auto& x) {
                if constexpr (!std::is_same_v<std::decay_t<decltype(x)>, std::monostate>)
                    f(x);
            },
            s.c);
    }
    int pick_slot(bool movable = false)
    {
        std::vector<int> c;
        for (std::size_t i = 0; i < slots.size(); ++i)
            if (!slots[i]->empty() && !(movable && slots[i]->watch))
                c.push_back(i);
        return c.empty() ? -1 : c[choose(c.size())];
    }

    void check_value(const Model& m, int store, int& seen, const char* who)
    {
        auto& s = sw(store);
        SIM_CHECK("C24", m.store == store, "%s of store %d shows the model of store %d", who, store, m.store);
        SIM_CHECK("C24", m.n >= seen && m.n < (int) s.byver.size() && m == s.byver[m.n],
                  "%s of store %d shows model %d (digest %llx) after %d; newest fold %d", who, store, m.n,
                  (unsigned long long) m.h, seen, s.cur.n);
        if (s.transactional)
            SIM_CHECK("C24", m == s.visible, "%s of store %d shows model %d, the last commit was %d", who, store, m.n,
                      s.visible.n);
        seen = m.n;
    }
    int project(const Obs& o, const Model& m) const { return o.kind == 1 ? m.val : o.kind == 2 ? m.val / 3 : m.n * 2; }

    void check_all()
    {
        for (auto& s : slots) {
            if (s->empty())
                continue;
            visit(*s, [&](auto& st) {
                int seen = 0;
                check_value(st.get(), s->x.store, seen, "a store");
                using D = typename std::decay_t<decltype(st)>::deps_t;
                check_all_deps(static_cast<const D&>(st), s->x, "a store's dependencies");
            });
        }
        for (auto& c : ctxs)
            visit(*c, [&](auto& x) {
                using D = typename std::decay_t<decltype(x)>::deps_t;
                check_all_deps(static_cast<const D&>(x), c->x, "a context's dependencies");
            });
        for (auto& o : obs)
            check_obs(*o, false);
    }
    void check_obs(Obs& o, bool final_)
    {
        if (o.kind == 0) {
            check_value(o.m.get(), o.store, o.seen, "a derived reader");
            if (final_)
                SIM_CHECK("C24", o.m.get() == sw(o.store).cur, "a reader of store %d ends at model %d of %d", o.store,
                          o.m.get().n, sw(o.store).cur.n);
        } else if (final_) {
            SIM_CHECK("C24", o.i.get() == project(o, sw(o.store).cur), "a derived reader of store %d ends at %d, not %d",
                      o.store, o.i.get(), project(o, sw(o.store).cur));
        }
        if (final_ && o.watching)
            SIM_CHECK("C24", o.last == (o.kind ? project(o, sw(o.store).cur) : sw(o.store).cur.n),
                      "a watcher on a reader of store %d last saw %d", o.store, o.last);
    }

    void add_obs(Slot& s)
    {
        auto o   = std::make_unique<Obs>();
        o->store = s.x.store;
        o->kind  = choose(4);
        visit(s, [&](auto& st) {
            switch (o->kind) {
            case 0: o->m = st; break;
            case 1: o->i = st[&Model::val]; break;
            case 2: o->i = st.xform(zug::map([](const Model& m) { return m.val / 3; })); break;
            default: o->i = lager::with(st).xform(zug::map([](const Model& m) { return m.n * 2; })); break;
            }
        });
        auto p  = o.get();
        o->last = o->kind ? o->i.get() : o->m.get().n;
        if (o->kind == 0)
            o->seen = o->m.get().n;
        if (chance(60)) {
            o->watching = true;
            if (o->kind == 0)
                o->m.watch([this, p](const Model& m) {
                    p->calls++;
                    ev("watch m", p->store, m.n);
                    SIM_CHECK("C24", m.n != p->last, "watcher on store %d called without a change", p->store);
                    check_value(m, p->store, p->seen, "a watcher");
                    p->last = m.n;
                });
            else
                o->i.watch([p](int v) {
                    p->calls++;
                    ev("watch i", p->store, v);
                    SIM_CHECK("C24", v != p->last, "watcher on store %d called without a change", p->store);
                    p->last = v;
                });
        }
        ev("reader", o->store, o->kind, o->watching);
        obs.push_back(std::move(o));
    }

    void watch_slot(Slot& s)
    {
        if (s.watch)
            return;
        s.watch = std::make_shared<Watcher>();
        auto* p = &s;
        visit(s, [&](auto& st) {
            s.watch->seen = st.get().n;
            st.watch([this, p](const Model& m) {
                p->watch->calls++;
                ev("watch store", p->x.store, m.n);
                check_value(m, p->x.store, p->watch->seen, "a watcher on a store object");
            });
        });
        ev("watch on store", s.x.store);
    }

    void retire(int k) // the store is about to be destroyed
    {
        drain();
        commit_of(k);
        for (auto& o : obs)
            if (o->store == k)
                check_obs(*o, true);
        drain();
        sw(k).alive = false;
        for (std::size_t i = ctxs.size(); i-- > 0;)
            if (ctxs[i]->x.store == k)
                ctxs.erase(ctxs.begin() + i);
        ev("retire", k);
    }
    void commit_of(int k)
    {
        if (!sw(k).transactional)
            return;
        for (auto& s : slots)
            if (!s->empty() && s->x.store == k)
                visit(*s, [&](auto& st) {
                    ev("commit", k);
                    sw(k).visible = sw(k).cur;
                    lager::commit(st);
                });
    }
    void commit_all()
    {
        for (std::size_t k = 0; k < w.stores.size(); ++k)
            if (sw(k).alive)
                commit_of(k);
    }
    void new_store()
    {
        int k   = w.stores.size();
        auto st = std::make_unique<StoreW>();
        st->id  = k;
        st->a0  = {k, 0};
        st->a   = {k, 1};
        st->k   = {k, 2};
        st->b[0] = {k, 0};
        st->b[1] = {k, 1};
        st->num  = choose(100);
        st->transactional = chance(25);
        st->futures       = chance(40);
        st->cur.store     = k;
        st->byver.push_back(st->cur);
        st->visible = st->cur;
        w.stores.push_back(std::move(st));
        auto& x = sw(k);
        auto s  = std::make_unique<Slot>();
        s->x    = Expect{k, -1};
        ev("new store", k, x.transactional, x.futures);
        if (x.transactional) {
            if (x.futures)
                s->s.emplace<SFull>(mk_store_f<lager::transactional_tag>(x, loop));
            else
                s->s.emplace<SFull>(mk_store<lager::transactional_tag>(x, loop));
        } else {
            if (x.futures)
                s->s.emplace<SFull>(mk_store_f<lager::automatic_tag>(x, loop));
            else
                s->s.emplace<SFull>(mk_store<lager::automatic_tag>(x, loop));
        }
        slots.push_back(std::move(s));
    }
    // move-construct slot i into a new object, leaving the old one around or not
    void move_store(int i)
    {
        auto n = std::make_unique<Slot>();
        n->x   = slots[i]->x;
        visit(*slots[i], [&](auto& st) { n->s.emplace<std::decay_t<decltype(st)>>(std::move(st)); });
        ev("move", n->x.store, n->s.index());
        bool keep = chance(40);
        if (keep)
            moved.push_back(std::move(slots[i]));
        slots[i] = std::move(n);
    }
    template <typename To>
    bool convert_to(int i)
    {
        auto n    = std::make_unique<Slot>();
        n->x      = slots[i]->x;
        bool ok   = false;
        visit(*slots[i], [&](auto& st) {
            using From = std::decay_t<decltype(st)>;
            if constexpr (can_convert<From, To>) {
                if constexpr (std::is_same_v<To, SC>) {
                    n->x.b_at = sw(n->x.store).cur_b;
                }
                n->s.template emplace<To>(std::move(st));
                ok = true;
            }
        });
        if (!ok)
            return false;
        ev("convert", n->x.store, n->s.index());
        if (chance(30))
            moved.push_back(std::move(slots[i]));
        slots[i] = std::move(n);
        return true;
    }
    void convert_store(int i)
    {
        switch (choose(5)) {
        case 0: convert_to<SA>(i); break;
        case 1: convert_to<SB>(i); break;
        case 2: convert_to<SC>(i); break;
        case 3: convert_to<SD>(i); break;
        default: convert_to<SE>(i); break;
        }
    }
    // slots[b] = std::move(slots[a]) for equal types; the store b held dies
    void assign_store(int a, int b)
    {
        if (a == b || slots[a]->s.index() != slots[b]->s.index() || slots[a]->watch)
            return;
        int dead = slots[b]->x.store;
        // the other object may be the last one to hold that store
        retire(dead);
        ev("assign", slots[a]->x.store, dead);
        visit(*slots[a], [&](auto& st) {
            using S                   = std::decay_t<decltype(st)>;
            std::get<S>(slots[b]->s)  = std::move(st);
        });
        slots[b]->x = slots[a]->x;
        if (slots[b]->watch)
            visit(*slots[b], [&](auto& st) { slots[b]->watch->seen = st.get().n; });
        moved.push_back(std::move(slots[a]));
        slots.erase(slots.begin() + a);
    }
    void swap_stores(int a, int b)
    {
        if (a == b || slots[a]->s.index() != slots[b]->s.index() || slots[a]->watch || slots[b]->watch)
            return;
        ev("swap", slots[a]->x.store, slots[b]->x.store);
        visit(*slots[a], [&](auto& st) {
            using S = std::decay_t<decltype(st)>;
            std::swap(st, std::get<S>(slots[b]->s));
        });
        std::swap(slots[a]->x, slots[b]->x);
    }
    // assign into an object that was moved from before
    void revive(int a)
    {
        if (moved.empty() || slots[a]->watch)
            return;
        int m = choose(moved.size());
        if (moved[m]->s.index() != slots[a]->s.index() || moved[m]->watch)
            return;
        ev("revive", slots[a]->x.store);
        visit(*slots[a], [&](auto& st) {
            using S                  = std::decay_t<decltype(st)>;
            std::get<S>(moved[m]->s) = std::move(st);
        });
        moved[m]->x = slots[a]->x;
        std::swap(moved[m], slots[a]);
    }

    template <typename To, typename From>
    bool try_ctx(CtxSlot& n, const From& f)
    {
        if constexpr (std::is_constructible_v<To, const From&>) {
            n.c.emplace<To>(f);
            if constexpr (std::is_same_v<typename To::deps_t, dC>)
                if constexpr (is_full_v<typename From::deps_t>) {
                    n.x.b_at = sw(n.x.store).cur_b;
                }
            return true;
        }
        return false;
    }
    template <typename From>
    bool make_from(CtxSlot& n, const From& f)
    {
        switch (choose(7)) {
        case 0: return try_ctx<ctx_full>(n, f);
        case 1: return try_ctx<ctx_a>(n, f);
        case 2: return try_ctx<ctx_ab>(n, f);
        case 3: return try_ctx<ctx_c>(n, f);
        case 4: return try_ctx<ctx_v>(n, f);
        case 5: return try_ctx<ctx_n>(n, f);
        default:
            if constexpr (std::is_constructible_v<ctx_w, const From&, Conv>) {
                n.c.emplace<ctx_w>(f, Conv{});
                if constexpr (is_full_v<typename From::deps_t>) {
                    n.x.b_at = sw(n.x.store).cur_b;
                }
                return true;
            }
            return false;
        }
    }
    void new_ctx()
    {
        auto n  = std::make_unique<CtxSlot>();
        bool ok = false;
        if (!ctxs.empty() && chance(45)) {
            auto& f = *ctxs[choose(ctxs.size())];
            n->x    = f.x;
            visit(f, [&](auto& c) { ok = make_from(*n, c); });
        } else {
            int i = pick_slot();
            if (i < 0)
                return;
            n->x = slots[i]->x;
            visit(*slots[i], [&](auto& st) { ok = make_from(*n, st); });
        }
        if (!ok)
            return;
        ev("context", n->x.store, n->c.index());
        ctxs.push_back(std::move(n));
    }
    void copy_ctx()
    {
        if (ctxs.size() < 2)
            return;
        int a = choose(ctxs.size()), b = choose(ctxs.size());
        auto& x = *ctxs[a];
        auto& y = *ctxs[b];
        if (a == b || x.c.index() != y.c.index())
            return;
        bool mv = chance(40);
        ev("context copy", x.x.store, y.x.store, mv);
        visit(x, [&](auto& c) {
            using C = std::decay_t<decltype(c)>;
            if (mv)
                std::get<C>(y.c) = std::move(c);
            else
                std::get<C>(y.c) = c;
        });
        y.x = x.x;
        if (mv)
            ctxs.erase(ctxs.begin() + a);
    }
    void dispatch()
    {
        bool viactx = !ctxs.empty() && chance(55);
        int store   = -1;
        CtxSlot* c  = nullptr;
        int si      = -1;
        if (viactx) {
            c     = ctxs[choose(ctxs.size())].get();
            store = c->x.store;
            if (std::holds_alternative<ctx_v>(c->c)) {
                return;
            }
        } else {
            si = pick_slot();
            if (si < 0)
                return;
            store = slots[si]->x.store;
        }
        if (chance(12)) { // through the loop the context carries
            ev("post", store);
            int id    = posts.size();
            posts.push_back(0);
            auto call = [this, id] {
                posts[id]++;
                SIM_CHECK("C24", posts[id] == 1 && loop->running, "a callback posted through a context ran %d times",
                          posts[id]);
            };
            if (c)
                visit(*c, [&](auto& x) { x.loop().post(call); });
            else
                visit(*slots[si], [&](auto& st) { st.loop().post(call); });
            return;
        }
        int id = new_spec(store, 2);
        sim::nontrivial();
        lager::future f;
        if (c)
            visit(*c, [&](auto& x) {
                if constexpr (!std::is_same_v<std::decay_t<decltype(x)>, ctx_v>)
                    f = send(x, id);
            });
        else
            visit(*slots[si], [&](auto& st) { f = send(st, id); });
        if (chance(40)) {
            w.has_cb[id] = 1;
            std::move(f).then([id] {
                W->cbs[id]++;
                ev("future", id);
                SIM_CHECK("C24", W->cbs[id] == 1, "future of action %d completed again", id);
                if (W->stores[W->specs[id].store]->futures)
                    SIM_CHECK("C24", W->folded[id] == 1 && (!W->specs[id].eff || W->ran[id] == 1),
                              "future of action %d completed before it was done", id);
            });
        }
    }

    void run()
    {
        W      = &w;
        loop   = make_loop(choose(3));
        w.loop = loop.get();
        new_store();
        if (chance(70))
            new_store();
        int ops = sim::g_thorough ? 60 : 35;
        while (more(ops) && w.budget-- > 0) {
            sim::Span sp;
            switch (choose(16)) {
            case 0:
            case 1:
            case 2:
            case 3: dispatch(); break;
            case 4:
            case 5: loop->step(); break;
            case 6: {
                int i = pick_slot(true);
                if (i >= 0)
                    move_store(i);
                break;
            }
            case 7: {
                int i = pick_slot(true);
                if (i >= 0)
                    convert_store(i);
                break;
            }
            case 8: {
                int a = pick_slot(true), b = pick_slot();
                if (a >= 0 && b >= 0) {
                    if (chance(50))
                        swap_stores(a, b);
                    else if (slots[a]->x.store != slots[b]->x.store)
                        assign_store(a, b);
                }
                break;
            }
            case 9:
            case 10: new_ctx(); break;
            case 11: copy_ctx(); break;
            case 12: {
                int i = pick_slot();
                if (i >= 0 && obs.size() < 8)
                    add_obs(*slots[i]);
                break;
            }
            case 13: {
                if (slots.size() < 3 && w.stores.size() < 6)
                    new_store();
                else {
                    int i = pick_slot(true);
                    if (i >= 0)
                        revive(i);
                }
                break;
            }
            case 14: {
                auto& x = sw(choose(w.stores.size()));
                x.cur_b = choose(2);
                x.num   = choose(100);
                int i   = pick_slot();
                if (i >= 0 && chance(25))
                    watch_slot(*slots[i]);
                else
                    commit_all();
                break;
            }
            case 15:
                if (!moved.empty()) {
                    ev("drop moved-from");
                    moved.erase(moved.begin() + choose(moved.size()));
                } else if (!obs.empty() && chance(40))
                    obs.erase(obs.begin() + choose(obs.size()));
                else if (!ctxs.empty() && chance(40))
                    ctxs.erase(ctxs.begin() + choose(ctxs.size()));
                break;
            }
            check_all();
        }
        drain();
        commit_all();
        drain();
        check_all();
        for (auto& o : obs)
            if (sw(o->store).alive)
                check_obs(*o, true);
        for (auto& s : slots) {
            if (s->empty())
                continue;
            visit(*s, [&](auto& st) {
                SIM_CHECK("C24", st.get() == sw(s->x.store).cur, "store %d ends at model %d of %d", s->x.store, st.get().n,
                          sw(s->x.store).cur.n);
            });
            if (s->watch)
                SIM_CHECK("C24", s->watch->seen == sw(s->x.store).cur.n, "a watcher on store %d last saw %d of %d",
                          s->x.store, s->watch->seen, sw(s->x.store).cur.n);
        }
        for (auto p : posts)
            SIM_CHECK("C24", p == 1, "a callback posted through a context ran %d times", p);
        for (std::size_t i = 0; i < w.specs.size(); ++i)
            if (w.has_cb[i])
                SIM_CHECK("C24", w.cbs[i] == 1, "future of action %d completed %d times", (int) i, w.cbs[i]);
        ctxs.clear();
        slots.clear();
        moved.clear();
        obs.clear();
        W = nullptr;
    }
};

} // namespace mv
} // namespace

SIM_SCENARIO(move_history)
{
    auto r = std::make_unique<mv::Runner>();
    r->run();
}
