// Store histories over small models, whose value returns to earlier ones all
// the time: several stores and local states on one or two loops, readers
// derived from one or many of them, effects that cross from one store to
// another.  Store.cpp checks versioned models (every change is new); here the
// same value comes back, so that "changed" has to be told from "different from
// some other, older value".
#include "loop_impl.hpp"
#include "sim.hpp"

#include <lager/commit.hpp>
#include <lager/reader.hpp>
#include <lager/state.hpp>
#include <lager/store.hpp>
#include <lager/with.hpp>

#include <memory>
#include <optional>
#include <vector>

namespace {

using sim::active;
using sim::chance;
using sim::choose;
using sim::ev;
using sim::more;

struct Injected : std::exception
{
    const char* what() const noexcept override { return "injected"; }
};

// ----------------------------------------------------------------- models --
struct XY
{
    int x = 0, y = 0;
    bool operator==(const XY& o) const { return x == o.x && y == o.y; }
    bool operator!=(const XY& o) const { return !(*this == o); }
};
// value types a model may be
struct MPlain // a number
{
    using type = int;
    static type make(XY v) { return v.x * 4 + v.y; }
    static XY xy(const type& m) { return {m / 4, m % 4}; }
    static constexpr bool effects    = true;
    static constexpr bool comparable = true;
};
struct Strict // poisons itself when moved from
{
    std::vector<int> v{0, 0};
    bool operator==(const Strict& o) const { return v == o.v; }
};
struct MVec
{
    using type = Strict;
    static type make(XY v) { return {{v.x, v.y}}; }
    static XY xy(const type& m)
    {
        return m.v.size() == 2 ? XY{m.v[0], m.v[1]} : XY{-100, -100};
    }
    static constexpr bool effects    = true;
    static constexpr bool comparable = true;
};
struct NoEq // cannot be compared: every write is a change
{
    int x = 0, y = 0;
};
struct MNoEq
{
    using type = NoEq;
    static type make(XY v) { return {v.x, v.y}; }
    static XY xy(const type& m) { return {m.x, m.y}; }
    static constexpr bool effects    = false; // a reducer that returns just models
    static constexpr bool comparable = false;
};

struct MRaw : MPlain // its effects are of a type of their own, and return nothing
{};

struct Op
{
    enum
    {
        nop,
        set_x,
        set_y,
        inc_x,
        flip_y,
        both,
        reset
    } kind     = nop;
    int arg    = 0;
    int id     = 0;
    bool throws = false;
    struct Fx
    {
        bool on = false;
        struct Send
        {
            int store;
            std::shared_ptr<Op> op;
        };
        std::vector<Send> sends;
        bool ret = false; // returns the future of its last send
        int local = -1;   // writes a local state
    } fx;
};
using OpP = std::shared_ptr<Op>;

XY apply(XY m, const Op& o)
{
    switch (o.kind) {
    case Op::nop: break;
    case Op::set_x: m.x = o.arg % 3; break;
    case Op::set_y: m.y = o.arg % 3; break;
    case Op::inc_x: m.x = (m.x + 1) % 3; break;
    case Op::flip_y: m.y = 1 - (m.y != 0); break;
    case Op::both: m = {o.arg % 3, (o.arg / 3) % 3}; break;
    case Op::reset: m = {}; break;
    }
    return m;
}

struct Act
{
    OpP o;
};
struct Tag1
{};
using deps_t = lager::deps<int&>;

// ------------------------------------------------------------------ world --
struct Rec // one dispatched action
{
    int store;
    OpP op;
    int folded   = 0;
    int at       = 0; // length of the fold history right after it
    int fx       = 0;
    int waits    = -1; // id of the action its effect's future waits for
    int done     = 0;
    bool has_cb  = false;
    bool threw   = false;
};

struct StoreI
{
    int idx;
    bool transactional = false, futures = false, comparable = true, effects = true;
    std::shared_ptr<LoopImpl> loop;
    std::vector<XY> hist{XY{}}; // after each fold
    int pub = 0;                // index of the newest state known published
    std::vector<int> order;     // accepted actions
    std::size_t pos = 0, fxpos = 0;
    std::vector<int> fxorder;
    int in_reducer = 0;
    virtual ~StoreI()                                   = default;
    virtual lager::future dispatch(const Act& a, int k) = 0;
    virtual XY get()                                    = 0;
    virtual lager::reader<XY> reader(int k)             = 0;
    virtual lager::reader<int> part(int k)              = 0;
    virtual void commit_self()                          = 0;
    virtual void move_self()                            = 0;
};

struct Obs
{
    int kind; // 0: XY of one store, 1..: ints
    std::vector<int> stores, locals;
    std::function<int(const std::vector<XY>&, const std::vector<int>&)> fn;
    std::function<int()> get;
    lager::reader<int> r;
    bool exact   = true; // never told without a change
    bool watching = false, fresh = false;
    int last = 0, calls = 0;
};

struct World
{
    std::vector<std::unique_ptr<StoreI>> st;
    std::vector<lager::state<int, lager::automatic_tag>> local;
    std::vector<int> localv;
    std::vector<std::shared_ptr<Obs>> obs;
    std::vector<Rec> recs;
    int in_cb = 0, in_watch = 0, in_fx = 0, in_commit = 0, in_local = 0;
    int env = 4711;
    int budget = 300;
    bool faults = false;
    bool broken = false;
};
World* W = nullptr;

struct Depth
{
    int& d;
    Depth(int& x)
        : d{++x}
    {}
    ~Depth() { --d; }
};

OpP gen_op(int depth)
{
    auto o  = std::make_shared<Op>();
    o->kind = (decltype(o->kind)) choose(7);
    o->arg  = choose(9);
    if (W->faults && chance(8))
        o->throws = true;
    if (chance(45)) {
        o->fx.on = true;
        if (depth > 0)
            for (int n = chance(50) ? 1 + (int) choose(2) : 0; n > 0; --n)
                o->fx.sends.push_back({(int) choose(W->st.size()), gen_op(depth - 1)});
        o->fx.ret = chance(40);
        if (!W->local.empty() && chance(20))
            o->fx.local = choose(W->local.size());
    }
    return o;
}

bool future_ready(int id)
{
    auto& r = W->recs[id];
    auto& s = *W->st[r.store];
    if (!s.futures)
        return true;
    if (!r.folded)
        return false;
    if (r.op->fx.on && !r.fx && s.effects)
        return false;
    return r.waits < 0 || future_ready(r.waits);
}

void observe(const char* where);

// the newest index not below lo that explains v
void see(StoreI& s, XY v, const char* where)
{
    if (s.transactional) {
        SIM_CHECK_ANY(({"C04", "C01"}), v == s.hist[s.pub], "%s: store %d shows (%d,%d), committed is (%d,%d)", where,
                      s.idx, v.x, v.y, s.hist[s.pub].x, s.hist[s.pub].y);
        return;
    }
    int i = s.pub;
    while (i < (int) s.hist.size() && !(s.hist[i] == v))
        ++i;
    SIM_CHECK_ANY(({"C01", "C02"}), i < (int) s.hist.size(),
                  "%s: store %d shows (%d,%d), which no fold from the %dth on produced", where, s.idx, v.x, v.y, s.pub);
    s.pub = i;
}

// everything folded so far is published
void published(StoreI& s, const char* where)
{
    if (s.transactional)
        return;
    auto v = s.get();
    SIM_CHECK_ANY(({"C02", "C03"}), v == s.hist.back(), "%s: store %d shows (%d,%d), the folds give (%d,%d)", where,
                  s.idx, v.x, v.y, s.hist.back().x, s.hist.back().y);
    s.pub = s.hist.size() - 1;
}

lager::future send(int store, const OpP& o, int k)
{
    auto& s = *W->st[store];
    Rec r;
    r.store = store;
    r.op    = o;
    o->id   = W->recs.size();
    W->recs.push_back(r);
    s.order.push_back(o->id);
    ev("dispatch", store, o->id, o->kind);
    return s.dispatch(Act{o}, k);
}

void attach(lager::future f, int id)
{
    if (!chance(50))
        return;
    W->recs[id].has_cb = true;
    std::move(f).then([id] {
        auto& r = W->recs[id];
        auto& s = *W->st[r.store];
        ev("future done", id);
        r.done++;
        SIM_CHECK("C07", r.done == 1, "future of action %d completed twice", id);
        if (s.futures) {
            SIM_CHECK("C07", r.folded == 1, "future of action %d completed before it was folded", id);
            SIM_CHECK("C07", future_ready(id), "future of action %d completed before its effect", id);
            SIM_CHECK("C07", W->in_cb == 0, "completion ran inside another callback");
            if (!s.transactional) {
                see(s, s.get(), "in completion");
                SIM_CHECK("C07", s.pub >= r.at - 1 || s.get() == s.hist.back() || s.hist[r.at - 1] == s.get() ||
                              [&] {
                                  for (int i = r.at - 1; i < (int) s.hist.size(); ++i)
                                      if (s.hist[i] == s.get())
                                          return true;
                                  return false;
                              }(),
                          "future of action %d completed before its update is visible", id);
            }
        }
    });
}

void poke(int depth)
{
    if (W->budget-- < 0)
        return;
    switch (choose(3)) {
    case 0: {
        auto s = choose(W->st.size());
        auto& st = *W->st[s];
        if (st.loop->sync() && !st.loop->running)
            return; // would run at once, inside this callback
        auto o = gen_op(depth > 0 ? 1 : 0);
        auto n = st.hist.size();
        auto f = send(s, o, choose(3));
        SIM_CHECK("C01", n == st.hist.size(), "a dispatch from inside a callback was folded at once");
        attach(std::move(f), o->id);
        break;
    }
    case 1: observe("poke"); break;
    case 2:
        if (!W->obs.empty()) {
            // nothing: attaching during propagation is graph_history's
        }
        break;
    }
}

template <typename M, typename Tag, bool Futures>
struct StoreImpl : StoreI
{
    using model_t = typename M::type;
    static constexpr bool raw = std::is_same_v<M, MRaw>;
    struct RawEffect
    {
        StoreImpl* self;
        OpP o;
        void operator()(const lager::context<Act, deps_t>& c) const
        {
            if (o->fx.on)
                self->effect(c, o);
        }
    };
    static std::pair<model_t, RawEffect> update_raw(StoreImpl& self, model_t m, Act a)
    {
        auto o = a.o;
        return {update(self, std::move(m), std::move(a)).first, {&self, o}};
    }
    static lager::result<model_t, Act, deps_t> update(StoreImpl& self, model_t m, Act a)
    {
        auto& r = W->recs[a.o->id];
        auto v  = M::xy(m);
        ev("reduce", self.idx, a.o->id, v.x * 4 + v.y);
        SIM_CHECK("C01", W->in_cb == 0, "action %d folded inside another callback", a.o->id);
        SIM_CHECK("C01", self.loop->running > 0, "action %d folded outside the loop", a.o->id);
        SIM_CHECK_ANY(({"C01", "C05"}), r.store == self.idx && r.folded == 0 && !r.threw, "action %d folded again",
                      a.o->id);
        SIM_CHECK_ANY(({"C01", "C05"}), self.pos < self.order.size() && self.order[self.pos] == a.o->id,
                      "action %d folded out of order", a.o->id);
        self.pos++;
        SIM_CHECK_ANY(({"C01", "C02", "C04", "C05"}), v == self.hist.back(),
                      "action %d was folded onto (%d,%d), the folds so far give (%d,%d)", a.o->id, v.x, v.y,
                      self.hist.back().x, self.hist.back().y);
        if (a.o->throws) {
            r.threw = true;
            sim::fault("reducer throws");
            throw Injected{};
        }
        r.folded++;
        auto nv = apply(v, *a.o);
        self.hist.push_back(nv);
        r.at = self.hist.size();
        if (a.o->kind == Op::nop && !chance(20))
            ; // the model itself is returned
        else
            m = M::make(nv);
        if (!a.o->fx.on || !M::effects)
            return {std::move(m), chance(10) ? lager::effect<Act, deps_t>{lager::noop} : lager::effect<Act, deps_t>{nullptr}};
        self.fxorder.push_back(a.o->id);
        auto o = a.o;
        if (o->fx.ret)
            return {std::move(m), [&self, o](const lager::context<Act, deps_t>& c) -> lager::future {
                        return self.effect(c, o);
                    }};
        return {std::move(m), [&self, o](const lager::context<Act, deps_t>& c) { self.effect(c, o); }};
    }

    lager::future effect(const lager::context<Act, deps_t>& c, const OpP& o)
    {
        auto& r = W->recs[o->id];
        ev("effect", idx, o->id);
        r.fx++;
        SIM_CHECK("C03", r.fx == 1, "effect of action %d ran again", o->id);
        SIM_CHECK("C03", W->in_cb == 0, "effect of action %d started inside another callback", o->id);
        SIM_CHECK("C03", loop->running > 0, "effect of action %d ran outside the loop", o->id);
        SIM_CHECK("C03", r.folded == 1, "effect of action %d ran before it was folded", o->id);
        SIM_CHECK("C03", fxpos < fxorder.size() && fxorder[fxpos] == o->id,
                  "effect of action %d ran out of the order of the folds", o->id);
        fxpos++;
        SIM_CHECK("C03", lager::get<int&>(c) == 4711, "effect got the wrong dependency");
        published(*this, "in effect");
        observe("in effect");
        Depth g{W->in_cb};
        Depth h{W->in_fx};
        if (o->fx.local >= 0)
            set_local(o->fx.local, choose(3));
        lager::future last;
        for (auto& s : o->fx.sends) {
            auto& st = *W->st[s.store];
            if (st.loop->sync() && !st.loop->running) {
                // another store's synchronous loop: it runs now, and may
                // come back to this one
                continue;
            }
            bool own = s.store == idx && chance(60);
            if (own) {
                Rec x;
                x.store     = s.store;
                x.op        = s.op;
                s.op->id    = W->recs.size();
                W->recs.push_back(x);
                order.push_back(s.op->id);
                ev("dispatch", idx, s.op->id, s.op->kind);
                last = c.dispatch(Act{s.op});
            } else
                last = send(s.store, s.op, choose(3));
            if (o->fx.ret && !raw)
                W->recs[o->id].waits = s.op->id;
        }
        if (o->fx.ret)
            return last;
        return {};
    }
    static void set_local(int i, int v)
    {
        ev("local write", i, v);
        Depth g{W->in_local};
        W->localv[i] = v;
        W->local[i].set(v);
        SIM_CHECK("C02", W->local[i].get() == v, "a local state does not show what was written");
    }

    static lager::store<Act, model_t, deps_t> mk(StoreImpl& self)
    {
        auto red = [&self](model_t m, Act a) {
            if constexpr (raw)
                return update_raw(self, std::move(m), std::move(a));
            else if constexpr (M::effects)
                return update(self, std::move(m), std::move(a));
            else
                return update(self, std::move(m), std::move(a)).first;
        };
        if constexpr (Futures)
            return lager::make_store<Act, Tag>(M::make(XY{}), AnyLoop{self.loop}, lager::with_reducer(red),
                                               lager::with_deps(std::ref(W->env)), lager::with_futures);
        else
            return lager::make_store<Act, Tag>(M::make(XY{}), AnyLoop{self.loop}, lager::with_reducer(red),
                                               lager::with_deps(std::ref(W->env)));
    }
    using store_t = lager::store<Act, model_t, deps_t>;
    std::optional<store_t> store;
    std::optional<lager::context<Act, deps_t>> ctx;
    std::optional<lager::context<Act>> plain;
    lager::reader<model_t> root;

    StoreImpl(int i, std::shared_ptr<LoopImpl> l)
    {
        idx           = i;
        loop          = std::move(l);
        transactional = std::is_same_v<Tag, lager::transactional_tag>;
        futures       = Futures;
        comparable    = M::comparable;
        effects       = M::effects;
        store.emplace(mk(*this));
        ctx.emplace(*store);
        plain.emplace(*ctx);
        root = *store;
    }
    lager::future dispatch(const Act& a, int k) override
    {
        switch (k) {
        case 0: return store->dispatch(a);
        case 1: return ctx->dispatch(a);
        default: return plain->dispatch(a);
        }
    }
    XY get() override
    {
        auto a = M::xy(store->get()), b = M::xy(root.get());
        SIM_CHECK_ANY(({"C02", "C04"}), a == b, "the store and its reader disagree");
        return a;
    }
    lager::reader<XY> reader(int k) override
    {
        if (k)
            return root.map([](const model_t& m) { return M::xy(m); });
        return store->map([](const model_t& m) { return M::xy(m); });
    }
    lager::reader<int> part(int k) override
    {
        switch (k) {
        case 0: return root.map([](const model_t& m) { return M::xy(m).x; });
        case 1: return store->map([](const model_t& m) { return M::xy(m).y; });
        default: return reader(1).map([](XY v) { return v.x + v.y; });
        }
    }
    void commit_self() override { lager::commit(*store); }
    void move_self() override
    {
        store_t other = std::move(*store);
        store.reset();
        store.emplace(std::move(other));
    }
};

int part_of(int k, XY v)
{
    return k == 0 ? v.x : k == 1 ? v.y : v.x + v.y;
}

int expect(const Obs& o)
{
    std::vector<XY> a;
    std::vector<int> b;
    for (auto s : o.stores)
        a.push_back(W->st[s]->get());
    for (auto l : o.locals)
        b.push_back(W->localv[l]);
    return o.fn(a, b);
}

void observe(const char* where)
{
    for (auto& s : W->st)
        see(*s, s->get(), where);
    for (auto& o : W->obs)
        SIM_CHECK_ANY(({"C02", "C04"}), o->r.get() == expect(*o), "%s: derived reader kind %d shows %d, expected %d",
                      where, o->kind, o->r.get(), expect(*o));
}

void on_watch(Obs& o, int v)
{
    ev("notified", o.kind, v, o.last);
    o.calls++;
    bool tr = false;
    for (auto s : o.stores) {
        auto& st = *W->st[s];
        tr |= st.transactional;
        if (W->in_local == 0 && o.stores.size() == 1)
            published(st, "in watcher");
    }
    if (!tr && W->in_local == 0)
        for (auto s : o.stores)
            if (o.stores.size() == 1)
                SIM_CHECK("C02", W->st[s]->loop->running > 0, "watcher ran outside the loop");
    if (tr && o.stores.size() == 1 && o.locals.empty())
        SIM_CHECK("C04", W->in_commit > 0, "watcher of a transactional store called outside a commit");
    SIM_CHECK("C02", W->in_fx == 0 || W->in_local > 0 || W->in_commit > 0, "watcher ran inside an effect");
    observe("in watcher");
    SIM_CHECK_ANY(({"C02", "C04"}), v == expect(o), "watcher kind %d was given %d, the value is %d", o.kind, v,
                  expect(o));
    if (o.exact && !o.fresh)
        SIM_CHECK_ANY(({"C02", "C04"}), v != o.last, "watcher kind %d called with %d, which it was told already", o.kind, v);
    o.fresh = false;
    o.last  = v;
    Depth g{W->in_cb};
    Depth h{W->in_watch};
    if (chance(20))
        poke(1);
}

void add_obs()
{
    if (W->obs.size() >= 8)
        return;
    auto o  = std::make_shared<Obs>();
    o->kind = choose(5);
    int s   = choose(W->st.size());
    int k   = choose(3);
    o->stores.push_back(s);
    switch (o->kind) {
    case 0:
        o->r  = W->st[s]->part(k);
        o->fn = [k](auto& a, auto&) { return part_of(k, a[0]); };
        break;
    case 1: // a value that changes less often
        o->r  = W->st[s]->part(k).map([](int v) { return v / 2; });
        o->fn = [k](auto& a, auto&) { return part_of(k, a[0]) / 2; };
        break;
    case 2: { // two stores (or one, twice)
        int t = choose(W->st.size()), j = choose(3);
        o->stores.push_back(t);
        o->r     = lager::with(W->st[s]->part(k), W->st[t]->part(j)).map([](int a, int b) { return a * 10 + b; });
        o->fn    = [k, j](auto& a, auto&) { return part_of(k, a[0]) * 10 + part_of(j, a[1]); };
        o->exact = false;
        break;
    }
    case 3: // a store and a local state
        if (!W->local.empty()) {
            int l = choose(W->local.size());
            o->locals.push_back(l);
            o->r     = lager::with(W->st[s]->part(k), W->local[l]).map([](int a, int b) { return a * 10 + b; });
            o->fn    = [k](auto& a, auto& b) { return part_of(k, a[0]) * 10 + b[0]; };
            o->exact = false;
            break;
        }
        [[fallthrough]];
    case 4: // joins two readers of one store
        o->kind  = 4;
        o->r     = lager::with(W->st[s]->part(0), W->st[s]->part(1)).map([](int a, int b) { return a - b; });
        o->fn    = [](auto& a, auto&) { return a[0].x - a[0].y; };
        o->exact = false;
        break;
    }
    ev("reader made", o->kind, s, k);
    W->obs.push_back(o);
    SIM_CHECK_ANY(({"C02", "C04"}), o->r.get() == expect(*o), "a new reader kind %d shows %d, expected %d", o->kind,
                  o->r.get(), expect(*o));
}

void start_watch(const std::shared_ptr<Obs>& o)
{
    if (o->watching)
        return;
    o->watching = true;
    o->last     = expect(*o);
    ev("watch", o->kind);
    auto* p = o.get();
    o->r.watch([p](const int& v) { on_watch(*p, v); });
}

std::shared_ptr<LoopImpl> make_loop()
{
    switch (choose(5)) {
    case 0: return std::make_shared<QueueLoop>();
    case 1: return std::make_shared<SafeLoop>();
    case 2: return std::make_shared<ManualLoop>();
    case 3: return std::make_shared<AsioLoop<false>>();
    default: return std::make_shared<AsioLoop<true>>();
    }
}

template <typename M>
std::unique_ptr<StoreI> make_st(int i, std::shared_ptr<LoopImpl> l, bool tr, bool fut)
{
    if (tr && fut)
        return std::make_unique<StoreImpl<M, lager::transactional_tag, true>>(i, l);
    if (tr)
        return std::make_unique<StoreImpl<M, lager::transactional_tag, false>>(i, l);
    if (fut)
        return std::make_unique<StoreImpl<M, lager::automatic_tag, true>>(i, l);
    return std::make_unique<StoreImpl<M, lager::automatic_tag, false>>(i, l);
}

void guarded(const std::function<void()>& f)
{
    try {
        f();
    } catch (const Injected&) {
        ev("exception reached the runner");
    }
}

void do_commit(StoreI& s)
{
    if (!s.transactional)
        return;
    ev("commit", s.idx);
    {
        Depth g{W->in_commit};
        s.pub = s.hist.size() - 1;
        s.commit_self();
    }
    observe("after commit");
    for (auto& o : W->obs)
        if (o->watching && W->in_watch == 0)
            SIM_CHECK("C04", o->last == expect(*o), "after the commit, a watcher was last told %d, the value is %d",
                      o->last, expect(*o));
}

} // namespace

SIM_SCENARIO(store_cycles)
{
    World w;
    W        = &w;
    w.faults = active("C05") ? chance(80) : chance(10);
    int n    = 1 + (chance(45) ? 1 + (int) choose(2) : 0);
    std::vector<std::shared_ptr<LoopImpl>> loops{make_loop()};
    for (int i = 0; i < n; ++i) {
        if (i > 0 && chance(40))
            loops.push_back(make_loop());
        auto l  = loops[choose(loops.size())];
        bool tr = active("C04") ? true : active("C02") ? chance(10) : chance(25);
        bool fu = active("C07") ? chance(85) : chance(50);
        switch (choose(4)) {
        case 3: w.st.push_back(make_st<MRaw>(i, l, tr, fu)); break;
        case 0: w.st.push_back(make_st<MPlain>(i, l, tr, fu)); break;
        case 1: w.st.push_back(make_st<MVec>(i, l, tr, fu)); break;
        case 2: w.st.push_back(make_st<MNoEq>(i, l, tr, fu)); break;
        }
        ev("store made", i, tr, fu);
    }
    for (int k = choose(3); k > 0; --k) {
        w.local.push_back(lager::make_state(0, lager::automatic_tag{}));
        w.localv.push_back(0);
    }
    for (int k = choose(5); k > 0; --k) {
        add_obs();
        if (chance(80))
            start_watch(w.obs.back());
    }
    auto step = [&](LoopImpl& l, bool one) {
        ev("loop runs", one);
        guarded([&] { l.step(one); });
    };
    int avg     = sim::g_thorough ? 50 : 25;
    unsigned wd = 1 + choose(6), ws = 1 + choose(4);
    while (more(avg) && w.budget-- > 0) {
        sim::Span sp;
        auto k = choose(6 + wd + ws);
        if (k >= 6 + ws) {
            auto s = choose(w.st.size());
            auto o = gen_op(chance(50) ? 2 : 0);
            lager::future f;
            bool got = false; // a synchronous loop may throw out of it
            guarded([&] {
                f   = send(s, o, choose(3));
                got = true;
            });
            if (got)
                attach(std::move(f), o->id);
            sim::nontrivial();
        } else if (k >= 6)
            step(*loops[choose(loops.size())], chance(60));
        else
            switch (k) {
            case 0: break;
            case 1: add_obs(); break;
            case 2:
                if (!w.obs.empty())
                    start_watch(w.obs[choose(w.obs.size())]);
                break;
            case 3: do_commit(*w.st[choose(w.st.size())]); break;
            case 4:
                if (!w.local.empty()) {
                    int i = choose(w.local.size()), v = choose(3);
                    StoreImpl<MPlain, lager::automatic_tag, false>::set_local(i, v);
                }
                break;
            case 5:
                if (!w.obs.empty() && chance(50)) {
                    ev("reader dropped");
                    w.obs.erase(w.obs.begin() + choose(w.obs.size()));
                } else if (chance(30)) {
                    ev("store moved");
                    w.st[choose(w.st.size())]->move_self();
                }
                break;
            }
        observe("between operations");
    }
    ev("drain");
    // completions hop from loop to loop without leaving an event
    for (int i = 0, silent = 0; i < 400 && silent < 40; ++i) {
        auto mark = sim::g_run.nevents;
        for (auto& l : loops)
            for (int j = 0; j < 50; ++j) {
                auto m2 = sim::g_run.nevents;
                guarded([&] { l->step(false); });
                if (m2 == sim::g_run.nevents && j >= 2)
                    break;
            }
        for (auto& s : w.st)
            if (s->transactional && s->pub != (int) s->hist.size() - 1)
                do_commit(*s);
        silent = mark == sim::g_run.nevents ? silent + 1 : 0;
    }
    for (auto& s : w.st) {
        SIM_CHECK_ANY(({"C01", "C05"}), s->pos == s->order.size(), "%d accepted action(s) never folded",
                      (int) (s->order.size() - s->pos));
        SIM_CHECK_ANY(({"C03", "C05"}), s->fxpos == s->fxorder.size(), "%d effect(s) never ran",
                      (int) (s->fxorder.size() - s->fxpos));
        auto v = s->get();
        SIM_CHECK_ANY(({"C01", "C02", "C04", "C05"}), v == s->hist.back(),
                      "idle, but store %d shows (%d,%d) and the fold is (%d,%d)", s->idx, v.x, v.y, s->hist.back().x,
                      s->hist.back().y);
    }
    observe("idle");
    for (auto& o : w.obs)
        if (o->watching)
            SIM_CHECK_ANY(({"C02", "C04", "C05"}), o->last == expect(*o),
                          "idle, but a watcher of kind %d was last told %d, the value is %d", o->kind, o->last,
                          expect(*o));
    for (std::size_t i = 0; i < w.recs.size(); ++i) {
        auto& r = w.recs[i];
        auto& s = *w.st[r.store];
        if (!r.has_cb || !s.futures)
            continue;
        bool ok = true; // nothing it waits for failed
        for (int j = i; j >= 0 && w.st[w.recs[j].store]->futures; j = w.recs[j].waits)
            ok = ok && !w.recs[j].threw;
        SIM_CHECK("C07", r.done == (ok ? 1 : 0), "future of action %d completed %d times", (int) i, r.done);
    }
    w.obs.clear();
    W = &w;
    w.st.clear();
    W = nullptr;
}
