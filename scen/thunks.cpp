// Thunk histories (C21).
#include "any_loop.hpp"
#include "sim.hpp"

#include <lager/commit.hpp>
#include <lager/extra/thunk.hpp>
#include <lager/lenses/attr.hpp>
#include <lager/reader.hpp>
#include <lager/store.hpp>
#include <lager/util.hpp>

#include <zug/transducer/map.hpp>

#include <optional>
#include <string>
#include <variant>

namespace {

using sim::active;
using sim::chance;
using sim::choose;
using sim::ev;
using sim::more;

struct Injected : std::exception
{
    const char* what() const noexcept override { return "injected"; }
};

struct Model
{
    int store       = 0;
    int n           = 0;
    std::uint64_t h = 0;
    int val         = 0;
    bool operator==(const Model& o) const { return store == o.store && n == o.n && h == o.h && val == o.val; }
    bool operator!=(const Model& o) const { return !(*this == o); }
};
Model step_model(Model m, int id, int delta)
{
    if (delta) {
        m.n++;
        m.h = (m.h ^ (id + 1)) * 0x9e3779b97f4a7c15ull + 17;
        m.val += delta;
    }
    return m;
}

// =========================================================== C21: thunks ====
namespace th {

struct Spec;
using SpecP = std::shared_ptr<const Spec>;
struct Act
{
    SpecP s;
};
struct Env
{
    int magic = 99;
};
using deps_t  = lager::deps<lager::dep::ref<Env>>;
using eff_t   = lager::effect<Act, deps_t>;
using thunk_t = std::variant<eff_t, Act>;
using ctx_t   = lager::context<Act, deps_t>;

enum Ret
{
    r_void,
    r_empty,
    r_ext,
    r_disp, // the future of one more dispatch
    r_both, // of two
    r_chain, // of a dispatch made once the first one is complete
    r_count
};
struct Spec
{
    int id;
    bool thunk = false;
    int delta  = 0;
    bool eff   = false; // action with an effect
    int empty  = 0;     // thunk: 1 null function, 2 noop; action: the same as its effect
    bool throws = false;
    std::vector<SpecP> sends;
    Ret ret = r_void;
    SpecP c1, c2;
};
struct Ref
{
    int kind = 0; // 1 ext 2 item 3 step
    int idx  = 0;
};
struct Item
{
    const Spec* s  = nullptr;
    bool accepted  = false;
    int folded     = 0;
    int ran        = 0; // thunk or effect runs
    bool threw     = false;
    bool completed = false; // its future's callback ran
    int cb         = 0;
    bool has_cb    = false;
    std::size_t acts_before = 0; // plain actions accepted before it
    std::vector<Ref> waits;
};
struct StepS
{
    int runs = 0;
    std::vector<Ref> waits, then;
};
struct World
{
    bool futures, effects, transactional, faults;
    LoopImpl* loop = nullptr;
    Env env;
    std::vector<SpecP> keep;
    std::vector<Item> items;
    std::vector<int> acts;  // accepted actions in order
    std::vector<int> effs;  // accepted things with something to run, in order
    std::size_t fold_pos = 0, eff_pos = 0;
    Model cur;
    int in_red = 0, in_run = 0, in_watch = 0;
    std::vector<std::optional<lager::promise>> exts;
    std::vector<StepS> steps;
    std::function<lager::future(const SpecP&, int)> send; // through any channel
    std::function<Model()> published;
    int budget = 200;
    int threw  = 0;
};
World* W = nullptr;

SpecP gen(int depth)
{
    auto s = std::make_shared<Spec>();
    s->id  = W->items.size();
    W->items.push_back({});
    s->thunk = chance(55);
    if (!s->thunk) {
        s->delta = chance(80) ? 1 + (int) choose(5) : 0;
        s->eff   = W->effects && chance(55);
    }
    bool runs = s->thunk || s->eff;
    if (runs && chance(8))
        s->empty = 1 + choose(2);
    if (runs && !s->empty) {
        if (W->faults && chance(10))
            s->throws = true;
        if (depth > 0 && chance(60)) {
            int k = 1 + (int) choose(3);
            for (int i = 0; i < k; ++i)
                s->sends.push_back(gen(depth - 1));
        }
        if (chance(60))
            s->ret = (Ret) choose(r_count);
        if (depth <= 0 && s->ret >= r_disp)
            s->ret = r_ext;
        if (s->ret >= r_disp)
            s->c1 = gen(depth - 1);
        if (s->ret >= r_both)
            s->c2 = gen(depth - 1);
    }
    W->items[s->id].s = s.get();
    W->keep.push_back(s);
    return s;
}

bool ready(const Ref& r);
bool done(int id)
{
    auto& d = W->items[id];
    if (!W->futures)
        return true;
    if (!d.accepted)
        return false;
    bool runs = d.s->thunk || d.s->eff;
    if (!d.s->thunk && d.folded == 0)
        return false;
    if (runs && !d.s->empty) {
        if (d.ran == 0)
            return false;
        for (auto& w : d.waits)
            if (!ready(w))
                return false;
    }
    return true;
}
bool ready(const Ref& r)
{
    switch (r.kind) {
    case 1: return !W->exts[r.idx];
    case 2: return done(r.idx);
    case 3: {
        auto& s = W->steps[r.idx];
        if (s.runs == 0)
            return false;
        for (auto& w : s.then)
            if (!ready(w))
                return false;
        return true;
    }
    }
    return true;
}
bool broken(const Ref& r, int depth = 0);
bool broken_item(int id, int depth = 0)
{
    auto& d = W->items[id];
    if (d.threw || depth > 60)
        return true;
    if (!W->futures)
        return false;
    for (auto& w : d.waits)
        if (broken(w, depth + 1))
            return true;
    return false;
}
bool broken(const Ref& r, int depth)
{
    switch (r.kind) {
    case 2: return broken_item(r.idx, depth + 1);
    case 3:
        for (auto& w : W->steps[r.idx].waits)
            if (broken(w, depth + 1))
                return true;
        for (auto& w : W->steps[r.idx].then)
            if (broken(w, depth + 1))
                return true;
        return false;
    }
    return false;
}

void accept(const SpecP& s)
{
    auto& d       = W->items[s->id];
    d.accepted    = true;
    d.acts_before = W->acts.size();
    if (!s->thunk)
        W->acts.push_back(s->id);
    if ((s->thunk || s->eff) && !s->empty)
        W->effs.push_back(s->id);
    ev("dispatch", s->id, s->thunk, W->in_run);
}

lager::future body(const ctx_t& ctx, const SpecP& s);

// the function a thunk is dispatched as, in several shapes
template <typename Fn>
lager::future as_thunk(const SpecP& s, Fn&& disp)
{
    accept(s);
    if (s->empty == 1)
        return disp(eff_t{nullptr});
    if (s->empty == 2)
        return disp(eff_t{lager::noop});
    bool isvoid = s->ret == r_void;
    switch (s->id % 3) {
    case 0:
        if (isvoid)
            return disp([s](const ctx_t& c) { body(c, s); });
        return disp([s](const ctx_t& c) -> lager::future { return body(c, s); });
    case 1:
        if (isvoid)
            return disp([s](auto&& c) { body(c, s); });
        return disp([s](auto&& c) -> lager::future { return body(c, s); });
    default:
        if (isvoid)
            return disp(eff_t{[s](const ctx_t& c) { body(c, s); }});
        return disp(eff_t{[s](const ctx_t& c) -> lager::future { return body(c, s); }});
    }
}
template <typename Ctx>
lager::future via_full(const Ctx& ctx, const SpecP& s)
{
    if (s->thunk)
        return as_thunk(s, [&](auto&& f) { return ctx.dispatch(LAGER_FWD(f)); });
    accept(s);
    return ctx.dispatch(Act{s});
}
// a thunk's own context takes actions; thunks go through the store's
lager::future via(const ctx_t& ctx, const SpecP& s)
{
    if (s->thunk || chance(30))
        return W->send(s, choose(3));
    accept(s);
    return ctx.dispatch(Act{s});
}

lager::future body(const ctx_t& ctx, const SpecP& s)
{
    auto& d = W->items[s->id];
    d.ran++;
    ev(s->thunk ? "thunk" : "effect", s->id, d.ran, W->fold_pos);
    SIM_CHECK("C21", d.ran == 1, "%s %d ran %d times", s->thunk ? "thunk" : "effect", s->id, d.ran);
    SIM_CHECK("C21", W->in_red == 0 && W->in_run == 0,
              "%s %d started inside another callback", s->thunk ? "thunk" : "effect", s->id);
    SIM_CHECK("C21", W->loop->running > 0, "%d ran outside the loop", s->id);
    if (!s->thunk)
        SIM_CHECK("C21", d.folded == 1, "effect of action %d ran, the action was folded %d times", s->id, d.folded);
    SIM_CHECK("C21", W->fold_pos >= d.acts_before,
              "thunk %d ran after %d folds, but %d actions had been dispatched before it", s->id, (int) W->fold_pos,
              (int) d.acts_before);
    SIM_CHECK("C21", W->eff_pos < W->effs.size() && W->effs[W->eff_pos] == s->id,
              "%d ran out of dispatch order (expected %d)", s->id,
              W->eff_pos < W->effs.size() ? W->effs[W->eff_pos] : -1);
    W->eff_pos++;
    if (!W->transactional) {
        auto m = W->published();
        SIM_CHECK("C21", m == W->cur, "thunk %d sees model %d, the fold is at %d", s->id, m.n, W->cur.n);
    }
    auto& env = lager::get<Env&>(ctx);
    SIM_CHECK("C21", &env == &W->env, "thunk %d got the wrong dependency", s->id);
    struct G
    {
        G() { W->in_run++; }
        ~G() { W->in_run--; }
    };
    std::optional<G> g{std::in_place};
    for (auto& c : s->sends)
        via(ctx, c);
    if (s->throws) {
        d.threw = true;
        W->threw++;
        sim::fault("thunk throws");
        throw Injected{};
    }
    switch (s->ret) {
    case r_ext: {
        auto [p, f] = lager::promise::with_loop(ctx.loop());
        d.waits.push_back({1, (int) W->exts.size()});
        W->exts.push_back(std::move(p));
        return f;
    }
    case r_disp: {
        auto f = via(ctx, s->c1);
        d.waits.push_back({2, s->c1->id});
        return f;
    }
    case r_both: {
        auto f = via(ctx, s->c1);
        d.waits.push_back({2, s->c1->id});
        auto h = via(ctx, s->c2);
        d.waits.push_back({2, s->c2->id});
        return std::move(f).also(std::move(h));
    }
    case r_chain: {
        auto f  = via(ctx, s->c1);
        int idx = W->steps.size();
        W->steps.push_back({});
        W->steps[idx].waits.push_back({2, s->c1->id});
        d.waits.push_back({3, idx});
        g.reset();
        return std::move(f).then([ctx, c2 = s->c2, idx]() -> lager::future {
            auto& st = W->steps[idx];
            st.runs++;
            ev("step", idx);
            SIM_CHECK("C21", st.runs == 1, "continuation ran again");
            if (W->futures)
                for (auto& w : st.waits)
                    SIM_CHECK("C21", ready(w), "continuation ran before the dispatch it waits for was complete");
            st.then.push_back({2, c2->id});
            return via(ctx, c2);
        });
    }
    default: return {};
    }
}

Model reduce(const Model& m, const SpecP& s)
{
    auto& d = W->items[s->id];
    ev("fold", s->id, m.n);
    SIM_CHECK("C21", W->in_red == 0 && W->in_run == 0, "action %d folded inside a callback", s->id);
    SIM_CHECK("C21", W->fold_pos < W->acts.size() && W->acts[W->fold_pos] == s->id,
              "action %d folded out of dispatch order or twice (expected %d)", s->id,
              W->fold_pos < W->acts.size() ? W->acts[W->fold_pos] : -1);
    SIM_CHECK("C21", m == W->cur, "action %d was folded onto model %d/%llx, the fold so far is %d/%llx", s->id, m.n,
              (unsigned long long) m.h, W->cur.n, (unsigned long long) W->cur.h);
    W->fold_pos++;
    d.folded++;
    W->cur = step_model(m, s->id, s->delta);
    return W->cur;
}
struct PureReducer
{
    Model operator()(Model m, Act a) const { return reduce(m, a.s); }
};
struct EffReducer
{
    lager::result<Model, Act, deps_t> operator()(Model m, Act a) const
    {
        auto s = a.s;
        auto r = reduce(m, s);
        if (!s->eff)
            return r;
        if (s->empty == 1)
            return {r, eff_t{nullptr}};
        if (s->empty == 2)
            return {r, lager::noop};
        if (s->ret == r_void)
            return {r, eff_t{[s](const ctx_t& c) { body(c, s); }}};
        return {r, eff_t{[s](const ctx_t& c) -> lager::future { return body(c, s); }}};
    }
};

template <typename Store>
void drive(World& w, std::shared_ptr<LoopImpl> loop, Store store)
{
    using full_ctx = lager::context<thunk_t, deps_t>;
    auto full      = full_ctx{store};
    auto plain     = ctx_t{store};
    auto bare      = lager::context<thunk_t>{store}; // without the dependency
    w.published    = [&] { return store.get(); };
    int in_send    = 0;
    w.send         = [&](const SpecP& s, int ch) -> lager::future {
        switch (ch) {
        case 1: return via_full(store, s);
        case 2: return via_full(bare, s);
        default: return via_full(full, s);
        }
    };
    Model seen{};
    lager::reader<Model> r = store;
    int calls              = 0;
    r.watch([&](const Model& m) {
        ++calls;
        ev("watch", m.n);
        SIM_CHECK("C21", m != seen && m.n > seen.n, "watcher called without a change (model %d, last %d)", m.n, seen.n);
        SIM_CHECK("C21", m == w.cur, "watcher called with model %d, the fold is at %d", m.n, w.cur.n);
        seen = m;
        w.in_watch++;
        if (w.budget-- > 0 && chance(15))
            w.send(gen(1), choose(3));
        w.in_watch--;
    });
    auto guarded = [&](auto&& f) {
        try {
            f();
        } catch (const Injected&) {
            ev("threw");
            SIM_CHECK("C21", w.threw > 0, "unexpected exception");
            w.in_watch = 0;
        }
    };
    auto idle = [&] {
        if (w.fold_pos != w.acts.size() || w.eff_pos != w.effs.size())
            return false;
        return true;
    };
    auto send = [&](const SpecP& s) {
        int how = choose(4);
        guarded([&] {
            if (how == 3 && !s->thunk) {
                accept(s);
                auto f = plain.dispatch(Act{s});
                (void) f;
                return;
            }
            auto f = w.send(s, how);
            if (chance(50)) {
                auto& d  = w.items[s->id];
                d.has_cb = true;
                int id   = s->id;
                std::move(f).then([id] {
                    auto& d = W->items[id];
                    d.cb++;
                    ev("future", id, d.cb);
                    SIM_CHECK("C21", d.cb == 1, "future of %d completed %d times", id, d.cb);
                    SIM_CHECK("C21", done(id), "future of %d completed before it was done", id);
                });
            }
        });
        (void) in_send;
    };
    int ops = sim::g_thorough ? 40 : 25;
    while (more(ops) && w.budget-- > 0) {
        sim::Span sp;
        switch (choose(7)) {
        case 0:
        case 1:
        case 2: {
            auto s = gen(3);
            sim::nontrivial();
            send(s);
            break;
        }
        case 3:
        case 4: guarded([&] { loop->step(); }); break;
        case 5: {
            std::vector<int> open;
            for (std::size_t i = 0; i < w.exts.size(); ++i)
                if (w.exts[i])
                    open.push_back(i);
            if (!open.empty()) {
                int i  = open[choose(open.size())];
                auto p = std::move(*w.exts[i]);
                w.exts[i].reset();
                ev("complete", i);
                guarded([&] { p(); });
            }
            break;
        }
        case 6:
            if (w.transactional) {
                ev("commit");
                guarded([&] { lager::commit(store); });
            }
            break;
        }
    }
    // faults stop; everything settles within a bounded number of steps
    for (int i = 0; i < 3000; ++i) {
        guarded([&] { loop->step(); });
        bool any = false;
        for (auto& e : w.exts)
            if (e) {
                auto p = std::move(*e);
                e.reset();
                guarded([&] { p(); });
                any = true;
                break;
            }
        if (!any && idle() && i > 30)
            break;
    }
    w.budget = 0; // watchers dispatch no more
    for (int i = 0; i < 120; ++i) {
        guarded([&] { loop->step(); });
        if (w.transactional && i % 10 == 9)
            guarded([&] { lager::commit(store); });
    }
    SIM_CHECK("C21", idle(), "%d of %d actions folded and %d of %d thunks and effects run after everything settled",
              (int) w.fold_pos, (int) w.acts.size(), (int) w.eff_pos, (int) w.effs.size());
    SIM_CHECK("C21", store.get() == w.cur, "final model %d, fold %d", store.get().n, w.cur.n);
    SIM_CHECK("C21", w.threw || seen == w.cur, "the watcher last saw model %d of %d", seen.n, w.cur.n);
    for (auto& d : w.items)
        if (d.accepted && d.has_cb && !broken_item(d.s->id))
            SIM_CHECK("C21", d.cb == 1, "future of %s %d completed %d times", d.s->thunk ? "thunk" : "action", d.s->id,
                      d.cb);
    if (w.threw)
        sim::probe("run with a throwing thunk");
}


template <typename Tag>
void run_tag(World& w, std::shared_ptr<LoopImpl> loop)
{
    using lager::with_thunk;
    if (w.effects) {
        if (w.futures)
            drive(w, loop,
                  lager::make_store<Act, Tag>(Model{}, AnyLoop{loop}, lager::with_deps(std::ref(w.env)),
                                              lager::with_reducer(EffReducer{}), lager::with_futures, with_thunk()));
        else
            drive(w, loop,
                  lager::make_store<Act, Tag>(Model{}, AnyLoop{loop}, lager::with_deps(std::ref(w.env)),
                                              lager::with_reducer(EffReducer{}), with_thunk()));
    } else {
        if (w.futures)
            drive(w, loop,
                  lager::make_store<Act, Tag>(Model{}, AnyLoop{loop}, lager::with_deps(std::ref(w.env)),
                                              lager::with_reducer(PureReducer{}), with_thunk(), lager::with_futures));
        else
            drive(w, loop,
                  lager::make_store<Act, Tag>(Model{}, AnyLoop{loop}, lager::with_deps(std::ref(w.env)),
                                              lager::with_reducer(PureReducer{}), with_thunk()));
    }
}

void run()
{
    World w;
    W               = &w;
    auto loop       = make_loop(choose(3));
    w.loop          = loop.get();
    w.futures       = chance(60);
    w.effects       = chance(60);
    w.transactional = chance(25);
    w.faults        = chance(25);
    if (w.transactional)
        run_tag<lager::transactional_tag>(w, loop);
    else
        run_tag<lager::automatic_tag>(w, loop);
    W = nullptr;
}

} // namespace th
} // namespace

SIM_SCENARIO(thunk_history) { th::run(); }
