// Store histories: one thread, several parties (clients, the loop, external
// completions, watchers), every step chosen by the tape.  Real code: store,
// context, deps, effects, futures, readers, watchers and the four event loops.
#include "loop_impl.hpp"
#include "sim.hpp"

#include <cassert>

#include <lager/commit.hpp>
#include <lager/reader.hpp>
#include <lager/store.hpp>
#include <lager/util.hpp>

#include <memory>
#include <optional>
#include <set>
#include <variant>

namespace {

using sim::active;
using sim::chance;
using sim::choose;
using sim::ev;
using sim::more;

struct Injected : std::exception
{
    const char* what() const noexcept override { return "injected"; }
};

// ------------------------------------------------------------------ model --
struct Model
{
    int n           = 0; // number of changing folds
    std::uint64_t h = 0; // order-sensitive digest of the folded actions
    int val         = 0;
    bool operator==(const Model& o) const
    {
        return n == o.n && h == o.h && val == o.val;
    }
    bool operator!=(const Model& o) const { return !(*this == o); }
};

struct Spec;
using SpecP = std::shared_ptr<const Spec>;
struct ActA
{
    SpecP s;
};
struct ActB
{
    SpecP s;
};
using Act = std::variant<ActA, ActB>;

struct Env
{
    int magic = 4711;
};
struct Tag0
{};
using deps_t = lager::deps<Env&>;

enum Ret
{
    r_void = 0,
    r_empty,
    r_ext,
    r_dispatch,
    r_both,     // dispatch.also(dispatch)
    r_chain,    // dispatch.then(-> dispatch)
    r_ext_then, // ext.then(void callback that dispatches)
    r_count
};

struct Part
{
    int id;
    std::vector<SpecP> sends; // plain dispatches, results dropped
    Ret ret = r_void;
    SpecP c1, c2;
    bool throws = false;
};
struct Spec
{
    int id;
    int delta;           // 0: model unchanged
    bool b       = false; // dispatched as ActB (effect of a sub-reducer)
    bool rthrows = false;
    int null     = 0; // an empty effect: 1 alone, 2 in front, 3 behind
    std::vector<Part> parts;
};

// ------------------------------------------------------------------ world --
struct FutRef // something a part waits for
{
    enum
    {
        none,
        ext,
        disp,
        step // a continuation callback
    } kind   = none;
    int idx  = -1;
};
struct PartState
{
    const Part* p;
    int spec;
    int runs = 0;
    std::vector<FutRef> waits;
};
struct Disp // one accepted dispatch
{
    const Spec* s;
    bool accepted = true;
    bool maybe    = false; // acceptance unknown (allocation failure)
    int folded    = 0;
    bool rthrew   = false;
    int ver       = -1; // model version right after the fold
    bool tainted  = false; // an exception or failure hit its processing
    int cb        = 0;     // continuation runs
    bool has_cb   = false;
};
struct ExtP
{
    lager::promise p;
    bool done = false;
};
struct StepP
{
    int runs = 0;
    std::vector<FutRef> waits; // what must complete before it runs
    std::vector<FutRef> then;  // what it waits for afterwards
};

struct World
{
    bool futures, transactional;
    LoopImpl* loop = nullptr;
    Env env;
    int next_spec = 0, next_part = 0;
    std::vector<SpecP> keep;
    std::vector<Disp> disps; // by spec id
    std::vector<int> order;  // accepted order (spec ids)
    std::size_t fold_pos = 0;
    std::vector<int> folds; // spec ids in fold order
    std::vector<Model> byver{Model{}};
    Model cur; // fold so far
    std::optional<Model> tentative; // reducer returned, event failed afterwards
    std::map<int, PartState> parts;
    std::size_t eff_pos = 0;
    std::vector<int> eff_order; // spec ids with effects, in fold order
    std::vector<ExtP> exts;
    std::vector<StepP> steps;
    int in_reducer = 0, in_effect = 0, in_watch = 0, in_dispatch = 0;
    int oom_hits  = 0;
    int holes     = 0;
    int eff_holes = 0;
    bool threw    = false;
    bool notify_broken = false;
    bool fold_open = false; // the newest fold's own event may still fail
    int ver_seen  = 0;
    std::function<int()> get_ver;
    std::function<void(const SpecP&, int)> send; // dispatch through channel k
    std::function<void()> poke; // random small operation inside a callback
    std::function<void(const char*)> observe;
    bool faults = false;
    int committed = 0;
    int budget    = 400;
};
World* W = nullptr;

// ---------------------------------------------------------------- programs --
SpecP gen_spec(int depth, bool faults)
{
    auto s   = std::make_shared<Spec>();
    s->id    = W->next_spec++;
    s->delta = chance(80) ? 1 + (int) choose(5) : 0;
    s->b     = chance(30);
    if (faults && chance(12))
        s->rthrows = true;
    W->disps.push_back(Disp{});
    W->disps.back().s        = nullptr;
    W->disps.back().accepted = false;
    if (chance(45))
        s->null = chance(60) ? 1 : 1 + choose(3);
    if (chance(65)) {
        int n = 1 + (chance(40) ? 1 + (int) choose(3) : 0);
        for (int i = 0; i < n; ++i) {
            Part p;
            p.id = W->next_part++;
            if (depth > 0) {
                int k = chance(40) ? 1 + (int) choose(2) : 0;
                for (int j = 0; j < k; ++j)
                    p.sends.push_back(gen_spec(depth - 1, faults));
            }
            p.ret = chance(55) ? (Ret) choose(r_count) : r_void;
            if (depth <= 0 && (p.ret == r_dispatch || p.ret == r_both || p.ret == r_chain))
                p.ret = r_ext;
            if (p.ret == r_dispatch || p.ret == r_both || p.ret == r_chain || p.ret == r_ext_then)
                if (depth > 0)
                    p.c1 = gen_spec(depth - 1, faults);
            if (p.ret == r_both || p.ret == r_chain)
                p.c2 = gen_spec(depth - 1, faults);
            if (faults && chance(10))
                p.throws = true;
            s->parts.push_back(std::move(p));
        }
    }
    W->disps[s->id].s = s.get();
    W->keep.push_back(s);
    return s;
}

// ready(x): has everything x stands for completed?
bool ready(const FutRef& f);
bool disp_done(int id)
{
    auto& d = W->disps[id];
    if (!W->futures)
        return true;
    if (d.folded == 0)
        return false;
    for (auto& p : d.s->parts) {
        auto& ps = W->parts[p.id];
        if (ps.runs == 0)
            return false;
        for (auto& w : ps.waits)
            if (!ready(w))
                return false;
    }
    return true;
}
bool ready(const FutRef& f)
{
    switch (f.kind) {
    case FutRef::none: return true;
    case FutRef::ext: return W->exts[f.idx].done;
    case FutRef::disp: return disp_done(f.idx);
    case FutRef::step: {
        auto& s = W->steps[f.idx];
        if (s.runs == 0)
            return false;
        for (auto& w : s.then)
            if (!ready(w))
                return false;
        return true;
    }
    }
    return true;
}
// did an injected failure hit anything x depends on?
bool tainted(const FutRef& f, int depth = 0);
bool disp_tainted(int id, int depth = 0)
{
    auto& d = W->disps[id];
    if (depth > 40)
        return true;
    if (d.tainted || d.rthrew || d.maybe || !d.accepted)
        return true;
    if (!W->futures)
        return false;
    for (auto& p : d.s->parts)
        for (auto& w : W->parts[p.id].waits)
            if (tainted(w, depth + 1))
                return true;
    return false;
}
bool tainted(const FutRef& f, int depth)
{
    switch (f.kind) {
    case FutRef::none:
    case FutRef::ext: return false;
    case FutRef::disp: return disp_tainted(f.idx, depth + 1);
    case FutRef::step:
        for (auto& w : W->steps[f.idx].waits)
            if (tainted(w, depth + 1))
                return true;
        for (auto& w : W->steps[f.idx].then)
            if (tainted(w, depth + 1))
                return true;
        return false;
    }
    return false;
}

struct Depth
{
    int& d;
    Depth(int& x)
        : d{x}
    {
        ++d;
    }
    ~Depth() { --d; }
};

// Called around every dispatch.
template <typename Ctx, typename A>
lager::future do_dispatch(const Ctx& ctx, A act, const SpecP& s, bool& ok)
{
    sim::NoFail* nf = nullptr;
    (void) nf;
    auto& d = W->disps[s->id];
    {
        sim::NoFail z;
        d.accepted = true;
        W->order.push_back(s->id);
        ev("dispatch", s->id, W->in_effect, W->in_watch);
    }
    ok = true;
    try {
        Depth g{W->in_dispatch};
        return ctx.dispatch(std::move(act));
    } catch (const std::bad_alloc&) {
        sim::NoFail z;
        // not accepted, unless a synchronous loop had queued it already
        d.maybe = true;
        throw;
    } catch (const Injected&) {
        throw; // only a synchronous loop runs events inside dispatch
    }
}

template <typename D>
std::true_type takes_a(const lager::context<Act, D>*);
template <typename D>
std::false_type takes_a(const lager::context<ActB, D>*);

template <typename Ctx>
lager::future dispatch_spec(const Ctx& ctx, const SpecP& s)
{
    bool ok = false;
    if constexpr (decltype(takes_a(static_cast<const Ctx*>(nullptr)))::value) {
        if (s->b)
            return do_dispatch(ctx, ActB{s}, s, ok);
        return do_dispatch(ctx, ActA{s}, s, ok);
    } else
        return do_dispatch(ctx, ActB{s}, s, ok);
}

// Body of one effect part.
template <typename Ctx>
lager::future run_part(const Ctx& ctx, const SpecP& s, std::size_t i)
{
    const Part& p = s->parts[i];
    auto& ps      = W->parts[p.id];
    {
        sim::NoFail z;
        ev("effect", s->id, (int) i, W->get_ver());
        W->fold_open = false;
        ps.p    = &p;
        ps.spec = s->id;
        ps.runs++;
        SIM_CHECK("C03", ps.runs == 1, "effect part %d of action %d ran again", (int) i, s->id);
        SIM_CHECK("C05", ps.runs == 1, "effect part %d of action %d ran again", (int) i, s->id);
        SIM_CHECK("C03", W->in_reducer == 0 && W->in_effect == 0 && W->in_watch == 0,
                  "effect of action %d started inside another callback", s->id);
        SIM_CHECK("C03", W->loop->running > 0, "effect of action %d ran outside the loop", s->id);
        SIM_CHECK("C03", W->disps[s->id].folded == 1,
                  "effect of action %d ran but the action was folded %d times", s->id, W->disps[s->id].folded);
        if (!W->transactional)
            SIM_CHECK("C03", W->get_ver() >= W->disps[s->id].ver,
                      "effect of action %d sees model version %d, its own is %d", s->id, W->get_ver(),
                      W->disps[s->id].ver);
        if (i == 0) {
            // order among actions
            while (W->eff_pos < W->eff_order.size() && W->eff_order[W->eff_pos] != s->id) {
                W->eff_pos++;
                W->eff_holes++;
            }
            SIM_CHECK_ANY(({"C03"}), W->eff_pos < W->eff_order.size() && W->eff_holes <= W->oom_hits,
                          "effect of action %d ran out of the order of the folds", s->id);
            W->eff_pos++;
        } else {
            auto& prev = W->parts[s->parts[i - 1].id];
            SIM_CHECK("C03", prev.runs == 1, "part %d of action %d ran before part %d", (int) i, s->id, (int) i - 1);
            for (auto& w : prev.waits)
                SIM_CHECK("C03", ready(w), "part %d of action %d did not wait for the future of part %d", (int) i,
                          s->id, (int) i - 1);
        }
        auto& env = lager::get<Env&>(ctx);
        SIM_CHECK("C03", &env == &W->env && env.magic == 4711, "effect got the wrong dependency");
        W->observe("in effect");
    }
    struct InEff
    {
        InEff() { W->in_effect++; }
        ~InEff() { W->in_effect--; }
    };
    auto guard = std::make_unique<InEff>(); // released before returning
    for (auto& c : p.sends)
        dispatch_spec(ctx, c);
    if (chance(15))
        W->poke();
    if (p.throws) {
        sim::NoFail z;
        sim::fault("effect throws");
        W->disps[s->id].tainted = true;
        W->threw                = true;
        throw Injected{};
    }
    auto ext = [&](FutRef& r) {
        auto [pr, f] = lager::promise::with_loop(ctx.loop());
        sim::NoFail z;
        r = FutRef{FutRef::ext, (int) W->exts.size()};
        W->exts.push_back({std::move(pr)});
        ev("external promise", r.idx, s->id);
        return f;
    };
    switch (p.ret) {
    case r_void:
    case r_empty: return {};
    case r_ext: {
        FutRef r;
        auto f = ext(r);
        ps.waits.push_back(r);
        return f;
    }
    case r_dispatch: {
        auto f = dispatch_spec(ctx, p.c1);
        ps.waits.push_back({FutRef::disp, p.c1->id});
        return f;
    }
    case r_both: {
        auto f = dispatch_spec(ctx, p.c1);
        ps.waits.push_back({FutRef::disp, p.c1->id});
        auto g = dispatch_spec(ctx, p.c2);
        ps.waits.push_back({FutRef::disp, p.c2->id});
        return std::move(f).also(std::move(g));
    }
    case r_chain: {
        auto f  = dispatch_spec(ctx, p.c1);
        int idx = W->steps.size();
        W->steps.push_back({});
        W->steps[idx].waits.push_back({FutRef::disp, p.c1->id});
        ps.waits.push_back({FutRef::step, idx});
        guard.reset();
        return std::move(f).then([ctx = lager::context<ActB, deps_t>(ctx), c2 = p.c2, idx]() -> lager::future {
            {
                sim::NoFail z;
                auto& st = W->steps[idx];
                st.runs++;
                ev("chain step", idx);
                SIM_CHECK("C07", st.runs == 1, "continuation ran again");
                if (W->futures) {
                    SIM_CHECK("C07", W->loop->running > 0, "continuation ran outside the loop");
                    for (auto& w : st.waits)
                        SIM_CHECK("C07", ready(w), "continuation ran before the dispatch it waits for completed");
                }
                st.then.push_back({FutRef::disp, c2->id});
            }
            return dispatch_spec(ctx, c2);
        });
    }
    case r_ext_then: {
        FutRef r;
        auto f  = ext(r);
        int idx = W->steps.size();
        W->steps.push_back({});
        W->steps[idx].waits.push_back(r);
        ps.waits.push_back({FutRef::step, idx});
        return std::move(f).then([ctx = lager::context<ActB, deps_t>(ctx), c1 = p.c1, idx]() {
            {
                sim::NoFail z;
                auto& st = W->steps[idx];
                st.runs++;
                ev("chain step", idx);
                SIM_CHECK("C07", st.runs == 1, "continuation ran again");
                SIM_CHECK("C07", W->loop->running > 0, "continuation ran outside the loop");
                for (auto& w : st.waits)
                    SIM_CHECK("C07", ready(w), "continuation ran before its promise was fulfilled");
            }
            if (c1)
                dispatch_spec(ctx, c1);
        });
    }
    default: return {};
    }
}

template <typename A>
lager::effect<A, deps_t> make_part(const SpecP& s, std::size_t i)
{
    using ctx_t = lager::context<A, deps_t>;
    if (s->parts[i].ret == r_void)
        return [s, i](const ctx_t& ctx) { run_part(ctx, s, i); };
    return [s, i](const ctx_t& ctx) -> lager::future { return run_part(ctx, s, i); };
}
template <typename A>
lager::effect<A, deps_t> make_effect(const SpecP& s)
{
    std::vector<lager::effect<A, deps_t>> es;
    for (std::size_t i = 0; i < s->parts.size(); ++i)
        es.push_back(make_part<A>(s, i));
    using eff_t = lager::effect<A, deps_t>;
    auto pad    = [] { return chance(50) ? eff_t{nullptr} : eff_t{lager::noop}; };
    if (es.size() == 3 || (es.size() == 4 && chance(40))) { // variadic forms
        auto last = es.size() == 4 ? es[3] : pad();
        switch (choose(3)) {
        case 0:
            return es.size() == 4 ? lager::sequence(es[0], es[1], es[2], last)
                                  : lager::sequence(es[0], es[1], es[2]);
        case 1: return lager::sequence(es[0], pad(), es[1], es[2], last);
        default:
            return lager::sequence(pad(), es[0], es[1], pad(), pad(), es[2], last);
        }
    }
    auto e      = es[0];
    if (s->null == 2)
        e = lager::sequence(eff_t{nullptr}, es[0]);
    if (s->null == 3)
        e = lager::sequence(es[0], chance(50) ? eff_t{nullptr} : eff_t{lager::noop});
    if (es.size() == 4) // right-nested
        return lager::sequence(es[0], lager::sequence(es[1], lager::sequence(es[2], es[3])));
    for (std::size_t i = 1; i < es.size(); ++i)
        e = lager::sequence(e, es[i]);
    return e;
}

Model reduce(const Model& m, const SpecP& s)
{
    sim::NoFail z;
    auto& d = W->disps[s->id];
    ev("reduce", s->id, m.n, W->in_dispatch);
    SIM_CHECK("C01", W->in_reducer == 0 && W->in_effect == 0 && W->in_watch == 0,
              "action %d folded inside another callback", s->id);
    SIM_CHECK("C01", W->loop->running > 0, "action %d folded outside the loop", s->id);
    SIM_CHECK_ANY(({"C01", "C05"}), d.accepted && d.folded == 0 && !d.rthrew, "action %d folded again", s->id);
    // order
    while (W->fold_pos < W->order.size() && W->order[W->fold_pos] != s->id) {
        auto& sk = W->disps[W->order[W->fold_pos]];
        if (!sk.maybe)
            W->holes++;
        sk.tainted = true;
        W->fold_pos++;
    }
    SIM_CHECK_ANY(({"C01", "C05"}), W->fold_pos < W->order.size() && W->holes <= W->oom_hits,
                  "action %d folded out of order: an earlier action was lost or overtaken", s->id);
    W->fold_pos++;
    // fold starts from the model the previous application produced
    if (W->tentative) {
        SIM_CHECK_ANY(({"C01", "C05"}), m == W->cur || m == *W->tentative,
                      "the reducer was given neither the old nor the new model after a failure");
        if (m == W->cur) {
            // that failed fold left no trace: its effect must not run either
            W->byver.resize(W->cur.n + 1);
        } else
            W->cur = *W->tentative;
        W->tentative.reset();
    }
    SIM_CHECK_ANY(({"C01", "C05"}), m == W->cur,
                  "action %d was folded onto model version %d (digest %llx), expected version %d (%llx)", s->id, m.n,
                  (unsigned long long) m.h, W->cur.n, (unsigned long long) W->cur.h);
    if (s->rthrows) {
        d.rthrew = true;
        W->threw = true;
        sim::fault("reducer throws");
        throw Injected{};
    }
    d.folded++;
    W->fold_open = true;
    W->folds.push_back(s->id);
    auto r = m;
    if (s->delta) {
        r.n++;
        r.h = (r.h ^ (s->id + 1)) * 0x9e3779b97f4a7c15ull + 17;
        r.val += s->delta;
    }
    d.ver  = r.n;
    W->cur = r;
    if ((int) W->byver.size() <= r.n)
        W->byver.resize(r.n + 1);
    W->byver[r.n] = r;
    if (!s->parts.empty())
        W->eff_order.push_back(s->id);
    return r;
}

template <typename A>
lager::effect<A, deps_t> empty_effect(const SpecP& s)
{
    using eff_t = lager::effect<A, deps_t>;
    switch (s->null) {
    case 1: return eff_t{nullptr};
    case 2: return lager::noop;
    default: return lager::sequence(eff_t{nullptr}, eff_t{nullptr});
    }
}

lager::result<Model, ActB, deps_t> update_b(Model m, ActB a)
{
    auto r = reduce(m, a.s);
    if (a.s->parts.empty()) {
        if (a.s->null)
            return {r, empty_effect<ActB>(a.s)};
        return r;
    }
    auto e = make_effect<ActB>(a.s);
    return {r, std::move(e)};
}
lager::result<Model, Act, deps_t> update(Model m, Act a)
{
    return lager::match(std::move(a))(
        [&](ActA a) -> lager::result<Model, Act, deps_t> {
            auto r = reduce(m, a.s);
            if (a.s->parts.empty()) {
                if (a.s->null)
                    return {r, empty_effect<Act>(a.s)};
                return r;
            }
            auto e = make_effect<Act>(a.s);
            return {r, std::move(e)};
        },
        [&](ActB a) -> lager::result<Model, Act, deps_t> { return update_b(m, std::move(a)); });
}

// ---------------------------------------------------------------- watchers --
struct Obs // one observed reader
{
    int kind;
    lager::reader<Model> m;
    lager::reader<int> i;
    bool watching = false;
    bool dead     = false;
    bool fresh    = false; // attached during a notification: may join it
    int calls     = 0;
    Model lastm;
    int lasti = 0;
    int get_i() const { return i.get(); }
};

int fn_of(int kind, const Model& m)
{
    switch (kind) {
    case 1: return m.val;
    case 2: return m.val / 3;
    case 3: return m.n * 2 + m.val % 2;
    case 4: return m.val * 10 + 1;
    }
    return 0;
}

template <typename Tag, bool Futures>
struct Runner
{
    World w;
    std::shared_ptr<LoopImpl> loop;
    static auto mk(World& w, std::shared_ptr<LoopImpl> l)
    {
        if constexpr (Futures)
            return lager::make_store<Act, Tag>(Model{}, AnyLoop{l}, lager::with_deps(std::ref(w.env)),
                                               lager::with_futures);
        else
            return lager::make_store<Act, Tag>(Model{}, AnyLoop{l}, lager::with_deps(std::ref(w.env)));
    }
    using store_t = decltype(mk(std::declval<World&>(), nullptr));
    std::optional<store_t> store;
    std::optional<lager::context<Act, deps_t>> ctx_;
    lager::context<ActB> ctxb;
    lager::reader<Model> root;
    std::vector<std::shared_ptr<Obs>> obs;
    bool oom = false;
    int depth = 2;

    int ver() { return root.get().n; }

    // every read is some fold state, never older than one seen before, and
    // all derived readers agree with it
    void observe(const char* where)
    {
        sim::NoFail z;
        auto m = root.get();
        SIM_CHECK_ANY(({"C02", "C04", "C05"}), m.n >= 0 && m.n < (int) w.byver.size() && w.byver[m.n] == m,
                      "%s: visible model (version %d) is not the result of any prefix of the actions", where, m.n);
        SIM_CHECK_ANY(({"C02"}), m.n >= w.ver_seen, "%s: visible model went back from version %d to %d", where,
                      w.ver_seen, m.n);
        if (m.n > w.ver_seen)
            w.ver_seen = m.n;
        if (w.transactional)
            SIM_CHECK("C04", m.n == w.committed, "%s: uncommitted model version %d visible, committed is %d", where,
                      m.n, w.committed);
        SIM_CHECK("C02", store->get() == m, "%s: store and its reader disagree", where);
        for (auto& o : obs) {
            if (o->dead)
                continue;
            if (o->kind == 0)
                SIM_CHECK("C02", o->m.get() == m, "%s: reader of the store is not up to date", where);
            else
                SIM_CHECK_ANY(({"C02", "C04"}), o->get_i() == fn_of(o->kind, m),
                              "%s: derived reader kind %d shows %d, expected %d", where, o->kind, o->get_i(),
                              fn_of(o->kind, m));
        }
    }

    void add_obs()
    {
        sim::NoFail z;
        if (obs.size() > 8)
            return;
        auto o  = std::make_shared<Obs>();
        o->kind = choose(5);
        switch (o->kind) {
        case 0: o->m = root; break;
        case 1: o->i = (*store)[&Model::val]; break;
        case 2: o->i = root.map([](const Model& m) { return m.val / 3; }); break;
        case 3:
            o->i = lager::with(root[&Model::n], root.map([](const Model& m) { return m.val % 2; }))
                       .map([](int n, int v) { return n * 2 + v; });
            break;
        case 4: o->i = root[&Model::val].xform(zug::map([](int v) { return v * 10 + 1; })); break;
        }
        ev("reader made", o->kind, obs.size());
        obs.push_back(o);
    }

    void start_watch(std::shared_ptr<Obs> o)
    {
        sim::NoFail z;
        if (o->watching || o->dead)
            return;
        o->watching = true;
        o->fresh    = w.in_watch > 0;
        o->lastm    = root.get();
        o->lasti    = fn_of(o->kind, o->lastm);
        auto* raw   = o.get();
        ev("watch", o->kind);
        if (o->kind == 0)
            o->m.watch([this, raw](const Model& m) { on_watch(*raw, m, 0); });
        else
            o->i.watch([this, raw](const int& v) { on_watch(*raw, Model{}, v); });
    }

    void on_watch(Obs& o, const Model& m, int v)
    {
        {
            sim::NoFail z;
            o.calls++;
            w.fold_open = false;
            ev("notified", o.kind, o.kind ? v : m.n, ver());
            SIM_CHECK("C02", !o.dead, "a dropped reader's watcher was called");
            if (!w.transactional)
                SIM_CHECK("C02", w.loop->running > 0, "watcher ran outside the loop");
            SIM_CHECK("C02", w.in_reducer == 0 && w.in_effect == 0, "watcher ran inside another callback");
            observe("in watcher");
            auto cur = root.get();
            if (o.kind == 0) {
                SIM_CHECK("C02", m == cur, "watcher was given version %d while %d is visible", m.n, cur.n);
                SIM_CHECK("C02", m != o.lastm || o.fresh, "watcher called without a change");
                o.lastm = m;
            } else {
                SIM_CHECK("C02", v == fn_of(o.kind, cur), "watcher was given %d, reader shows %d", v,
                          fn_of(o.kind, cur));
                // kind 3 joins two readers of the store: it may be told of a
                // change twice (intermediate propagation), never given a wrong one
                if (o.kind != 3)
                    SIM_CHECK("C02", v != o.lasti || o.fresh, "watcher kind %d called without a change (%d)", o.kind, v);
                o.lasti = v;
            }
            o.fresh = false;
        }
        // a commit made outside of a synchronous loop notifies outside of it:
        // what a watcher dispatches there runs at once
        int dummy = 0;
        Depth g{w.loop->running > 0 ? w.in_watch : dummy};
        if (chance(25) && (w.loop->running > 0 || !w.loop->sync())) {
            // a watcher that throws keeps this change from the ones after it
            try {
                poke();
            } catch (...) {
                w.notify_broken = true;
                throw;
            }
        }
    }

    void drop_obs()
    {
        sim::NoFail z;
        if (obs.empty())
            return;
        auto i = choose(obs.size());
        auto o = obs[i];
        if (w.in_watch) {
            // destroying the reader whose callback is running is not allowed;
            // others may go
            return;
        }
        ev("reader dropped", o->kind);
        o->dead = true;
        o->m    = {};
        o->i    = {};
        obs.erase(obs.begin() + i);
    }

    void send_root(const SpecP& s)
    {
        bool ok = false;
        lager::future f;
        switch (choose(4)) {
        case 0: f = dispatch_spec(*store, s); break;
        case 1: f = dispatch_spec(*ctx_, s); break;
        case 2: {
            lager::context<Act> c = *ctx_;
            f                     = dispatch_spec(c, s);
            break;
        }
        case 3:
            if (s->b)
                f = dispatch_spec(ctxb, s);
            else
                f = dispatch_spec(*store, s);
            break;
        }
        (void) ok;
        attach(std::move(f), s);
    }

    void attach(lager::future f, const SpecP& s)
    {
        if (chance(50)) {
            int id = s->id;
            {
                sim::NoFail z;
                w.disps[id].has_cb = true;
            }
            int idx = -1;
            {
                sim::NoFail z;
                idx = w.steps.size();
                w.steps.push_back({});
            }
            bool chain = chance(40);
            auto g     = std::move(f).then([this, id] {
                sim::NoFail z;
                auto& d = w.disps[id];
                d.cb++;
                ev("future done", id, d.cb);
                SIM_CHECK("C07", d.cb == 1, "future of action %d completed twice", id);
                if (w.futures) {
                    SIM_CHECK("C07", w.loop->running > 0, "completion of action %d ran outside the loop", id);
                    SIM_CHECK("C07", w.in_effect == 0 && w.in_reducer == 0 && w.in_watch == 0,
                              "completion ran inside another callback");
                    SIM_CHECK("C07", d.folded == 1, "future of action %d completed before it was folded", id);
                    SIM_CHECK("C07", disp_done(id), "future of action %d completed before its effects", id);
                    if (!w.transactional)
                        SIM_CHECK("C07", ver() >= d.ver, "future of action %d completed before its update is visible",
                                  id);
                }
            });
            if (!w.futures)
                SIM_CHECK("C07", w.disps[id].cb == 1, "without futures a continuation must run at once");
            if (chain)
                std::move(g).then([this, idx, id] {
                    sim::NoFail z;
                    w.steps[idx].runs++;
                    SIM_CHECK("C07", w.steps[idx].runs == 1, "chained continuation ran twice");
                    SIM_CHECK("C07", w.disps[id].cb == 1, "chained continuation ran before its predecessor");
                });
        }
    }

    SpecP fresh(int d)
    {
        sim::NoFail z;
        return gen_spec(d, w.faults);
    }

    // a small operation inside a callback
    void poke()
    {
        if (w.budget-- < 0)
            return;
        switch (choose(5)) {
        case 0: {
            auto s = fresh(depth > 1 ? 1 : 0);
            // inside a callback nothing is folded before the callback is over
            auto before = w.folds.size();
            send_root(s);
            SIM_CHECK("C01", w.folds.size() == before, "dispatch from inside a callback folded at once");
            break;
        }
        case 1: resolve(); break;
        case 2:
            add_obs();
            break;
        case 3:
            if (!obs.empty()) {
                auto i = choose(obs.size());
                start_watch_in(i);
            }
            break;
        case 4: observe("poke"); break;
        }
    }
    void start_watch_in(std::size_t i) { start_watch(obs[i]); }

    void resolve()
    {
        std::vector<int> open;
        {
            sim::NoFail z;
            for (std::size_t i = 0; i < w.exts.size(); ++i)
                if (!w.exts[i].done)
                    open.push_back(i);
        }
        if (open.empty())
            return;
        auto i = open[choose(open.size())];
        w.exts[i].done = true;
        ev("external completion", i);
        lager::promise p = w.exts[i].p;
        p();
    }

    void do_commit()
    {
        if (!w.transactional)
            return;
        auto before = ver();
        (void) before;
        ev("commit", w.cur.n);
        w.committed = w.cur.n;
        lager::commit(*store);
        observe("after commit");
    }

    void note_failure(bool is_oom)
    {
        sim::NoFail z;
        if (is_oom) {
            w.oom_hits++;
            if (!post_refused)
                sim::fault("allocation fails");
        }
        ev("exception reached the runner", is_oom);
        // the reducer may have returned and the event failed after it
        if (is_oom) {
            auto nm = w.cur;
            // the fold on top may have been dropped: accept both
            if (w.fold_open && !w.folds.empty() && nm.n > 0 && w.byver.size() > 1) {
                auto last = w.folds.back();
                auto& d   = w.disps[last];
                d.tainted = true;
                if (!w.tentative && d.s->delta && d.ver == nm.n && root.get().n < nm.n) {
                    w.tentative = nm;
                    w.cur       = w.byver[nm.n - 1];
                }
            }
        }
    }

    template <typename F>
    void guarded(F&& f, bool arm)
    {
        post_refused = false;
        if (arm) {
            if (chance(50))
                refuse_post = 1 + choose(4);
            else
                sim::arm_alloc_failure(1 + choose(chance(50) ? 8 : 60));
        }
        bool oomed  = false;
        w.fold_open = false;
        try {
            f();
        } catch (const Injected&) {
            sim::arm_alloc_failure(0);
            refuse_post = 0;
            SIM_CHECK("C05", w.threw, "an exception nobody threw");
            note_failure(false);
        } catch (const std::bad_alloc&) {
            oomed = true;
        }
        if (arm) {
            bool fired = sim::alloc_failure_fired() || post_refused;
            sim::arm_alloc_failure(0);
            refuse_post = 0;
            if (post_refused)
                sim::fault("post refused");
            if (oomed) {
                SIM_CHECK("C05", fired, "bad_alloc without an injected failure");
                note_failure(true);
            } else if (fired)
                w.oom_hits++; // swallowed somewhere: tolerate like a hit
        } else if (oomed)
            sim::violation("no unexpected exception escapes", "bad_alloc");
        w.threw = false;
    }

    void run()
    {
        W              = &w;
        w.transactional = std::is_same_v<Tag, lager::transactional_tag>;
        w.futures      = Futures;
        w.faults       = active("C05") ? chance(80) : chance(15);
        oom            = active("C05") && chance(40);
        depth          = sim::g_thorough ? (int) choose(4) : (int) choose(3);
        switch (choose(5)) {
        case 0: loop = std::make_shared<QueueLoop>(); break;
        case 1: loop = std::make_shared<SafeLoop>(); break;
        case 2: loop = std::make_shared<ManualLoop>(); break;
        case 3: loop = std::make_shared<AsioLoop<false>>(); break;
        case 4: loop = std::make_shared<AsioLoop<true>>(); break;
        }
        if (loop->sync())
            oom = false;
        sim::probe(loop->name());
        w.loop = loop.get();
        store.emplace(mk(w, loop));
        ctx_.emplace(*store);
        ctxb = *ctx_;
        root = *store;
        w.get_ver = [this] { return ver(); };
        w.poke    = [this] { poke(); };
        w.observe = [this](const char* s) { observe(s); };
        int nobs  = choose(4);
        for (int i = 0; i < nobs; ++i) {
            add_obs();
            if (chance(80))
                start_watch(obs.back());
        }
        int avg = sim::g_thorough ? 40 : 18;
        unsigned wd = 1 + choose(4), ws = 1 + choose(4);
        while (more(avg) && w.budget-- > 0) {
            sim::Span sp;
            auto k = choose(8 + wd + ws);
            bool arm = oom && chance(40);
            if (k >= 8 + ws) {
                auto s = fresh(depth);
                ev("client dispatch", s->id);
                guarded([&] { send_root(s); }, false);
                sim::nontrivial();
            } else if (k >= 8) {
                bool one = chance(50);
                ev("loop runs", one);
                guarded([&] { loop->step(one); }, arm);
            } else
                switch (k) {
                case 0: observe("main"); break;
                case 1:
                case 2: guarded([&] { resolve(); }, false); break;
                case 3:
                    add_obs();
                    break;
                case 4:
                    if (!obs.empty())
                        start_watch(obs[choose(obs.size())]);
                    break;
                case 5: drop_obs(); break;
                case 6: guarded([&] { do_commit(); }, false); break;
                case 7:
                    if (chance(30)) {
                        ev("store moved");
                        store_t other = std::move(*store);
                        store.reset();
                        store.emplace(std::move(other));
                    }
                    break;
                }
            if (!w.tentative)
                observe("between operations");
        }
        finish();
        w.poke    = nullptr;
        obs.clear();
        root = {};
        store.reset();
        W = nullptr;
    }

    void finish()
    {
        // faults stop; everything pending must complete in bounded steps
        ev("drain");
        for (int i = 0; i < 600; ++i) {
            auto mark = std::make_tuple(w.folds.size(), sim::g_run.nevents);
            for (int k = 0; k < 50; ++k) {
                auto m2 = sim::g_run.nevents;
                guarded([&] { loop->step(false); }, false);
                if (m2 == sim::g_run.nevents)
                    break;
            }
            guarded([&] { resolve(); }, false);
            if (!w.tentative && w.transactional && w.committed != w.cur.n)
                guarded([&] { do_commit(); }, false);
            if (mark == std::make_tuple(w.folds.size(), sim::g_run.nevents))
                break;
        }
        if (w.tentative) {
            auto m = root.get();
            if (m == *w.tentative && !w.transactional)
                w.cur = *w.tentative;
            else if (w.transactional)
                return; // undecidable without another action
            w.tentative.reset();
        }
        // C01 / C05: nothing accepted is left
        for (auto i = w.fold_pos; i < w.order.size(); ++i)
            if (!w.disps[w.order[i]].maybe)
                w.holes++;
        SIM_CHECK_ANY(({"C01", "C05"}), w.holes <= w.oom_hits, "%d accepted action(s) never folded", w.holes);
        for (auto i = w.eff_pos; i < w.eff_order.size(); ++i)
            w.eff_holes++;
        SIM_CHECK_ANY(({"C03", "C05"}), w.eff_holes <= w.oom_hits, "%d effect(s) never ran", w.eff_holes);
        // every part ran unless something it waits for failed
        if (w.oom_hits == 0)
            for (auto id : w.folds) {
                auto& d   = w.disps[id];
                bool ok   = true;
                for (auto& p : d.s->parts) {
                    auto& ps = w.parts[p.id];
                    if (ok)
                        SIM_CHECK_ANY(({"C03", "C05"}), ps.runs == 1, "effect part of action %d ran %d times", id,
                                      ps.runs);
                    if (p.throws)
                        ok = false;
                    for (auto& x : ps.waits)
                        if (tainted(x))
                            ok = false;
                }
            }
        SIM_CHECK_ANY(({"C01", "C02", "C05"}), root.get() == w.cur,
                      "idle, but the visible model is version %d and the fold is version %d", root.get().n, w.cur.n);
        observe("idle");
        for (auto& o : obs)
            if (o->watching && !w.threw && !w.notify_broken) {
                if (o->kind == 0)
                    SIM_CHECK_ANY(({"C02", "C05"}), o->lastm == w.cur,
                                  "watcher was last told version %d, the final one is %d", o->lastm.n, w.cur.n);
                else
                    SIM_CHECK_ANY(({"C02", "C05"}), o->lasti == fn_of(o->kind, w.cur),
                                  "watcher kind %d was last told %d, final value is %d", o->kind, o->lasti,
                                  fn_of(o->kind, w.cur));
            }
        // C07
        if (w.futures && w.oom_hits == 0)
            for (std::size_t i = 0; i < w.disps.size(); ++i) {
                auto& d = w.disps[i];
                if (!d.has_cb || !d.accepted)
                    continue;
                if (d.rthrew)
                    SIM_CHECK("C07", d.cb == 0, "future of action %d completed though its reducer threw", (int) i);
                else if (!disp_tainted(i))
                    SIM_CHECK("C07", d.cb == 1, "future of action %d never completed", (int) i);
            }
        for (auto& s : w.steps)
            SIM_CHECK("C07", s.runs <= 1, "continuation ran %d times", s.runs);
        // loop control through the context
        if (chance(20)) {
            auto& l = ctx_->loop();
            l.pause();
            SIM_CHECK("C03", loop->paused == 1, "pause did not reach the loop");
            l.resume();
            SIM_CHECK("C03", loop->paused == 0, "resume did not reach the loop");
            l.finish();
            SIM_CHECK("C03", loop->finished == 1, "finish did not reach the loop");
        }
    }
};

template <typename Tag, bool F>
void go()
{
    auto r = std::make_unique<Runner<Tag, F>>();
    r->run();
}

} // namespace

SIM_SCENARIO(store_history)
{
    bool tr;
    if (active("C04"))
        tr = true;
    else if (active("C02"))
        tr = false;
    else
        tr = chance(25);
    bool fut = active("C07") ? chance(85) : chance(50);
    if (tr)
        fut ? go<lager::transactional_tag, true>() : go<lager::transactional_tag, false>();
    else
        fut ? go<lager::automatic_tag, true>() : go<lager::automatic_tag, false>();
}
