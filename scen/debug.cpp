// Debugger histories: a store under the list debugger or the tree debugger,
// driven by user actions, debugger commands, effects and loop steps in every
// order.  Judged against a small reference: the log of dispatches folded by
// a plain C++ model of the two debuggers.
#include "sim.hpp"

#include <cassert>

#include <lager/debug/debugger.hpp>
#include <lager/debug/tree_debugger.hpp>
#include <lager/event_loop/manual.hpp>
#include <lager/store.hpp>

#include <deque>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <variant>

namespace {
using sim::chance;
using sim::choose;
using sim::ev;
using sim::more;

struct Injected : std::exception
{
    const char* what() const noexcept override { return "injected"; }
};

struct M
{
    unsigned v = 7;
    int n      = 0;
    bool operator==(const M&) const = default;
};
struct UA
{
    int id    = -1;
    bool eff  = false; // its reducer returns an effect
    bool operator==(const UA&) const = default;
};
M step(M m, int id) { return {m.v * 31u + (unsigned) id + 1u, m.n + 1}; }
struct Svc
{
    int x = 0;
};

// ---------------------------------------------------------- reference model --
enum Cmd
{
    USER,
    GOTO,
    UNDO,
    REDO,
    PAUSE,
    RESUME
};
struct TPos
{
    std::size_t branch, step;
    bool operator==(const TPos&) const = default;
};
struct Command
{
    Cmd c;
    UA a;
    std::size_t cur = 0;     // list
    std::vector<TPos> tcur;  // tree
};
struct LStep
{
    UA a;
    M m;
    bool operator==(const LStep&) const = default;
};
struct TNode
{
    UA a;
    M m;
    std::vector<std::vector<TNode>> branches;
    bool operator==(const TNode&) const = default;
};

struct Exp
{
    int kind; // 0 pause, 1 resume, 2 user effect
    int id;
    std::size_t at;  // state that must be visible
    bool batch;      // deferred: part of a resume
};

struct RefBase
{
    bool paused = false;
    M init;
    std::vector<UA> pending;
};
struct RefList : RefBase
{
    std::size_t cursor = 0;
    std::vector<LStep> hist;
    bool operator==(const RefList& o) const
    {
        return paused == o.paused && init == o.init && pending == o.pending && cursor == o.cursor && hist == o.hist;
    }
    const M& visible() const { return cursor ? hist[cursor - 1].m : init; }
    void append(UA a)
    {
        auto m = step(visible(), a.id);
        hist.resize(cursor);
        hist.push_back({a, m});
        cursor = hist.size();
    }
    void move(const Command& c)
    {
        if (c.c == UNDO && cursor)
            --cursor;
        if (c.c == REDO && cursor < hist.size())
            ++cursor;
        if (c.c == GOTO && c.cur <= hist.size())
            cursor = c.cur;
    }
};
struct RefTree : RefBase
{
    std::vector<TPos> cursor;
    std::vector<std::vector<TNode>> branches;
    bool operator==(const RefTree& o) const
    {
        return paused == o.paused && init == o.init && pending == o.pending && cursor == o.cursor && branches == o.branches;
    }
    const TNode* find(const std::vector<TPos>& c) const
    {
        const TNode* n = nullptr;
        auto* b        = &branches;
        for (auto& p : c) {
            if (p.branch >= b->size() || p.step >= (*b)[p.branch].size())
                return nullptr;
            n = &(*b)[p.branch][p.step];
            b = &n->branches;
        }
        return n;
    }
    const M& visible() const { return cursor.empty() ? init : find(cursor)->m; }
    void append(UA a)
    {
        TNode x{a, step(visible(), a.id), {}};
        if (cursor.empty()) {
            branches.push_back({x});
            cursor = {{branches.size() - 1, 0}};
            return;
        }
        auto* b = &branches;
        for (std::size_t k = 0; k + 1 < cursor.size(); ++k)
            b = &(*b)[cursor[k].branch][cursor[k].step].branches;
        auto& l    = cursor.back();
        auto& line = (*b)[l.branch];
        if (l.step + 1 == line.size()) {
            line.push_back(x);
            l.step++;
        } else {
            auto& n = line[l.step];
            n.branches.push_back({x});
            cursor.push_back({n.branches.size() - 1, 0});
        }
    }
    void move(const Command& c)
    {
        if (c.c == UNDO && !cursor.empty()) {
            if (cursor.back().step)
                cursor.back().step--;
            else
                cursor.pop_back();
        }
        if (c.c == GOTO && (c.tcur.empty() || find(c.tcur)))
            cursor = c.tcur;
    }
};

// ------------------------------------------------- the real thing's model --
template <typename DM>
bool same(const DM& d, const RefBase& r)
{
    if (d.paused != r.paused || !(d.init == r.init) || d.pending.size() != r.pending.size())
        return false;
    for (std::size_t k = 0; k < r.pending.size(); ++k)
        if (!(d.pending[k] == r.pending[k]))
            return false;
    return true;
}
template <typename DM>
bool matches(const DM& d, const RefList& r)
{
    if (!same(d, r) || d.cursor != r.cursor || d.history.size() != r.hist.size())
        return false;
    for (std::size_t k = 0; k < r.hist.size(); ++k)
        if (!(d.history[k].action == r.hist[k].a) || !(d.history[k].model == r.hist[k].m))
            return false;
    return true;
}
template <typename Bs>
bool tmatch(const Bs& b, const std::vector<std::vector<TNode>>& r)
{
    if (b.size() != r.size())
        return false;
    for (std::size_t k = 0; k < r.size(); ++k) {
        if (b[k].size() != r[k].size())
            return false;
        for (std::size_t j = 0; j < r[k].size(); ++j) {
            auto& n = *b[k][j];
            if (!(n.action == r[k][j].a) || !(n.model == r[k][j].m) || !tmatch(n.branches, r[k][j].branches))
                return false;
        }
    }
    return true;
}
template <typename DM>
bool matches(const DM& d, const RefTree& r)
{
    if (!same(d, r) || d.cursor.size() != r.cursor.size())
        return false;
    for (std::size_t k = 0; k < r.cursor.size(); ++k)
        if (d.cursor[k].branch != r.cursor[k].branch || d.cursor[k].step != r.cursor[k].step)
            return false;
    return tmatch(d.branches, r.branches);
}

std::string show(const RefList& r)
{
    return sim::fmt("cursor %zu of %zu, %s, %zu deferred, model n=%d", r.cursor, r.hist.size(), r.paused ? "paused" : "running",
                    r.pending.size(), r.visible().n);
}
std::string show(const RefTree& r)
{
    std::string c;
    for (auto& p : r.cursor)
        c += sim::fmt("%zu.%zu ", p.branch, p.step);
    return sim::fmt("cursor [%s] of %zu branches, %s, %zu deferred, model n=%d", c.c_str(), r.branches.size(),
                    r.paused ? "paused" : "running", r.pending.size(), r.visible().n);
}
template <typename DM>
std::string show_real(const DM& d)
{
    std::string c;
    if constexpr (requires { d.history; })
        c = sim::fmt("cursor %zu of %zu", d.cursor, d.history.size());
    else {
        for (auto& p : d.cursor)
            c += sim::fmt("%zu.%zu ", p.branch, p.step);
        c = sim::fmt("cursor [%s] of %zu branches", c.c_str(), d.branches.size());
    }
    std::string n = "none";
    try {
        n = std::to_string(static_cast<const M&>(d).n);
    } catch (const std::exception& e) {
        n = e.what();
    }
    return sim::fmt("%s, %s, %zu deferred, model n=%s", c.c_str(), d.paused ? "paused" : "running", d.pending.size(), n.c_str());
}

// ---------------------------------------------------------------- the loop --
// A pausable loop with the behaviour of the SDL one: posted work also runs
// while it is paused.
struct SimLoop
{
    std::deque<std::function<void()>> q;
    std::function<void(bool)> on_pause;
    int running = 0;
};
struct with_sim_loop
{
    SimLoop* l;
    void post(std::function<void()> f) { l->q.push_back(std::move(f)); }
    void async(std::function<void()>) {}
    void finish() {}
    void pause() { l->on_pause(true); }
    void resume() { l->on_pause(false); }
};

// ------------------------------------------------------------- the harness --
template <typename DebugAction, typename DebugModel>
struct Handle
{
    lager::context<DebugAction> ctx;
    lager::reader<DebugModel> data;
    int inits = 0;
    template <typename C, typename R>
    void init(C&& c, R&& r)
    {
        ctx  = c;
        data = std::forward<R>(r);
        ++inits;
    }
};
struct Server
{
    std::shared_ptr<void> h;
    template <typename D>
    auto make(D)
    {
        auto p = std::make_shared<Handle<typename D::action, typename D::model>>();
        h      = p;
        return p;
    }
};

using EDeps = lager::deps<Svc&>;

template <template <class, class, class> class Debugger, typename Deps, typename Ref>
struct World
{
    using Dbg                  = Debugger<UA, M, Deps>;
    static constexpr bool with_svc = !std::is_same_v<Deps, lager::deps<>>;
    static constexpr bool tree = std::is_same_v<Ref, RefTree>;
    using DA                   = typename Dbg::action;
    using DM                   = typename Dbg::model;

    SimLoop loop;
    Svc svc{42};
    Handle<DA, DM>* h = nullptr;
    std::function<void(UA)> dispatch_store;
    std::function<void(UA)> dispatch_ctx;
    std::vector<Ref> S;
    std::vector<Exp> E;
    std::size_t epos = 0, shown = 0;
    std::map<int, int> throws, ref_throws; // reducer of action id
    int next_id   = 0;
    int budget    = 12; // dispatches from effects
    bool pauses   = true;
    bool in_red   = false;
    int in_eff    = 0;
    int effects   = 0;
    bool throwing = true;

    static std::initializer_list<const char*> ps()
    {
        static const std::initializer_list<const char*> l = {"C16", "C17"}, t = {"C18", "C17"};
        return tree ? t : l;
    }

    // --- reference -----------------------------------------------------------
    bool fold_user(Ref& r, UA a, std::vector<Exp>& e, bool batch)
    {
        auto it = ref_throws.find(a.id);
        if (it != ref_throws.end() && it->second > 0) {
            it->second--;
            return false;
        }
        r.append(a);
        if (a.eff)
            e.push_back({2, a.id, 0, batch});
        return true;
    }
    void expect(const Command& c)
    {
        Ref r = S.back();
        std::vector<Exp> e;
        switch (c.c) {
        case USER:
            if (r.paused)
                r.pending.push_back(c.a);
            else if (!fold_user(r, c.a, e, false))
                return;
            break;
        case PAUSE:
            r.paused = true;
            e.push_back({0, 0, 0, false});
            break;
        case RESUME: {
            auto p   = std::move(r.pending);
            r.paused = false;
            r.pending.clear();
            e.push_back({1, 0, 0, true});
            for (auto& a : p)
                if (!fold_user(r, a, e, true))
                    return; // nothing happened: still paused, all deferred
            break;
        }
        default: r.move(c);
        }
        S.push_back(std::move(r));
        for (auto& x : e) {
            x.at = S.size() - 1;
            if (x.kind == 2 || !manual) // the manual loop is not told
                E.push_back(x);
        }
    }

    // --- observing --------------------------------------------------------------
    void observe(bool idle)
    {
        auto& d = h->data.get();
        if (idle) {
            SIM_CHECK_ANY((ps()), matches(d, S.back()), "the debugger shows %s; expected %s", show_real(d).c_str(),
                          show(S.back()).c_str());
            shown = S.size() - 1;
        } else {
            auto k = shown;
            while (k < S.size() && !matches(d, S[k]))
                ++k;
            SIM_CHECK_ANY((ps()), k < S.size(), "the debugger shows %s, not a state it was in (last %s; newest %s)",
                          show_real(d).c_str(), show(S[shown]).c_str(), show(S.back()).c_str());
            if (k < S.size())
                shown = k;
        }
        if (k_visible) {
            const M& m = static_cast<const M&>(d);
            SIM_CHECK_ANY((ps()), m == S[shown].visible(), "the visible model is n=%d, not the one recorded at the cursor", m.n);
        }
    }
    bool k_visible = true;

    // an effect (or a loop command) is happening
    void happened(int kind, int id)
    {
        ev(kind == 0 ? "loop paused" : kind == 1 ? "loop resumed" : "effect", id);
        SIM_CHECK_ANY((ps()), epos < E.size() && E[epos].kind == kind && E[epos].id == id,
                      "%s %d happened; expected was %s %d", kind == 0 ? "pause" : kind == 1 ? "resume" : "effect of action", id,
                      epos >= E.size() ? "nothing"
                      : E[epos].kind == 0 ? "pause"
                      : E[epos].kind == 1 ? "resume"
                                          : "effect of action",
                      epos < E.size() ? E[epos].id : -1);
        auto at = epos < E.size() ? E[epos].at : 0;
        epos++;
        observe(false);
        auto& d = h->data.get();
        auto k  = at;
        while (k < S.size() && !matches(d, S[k]))
            ++k;
        SIM_CHECK_ANY((ps()), k < S.size(), "an effect ran before its action was visible");
        sim::nontrivial();
    }

    M reduce(M m, UA a)
    {
        SIM_CHECK_ANY((ps()), !in_red, "a reducer ran inside another one");
        in_red = true;
        ev("reduce", a.id, m.n);
        auto it = throws.find(a.id);
        if (it != throws.end() && it->second > 0) {
            it->second--;
            in_red = false;
            sim::fault("reducer throws");
            throw Injected{};
        }
        in_red = false;
        sim::nontrivial();
        return step(m, a.id);
    }
    template <typename Ctx>
    void run_effect(const Ctx& ctx, int id)
    {
        bool batch = epos < E.size() && E[epos].batch;
        happened(2, id);
        ++effects;
        int n = budget > 0 && chance(40) ? 1 + choose(2) : 0;
        for (int k = 0; k < n; ++k) {
            budget--;
            auto a = new_action();
            record({USER, a});
            ev("dispatch in effect", a.id, a.eff);
            ctx.dispatch(a);
        }
        if (!batch && throwing && chance(5)) {
            sim::fault("effect throws");
            throw Injected{};
        }
    }

    UA new_action()
    {
        UA a{next_id++, chance(45)};
        if (throwing && chance(10)) {
            int n           = 1 + choose(2);
            throws[a.id]     = n;
            ref_throws[a.id] = n;
        }
        return a;
    }
    void record(Command c) { expect(c); }

    // --- commands ------------------------------------------------------------
    bool manual = false; // dispatching runs the loop at once

    void guarded(std::function<void()> f)
    {
        try {
            f();
        } catch (const Injected&) {
            ev("exception");
            if (manual) // what is left runs when the loop is used again
                guarded([&] { h->ctx.loop().post([] {}); });
        }
    }
    void user()
    {
        auto a = new_action();
        ev("action", a.id, a.eff);
        record({USER, a});
        bool viactx = chance(30);
        guarded([&] { viactx ? dispatch_ctx(a) : dispatch_store(a); });
    }
    void command(DA a, Command c, const char* tag, long long x = 0, long long y = 0)
    {
        ev(tag, x, y);
        record(c);
        guarded([&] { h->ctx.dispatch(a); });
    }
    void collect(const std::vector<std::vector<TNode>>& b, std::vector<TPos> at, std::vector<std::vector<TPos>>& out)
    {
        for (std::size_t k = 0; k < b.size(); ++k)
            for (std::size_t j = 0; j < b[k].size(); ++j) {
                auto p = at;
                p.push_back({k, j});
                out.push_back(p);
                collect(b[k][j].branches, p, out);
            }
    }
    std::vector<TPos> some_pos(const RefTree& r)
    {
        std::vector<std::vector<TPos>> all{{}};
        collect(r.branches, {}, all);
        auto p = all[choose(all.size())];
        if (chance(25)) { // most likely not there
            switch (choose(4)) {
            case 0: p.push_back({choose(3), choose(3)}); break;
            case 1:
                if (!p.empty())
                    p.back().step += 1 + choose(3);
                break;
            case 2:
                if (!p.empty())
                    p.back().branch += 1 + choose(3);
                break;
            default: p.push_back({(std::size_t) -1, (std::size_t) -1});
            }
        }
        return p;
    }
    std::size_t some_pos(const RefList& r)
    {
        if (chance(10))
            return (std::size_t) -1 - choose(2);
        return choose(r.hist.size() + 3);
    }
    void do_goto()
    {
        auto& r = S.back();
        Command c{GOTO};
        if constexpr (tree) {
            c.tcur  = some_pos(r);
            auto cu = typename Dbg::cursor_t{};
            for (auto& p : c.tcur)
                cu = cu.push_back({p.branch, p.step});
            command(typename Dbg::goto_action{cu}, c, "goto", c.tcur.size(), c.tcur.empty() ? -1 : (long long) c.tcur.back().step);
        } else {
            c.cur = some_pos(r);
            command(typename Dbg::goto_action{c.cur}, c, "goto", c.cur);
        }
    }
    void do_lookup()
    {
        auto& r = S[shown];
        auto d  = h->data.get(); // a copy: must stay valid
        std::optional<UA> a;
        M m;
        bool thrown = false;
        try {
            if constexpr (tree) {
                auto p  = some_pos(r);
                auto cu = typename Dbg::cursor_t{};
                for (auto& x : p)
                    cu = cu.push_back({x.branch, x.step});
                ev("lookup", p.size(), p.empty() ? -1 : (long long) p.back().step);
                auto n = p.empty() ? nullptr : r.find(p);
                if (p.empty())
                    m = r.init;
                else if (n)
                    a = n->a, m = n->m;
                else
                    thrown = true;
                SIM_CHECK_ANY((ps()), d.check(cu) == !thrown, "a position is said to %s", thrown ? "exist" : "not exist");
                look(d, cu, thrown, a, m);
            } else {
                auto p = some_pos(r);
                ev("lookup", p);
                if (p > r.hist.size())
                    thrown = true;
                else if (p == 0)
                    m = r.init;
                else
                    a = r.hist[p - 1].a, m = r.hist[p - 1].m;
                look(d, p, thrown, a, m);
            }
        } catch (const std::runtime_error& e) {
            SIM_CHECK_ANY((ps()), thrown, "looking up a recorded position failed: %s", e.what());
        }
        if constexpr (tree)
            check_summary(d.summary(), r.branches);
        else
            SIM_CHECK_ANY((ps()), d.summary() == r.hist.size(), "the summary says %zu steps, there are %zu", d.summary(),
                          r.hist.size());
    }
    template <typename C>
    void look(const DM& d, const C& c, bool thrown, const std::optional<UA>& a, const M& m)
    {
        auto res = d.lookup(c);
        SIM_CHECK_ANY((ps()), !thrown, "looking up a position that does not exist was not refused");
        if (thrown)
            return;
        SIM_CHECK_ANY((ps()), res.first == a && res.second == m, "looking up a recorded position gave another step");
    }
    // every run of steps and, between two runs, the branches of one step
    template <typename Sum>
    void check_summary(const Sum& s, const std::vector<std::vector<TNode>>& b)
    {
        SIM_CHECK_ANY((ps()), s.size() == b.size(), "the summary lists %zu branches, there are %zu", (std::size_t) s.size(), b.size());
        for (std::size_t k = 0; k < b.size() && k < s.size(); ++k) {
            std::vector<std::size_t> forks;
            for (std::size_t j = 0; j < b[k].size(); ++j)
                if (!b[k][j].branches.empty())
                    forks.push_back(j);
            SIM_CHECK_ANY((ps()), s[k].size() == forks.size() + 1, "the summary of a branch has %zu parts, expected %zu",
                          (std::size_t) s[k].size(), forks.size() + 1);
            if (s[k].size() != forks.size() + 1)
                continue;
            std::size_t from = 0;
            for (std::size_t f = 0; f < forks.size(); ++f) {
                auto& x = *s[k][f];
                SIM_CHECK_ANY((ps()), x.steps == forks[f] - from, "the summary lists %zu steps before a fork, there are %zu", x.steps,
                              forks[f] - from);
                check_summary(x.branches, b[k][forks[f]].branches);
                from = forks[f] + 1;
            }
            auto& x = *s[k][forks.size()];
            SIM_CHECK_ANY((ps()), x.steps == b[k].size() - from && x.branches.size() == 0,
                          "the summary lists %zu steps at the end of a branch, there are %zu", x.steps, b[k].size() - from);
        }
    }

    bool step_loop()
    {
        if (loop.q.empty())
            return false;
        auto f = std::move(loop.q.front());
        loop.q.pop_front();
        guarded(f);
        f = nullptr;
        observe(false);
        return true;
    }
    void settle()
    {
        while (step_loop())
            ;
        observe(true);
        SIM_CHECK_ANY((ps()), epos == E.size(), "the loop is idle, but %zu expected effects or loop commands did not happen (next: kind %d, action %d)",
                      E.size() - epos, epos < E.size() ? E[epos].kind : -1, epos < E.size() ? E[epos].id : -1);
    }

    template <typename Store>
    void drive(Store& store)
    {
        dispatch_store = [&](UA a) { store.dispatch(a); };
        lager::context<UA> uctx{store};
        dispatch_ctx = [uctx](UA a) { uctx.dispatch(a); };
        loop.on_pause = [&](bool p) { happened(p ? 0 : 1, 0); };
        SIM_CHECK_ANY((ps()), h->inits == 1, "the debugging server was initialised %d times", h->inits);
        lager::reader<DM> d{h->data};
        lager::reader<DM> direct{store.map([](auto&& m) { return m; })};
        std::optional<DM> last;
        watch(d, [&](const DM& m) {
            ev("watch", m.paused);
            observe(false);
            SIM_CHECK_ANY((ps()), m.paused == S[shown].paused, "a watcher was given another model than is visible");
        });
        lager::reader<M> vis{store.map([](auto&& m) -> M { return static_cast<const M&>(m); })};
        pauses = sim::active("C17") || chance(25);
        observe(true);
        int avg = sim::g_thorough ? 50 : 28;
        while (more(avg)) {
            sim::Span sp;
            switch (choose(12)) {
            case 0:
            case 1:
            case 2:
            case 3: user(); break;
            case 4:
            case 5:
                if (manual)
                    do_lookup();
                else if (chance(35))
                    settle();
                else
                    step_loop();
                break;
            case 6: command(typename Dbg::undo_action{}, {UNDO}, "undo"); break;
            case 7:
                if constexpr (!tree) // the tree debugger has no redo
                    command(typename Dbg::redo_action{}, {REDO}, "redo");
                else
                    command(typename Dbg::undo_action{}, {UNDO}, "undo");
                break;
            case 8: do_goto(); break;
            case 9: do_lookup(); break;
            case 10:
                if (pauses)
                    command(typename Dbg::pause_action{}, {PAUSE}, "pause");
                else
                    do_goto();
                break;
            default:
                if (pauses)
                    command(typename Dbg::resume_action{}, {RESUME}, "resume");
                else
                    do_lookup();
            }
            if (manual)
                settle();
            SIM_CHECK_ANY((ps()), vis.get() == S[shown].visible() && matches(direct.get(), S[shown]),
                          "two readers of the debugged store disagree");
        }
        settle();
        // nothing may have been lost for good: resuming folds what is deferred
        for (int k = 0; k < 40 && S.back().paused; ++k) {
            command(typename Dbg::resume_action{}, {RESUME}, "last resume");
            settle();
        }
        SIM_CHECK_ANY((ps()), !S.back().paused && S.back().pending.empty(), "cannot be resumed");
        do_lookup();
    }
    void run(bool man)
    {
        manual = man;
        S.push_back(Ref{});
        ev("store", tree, manual, with_svc);
        Server server;
        auto finish = [&](auto&& store) {
            h = static_cast<Handle<DA, DM>*>(server.h.get());
            drive(store);
            loop.q.clear();
        };
        // the reducer needs a dependency, does not need it, or has no effects
        auto mk = [&](auto red, auto... deps) {
            if (manual)
                finish(lager::make_store<UA>(M{}, lager::with_manual_event_loop{}, deps..., lager::with_reducer(red),
                                             lager::with_debugger<Debugger>(server)));
            else
                finish(lager::make_store<UA>(M{}, with_sim_loop{&loop}, deps..., lager::with_reducer(red),
                                             lager::with_debugger<Debugger>(server)));
        };
        if constexpr (with_svc)
            mk([this](M m, UA a) -> lager::result<M, UA, EDeps> {
                   auto r = reduce(m, a);
                   if (a.eff)
                       return {r, lager::effect<UA, EDeps>{[this, id = a.id](auto&& ctx) {
                                   SIM_CHECK_ANY((ps()), &lager::get<Svc>(ctx) == &svc,
                                                 "an effect did not get its dependency");
                                   run_effect(ctx, id);
                               }}};
                   return r;
               },
               lager::with_deps(std::ref(svc)));
        else
            mk([this](M m, UA a) -> lager::result<M, UA> {
                auto r = reduce(m, a);
                if (a.eff)
                    return {r, lager::effect<UA>{[this, id = a.id](auto&& ctx) { run_effect(ctx, id); }}};
                return r;
            });
    }
};
using NoDeps  = lager::deps<>;
using SvcDeps = decltype(lager::deps<>{}.merge(lager::make_deps(std::ref(std::declval<Svc&>()))));

SIM_SCENARIO(dbg_history)
{
    bool man = chance(20);
    if (chance(50))
        World<lager::debugger, SvcDeps, RefList>{}.run(man);
    else
        World<lager::debugger, NoDeps, RefList>{}.run(man);
}
SIM_SCENARIO(tree_history)
{
    bool man = chance(20);
    if (chance(50))
        World<lager::tree_debugger, SvcDeps, RefTree>{}.run(man);
    else
        World<lager::tree_debugger, NoDeps, RefTree>{}.run(man);
}
} // namespace
