// Concurrent scenarios: real std::threads run under the simulated scheduler of
// sim/rt_threads.cpp, which preempts at memory accesses.  Real code: store,
// context, effects, futures, safe_queue and asio loops, Boost.Asio itself.
#include "rt.hpp"

#include <cassert>

#include <lager/commit.hpp>
#include <lager/event_loop/boost_asio.hpp>
#include <lager/event_loop/safe_queue.hpp>
#include <lager/reader.hpp>
#include <lager/store.hpp>
#include <lager/util.hpp>

#include <boost/asio/executor_work_guard.hpp>
#include <boost/asio/io_context.hpp>
#include <boost/asio/strand.hpp>

#include <memory>
#include <mutex>
#include <optional>
#include <thread>

namespace {

using sim::active;
using sim::chance;
using sim::choose;
using sim::ev;
using sim::Quiet;

namespace asio = boost::asio;

// ------------------------------------------------------------------ loops --
// One interface over the loops that accept work from other threads.
struct TLoop
{
    int in_cb            = 0; // callbacks running now (Quiet)
    long long posted     = 0; // activity counter (Quiet)
    int owner            = 0; // simulated thread that runs the loop, -1: several
    virtual ~TLoop()     = default;
    virtual void post(std::function<void()> f)  = 0;
    virtual void async(std::function<void()> f) = 0;
    virtual bool has_async() const { return false; }
    virtual const char* name() const = 0;
    //! Runs the loop on the calling thread (thread 0) until `over` holds, then
    //! until nothing is left.
    virtual void serve(const std::function<bool()>& over) = 0;
    void note()
    {
        Quiet z;
        posted++;
    }
};

struct SafeT : TLoop
{
    lager::safe_queue_event_loop q;
    lager::with_safe_queue_event_loop w{q};
    void post(std::function<void()> f) override
    {
        w.post(std::move(f));
        note();
    }
    void async(std::function<void()>) override {}
    const char* name() const override { return "safe_queue"; }
    void serve(const std::function<bool()>& over) override
    {
        for (;;) {
            long long seen;
            {
                Quiet z;
                seen = posted;
            }
            q.step();
            bool o;
            {
                Quiet z;
                o = over();
            }
            if (o)
                break;
            sim::wait_until([&] { return posted != seen || over(); });
        }
        for (;;) {
            long long seen;
            {
                Quiet z;
                seen = posted;
            }
            q.step();
            Quiet z;
            if (seen == posted)
                break;
        }
        q.step();
    }
};

template <bool Strand>
struct AsioT : TLoop
{
    asio::io_context ioc;
    using strand_t = asio::strand<asio::io_context::executor_type>;
    using ex_t     = std::conditional_t<Strand, strand_t, asio::io_context::executor_type>;
    ex_t ex;
    lager::with_boost_asio_event_loop<ex_t> w;
    int runners;
    static ex_t mk(asio::io_context& c)
    {
        if constexpr (Strand)
            return asio::make_strand(c);
        else
            return c.get_executor();
    }
    explicit AsioT(int r)
        : ex{mk(ioc)}
        , w{ex}
        , runners{r}
    {
        if (r > 1)
            owner = -1;
    }
    void post(std::function<void()> f) override
    {
        w.post(std::move(f));
        note();
    }
    void async(std::function<void()> f) override { w.async(std::move(f)); }
    bool has_async() const override { return true; }
    const char* name() const override { return Strand ? (runners > 1 ? "asio strand, 2 runners" : "asio strand") : "asio"; }
    void serve(const std::function<bool()>& over) override
    {
        if (runners == 1 && choose(2)) {
            // polling owner
            for (;;) {
                long long seen;
                {
                    Quiet z;
                    seen = posted;
                }
                ioc.restart();
                ioc.poll();
                bool o;
                {
                    Quiet z;
                    o = over();
                }
                if (o)
                    break;
                sim::wait_until([&] { return posted != seen || over(); });
            }
        } else {
            // blocking owner; a closer thread lets it return
            auto guard = asio::make_work_guard(ioc);
            std::thread closer([&] {
                sim::wait_until(over);
                guard.reset();
            });
            std::vector<std::thread> more;
            for (int i = 1; i < runners; ++i)
                more.emplace_back([&] { ioc.run(); });
            ioc.run();
            closer.join();
            for (auto& t : more)
                t.join();
        }
        sim::join_all_others();
        ioc.restart();
        ioc.run();
    }
};

std::shared_ptr<TLoop> pick_loop()
{
    switch (choose(4)) {
    case 0: return std::make_shared<SafeT>();
    case 1: return std::make_shared<AsioT<false>>(1);
    case 2: return std::make_shared<AsioT<true>>(1);
    default: return std::make_shared<AsioT<true>>(2);
    }
}

struct AnyT
{
    std::shared_ptr<TLoop> l;
    template <typename Fn>
    void post(Fn&& fn)
    {
        l->post(std::forward<Fn>(fn));
    }
    template <typename Fn>
    void async(Fn&& fn)
    {
        l->async(std::forward<Fn>(fn));
    }
    void finish() {}
    void pause() {}
    void resume() {}
};

// marks a callback of the loop: exclusive, on the owner
struct InCb
{
    TLoop& l;
    explicit InCb(TLoop& x, const char* what)
        : l{x}
    {
        {
            Quiet z;
            l.in_cb++;
            SIM_CHECK_ANY(({"C01", "C03", "C06", "C07", "C08"}), l.in_cb == 1,
                          "%s started while another callback of the loop is running", what);
            if (l.owner >= 0)
                SIM_CHECK_ANY(({"C01", "C03", "C06", "C07", "C08"}), sim::self() == l.owner,
                              "%s ran on thread %d, the loop's owner is %d", what, sim::self(), l.owner);
        }
        sim::yield();
    }
    ~InCb()
    {
        Quiet z;
        l.in_cb--;
    }
};

// ----------------------------------------------------------------- store ---
struct M
{
    int n           = 0;
    std::uint64_t h = 0;
    bool operator==(const M& o) const { return n == o.n && h == o.h; }
    bool operator!=(const M& o) const { return !(*this == o); }
};
struct A
{
    int id;
};
enum K
{
    k_plain,
    k_effect,
    k_send,
    k_ext,
    k_async,
    k_seq,
    k_also,
    k_count
};
struct Spec
{
    int sender, seq, kind, depth;
    int folded = 0, effects = 0, cb = 0, parts = 0;
    bool want_cb = false;
    int ver      = -1;
    std::vector<int> exts;  // completions it waits for
    std::vector<int> child; // dispatches it waits for
};
struct Ext
{
    bool begun = false;
};
struct SW
{
    TLoop* loop = nullptr;
    bool futures, transactional;
    std::vector<Spec> specs;
    std::map<int, int> last_seq; // per sender, last folded
    std::map<int, int> next_seq;
    M cur;
    std::vector<M> hist{M{}};
    std::vector<Ext> exts;
    int live = 0; // threads (or pending completions) that may still produce work
    int budget = 60;
    int watch_ver = 0;
    const M* visible = nullptr;
};
SW* S = nullptr;

// hand-over of promises to the completer threads, with its own lock
struct Box
{
    std::mutex m;
    std::vector<std::pair<int, lager::promise>> v;
    long long n = 0; // Quiet mirror of v.size()
    bool quit   = false;
};
Box* B = nullptr;

int new_spec(int sender, int depth)
{
    Quiet z;
    Spec s;
    s.sender = sender;
    s.seq    = S->next_seq[sender]++;
    s.depth  = depth;
    s.kind   = choose(k_count);
    if (depth <= 0 && (s.kind == k_send || s.kind == k_also))
        s.kind = k_effect;
    if (S->budget-- <= 0)
        s.kind = k_plain;
    S->specs.push_back(s);
    int id = S->specs.size() - 1;
    ev("dispatch", id, sender, s.seq);
    return id;
}

bool done(int id)
{
    auto& s = S->specs[id];
    if (!s.folded)
        return false;
    if (s.kind != k_plain && !s.effects)
        return false;
    if (s.kind == k_seq && s.parts < 2)
        return false;
    for (auto e : s.exts)
        if (!S->exts[e].begun)
            return false;
    for (auto c : s.child)
        if (!done(c))
            return false;
    return true;
}

template <typename Ctx>
lager::future send(const Ctx& ctx, int sender, int depth, int* out = nullptr)
{
    int id = new_spec(sender, depth);
    if (out)
        *out = id;
    auto f = ctx.dispatch(A{id});
    bool cb;
    {
        Quiet z;
        cb                   = chance(50) && !out;
        S->specs[id].want_cb = cb;
    }
    if (cb) {
        std::move(f).then([id] {
            std::optional<InCb> in;
            if (S->futures)
                in.emplace(*S->loop, "completion callback");
            Quiet z;
            auto& s = S->specs[id];
            s.cb++;
            ev("future done", id, s.cb, sim::self());
            SIM_CHECK("C07", s.cb == 1, "completion of action %d ran %d times", id, s.cb);
            if (S->futures) {
                SIM_CHECK("C07", s.folded == 1, "future of action %d completed before it was folded", id);
                SIM_CHECK("C07", done(id), "future of action %d completed before its effects did", id);
                if (!S->transactional)
                    SIM_CHECK("C07", S->watch_ver >= s.ver || S->visible->n >= s.ver,
                              "future of action %d completed before its update was visible", id);
            }
        });
        return {};
    }
    return f;
}

std::pair<lager::future, int> external(const lager::context<A>& ctx)
{
    auto [p, f] = lager::promise::with_loop(ctx.loop());
    int id;
    {
        Quiet z;
        id = S->exts.size();
        S->exts.push_back({});
        S->live++;
    }
    {
        std::lock_guard<std::mutex> g{B->m};
        B->v.emplace_back(id, std::move(p));
    }
    {
        Quiet z;
        B->n++;
    }
    return {std::move(f), id};
}

using eff = lager::effect<A>;
void effect_begins(int id)
{
    Quiet z;
    auto& s = S->specs[id];
    s.effects++;
    ev("effect", id, s.effects, sim::self());
    SIM_CHECK("C03", s.effects == 1, "effect of action %d ran %d times", id, s.effects);
    SIM_CHECK("C03", s.folded == 1, "effect of action %d ran before the action was folded", id);
    if (!S->transactional)
        SIM_CHECK("C03", S->visible->n >= s.ver, "effect of action %d runs before its update is visible", id);
}

lager::result<M, A> update(M m, A a)
{
    int kind;
    {
        InCb in{*S->loop, "reducer"};
        Quiet z;
        auto& s = S->specs[a.id];
        ev("reduce", a.id, m.n, sim::self());
        SIM_CHECK_ANY(({"C01"}), s.folded == 0, "action %d folded again", a.id);
        auto it = S->last_seq.find(s.sender);
        int exp = it == S->last_seq.end() ? 0 : it->second + 1;
        SIM_CHECK_ANY(({"C01"}), s.seq == exp,
                      "sender %d: action number %d folded where number %d was due (lost or out of order)", s.sender,
                      s.seq, exp);
        S->last_seq[s.sender] = s.seq;
        SIM_CHECK_ANY(({"C01"}), m == S->cur, "action %d folded onto version %d, the last fold produced %d", a.id, m.n,
                      S->cur.n);
        s.folded++;
        m.n++;
        m.h   = (m.h ^ (a.id + 1)) * 0x9e3779b97f4a7c15ull + 7;
        S->cur = m;
        S->hist.push_back(m);
        s.ver = m.n;
        kind  = s.kind;
    }
    int id = a.id;
    switch (kind) {
    case k_effect:
        return {m, [id](const lager::context<A>&) {
                    InCb in{*S->loop, "effect"};
                    effect_begins(id);
                }};
    case k_send:
        return {m, [id](const lager::context<A>& ctx) {
                    InCb in{*S->loop, "effect"};
                    effect_begins(id);
                    send(ctx, 1000 + id, 0);
                    send(ctx, 1000 + id, 0);
                }};
    case k_ext:
        return {m, [id](const lager::context<A>& ctx) -> lager::future {
                    InCb in{*S->loop, "effect"};
                    effect_begins(id);
                    auto [f, e] = external(ctx);
                    Quiet z;
                    S->specs[id].exts.push_back(e);
                    return f;
                }};
    case k_async:
        return {m, [id](const lager::context<A>& ctx) -> lager::future {
                    InCb in{*S->loop, "effect"};
                    effect_begins(id);
                    if (!S->loop->has_async())
                        return {};
                    auto [p, f] = lager::promise::with_loop(ctx.loop());
                    int e;
                    {
                        Quiet z;
                        S->live++;
                        e = S->exts.size();
                        S->exts.push_back({});
                        S->specs[id].exts.push_back(e);
                    }
                    ctx.loop().async([ctx, p = std::move(p), e, id]() mutable {
                        {
                            Quiet z;
                            ev("async", id, sim::self());
                            SIM_CHECK_ANY(({"C09", "C03"}), S->loop->owner < 0 || sim::self() != S->loop->owner,
                                          "async work ran on the loop's thread");
                        }
                        send(ctx, 2000 + id, 0);
                        {
                            Quiet z;
                            S->exts[e].begun = true;
                        }
                        p();
                        Quiet z;
                        S->live--;
                    });
                    return f;
                }};
    case k_seq:
        return {m, lager::sequence(eff{[id](const lager::context<A>& ctx) -> lager::future {
                                       InCb in{*S->loop, "effect"};
                                       effect_begins(id);
                                       auto [f, e] = external(ctx);
                                       Quiet z;
                                       S->specs[id].exts.push_back(e);
                                       S->specs[id].parts = 1;
                                       return f;
                                   }},
                                   eff{[id](const lager::context<A>& ctx) {
                                       std::optional<InCb> in;
                                       in.emplace(*S->loop, "effect");
                                       Quiet z;
                                       auto& s = S->specs[id];
                                       ev("second part", id);
                                       SIM_CHECK("C03", s.parts == 1, "second part of action %d out of order", id);
                                       SIM_CHECK("C03", S->exts[s.exts[0]].begun,
                                                 "second part of action %d did not wait for the first", id);
                                       s.parts = 2;
                                   }})};
    case k_also:
        return {m, [id](const lager::context<A>& ctx) -> lager::future {
                    InCb in{*S->loop, "effect"};
                    effect_begins(id);
                    auto [f, e] = external(ctx);
                    int c;
                    auto g = send(ctx, 1000 + id, 0, &c);
                    {
                        Quiet z;
                        S->specs[id].exts.push_back(e);
                        if (S->futures)
                            S->specs[id].child.push_back(c);
                    }
                    if (id % 2)
                        return f.also(std::move(g));
                    return g.also(std::move(f));
                }};
    }
    return m;
}

template <typename Tag, bool Futures>
void th_store_run()
{
    auto loop = pick_loop();
    sim::probe(loop->name());
    SW w;
    Box box;
    S               = &w;
    B               = &box;
    w.loop          = loop.get();
    w.futures       = Futures;
    w.transactional = std::is_same_v<Tag, lager::transactional_tag>;
    {
        auto store = [&] {
            if constexpr (Futures)
                return lager::make_store<A, Tag>(M{}, AnyT{loop}, lager::with_futures);
            else
                return lager::make_store<A, Tag>(M{}, AnyT{loop});
        }();
        w.visible = &store.get();
        lager::reader<M> r = store;
        r.watch([&](const M& m) {
            InCb in{*loop, "watcher"};
            Quiet z;
            ev("notified", m.n, 0, sim::self());
            SIM_CHECK_ANY(({"C02", "C01"}), m.n < (int) w.hist.size() && w.hist[m.n] == m && m.n > w.watch_ver,
                          "watcher got version %d after %d", m.n, w.watch_ver);
            w.watch_ver = m.n;
        });
        int nthreads = 1 + choose(3);
        int ncomp    = 1 + choose(2);
        w.live += nthreads;
        std::vector<std::thread> senders, comps;
        for (int i = 0; i < nthreads; ++i) {
            int count = 1 + choose(sim::g_thorough ? 6 : 4);
            // every thread owns a copy of the context
            lager::context<A> ctx = store;
            bool direct           = choose(3) == 2;
            senders.emplace_back([ctx, i, count, direct, &store] {
                for (int k = 0; k < count; ++k) {
                    if (direct)
                        send(store, 1 + i, 1);
                    else
                        send(ctx, 1 + i, 1);
                }
                Quiet z;
                S->live--;
                ev("sender done", i);
            });
        }
        for (int i = 0; i < ncomp; ++i)
            comps.emplace_back([] {
                for (;;) {
                    sim::wait_until([] { return B->n > 0 || B->quit; });
                    std::optional<std::pair<int, lager::promise>> x;
                    {
                        std::lock_guard<std::mutex> g{B->m};
                        if (!B->v.empty()) {
                            std::size_t k = B->v.size() > 1 ? choose(B->v.size()) : 0;
                            x.emplace(std::move(B->v[k]));
                            B->v.erase(B->v.begin() + k);
                            Quiet z;
                            B->n--;
                        } else {
                            Quiet z;
                            if (B->quit)
                                return;
                        }
                    }
                    if (x) {
                        {
                            Quiet z;
                            S->exts[x->first].begun = true;
                            ev("completing", x->first, sim::self());
                        }
                        x->second();
                        Quiet z;
                        S->live--;
                    }
                }
            });
        int own = choose(3);
        for (int i = 0; i < own; ++i)
            send(store, 0, 1);
        bool comp_quit = false;
        loop->serve([&] {
            // everything quiet: let the completers go as well
            if (S->live == 0 && S->loop->in_cb == 0 && B->n == 0) {
                // actions not folded yet may still create work
                for (auto& s : S->specs)
                    if (!s.folded || (s.kind != k_plain && !s.effects))
                        return false;
                for (auto& s : S->specs)
                    if (s.kind == k_seq && s.parts < 2)
                        return false;
                B->quit = true;
                return true;
            }
            return false;
        });
        (void) comp_quit;
        for (auto& t : senders)
            t.join();
        for (auto& t : comps)
            t.join();
        sim::join_all_others();
        loop->serve([] { return true; });
        Quiet z;
        for (std::size_t i = 0; i < w.specs.size(); ++i) {
            auto& s = w.specs[i];
            SIM_CHECK_ANY(({"C01", "C09"}), s.folded == 1, "action %d was folded %d times", (int) i, s.folded);
            if (s.kind != k_plain)
                SIM_CHECK_ANY(({"C03", "C09"}), s.effects == 1, "effect of action %d ran %d times", (int) i, s.effects);
            if (s.want_cb)
                SIM_CHECK_ANY(({"C07", "C09"}), s.cb == 1, "future of action %d completed %d times", (int) i, s.cb);
        }
        if (w.transactional)
            lager::commit(store);
        SIM_CHECK_ANY(({"C01", "C02"}), store.get() == w.cur, "final model is version %d, the fold is %d",
                      store.get().n, w.cur.n);
        sim::nontrivial();
    }
    S = nullptr;
    B = nullptr;
}
} // namespace

SIM_SCENARIO(th_store)
{
    sim::g_judge_races = active("C09");
    sim::run_threads([] {
        bool tr  = choose(5) == 4;
        bool fut = active("C07") ? choose(5) != 4 : choose(2);
        if (tr)
            fut ? th_store_run<lager::transactional_tag, true>() : th_store_run<lager::transactional_tag, false>();
        else
            fut ? th_store_run<lager::automatic_tag, true>() : th_store_run<lager::automatic_tag, false>();
    });
}

// ----------------------------------------------------------------- loops ---
// Plain callbacks posted from several threads; nested posts, exceptions and,
// for the safe queue, hand-over of the loop to another thread.
namespace {
struct Boom
{};
struct LItem
{
    int poster, seq, gen = 0, runs = 0;
    bool throws   = false;
    int nested    = 0;
    int step_post = -1; // loop run during which it was posted by the owner
};
struct LW
{
    std::vector<LItem> items;
    std::map<int, int> next, last;
    TLoop* loop   = nullptr;
    int live      = 0;
    bool same_run = true; // no exception interrupted the current run
    int open_run  = 0;    // items posted by the owner during this run, not run yet
};
LW* L = nullptr;

void l_post(int poster, int depth, bool faults);

void l_run(int id, bool faults)
{
    std::vector<int> nested;
    bool boom;
    {
        InCb in{*L->loop, "posted callback"};
        int poster;
        {
            Quiet z;
            auto& it = L->items[id];
            it.runs++;
            ev("runs", id, it.poster, it.seq);
            SIM_CHECK("C08", it.runs == 1, "callback %d ran %d times", id, it.runs);
            auto f  = L->last.find(it.poster);
            int exp = f == L->last.end() ? 0 : f->second + 1;
            SIM_CHECK("C08", it.seq == exp, "poster %d: callback %d ran where %d was due (lost or out of order)",
                      it.poster, it.seq, exp);
            L->last[it.poster] = it.seq;
            boom               = it.throws;
            poster             = it.poster;
            nested.resize(it.nested);
        }
        for (std::size_t i = 0; i < nested.size(); ++i)
            l_post(5000 + id, 0, faults);
        (void) poster;
    }
    if (boom) {
        {
            Quiet z;
            sim::fault("callback throws");
        }
        throw Boom{};
    }
}

void l_post(int poster, int depth, bool faults)
{
    int id;
    {
        Quiet z;
        LItem it;
        it.poster = poster;
        it.seq    = L->next[poster]++;
        it.nested = depth > 0 && chance(40) ? 1 + choose(2) : 0;
        it.throws = faults && chance(15);
        L->items.push_back(it);
        id = L->items.size() - 1;
        ev("post", id, poster, it.seq);
    }
    L->loop->post([id, faults, depth] { l_run(id, faults); });
}
} // namespace

SIM_SCENARIO(th_loops)
{
    sim::g_judge_races = active("C09");
    sim::run_threads([] {
        auto loop = pick_loop();
        sim::probe(loop->name());
        LW w;
        L      = &w;
        w.loop = loop.get();
        int n  = 1 + choose(3);
        std::vector<std::thread> ts;
        w.live = n;
        for (int i = 0; i < n; ++i) {
            int count = 1 + choose(choose(12) ? 5 : 60);
            ts.emplace_back([i, count] {
                for (int k = 0; k < count; ++k)
                    l_post(1 + i, 1, false);
                Quiet z;
                L->live--;
            });
        }
        int own = choose(3);
        for (int i = 0; i < own; ++i)
            l_post(0, 1, false);
        loop->serve([&] { return L->live == 0; });
        for (auto& t : ts)
            t.join();
        loop->serve([] { return true; });
        Quiet z;
        for (std::size_t i = 0; i < w.items.size(); ++i)
            SIM_CHECK_ANY(({"C08", "C09"}), w.items[i].runs == 1, "callback %d ran %d times", (int) i, w.items[i].runs);
        sim::nontrivial();
        L = nullptr;
    });
}

// Hand-over of a safe queue between threads, with throwing callbacks.
SIM_SCENARIO(th_adopt)
{
    sim::g_judge_races = active("C09");
    sim::run_threads([] {
        auto loop = std::make_shared<SafeT>();
        LW w;
        L           = &w;
        w.loop      = loop.get();
        bool faults = active("C08") && chance(50);
        int n       = 1 + choose(2);
        int owners  = 1 + choose(3);
        w.live      = n;
        auto drive  = [&](int me, int rounds) {
            for (int i = 0; i < rounds; ++i) {
                try {
                    loop->q.step();
                } catch (const Boom&) {
                    Quiet z;
                    ev("exception reached the owner", me);
                }
                sim::yield();
            }
            // leave nothing of its own behind before handing over
            for (;;) {
                try {
                    loop->q.step();
                    break;
                } catch (const Boom&) {}
            }
        };
        std::vector<std::thread> ts;
        for (int i = 0; i < n; ++i) {
            int count = 1 + choose(5);
            ts.emplace_back([i, count, faults] {
                for (int k = 0; k < count; ++k)
                    l_post(1 + i, 1, faults);
                Quiet z;
                L->live--;
            });
        }
        int own = choose(3);
        for (int i = 0; i < own; ++i)
            l_post(0, 1, faults);
        drive(0, choose(3));
        for (int o = 0; o < owners; ++o) {
            int rounds = choose(4);
            std::thread t([&, rounds] {
                loop->q.adopt();
                {
                    Quiet z;
                    loop->owner = sim::self();
                    ev("adopted", sim::self());
                    sim::probe("loop handed over");
                }
                // work of the new owner goes to its own queue
                l_post(100 + sim::self(), 1, faults);
                drive(sim::self(), rounds);
            });
            t.join();
        }
        for (auto& t : ts)
            t.join();
        loop->q.adopt();
        loop->owner = 0;
        drive(0, 1);
        Quiet z;
        for (std::size_t i = 0; i < w.items.size(); ++i)
            SIM_CHECK_ANY(({"C08", "C09"}), w.items[i].runs == 1, "callback %d ran %d times", (int) i, w.items[i].runs);
        sim::nontrivial();
        L = nullptr;
    });
}

// --------------------------------------------------------------- futures ---
// Trees of futures whose promises are fulfilled by other threads while further
// threads attach continuations.
namespace {
struct FProm
{
    bool begun = false;
};
struct FNode // a continuation attached somewhere
{
    int after_p = -1, after_n = -1; // waits for promise / node (and its extra)
    int extra_p = -1;               // its callback returned this promise's future
    int runs    = 0;
};
struct FW
{
    TLoop* loop = nullptr;
    std::vector<FProm> proms;
    std::vector<FNode> nodes;
    int live = 0;
};
FW* F = nullptr;

bool n_done(int n)
{
    auto& x = F->nodes[n];
    return x.runs > 0 && (x.extra_p < 0 || F->proms[x.extra_p].begun);
}

struct FBox
{
    std::mutex m;
    std::vector<std::pair<int, lager::promise>> proms;
    long long n = 0;
};
FBox* FB = nullptr;

std::pair<lager::future, int> f_new(TLoop& l)
{
    auto [p, f] = lager::promise::with_loop(l);
    int id;
    {
        Quiet z;
        id = F->proms.size();
        F->proms.push_back({});
    }
    {
        std::lock_guard<std::mutex> g{FB->m};
        FB->proms.emplace_back(id, std::move(p));
    }
    Quiet z;
    FB->n++;
    return {std::move(f), id};
}

void f_check(int n)
{
    auto& x = F->nodes[n];
    x.runs++;
    ev("continuation", n, sim::self());
    SIM_CHECK_ANY(({"C06"}), x.runs == 1, "continuation %d ran %d times", n, x.runs);
    if (x.after_p >= 0)
        SIM_CHECK_ANY(({"C06"}), F->proms[x.after_p].begun, "continuation %d ran before its promise was fulfilled", n);
    if (x.after_n >= 0)
        SIM_CHECK_ANY(({"C06"}), n_done(x.after_n), "continuation %d ran before the one it follows was over", n);
}

// attaches `depth` continuations one after the other
void f_chain(lager::future f, int after_p, int depth, TLoop& l)
{
    int after_n = -1;
    for (int i = 0; i < depth; ++i) {
        int n;
        unsigned kind;
        {
            Quiet z;
            n = F->nodes.size();
            FNode x;
            x.after_p = after_p;
            x.after_n = after_n;
            F->nodes.push_back(x);
            kind = choose(4);
        }
        if (kind == 0 || kind == 1) {
            f = std::move(f).then([n, &l] {
                InCb in{l, "continuation"};
                Quiet z;
                f_check(n);
            });
        } else if (kind == 2) {
            // returns a future that somebody else completes
            f = std::move(f).then([n, &l]() -> lager::future {
                InCb in{l, "continuation"};
                {
                    Quiet z;
                    f_check(n);
                }
                auto [g, p] = f_new(l);
                Quiet z;
                F->nodes[n].extra_p = p;
                return g;
            });
        } else {
            // join with another pending one, then observe
            auto [g, p] = f_new(l);
            int m;
            {
                Quiet z;
                // node n stands for "both": depends on the previous and on p
                F->nodes[n].extra_p = p;
                m                   = n;
            }
            bool swap;
            {
                Quiet z;
                swap = choose(2);
            }
            auto both = swap ? g.also(std::move(f)) : f.also(std::move(g));
            f         = std::move(both).then([m, p = p, &l] {
                InCb in{l, "continuation"};
                Quiet z;
                f_check(m);
                SIM_CHECK_ANY(({"C06"}), F->proms[p].begun, "a join completed before both sides did");
            });
        }
        after_p = -1;
        after_n = n;
    }
}
} // namespace

SIM_SCENARIO(th_futures)
{
    sim::g_judge_races = active("C09");
    sim::run_threads([] {
        auto loop = pick_loop();
        sim::probe(loop->name());
        FW w;
        FBox box;
        F       = &w;
        FB      = &box;
        w.loop  = loop.get();
        int n   = 1 + choose(3);
        std::vector<std::thread> ts;
        w.live = n;
        for (int i = 0; i < n; ++i) {
            // create here, attach there, complete elsewhere
            auto [f, p]    = f_new(*loop);
            int depth      = 1 + choose(3);
            auto* raw_loop = loop.get();
            ts.emplace_back([f = std::move(f), p = p, depth, raw_loop]() mutable {
                f_chain(std::move(f), p, depth, *raw_loop);
                Quiet z;
                F->live--;
            });
        }
        int ncomp = 1 + choose(2);
        bool quit = false;
        std::vector<std::thread> comps;
        for (int i = 0; i < ncomp; ++i)
            comps.emplace_back([&] {
                for (;;) {
                    sim::wait_until([&] { return FB->n > 0 || quit; });
                    std::optional<std::pair<int, lager::promise>> x;
                    {
                        std::lock_guard<std::mutex> g{FB->m};
                        if (!FB->proms.empty()) {
                            std::size_t k = FB->proms.size() > 1 ? choose(FB->proms.size()) : 0;
                            x.emplace(std::move(FB->proms[k]));
                            FB->proms.erase(FB->proms.begin() + k);
                            Quiet z;
                            FB->n--;
                            w.live++;
                        }
                    }
                    if (x) {
                        {
                            Quiet z;
                            w.proms[x->first].begun = true;
                            ev("completing", x->first, sim::self());
                        }
                        x->second();
                        Quiet z;
                        w.live--;
                    } else {
                        Quiet z;
                        if (quit)
                            return;
                    }
                }
            });
        auto settled = [&] {
            if (w.live || FB->n)
                return false;
            for (auto& x : w.nodes)
                if (!x.runs)
                    return false;
            return true;
        };
        // a lost continuation shows as a deadlock of this wait: bound it
        std::thread watchdog([&] {
            bool ok = sim::wait_until_or_idle([&] { return quit || settled(); });
            Quiet z;
            if (!ok)
                for (std::size_t i = 0; i < w.nodes.size(); ++i)
                    SIM_CHECK_ANY(({"C06", "C09"}), w.nodes[i].runs == 1,
                                  "continuation %d never ran though its future completed", (int) i);
            quit = true;
        });
        loop->serve([&] { return quit; });
        for (auto& t : ts)
            t.join();
        for (auto& t : comps)
            t.join();
        watchdog.join();
        sim::join_all_others();
        loop->serve([] { return true; });
        Quiet z;
        for (std::size_t i = 0; i < w.nodes.size(); ++i)
            SIM_CHECK_ANY(({"C06", "C09"}), w.nodes[i].runs == 1, "continuation %d ran %d times", (int) i,
                          w.nodes[i].runs);
        sim::nontrivial();
        F  = nullptr;
        FB = nullptr;
    });
}
