// Event loops and futures on one thread: callbacks, nested posts, exceptions,
// allocation failures; trees of futures over several loops.
#include "sim.hpp"

#include <cassert>

#include <lager/event_loop/boost_asio.hpp>
#include <lager/event_loop/manual.hpp>
#include <lager/event_loop/queue.hpp>
#include <lager/event_loop/safe_queue.hpp>
#include <lager/future.hpp>

#include <boost/asio/io_context.hpp>
#include <boost/asio/strand.hpp>

#include <deque>
#include <memory>
#include <optional>
#include <set>

namespace {
using sim::active;
using sim::chance;
using sim::choose;
using sim::ev;
using sim::NoFail;

struct Boom
{};

struct Loop
{
    int running = 0;
    virtual ~Loop()                              = default;
    virtual void post(std::function<void()> f)   = 0;
    virtual void step(bool one)                  = 0;
    virtual bool sync() const { return false; }
    virtual bool one() const { return false; }
    virtual const char* name() const = 0;
};
struct R
{
    int& r;
    explicit R(int& x)
        : r{x}
    {
        ++r;
    }
    ~R() { --r; }
};
struct QLoop : Loop
{
    lager::queue_event_loop q;
    lager::with_queue_event_loop w{q};
    void post(std::function<void()> f) override { w.post(std::move(f)); }
    void step(bool) override
    {
        R g{running};
        q.step();
    }
    const char* name() const override { return "queue"; }
};
struct SLoop : Loop
{
    lager::safe_queue_event_loop q;
    lager::with_safe_queue_event_loop w{q};
    void post(std::function<void()> f) override { w.post(std::move(f)); }
    void step(bool) override
    {
        R g{running};
        q.step();
    }
    const char* name() const override { return "safe_queue"; }
};
struct MLoop : Loop
{
    lager::with_manual_event_loop w;
    void post(std::function<void()> f) override
    {
        R g{running};
        w.post(std::move(f));
    }
    void step(bool) override
    {
        R g{running};
        w.post([] {});
    }
    bool sync() const override { return true; }
    const char* name() const override { return "manual"; }
};
template <bool Strand>
struct ALoop : Loop
{
    boost::asio::io_context ioc;
    using strand_t = boost::asio::strand<boost::asio::io_context::executor_type>;
    using ex_t     = std::conditional_t<Strand, strand_t, boost::asio::io_context::executor_type>;
    static ex_t mk(boost::asio::io_context& c)
    {
        if constexpr (Strand)
            return boost::asio::make_strand(c);
        else
            return c.get_executor();
    }
    lager::with_boost_asio_event_loop<ex_t> w{mk(ioc)};
    void post(std::function<void()> f) override { w.post(std::move(f)); }
    void step(bool one) override
    {
        R g{running};
        ioc.restart();
        one ? ioc.poll_one() : ioc.poll();
    }
    bool one() const override { return true; }
    const char* name() const override { return Strand ? "asio strand" : "asio"; }
};
std::shared_ptr<Loop> pick()
{
    switch (choose(5)) {
    case 0: return std::make_shared<QLoop>();
    case 1: return std::make_shared<SLoop>();
    case 2: return std::make_shared<MLoop>();
    case 3: return std::make_shared<ALoop<false>>();
    default: return std::make_shared<ALoop<true>>();
    }
}

// ------------------------------------------------------------ loop_history --
struct Item
{
    int id;
    int nested    = 0;
    bool throws   = false;
    bool swallow  = false; // catches failures of its own posts
    int depth     = 0;
    int runs      = 0;
    bool accepted = true;
};
struct LH
{
    std::shared_ptr<Loop> loop;
    std::vector<Item> items;
    std::deque<int> due; // accepted, not run
    int in_cb  = 0;
    bool fails = false;
    bool boom  = false;
    int budget = 300;

    void post(int depth)
    {
        int id;
        {
            NoFail z;
            Item it;
            it.id      = items.size();
            it.depth   = depth;
            it.nested  = depth > 0 && chance(45) ? 1 + choose(3) : 0;
            it.throws  = fails && chance(18);
            it.swallow = chance(50);
            if (--budget < 0)
                it.nested = 0;
            items.push_back(it);
            id = it.id;
            ev("post", id, in_cb, depth);
            due.push_back(id);
        }
        std::function<void()> f;
        try {
            // a capture too large for the small buffer, as real callbacks have
            std::array<int, 6> pad{};
            pad[3] = id;
            f      = [this, id, pad] {
                if (pad[3] != id)
                    sim::violation("callbacks keep their captures", "captured data changed");
                run(id);
            };
        } catch (const std::bad_alloc&) {
            NoFail z;
            due.pop_back();
            items[id].accepted = false;
            throw;
        }
        auto before = sim::g_run.nevents;
        try {
            loop->post(std::move(f));
        } catch (const std::bad_alloc&) {
            NoFail z;
            // a synchronous loop may have thrown what a callback threw; if
            // nothing ran, it is this post that failed
            if (sim::g_run.nevents == before) {
                auto it = std::find(due.begin(), due.end(), id);
                if (it != due.end())
                    due.erase(it);
                items[id].accepted = false;
            }
            throw;
        }
    }

    void run(int id)
    {
        NoFail* none = nullptr;
        (void) none;
        {
            NoFail z;
            auto& it = items[id];
            it.runs++;
            ev("run", id, it.runs);
            SIM_CHECK_ANY(({"C08", "C05"}), it.runs == 1, "callback %d ran %d times", id, it.runs);
            SIM_CHECK_ANY(({"C08"}), in_cb == 0, "callback %d ran inside another callback", id);
            SIM_CHECK_ANY(({"C08"}), loop->running > 0, "callback %d ran outside the loop", id);
            SIM_CHECK_ANY(({"C08", "C05"}), it.accepted, "callback %d ran although posting it failed", id);
            SIM_CHECK_ANY(({"C08", "C05"}), !due.empty() && due.front() == id,
                          "callback %d ran, but callback %d was posted before and has not run", id,
                          due.empty() ? -1 : due.front());
            due.pop_front();
        }
        R g{in_cb};
        for (int i = 0; i < items[id].nested; ++i) {
            if (items[id].swallow) {
                try {
                    post(items[id].depth - 1);
                } catch (const std::bad_alloc&) {
                    NoFail z;
                    sim::probe("post failed inside a callback");
                }
            } else
                post(items[id].depth - 1);
        }
        if (items[id].throws) {
            NoFail z;
            sim::fault("callback throws");
            boom = true;
            throw Boom{};
        }
    }

    template <typename F>
    bool guarded(F&& f, bool arm)
    {
        if (arm)
            sim::arm_alloc_failure(1 + choose(12));
        bool ok = true;
        boom    = false;
        try {
            f();
            NoFail z;
            SIM_CHECK("C05", !boom, "the exception of a callback was swallowed");
        } catch (const Boom&) {
            NoFail z;
            SIM_CHECK("C05", boom, "an exception nobody threw");
            ev("exception");
            ok = false;
        } catch (const std::bad_alloc&) {
            NoFail z;
            if (!sim::alloc_failure_fired())
                sim::violation("no unexpected exception", "bad_alloc without injection");
            sim::fault("allocation fails");
            ev("bad_alloc");
            ok = false;
        }
        if (arm)
            sim::arm_alloc_failure(0);
        return ok;
    }

    void go()
    {
        loop = pick();
        sim::probe(loop->name());
        ev(loop->name());
        fails    = active("C05") || chance(30);
        bool oom = active("C05") && chance(50);
        int avg  = sim::g_thorough ? 40 : 15;
        while (sim::more(avg)) {
            sim::Span sp;
            bool arm = oom && chance(25);
            if (chance(60)) {
                // the exception of a synchronous loop reaches the poster
                guarded([&] { post(choose(4)); }, arm);
                if (loop->sync() && due.empty() == false && !fails && !arm)
                    SIM_CHECK("C08", false, "%zu callback(s) left behind by a synchronous loop", due.size());
            } else {
                bool one = chance(40) && loop->one();
                bool ok  = guarded([&] { loop->step(one); }, arm);
                if (ok && !one)
                    SIM_CHECK_ANY(({"C08", "C05"}), due.empty(), "the run ended with %zu callback(s) left",
                                  due.size());
            }
            sim::nontrivial();
        }
        fails = false;
        for (int i = 0; i < 2000; ++i) {
            auto n  = sim::g_run.nevents;
            bool ok = guarded([&] { loop->step(false); }, false);
            SIM_CHECK_ANY(({"C08", "C05"}), sim::g_run.nevents > n || due.empty(),
                          "running the loop makes no progress");
            if (ok)
                break;
        }
        SIM_CHECK_ANY(({"C08", "C05"}), due.empty(), "%zu callback(s) never ran", due.size());
        for (auto& it : items)
            SIM_CHECK_ANY(({"C08", "C05"}), it.runs == (it.accepted ? 1 : 0), "callback %d ran %d times", it.id,
                          it.runs);
    }
};

// ---------------------------------------------------------- future_history --
// A value describing when something completes.
struct Dep
{
    enum
    {
        now,
        prom,
        node,
        all
    } kind = now;
    int idx = -1;
    std::vector<int> v; // deps ids
};
struct Node
{
    int runs = 0;
    int dep;         // waits for
    int result = -1; // dep of its whole completion once it ran
    int loop   = -1; // loop it must run on, -1: at once
    bool late  = false;
};
struct FHWorld
{
    std::vector<std::shared_ptr<Loop>> loops;
    std::vector<Dep> deps;
    std::vector<Node> nodes;
    struct P
    {
        lager::promise p;
        bool done = false;
        int loop;
    };
    std::vector<P> proms;
    struct Fut
    {
        lager::future f;
        int dep;
        int loop; // -1 none
    };
    std::vector<Fut> futs;
    int running_cb = 0;
    int budget     = 120;

    bool ready(int d, int lvl = 0)
    {
        auto& x = deps[d];
        switch (x.kind) {
        case Dep::now: return true;
        case Dep::prom: return proms[x.idx].done;
        case Dep::node: {
            auto& n = nodes[x.idx];
            return n.runs > 0 && (n.result < 0 || ready(n.result, lvl + 1));
        }
        case Dep::all:
            for (auto y : x.v)
                if (!ready(y, lvl + 1))
                    return false;
            return true;
        }
        return true;
    }
    int dep(Dep d)
    {
        deps.push_back(d);
        return deps.size() - 1;
    }

    Fut make(int force = -2)
    {
        int l = force != -2 ? force : (int) choose(loops.size() + 1) - 1;
        if (l < 0) {
            auto [p, f] = lager::promise::invalid();
            SIM_CHECK("C06", !f, "an invalid future reports a loop");
            return {std::move(f), dep({Dep::now, -1, {}}), -1};
        }
        auto& loop = *loops[l];
        auto pf    = chance(50) ? lager::promise::with_loop(loop)
                                : lager::promise::with_post([&loop](auto fn) { loop.post(std::move(fn)); });
        int id     = proms.size();
        proms.push_back({pf.first, false, l});
        ev("promise", id, l);
        return {std::move(pf.second), dep({Dep::prom, id, {}}), l};
    }
    Fut take()
    {
        if (futs.empty() || chance(40))
            return make();
        auto i = choose(futs.size());
        auto f = std::move(futs[i]);
        futs.erase(futs.begin() + i);
        return f;
    }
    void fulfil()
    {
        std::vector<int> open;
        for (std::size_t i = 0; i < proms.size(); ++i)
            if (!proms[i].done)
                open.push_back(i);
        if (open.empty())
            return;
        int i         = open[choose(open.size())];
        proms[i].done = true;
        ev("fulfil", i);
        auto p = proms[i].p;
        p();
    }

    void on_run(int n)
    {
        auto& x = nodes[n];
        x.runs++;
        ev("continuation", n, x.runs);
        SIM_CHECK("C06", x.runs == 1, "continuation %d ran %d times", n, x.runs);
        SIM_CHECK("C06", ready(x.dep), "continuation %d ran before what it waits for completed", n);
        if (x.loop >= 0)
            SIM_CHECK("C06", loops[x.loop]->running > 0, "continuation %d did not run on its event loop", n);
        else
            SIM_CHECK("C06", !x.late, "continuation %d of a future without loop did not run at once", n);
    }

    // small program run inside callbacks
    void inner()
    {
        if (--budget < 0)
            return;
        switch (choose(4)) {
        case 0: fulfil(); break;
        case 1: attach(); break;
        case 2: futs.push_back(make()); break;
        default: break;
        }
    }

    Fut attach(bool keep = true)
    {
        Fut f  = take();
        int n  = nodes.size();
        Node x;
        x.dep  = f.dep;
        x.loop = f.loop;
        nodes.push_back(x);
        lager::future r;
        int res = dep({Dep::node, n, {}});
        int lo  = f.loop;
        ev("then", n, f.dep, lo);
        auto kind = choose(4);
        ev("  of kind", n, kind);
        if (kind == 0) {
            r = std::move(f.f).then([this, n] { on_run(n); });
        } else if (kind == 1) {
            r = std::move(f.f).then([this, n] {
                on_run(n);
                inner();
            });
        } else if (kind == 2) {
            // returns some other future
            bool fresh = chance(50);
            std::optional<Fut> other;
            if (!fresh && !futs.empty())
                other = take();
            r = std::move(f.f).then([this, n, other = std::move(other)]() mutable -> lager::future {
                on_run(n);
                Fut g           = other ? std::move(*other) : make();
                nodes[n].result = g.dep;
                ev("  returned", n, g.dep, g.loop);
                return std::move(g.f);
            });
            if (lo < 0) {
                // ran at once: the result is the returned future itself
                lo = -2;
            }
        } else {
            // join
            Fut g  = take();
            int dd = dep({Dep::all, -1, {f.dep, g.dep}});
            // `also` attaches through the first one
            nodes[n].dep = dd;
            lo           = f.loop >= 0 ? f.loop : g.loop;
            nodes[n].loop = lo;
            auto both     = f.f.also(std::move(g.f));
            r             = std::move(both).then([this, n] { on_run(n); });
        }
        if (nodes[n].loop < 0) {
            SIM_CHECK("C06", nodes[n].runs == 1, "a continuation on a future without loop must run at once");
            nodes[n].late = true;
        }
        if (lo == -2) {
            // loop of the returned future
            lo = -1;
            for (auto d = nodes[n].result; d >= 0;) {
                auto& y = deps[d];
                if (y.kind == Dep::prom)
                    lo = proms[y.idx].loop;
                else if (y.kind == Dep::node) {
                    lo = nodes[y.idx].loop;
                    if (lo < 0) {
                        d = nodes[y.idx].result;
                        continue;
                    }
                } else if (y.kind == Dep::all)
                    lo = loop_of(d);
                break;
            }
        }
        Fut out{std::move(r), res, lo};
        if (keep && chance(70)) {
            futs.push_back(std::move(out));
            return {};
        }
        return out;
    }
    int loop_of(int d)
    {
        auto& y = deps[d];
        switch (y.kind) {
        case Dep::now: return -1;
        case Dep::prom: return proms[y.idx].loop;
        case Dep::node: {
            auto& n = nodes[y.idx];
            if (n.loop >= 0)
                return n.loop;
            return n.result >= 0 ? loop_of(n.result) : -1;
        }
        case Dep::all:
            for (auto x : y.v) {
                auto l = loop_of(x);
                if (l >= 0)
                    return l;
            }
            return -1;
        }
        return -1;
    }

    void go()
    {
        int nl = 1 + choose(2);
        for (int i = 0; i < nl; ++i)
            loops.push_back(pick());
        for (auto& l : loops)
            ev(l->name());
        int avg = sim::g_thorough ? 40 : 18;
        while (sim::more(avg)) {
            sim::Span sp;
            switch (choose(6)) {
            case 0:
            case 1: attach(); break;
            case 2: futs.push_back(make()); break;
            case 3: fulfil(); break;
            case 4:
            case 5: {
                auto& l = loops[choose(loops.size())];
                l->step(chance(50));
                break;
            }
            }
            sim::nontrivial();
        }
        // a random part stays unfulfilled: nothing that waits for it may run
        bool all = chance(70);
        // chains hop between the loops without visible events: wait for a
        // number of silent rounds
        int silent = 0;
        for (int r = 0; r < 1000 && silent < 40; ++r) {
            auto n = sim::g_run.nevents;
            if (all)
                fulfil();
            for (auto& l : loops)
                l->step(false);
            silent = n == sim::g_run.nevents ? silent + 1 : 0;
        }
        for (std::size_t i = 0; i < nodes.size(); ++i)
            if (ready(nodes[i].dep))
                SIM_CHECK("C06", nodes[i].runs == 1, "continuation %d never ran though its future completed", (int) i);
            else
                SIM_CHECK("C06", nodes[i].runs == 0, "continuation %d ran though its future never completed", (int) i);
    }
};
} // namespace

SIM_SCENARIO(loop_history)
{
    LH h;
    h.go();
}

SIM_SCENARIO(future_history)
{
    auto h = std::make_unique<FHWorld>();
    h->go();
}
