// Cursors through every lens of the library over a nested model held by states
// (automatic or transactional), with histories of writes, updates, commits and
// watchers through many cursors at once.  The reference is one plain function
// pair (get, put) per path, written without lager.  Parts spoil themselves when
// they are moved from, so that a value handed out too early shows.
#include "sim.hpp"

#include <lager/commit.hpp>
#include <lager/cursor.hpp>
#include <lager/lens.hpp>
#include <lager/lenses.hpp>
#include <lager/lenses/at.hpp>
#include <lager/lenses/at_or.hpp>
#include <lager/lenses/attr.hpp>
#include <lager/lenses/optional.hpp>
#include <lager/lenses/tuple.hpp>
#include <lager/lenses/unbox.hpp>
#include <lager/lenses/variant.hpp>
#include <lager/reader.hpp>
#include <lager/setter.hpp>
#include <lager/state.hpp>
#include <lager/with.hpp>

#include <immer/box.hpp>
#include <immer/flex_vector.hpp>
#include <immer/map.hpp>
#include <immer/table.hpp>
#include <immer/vector.hpp>

#include <array>
#include <cstring>
#include <map>
#include <memory>
#include <optional>
#include <variant>
#include <vector>

namespace {

using sim::chance;
using sim::choose;
using sim::ev;
using sim::more;
namespace L = lager::lenses;

struct Injected : std::exception
{};

struct Txt // spoiled when moved from
{
    int v = 0;
    Txt() = default;
    explicit Txt(int x)
        : v{x}
    {}
    Txt(const Txt&) = default;
    Txt(Txt&& o) noexcept
        : v{o.v}
    {
        o.v = -777;
    }
    Txt& operator=(const Txt&) = default;
    Txt& operator=(Txt&& o) noexcept
    {
        if (this != &o) {
            v   = o.v;
            o.v = -777;
        }
        return *this;
    }
    bool operator==(const Txt& o) const { return v == o.v; }
};
struct In
{
    Txt t;
    int k = 0;
    std::optional<Txt> o;
    bool operator==(const In& x) const { return t == x.t && k == x.k && o == x.o; }
};
using Var = std::variant<int, Txt, In>;
using Tup = std::tuple<Txt, In>;
struct Row
{
    int id = 0;
    Txt t;
    bool operator==(const Row& x) const { return id == x.id && t == x.t; }
};
struct Out
{
    Txt a, b;
    int n = 0;
    immer::vector<In> iv;
    immer::flex_vector<Txt> fv;
    immer::map<int, In> im;
    immer::table<Row> tb;
    std::vector<In> sv;
    std::map<int, Txt> sm;
    std::vector<Var> vars;
    std::optional<In> oi;
    Var var;
    immer::box<In> bx;
    Tup tp;
    std::array<In, 2> ar;
    std::pair<std::optional<Txt>, int> pr;
    bool operator==(const Out& x) const
    {
        return a == x.a && b == x.b && n == x.n && iv == x.iv && fv == x.fv && im == x.im && tb == x.tb && sv == x.sv &&
               sm == x.sm && vars == x.vars && oi == x.oi && var == x.var && bx == x.bx && tp == x.tp && ar == x.ar &&
               pr == x.pr;
    }
};

// ------------------------------------------------------------- generation --
template <typename T>
struct gen;
template <typename T>
T make()
{
    return gen<T>::make();
}
template <>
struct gen<int>
{
    static int make() { return choose(4); }
};
template <>
struct gen<Txt>
{
    static Txt make() { return Txt{(int) choose(4)}; }
};
template <typename T>
struct gen<std::optional<T>>
{
    static std::optional<T> make()
    {
        if (choose(3) == 0)
            return std::nullopt;
        return gen<T>::make();
    }
};
template <>
struct gen<In>
{
    static In make()
    {
        In r;
        r.t = ::make<Txt>();
        r.k = ::make<int>();
        r.o = ::make<std::optional<Txt>>();
        return r;
    }
};
template <>
struct gen<Row>
{
    static Row make()
    {
        Row r;
        r.id = ::make<int>();
        r.t  = ::make<Txt>();
        return r;
    }
};
template <>
struct gen<Var>
{
    static Var make()
    {
        switch (choose(3)) {
        case 0: return ::make<int>();
        case 1: return ::make<Txt>();
        default: return ::make<In>();
        }
    }
};
template <typename... Ts>
struct gen<std::tuple<Ts...>>
{
    static std::tuple<Ts...> make() { return std::tuple<Ts...>{::make<Ts>()...}; }
};
template <>
struct gen<Out>
{
    static Out make()
    {
        Out r;
        r.a = ::make<Txt>();
        r.b = ::make<Txt>();
        r.n = ::make<int>();
        for (int k = choose(3); k > 0; --k)
            r.iv = r.iv.push_back(::make<In>());
        for (int k = choose(3); k > 0; --k)
            r.fv = r.fv.push_back(::make<Txt>());
        for (int k = choose(3); k > 0; --k)
            r.im = r.im.set(choose(3), ::make<In>());
        for (int k = choose(3); k > 0; --k)
            r.tb = r.tb.insert(::make<Row>());
        for (int k = choose(3); k > 0; --k)
            r.sv.push_back(::make<In>());
        for (int k = choose(3); k > 0; --k)
            r.sm[choose(3)] = ::make<Txt>();
        for (int k = choose(3); k > 0; --k)
            r.vars.push_back(::make<Var>());
        r.oi  = ::make<std::optional<In>>();
        r.var = ::make<Var>();
        r.bx  = ::make<In>();
        r.tp  = ::make<Tup>();
        r.ar  = {::make<In>(), ::make<In>()};
        r.pr  = {::make<std::optional<Txt>>(), ::make<int>()};
        return r;
    }
};

// printing, for the messages
std::string str(int i) { return std::to_string(i); }
std::string str(const Txt& t) { return t.v == -777 ? "SPOILED" : "t" + std::to_string(t.v); }
std::string str(const In& x);
template <typename T>
std::string str(const std::optional<T>& o)
{
    return o ? "[" + str(*o) + "]" : "[]";
}
std::string str(const In& x) { return "{" + str(x.t) + " " + str(x.k) + " " + str(x.o) + "}"; }
std::string str(const Row& x) { return "{" + str(x.id) + " " + str(x.t) + "}"; }
std::string str(const Var& v)
{
    return std::visit([](auto& x) { return "<" + str(x) + ">"; }, v);
}
template <typename... Ts>
std::string str(const std::tuple<Ts...>& t)
{
    std::string r = "(";
    std::apply([&](auto&... x) { ((r += str(x) + " "), ...); }, t);
    return r + ")";
}
template <typename C>
std::string seq(const C& c)
{
    std::string r = "<";
    for (auto&& x : c)
        r += str(x) + " ";
    return r + ">";
}
std::string str(const Out& o)
{
    std::string r = "a=" + str(o.a) + " b=" + str(o.b) + " n=" + str(o.n) + " iv=" + seq(o.iv) + " fv=" + seq(o.fv) +
                    " sv=" + seq(o.sv) + " vars=" + seq(o.vars) + " oi=" + str(o.oi) + " var=" + str(o.var) +
                    " bx=" + str(o.bx.get()) + " tp=" + str(o.tp) + " ar=" + seq(o.ar) + " pr=" + str(o.pr.first) + "," +
                    str(o.pr.second) + " im=<";
    for (int k = 0; k < 3; ++k)
        if (auto* p = o.im.find(k))
            r += str(k) + ":" + str(*p) + " ";
    r += "> tb=<";
    for (int k = 0; k < 4; ++k)
        if (auto* p = o.tb.find(k))
            r += str(*p) + " ";
    r += "> sm=<";
    for (auto& [k, v] : o.sm)
        r += str(k) + ":" + str(v) + " ";
    return r + ">";
}

// ------------------------------------------------------------------ world --
// two sources: the model and, beside it, an optional part
struct Two
{
    Out m;
    std::optional<In> s;
    bool operator==(const Two& x) const { return m == x.m && s == x.s; }
};
template <typename T>
using state_a = std::shared_ptr<lager::state<T, lager::automatic_tag>>;
template <typename T>
using state_t = std::shared_ptr<lager::state<T, lager::transactional_tag>>;
struct Source
{
    bool autom = false;
    std::variant<state_a<Out>, state_t<Out>, state_a<std::optional<In>>, state_t<std::optional<In>>> st;
};

struct World
{
    Two pub, pend;
    Source src[2];
    lager::cursor<Out> m;
    lager::cursor<std::optional<In>> s;
    // a write to a join is one write per part: what each of them leaves published
    std::vector<Two> stages;
    std::size_t stage = 0;
    bool parts = false; // a join is being written
    int inside = 0, budget = 12; // watchers running, writes they may make
    bool reenter = false;        // watchers write to automatic sources too
    bool again   = false;        // ... and did: others may be told the same twice
    const Two& now() const { return stages.empty() ? pub : stages[stage]; }
    std::vector<std::unique_ptr<struct PathI>> cs;
};
World* W = nullptr;

void settle() // automatic sources publish what is written at once
{
    if (W->src[0].autom)
        W->pub.m = W->pend.m;
    if (W->src[1].autom)
        W->pub.s = W->pend.s;
    if (W->inside) { // whatever else goes on
        W->stages.clear();
        W->stage = 0;
    } else
        W->stages.push_back(W->pub);
}
struct Op // one write or update
{
    bool parts;
    Op(bool parts)
        : parts{parts}
    {
        start();
    }
    void start()
    {
        if (W->inside)
            return;
        W->parts = parts;
        W->again = false;
        W->stages.clear();
        W->stage = 0;
    }
    ~Op()
    {
        if (W->inside)
            return;
        W->stages.clear();
        W->parts = false;
    }
};

struct PathI
{
    const char* name;
    bool watching = false;
    int on        = 1; // sources: 1 the model, 2 the part
    virtual ~PathI()                      = default;
    virtual bool fits()                   = 0;
    virtual void check(const char* where) = 0;
    virtual void write()                  = 0;
    virtual void update()                 = 0;
    virtual void watch()                  = 0;
    virtual void settled(const char* w)   = 0;
};

bool joins(const PathI& p) { return std::strncmp(p.name, "with(", 5) == 0; }
bool automatic(const PathI& p)
{
    return ((p.on & 1) && W->src[0].autom) || ((p.on & 2) && W->src[1].autom);
}

// a watcher writes to transactional sources, those being committed included, or
// to automatic ones, the one being propagated included
void meddle()
{
    // (not half way through a write to several parts, which comes after)
    if (W->budget <= 0 || W->parts || !chance(25))
        return;
    std::vector<PathI*> ps;
    for (auto& p : W->cs)
        if (!automatic(*p) || (W->reenter && !joins(*p)))
            ps.push_back(p.get());
    if (ps.empty())
        return;
    ++W->inside;
    --W->budget;
    auto p = ps[choose(ps.size())];
    if (automatic(*p)) {
        W->again = true;
        ev("watcher writes, at once");
        sim::probe("watcher writes to an automatic source");
    } else
        ev("watcher writes");
    chance(50) ? p->write() : p->update();
    for (auto& q : W->cs)
        q->check("in watcher, after its write");
    --W->inside;
}
// an update function writes elsewhere before it returns
void meddle_in_update()
{
    if (W->budget <= 0 || W->inside || W->cs.empty() || !chance(15))
        return;
    --W->budget;
    ev("update function writes");
    sim::probe("update function writes");
    auto& p = *W->cs[choose(W->cs.size())];
    p.write();
    for (auto& q : W->cs)
        q->check("in update function, after its write");
}

template <typename T>
struct Path : PathI
{
    lager::cursor<T> c;
    std::function<T(const Two&)> get;
    std::vector<std::function<void(Two&, const T&)>> puts; // one per part
    std::optional<T> told;

    void put(const T& v)
    {
        for (auto& p : puts) {
            p(W->pend, v);
            settle();
        }
    }
    bool fits() override { return c.get() == get(W->now()); }
    void check(const char* where) override
    {
        auto want = get(W->now());
        auto got  = c.get();
        SIM_CHECK_ANY(({"C13", "C10"}), got == want, "%s: cursor %s shows %s, its part of the model is %s", where, name,
                      str(got).c_str(), str(want).c_str());
    }
    void write() override
    {
        auto v = make<T>();
        ev(name, 0);
        sim::ev_text("set", str(v));
        Op op{joins(*this)};
        put(v);
        switch (choose(7)) {
        case 0: c.set(v); break;
        case 3: c.zoom(zug::identity).make().set(v); break;
        case 4: {
            lager::writer<T> w{c.zoom(zug::identity)};
            auto w2 = w;
            w2.set(v);
            break;
        }
        case 5: lager::with(c).make().set(v); break;
        case 6: c.map([](T x) { return x; }, [](T x) { return x; }).make().set(v); break;
        case 1: {
            T x{v};
            c.set(std::move(x));
            break;
        }
        case 2: {
            lager::writer<T> w{c};
            w.set(v);
            break;
        }
        }
    }
    void update() override
    {
        int kind  = choose(5);
        auto v    = make<T>();
        auto cur  = get(W->pend);
        int calls = 0;
        bool bad  = false;
        std::string got;
        ev(name, 1, kind);
        Op op{joins(*this)};
        auto seen = [&](const T& x) {
            ++calls;
            if (!(x == cur)) {
                bad = true;
                got = str(x);
            }
        };
        if (kind == 3) {
            try {
                c.update([&](const T& x) -> T {
                    seen(x);
                    throw Injected{};
                });
            } catch (const Injected&) {
                sim::fault("update function throws");
            }
        } else {
            // 0: replace; 1, 2: the same value, copied or moved along
            if (kind == 4) { // through something derived on the spot
                auto f = [&](T x) {
                    seen(x);
                    op.start();
                    put(v);
                    return v;
                };
                switch (choose(4)) {
                case 0: c.zoom(zug::identity).make().update(f); break;
                case 1: {
                    lager::writer<T> w{c};
                    w.update(f);
                    break;
                }
                case 2: lager::with(c).make().update(f); break;
                case 3: c.map([](T x) { return x; }, [](T x) { return x; }).make().update(f); break;
                }
            } else if (kind == 0) {
                c.update([&](T x) {
                    seen(x);
                    meddle_in_update();
                    op.start();
                    put(v);
                    return v;
                });
            } else {
                put(cur);
                if (kind == 1)
                    c.update([&](const T& x) -> const T& {
                        seen(x);
                        return x;
                    });
                else
                    c.update([&](T x) {
                        seen(x);
                        return x;
                    });
            }
        }
        SIM_CHECK("C13", calls == 1, "update through %s called its function %d times", name, calls);
        SIM_CHECK("C13", !bad, "update through %s gave its function %s, the pending value is %s", name, got.c_str(),
                  str(cur).c_str());
    }
    void watch() override
    {
        if (watching)
            return;
        watching = true;
        told     = get(W->pub);
        ev("watch");
        c.watch([this](const T& v) {
            ev("notified");
            auto fit = [&] {
                if (!(v == get(W->now())))
                    return false;
                for (auto& p : W->cs)
                    if (!p->fits())
                        return false;
                return true;
            };
            auto from = W->stage;
            while (!fit() && W->stage + 1 < W->stages.size())
                ++W->stage;
            if (!fit()) {
                W->stage = from;
                SIM_CHECK_ANY(({"C13", "C10"}), v == get(W->now()),
                              "watcher of %s was given %s, its part of the model is %s", name, str(v).c_str(),
                              str(get(W->now())).c_str());
                for (auto& p : W->cs)
                    p->check("in watcher");
            }
            SIM_CHECK_ANY(({"C13", "C10", "C11"}), W->again || !(v == *told), "watcher of %s called with %s again", name,
                          str(v).c_str());
            told = v;
            meddle();
        });
    }
    void settled(const char* where) override
    {
        if (watching)
            SIM_CHECK_ANY(({"C13", "C10", "C11"}), *told == get(W->pub), "%s: watcher of %s was last told %s, the value is %s",
                          where, name, str(*told).c_str(), str(get(W->pub)).c_str());
    }
};

template <typename T, typename G, typename... Ps>
void add(const char* name, lager::cursor<T> c, G get, Ps... puts)
{
    auto p   = std::make_unique<Path<T>>();
    p->name  = name;
    p->c     = std::move(c);
    p->get   = get;
    (p->puts.push_back(puts), ...);
    ev("cursor made");
    sim::probe(name);
    p->check("new");
    if (std::strstr(name, "with(s") || std::strstr(name, "with(a, s") || std::strstr(name, ", s)"))
        p->on = 3;
    else if (name[0] == 's' && (name[1] == 0 || name[1] == '.'))
        p->on = 2;
    W->cs.push_back(std::move(p));
}

template <typename T>
using opt = std::optional<T>;

// as in the manual: the getter and the setter take their arguments by value
const auto in_t = L::getset([](In in) { return in.t; },
                            [](In in, Txt t) {
                                in.t = t;
                                return in;
                            });

// every path of the library, with what it means
void add_path(int k)
{
    auto& m = W->m;
    auto& s = W->s;
    int i   = choose(3);
    switch (k) {
    case 0:
        add<opt<Txt>>(
            "iv[i].t", m[&Out::iv][i][&In::t],
            [i](auto& w) { return i < (int) w.m.iv.size() ? opt<Txt>{w.m.iv[i].t} : std::nullopt; },
            [i](auto& w, auto& v) {
                if (v && i < (int) w.m.iv.size()) {
                    In x   = w.m.iv[i];
                    x.t    = *v;
                    w.m.iv = w.m.iv.set(i, x);
                }
            });
        break;
    case 1:
        add<opt<In>>(
            "sv[i]", m[&Out::sv][i],
            [i](auto& w) { return i < (int) w.m.sv.size() ? opt<In>{w.m.sv[i]} : std::nullopt; },
            [i](auto& w, auto& v) {
                if (v && i < (int) w.m.sv.size())
                    w.m.sv[i] = *v;
            });
        break;
    case 2:
        add<opt<Txt>>(
            "im[k].o", m[&Out::im][i][&In::o],
            [i](auto& w) {
                auto p = w.m.im.find(i);
                return p ? p->o : opt<Txt>{};
            },
            [i](auto& w, auto& v) {
                auto p = w.m.im.find(i);
                if (v && p) {
                    In x   = *p;
                    x.o    = *v;
                    w.m.im = w.m.im.set(i, x);
                }
            });
        break;
    case 3:
        add<opt<Txt>>(
            "sm[k]", m[&Out::sm][i],
            [i](auto& w) { return w.m.sm.count(i) ? opt<Txt>{w.m.sm.at(i)} : std::nullopt; },
            [i](auto& w, auto& v) {
                if (v && w.m.sm.count(i))
                    w.m.sm[i] = *v;
            });
        break;
    case 4:
        add<opt<Txt>>(
            "oi.t", m.zoom(L::attr(&Out::oi) | L::with_opt(L::attr(&In::t))),
            [](auto& w) { return w.m.oi ? opt<Txt>{w.m.oi->t} : std::nullopt; },
            [](auto& w, auto& v) {
                if (v && w.m.oi)
                    w.m.oi->t = *v;
            });
        break;
    case 5:
        add<Txt>(
            "oi or default .t", m[&Out::oi].zoom(L::or_default | L::attr(&In::t)),
            [](auto& w) { return w.m.oi ? w.m.oi->t : Txt{}; },
            [](auto& w, auto& v) {
                if (!w.m.oi)
                    w.m.oi = In{};
                w.m.oi->t = v;
            });
        break;
    case 6: {
        In d;
        d.k = 7;
        add<int>(
            "oi or 7 .k", m.zoom(L::attr(&Out::oi) | L::value_or(d) | L::attr(&In::k)),
            [](auto& w) { return w.m.oi ? w.m.oi->k : 7; },
            [d](auto& w, auto& v) {
                if (!w.m.oi)
                    w.m.oi = d;
                w.m.oi->k = v;
            });
        break;
    }
    case 7:
        add<opt<Txt>>(
            "var as In .t", m.zoom(L::attr(&Out::var) | L::alternative<In> | L::with_opt(L::attr(&In::t))),
            [](auto& w) {
                auto p = std::get_if<In>(&w.m.var);
                return p ? opt<Txt>{p->t} : std::nullopt;
            },
            [](auto& w, auto& v) {
                auto p = std::get_if<In>(&w.m.var);
                if (p && v)
                    p->t = *v;
            });
        break;
    case 8:
        add<opt<Txt>>(
            "vars[i] as Txt", m[&Out::vars][i].zoom(L::with_opt(L::alternative<Txt>)),
            [i](auto& w) {
                if (i >= (int) w.m.vars.size())
                    return opt<Txt>{};
                auto p = std::get_if<Txt>(&w.m.vars[i]);
                return p ? opt<Txt>{*p} : opt<Txt>{};
            },
            [i](auto& w, auto& v) {
                if (i < (int) w.m.vars.size() && v && std::holds_alternative<Txt>(w.m.vars[i]))
                    w.m.vars[i] = *v;
            });
        break;
    case 9:
        add<Txt>(
            "bx.t", m[&Out::bx].zoom(L::unbox)[&In::t], [](auto& w) { return w.m.bx->t; },
            [](auto& w, auto& v) {
                In x   = w.m.bx.get();
                x.t    = v;
                w.m.bx = x;
            });
        break;
    case 10:
        add<Txt>(
            "tp first", m[&Out::tp].zoom(L::first), [](auto& w) { return std::get<0>(w.m.tp); },
            [](auto& w, auto& v) { std::get<0>(w.m.tp) = v; });
        break;
    case 11:
        add<opt<Txt>>(
            "tp second .o", m.zoom(L::attr(&Out::tp) | L::second | L::attr(&In::o)),
            [](auto& w) { return std::get<1>(w.m.tp).o; }, [](auto& w, auto& v) { std::get<1>(w.m.tp).o = v; });
        break;
    case 12:
        add<Txt>(
            "ar[1].o or default", m.zoom(L::attr(&Out::ar) | L::element<1> | L::attr(&In::o) | L::or_default),
            [](auto& w) { return w.m.ar[1].o.value_or(Txt{}); }, [](auto& w, auto& v) { w.m.ar[1].o = v; });
        break;
    case 13:
        add<std::tuple<Txt, int>>(
            "a, n", m.zoom(L::attr(&Out::a, &Out::n)),
            [](auto& w) { return std::tuple<Txt, int>{w.m.a, w.m.n}; },
            [](auto& w, auto& v) {
                w.m.a = std::get<0>(v);
                w.m.n = std::get<1>(v);
            });
        break;
    case 14:
        add<Txt>(
            "iv at_or(i) .t", m.zoom(L::attr(&Out::iv) | L::at_or(i) | L::attr(&In::t)),
            [i](auto& w) { return i < (int) w.m.iv.size() ? w.m.iv[i].t : Txt{}; },
            [i](auto& w, auto& v) {
                if (i < (int) w.m.iv.size()) {
                    In x   = w.m.iv[i];
                    x.t    = v;
                    w.m.iv = w.m.iv.set(i, x);
                }
            });
        break;
    case 15:
        add<Txt>(
            "fv at_or(i, t9)", m[&Out::fv].zoom(L::at_or(i, Txt{9})),
            [i](auto& w) { return i < (int) w.m.fv.size() ? w.m.fv[i] : Txt{9}; },
            [i](auto& w, auto& v) {
                if (i < (int) w.m.fv.size())
                    w.m.fv = w.m.fv.set(i, v);
            });
        break;
    case 16:
        add<opt<Txt>>(
            "b forced", m[&Out::b].zoom(L::force_opt), [](auto& w) { return opt<Txt>{w.m.b}; },
            [](auto& w, auto& v) {
                if (v)
                    w.m.b = *v;
            });
        break;
    case 17:
        add<opt<opt<Txt>>>(
            "oi map .o", m[&Out::oi].zoom(L::map_opt(L::attr(&In::o))),
            [](auto& w) { return w.m.oi ? opt<opt<Txt>>{w.m.oi->o} : std::nullopt; },
            [](auto& w, auto& v) {
                if (w.m.oi && v)
                    w.m.oi->o = *v;
            });
        break;
    case 18:
        add<opt<Txt>>(
            "oi bind .o", m[&Out::oi].zoom(L::bind_opt(L::attr(&In::o))),
            [](auto& w) { return w.m.oi ? w.m.oi->o : opt<Txt>{}; },
            [](auto& w, auto& v) {
                if (w.m.oi && v)
                    w.m.oi->o = v;
            });
        break;
    case 19:
        add<std::tuple<opt<In>, opt<In>>>(
            "fan(iv at 0, oi)", m.zoom(L::fan(L::attr(&Out::iv) | L::at(0), L::attr(&Out::oi))),
            [](auto& w) {
                return std::tuple<opt<In>, opt<In>>{w.m.iv.size() ? opt<In>{w.m.iv[0]} : std::nullopt, w.m.oi};
            },
            [](auto& w, auto& v) {
                if (w.m.iv.size() && std::get<0>(v))
                    w.m.iv = w.m.iv.set(0, *std::get<0>(v));
                w.m.oi = std::get<1>(v);
            });
        break;
    case 20: // two sources
        add<std::tuple<opt<Txt>, opt<In>>>(
            "with(s, oi) zip", lager::with(s, m[&Out::oi]).zoom(L::zip(L::with_opt(L::attr(&In::t)), zug::identity)),
            [](auto& w) { return std::tuple<opt<Txt>, opt<In>>{w.s ? opt<Txt>{w.s->t} : std::nullopt, w.m.oi}; },
            [](auto& w, auto& v) {
                if (w.s && std::get<0>(v))
                    w.s->t = *std::get<0>(v);
            },
            [](auto& w, auto& v) { w.m.oi = std::get<1>(v); });
        break;
    case 21:
        add<opt<Txt>>(
            "with(s, b) first .o", lager::with(s, m[&Out::b]).zoom(L::first | L::with_opt(L::attr(&In::o))),
            [](auto& w) { return w.s ? w.s->o : opt<Txt>{}; },
            [](auto& w, auto& v) {
                if (w.s && v)
                    w.s->o = v;
            });
        break;
    case 22:
        add<std::tuple<opt<Txt>, int>>(
            "with(a, n) zip forced", lager::with(m[&Out::a], m[&Out::n]).zoom(L::zip(L::force_opt, zug::identity)),
            [](auto& w) { return std::tuple<opt<Txt>, int>{w.m.a, w.m.n}; },
            [](auto& w, auto& v) {
                if (std::get<0>(v))
                    w.m.a = *std::get<0>(v);
            },
            [](auto& w, auto& v) { w.m.n = std::get<1>(v); });
        break;
    case 23:
        add<int>(
            "iv[i].k or 0, times two",
            m[&Out::iv][i][&In::k].zoom(L::or_default).xform(zug::map([](int x) { return x * 2; }),
                                                           zug::map([](int x) { return x / 2; })),
            [i](auto& w) { return i < (int) w.m.iv.size() ? w.m.iv[i].k * 2 : 0; },
            [i](auto& w, auto& v) {
                if (i < (int) w.m.iv.size()) {
                    In x   = w.m.iv[i];
                    x.k    = v / 2;
                    w.m.iv = w.m.iv.set(i, x);
                }
            });
        break;
    case 24:
        add<Txt>(
            "getset", m.zoom(L::getset([](const Out& o) { return o.a; },
                                       [](Out o, Txt t) {
                                           o.a = t;
                                           o.n = t.v;
                                           return o;
                                       })),
            [](auto& w) { return w.m.a; },
            [](auto& w, auto& v) {
                w.m.a = v;
                w.m.n = v.v;
            });
        break;
    case 25:
        add<opt<Txt>>("pr.first", m.zoom(L::attr(&Out::pr) | L::first), [](auto& w) { return w.m.pr.first; },
                      [](auto& w, auto& v) { w.m.pr.first = v; });
        break;
    case 26:
        add<opt<In>>("s", s, [](auto& w) { return w.s; }, [](auto& w, auto& v) { w.s = v; });
        break;
    case 27:
        add<opt<Txt>>(
            "s.t", s[&In::t], [](auto& w) { return w.s ? opt<Txt>{w.s->t} : std::nullopt; },
            [](auto& w, auto& v) {
                if (w.s && v)
                    w.s->t = *v;
            });
        break;
    case 28:
        add<opt<int>>(
            "sv[i].k", m[&Out::sv].zoom(L::at(i) | L::with_opt(L::attr(&In::k))),
            [i](auto& w) { return i < (int) w.m.sv.size() ? opt<int>{w.m.sv[i].k} : std::nullopt; },
            [i](auto& w, auto& v) {
                if (v && i < (int) w.m.sv.size())
                    w.m.sv[i].k = *v;
            });
        break;
    case 29: // forced, then into the part
        add<opt<Txt>>(
            "tp second forced .t", m[&Out::tp].zoom(L::second | L::force_opt | L::with_opt(L::attr(&In::t))),
            [](auto& w) { return opt<Txt>{std::get<1>(w.m.tp).t}; },
            [](auto& w, auto& v) {
                if (v)
                    std::get<1>(w.m.tp).t = *v;
            });
        break;
    case 30:
        add<std::tuple<Txt, Txt>>(
            "a, b swapped",
            m.zoom(L::fan(L::attr(&Out::b), L::attr(&Out::a))), [](auto& w) { return std::tuple<Txt, Txt>{w.m.b, w.m.a}; },
            [](auto& w, auto& v) {
                w.m.b = std::get<0>(v);
                w.m.a = std::get<1>(v);
            });
        break;
    case 31:
        add<opt<In>>(
            "var as In", m[&Out::var].zoom(L::alternative<In>),
            [](auto& w) {
                auto p = std::get_if<In>(&w.m.var);
                return p ? opt<In>{*p} : opt<In>{};
            },
            [](auto& w, auto& v) {
                auto p = std::get_if<In>(&w.m.var);
                if (p && v)
                    *p = *v;
            });
        break;
    case 32:
        add<Out>("model", m, [](auto& w) { return w.m; }, [](auto& w, auto& v) { w.m = v; });
        break;
    case 33: // a join of parts, written as a whole
        add<std::tuple<Txt, opt<In>, int>>(
            "with(a, s, n)", lager::with(m[&Out::a], s, m[&Out::n]),
            [](auto& w) { return std::tuple<Txt, opt<In>, int>{w.m.a, w.s, w.m.n}; },
            [](auto& w, auto& v) {
                w.m.a = std::get<0>(v);
            },
            [](auto& w, auto& v) { w.s = std::get<1>(v); }, [](auto& w, auto& v) { w.m.n = std::get<2>(v); });
        break;
    case 34: // a lens as the manual writes them, on a part
        add<opt<Txt>>(
            "iv[i] getset t", m[&Out::iv][i].zoom(L::with_opt(in_t)),
            [i](auto& w) { return i < (int) w.m.iv.size() ? opt<Txt>{w.m.iv[i].t} : std::nullopt; },
            [i](auto& w, auto& v) {
                if (v && i < (int) w.m.iv.size()) {
                    In x   = w.m.iv[i];
                    x.t    = *v;
                    w.m.iv = w.m.iv.set(i, x);
                }
            });
        break;
    case 35:
        add<Txt>(
            "with(tp second) getset t", lager::with(m[&Out::n], m[&Out::tp].zoom(L::second)).zoom(L::second | in_t),
            [](auto& w) { return std::get<1>(w.m.tp).t; }, [](auto& w, auto& v) { std::get<1>(w.m.tp).t = v; });
        break;
    case 36: // lenses whose type is erased
        add<Txt>(
            "bx erased t", m.zoom(L::attr(&Out::bx) | L::unbox | lager::lens<In, Txt>{in_t}),
            [](auto& w) { return w.m.bx->t; },
            [](auto& w, auto& v) {
                In x   = w.m.bx.get();
                x.t    = v;
                w.m.bx = x;
            });
        break;
    case 37:
        add<opt<Txt>>(
            "sv[i] erased t", m[&Out::sv][i].zoom(L::with_opt(lager::lens<In, Txt>{L::attr(&In::t)})),
            [i](auto& w) { return i < (int) w.m.sv.size() ? opt<Txt>{w.m.sv[i].t} : std::nullopt; },
            [i](auto& w, auto& v) {
                if (v && i < (int) w.m.sv.size())
                    w.m.sv[i].t = *v;
            });
        break;
    case 38:
        add<opt<Row>>(
            "tb[i]", m[&Out::tb].zoom(L::at(i)),
            [i](auto& w) {
                auto p = w.m.tb.find(i);
                return p ? opt<Row>{*p} : std::nullopt;
            },
            [](auto& w, auto& v) {
                if (v)
                    w.m.tb = w.m.tb.insert(*v);
            });
        break;
    case 39:
        add<opt<Txt>>(
            "tb[i].t", m[&Out::tb].zoom(L::at(i) | L::with_opt(L::attr(&Row::t))),
            [i](auto& w) {
                auto p = w.m.tb.find(i);
                return p ? opt<Txt>{p->t} : std::nullopt;
            },
            [i](auto& w, auto& v) {
                auto p = w.m.tb.find(i);
                if (v && p) {
                    Row r  = *p;
                    r.t    = *v;
                    w.m.tb = w.m.tb.insert(r);
                }
            });
        break;
    case 40: // wide joins
        add<std::tuple<Txt, int, Txt, In, opt<In>>>(
            "with(a, n, b, tp second, s)",
            lager::with(m[&Out::a], m[&Out::n], m[&Out::b], m[&Out::tp].zoom(L::second), s),
            [](auto& w) { return std::tuple<Txt, int, Txt, In, opt<In>>{w.m.a, w.m.n, w.m.b, std::get<1>(w.m.tp), w.s}; },
            [](auto& w, auto& v) { w.m.a = std::get<0>(v); }, [](auto& w, auto& v) { w.m.n = std::get<1>(v); },
            [](auto& w, auto& v) { w.m.b = std::get<2>(v); },
            [](auto& w, auto& v) { std::get<1>(w.m.tp) = std::get<3>(v); },
            [](auto& w, auto& v) { w.s = std::get<4>(v); });
        break;
    case 41: {
        using five = std::tuple<Txt, In, In, Txt, opt<In>>;
        add<In>(
            "with(a, ar[0], ar[1], b, s) third",
            lager::with(m[&Out::a], m[&Out::ar].zoom(L::element<0>), m[&Out::ar].zoom(L::element<1>), m[&Out::b], s)
                .zoom(L::getset([](const five& x) { return std::get<2>(x); },
                                [](five x, In v) {
                                    std::get<2>(x) = v;
                                    return x;
                                })),
            [](auto& w) { return w.m.ar[1]; }, [](auto& w, auto& v) { w.m.ar[1] = v; });
        break;
    }
    case 42:
        add<std::tuple<Txt, int, Txt, In>>(
            "fan(a, n, b, tp second)",
            m.zoom(L::fan(L::attr(&Out::a), L::attr(&Out::n), L::attr(&Out::b), L::attr(&Out::tp) | L::second)),
            [](auto& w) { return std::tuple<Txt, int, Txt, In>{w.m.a, w.m.n, w.m.b, std::get<1>(w.m.tp)}; },
            [](auto& w, auto& v) {
                w.m.a                = std::get<0>(v);
                w.m.n                = std::get<1>(v);
                w.m.b                = std::get<2>(v);
                std::get<1>(w.m.tp)  = std::get<3>(v);
            });
        break;
    }
}
constexpr int n_paths = 43;

template <typename T>
lager::cursor<T> make_source(int i, T init)
{
    auto& src = W->src[i];
    src.autom = chance(50);
    if (src.autom) {
        auto st = std::make_shared<lager::state<T, lager::automatic_tag>>(lager::make_state(init, lager::automatic_tag{}));
        src.st  = st;
        return *st;
    }
    auto st = std::make_shared<lager::state<T, lager::transactional_tag>>(lager::make_state(init, lager::transactional_tag{}));
    src.st  = st;
    return *st;
}
// 0: the model, 1: the part, 2: both, 3: both, the other way round
void commit(int how)
{
    sim::ev("commit", how);
    W->again = false;
    if (how != 1)
        W->pub.m = W->pend.m;
    if (how != 0)
        W->pub.s = W->pend.s;
    auto &a = W->src[0].st, &b = W->src[1].st;
    if (how < 2)
        std::visit([](auto& x) { lager::commit(*x); }, how ? b : a);
    else
        std::visit([&](auto& x, auto& y) { how == 2 ? lager::commit(*x, *y) : lager::commit(*y, *x); }, a, b);
}

void check_all(const char* where)
{
    for (auto& p : W->cs)
        p->check(where);
    for (auto& p : W->cs)
        p->settled(where);
}

} // namespace

SIM_SCENARIO(lens_history)
{
    World w;
    W = &w;
    w.pub.m = make<Out>();
    w.pub.s = make<opt<In>>();
    w.pend  = w.pub;
    w.m     = make_source<Out>(0, w.pub.m);
    w.s     = make_source<opt<In>>(1, w.pub.s);
    w.reenter = chance(30);
    ev("sources", w.src[0].autom, w.src[1].autom);
    for (int k = 1 + choose(5); k > 0; --k) {
        add_path(choose(n_paths));
        if (chance(60))
            w.cs.back()->watch();
    }
    int avg = sim::g_thorough ? 40 : 20;
    while (more(avg)) {
        sim::Span sp;
        switch (choose(8)) {
        case 0:
        case 1:
        case 2:
            w.cs[choose(w.cs.size())]->write();
            sim::nontrivial();
            break;
        case 3:
        case 4:
            w.cs[choose(w.cs.size())]->update();
            sim::nontrivial();
            break;
        case 5:
            if (w.cs.size() < 9)
                add_path(choose(n_paths));
            break;
        case 6: w.cs[choose(w.cs.size())]->watch(); break;
        case 7: {
            commit(choose(4));
            break;
        }
        }
        check_all("between operations");
    }
    w.budget = 0;
    for (int i = 0; i < 2; ++i) {
        commit(i);
        check_all("after the last commits");
    }
    SIM_CHECK("C13", w.m.get() == w.pend.m, "the model is %s, the writes make it %s", str(w.m.get()).c_str(),
              str(w.pend.m).c_str());
    w.cs.clear();
    W = nullptr;
}
