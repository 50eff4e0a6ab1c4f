// Random graphs of readers and cursors over states, stores, sensors and setter
// cursors, driven by random histories of writes, commits and changes of the
// graph, also from inside watchers.  Judged against a model of every node.
#include "sim.hpp"

#include <cassert>

#include <lager/commit.hpp>
#include <lager/constant.hpp>
#include <lager/cursor.hpp>
#include <lager/event_loop/queue.hpp>
#include <lager/lenses.hpp>
#include <lager/lenses/attr.hpp>
#include <lager/reader.hpp>
#include <lager/sensor.hpp>
#include <lager/setter.hpp>
#include <lager/state.hpp>
#include <lager/store.hpp>
#include <lager/with.hpp>
#include <lager/writer.hpp>

#include <algorithm>
#include <deque>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <variant>

namespace {
using sim::active;
using sim::active_any;
using sim::chance;
using sim::choose;
using sim::ev;

struct Val
{
    int x = 0, y = 0;
    auto operator<=>(const Val&) const = default;
};
struct P // spoiled when moved from, so that a late use of it shows
{
    int a = 0, b = 0;
    P() = default;
    P(int x, int y)
        : a{x}
        , b{y}
    {}
    P(const P&) = default;
    P(P&& o) noexcept
        : a{o.a}
        , b{o.b}
    {
        o.a = o.b = -777;
    }
    P& operator=(const P&) = default;
    P& operator=(P&& o) noexcept
    {
        if (this != &o) {
            a   = o.a;
            b   = o.b;
            o.a = o.b = -777;
        }
        return *this;
    }
    bool operator==(const P&) const = default;
};
using T2 = std::tuple<int, int>;

Val tov(int i) { return {i, 0}; }
Val tov(const P& p) { return {p.a, p.b}; }
Val tov(const T2& t) { return {std::get<0>(t), std::get<1>(t)}; }
template <typename T>
T fromv(Val v)
{
    if constexpr (std::is_same_v<T, int>)
        return v.x;
    else
        return T{v.x, v.y};
}
template <typename T>
constexpr int type_of = std::is_same_v<T, int> ? 0 : std::is_same_v<T, P> ? 1 : 2;

enum Kind
{
    K_ROOT,
    K_LENS_A,
    K_LENS_B,
    K_SWAP,     // P -> P, isomorphism as a lens
    K_SECOND,   // P -> int through two composed lenses
    K_INC,      // int -> int, two-way transformation
    K_NEG,      // int -> int, two-way transformation
    K_UPD,      // P -> int, two-way with lager::update
    K_MAP_I,    // int -> int
    K_MAP_P,    // P -> int
    K_MAP_PP,   // P -> P
    K_FILT_I,   // int -> int
    K_FILT_P,   // P -> P
    K_FILTMAP,  // int -> int
    K_LENSMAP,  // P -> int
    K_MERGE,    // int, int -> T2
    K_MMAP,     // int, int -> int
    K_MFILT,    // int, int -> T2
    K_MZOOM_P,  // int, int -> P, isomorphism
    K_MZOOM_1,  // int, int -> int, lens on the first
    K_MXF_P,    // int, int -> P, two-way transformation
    K_M3,       // P, int, int -> int
    K_MPP,      // P, P -> int
    K_T2_FST,   // T2 -> int lens
    K_T2_MAP,   // T2 -> int
    K_INCNEG,   // int -> int, two two-way transformations that do not commute
    K_DBLINC,   // int -> int, one-way, two that do not commute
    K_SETTER
};

int map_i(int s, int x) { return s == 0 ? x / 2 : s == 1 ? (x % 2 != 0) : s == 2 ? 1 - x : (x > 1 ? 1 : x); }
int map_p(int s, Val p) { return s == 0 ? p.x + p.y : s == 1 ? p.x - p.y : s == 2 ? p.x * p.y : p.y; }
Val map_pp(int s, Val p) { return s % 2 == 0 ? Val{p.y, p.x} : Val{p.x, 0}; }
bool filt_i(int s, int x) { return s == 0 ? x % 2 == 0 : s == 1 ? x > 0 : s == 2 ? x < 2 : x != 1; }
bool filt_p(int s, Val p) { return s == 0 ? p.x <= p.y : s == 1 ? p.x != p.y : s == 2 ? (p.x + p.y) % 2 == 0 : p.y > 0; }
int map_ii(int s, int x, int y) { return s == 0 ? x + y : s == 1 ? std::max(x, y) : s == 2 ? x * y : x - y; }

using Out = std::optional<Val>;
Out apply(int kind, int s, const std::vector<Val>& in)
{
    switch (kind) {
    case K_LENS_A: return Val{in[0].x};
    case K_LENS_B: return Val{in[0].y};
    case K_SWAP: return Val{in[0].y, in[0].x};
    case K_SECOND: return Val{in[0].x};
    case K_INC: return Val{in[0].x + 1};
    case K_NEG: return Val{-in[0].x};
    case K_UPD: return Val{in[0].x};
    case K_MAP_I: return Val{map_i(s, in[0].x)};
    case K_MAP_P: return Val{map_p(s, in[0])};
    case K_MAP_PP: return map_pp(s, in[0]);
    case K_FILT_I: return filt_i(s, in[0].x) ? Out{in[0]} : Out{};
    case K_FILT_P: return filt_p(s, in[0]) ? Out{in[0]} : Out{};
    case K_FILTMAP: return filt_i(s, in[0].x) ? Out{Val{map_i((s + 1) % 4, in[0].x)}} : Out{};
    case K_LENSMAP: return Val{map_i(s, in[0].x)};
    case K_MERGE: return Val{in[0].x, in[1].x};
    case K_MMAP: return Val{map_ii(s, in[0].x, in[1].x)};
    case K_MFILT: return filt_p(s, {in[0].x, in[1].x}) ? Out{Val{in[0].x, in[1].x}} : Out{};
    case K_MZOOM_P: return Val{in[0].x, in[1].x};
    case K_MZOOM_1: return Val{in[0].x};
    case K_MXF_P: return Val{in[1].x, in[0].x};
    case K_M3: return Val{map_p(s, in[0]) + map_ii(s, in[1].x, in[2].x)};
    case K_MPP: return Val{map_p(s, in[0]) + 3 * map_p((s + 1) % 4, in[1])};
    case K_T2_FST: return Val{in[0].x};
    case K_T2_MAP: return Val{map_ii(s, in[0].x, in[0].y)};
    case K_INCNEG: return Val{-(in[0].x + 1)};
    case K_DBLINC: return Val{2 * (in[0].x + 1)};
    }
    sim::harness_error("apply");
}
bool filtering(int k) { return k == K_FILT_I || k == K_FILT_P || k == K_FILTMAP || k == K_MFILT; }

struct Handle
{
    std::variant<std::monostate, lager::reader<int>, lager::reader<P>, lager::reader<T2>, lager::cursor<int>,
                 lager::cursor<P>, lager::cursor<T2>>
        v;
    bool empty() const { return v.index() == 0; }
    template <typename T>
    lager::reader<T> r() const
    {
        if (auto p = std::get_if<lager::reader<T>>(&v))
            return *p;
        return std::get<lager::cursor<T>>(v);
    }
    template <typename T>
    lager::cursor<T> c() const
    {
        return std::get<lager::cursor<T>>(v);
    }
    template <typename F>
    void visit(F&& f)
    {
        std::visit(
            [&](auto& x) {
                if constexpr (!std::is_same_v<std::decay_t<decltype(x)>, std::monostate>)
                    f(x);
            },
            v);
    }
    Val get() const
    {
        return std::visit(
            [&](auto& x) -> Val {
                if constexpr (std::is_same_v<std::decay_t<decltype(x)>, std::monostate>)
                    sim::harness_error("get of nothing");
                else
                    return tov(x.get());
            },
            v);
    }
};

struct Node
{
    int id, kind, sub, type;
    bool cursor;
    std::vector<int> par;
    bool alive = true;
    int kids   = 0; // living children
    int objs   = 0; // reader objects of the user
    Handle keep;
    // model
    Val val;             // published
    std::set<Val> curs;  // what its pending value may be, if not refreshed
    bool dirty = false;  // refreshed with a pending value
    int changed = 0, maybe = 0; // propagations of this operation
    std::set<int> foot;  // leaves written through it: root * 4 + part, ~setter
    // roots
    int root = -1;
    // setters
    bool autom = false;
    int fn     = 0;
    int target = -1;
    Val pend;
    bool pend_known = true;
    std::deque<Val> calls; // expected calls of the setter function
    bool selfset = false;  // its own automatic propagation is due
    bool fn_done = false;
};

enum RK
{
    R_TRANS,
    R_AUTO,
    R_SENSOR,
    R_STORE_T,
    R_STORE_A,
    R_CONST
};

struct Act
{
    int mode;
    Val v;
};

struct Root
{
    int kind, node;
    Val pend;
    bool touched = false;
    // sensors
    Val env;
    int calls = 0, expect_calls = 0;
    // stores
    std::vector<Val> folds;
    std::size_t shown = 0;
    std::deque<Act> sent;
};

using LoopT = lager::with_queue_event_loop;
template <typename Tag>
auto mk_store(P init, lager::queue_event_loop& q, std::function<P(P, Act)> f)
{
    return lager::make_store<Act, Tag>(init, LoopT{q}, lager::with_reducer(f));
}
using StoreA = decltype(mk_store<lager::automatic_tag>(P{}, std::declval<lager::queue_event_loop&>(), nullptr));
using StoreT = decltype(mk_store<lager::transactional_tag>(P{}, std::declval<lager::queue_event_loop&>(), nullptr));

struct RealRoot
{
    std::unique_ptr<lager::state<P, lager::transactional_tag>> st;
    std::unique_ptr<lager::state<P, lager::automatic_tag>> sa;
    std::unique_ptr<lager::sensor<P>> se;
    std::unique_ptr<StoreT> stt;
    std::unique_ptr<StoreA> sta;
    std::unique_ptr<lager::constant<P>> co;
};

struct Obj;
struct Cb
{
    int id;
    Obj* o;
    bool dead  = false;
    bool fresh = true; // attached in this operation
    int calls  = 0;
    std::size_t pos;
};
struct Obj
{
    int id, type;
    bool cursor;
    int node = -1;
    Handle h;
    std::vector<std::shared_ptr<Cb>> cbs;
    bool mod     = false; // changed in this operation
    int on_stack = 0;
    bool moved   = false; // moved from: its callbacks are of no interest
    bool expect_direct = false;
    bool probe   = false;
};

struct Frame
{
    std::set<int> intent;               // roots (id) and setters (~node)
    std::map<int, std::set<Val>> expect; // root -> values it may show
    bool commit = false, pump = false;
    std::set<int> roots;                // committed roots
    bool seen = false;
};

struct World
{
    lager::queue_event_loop queue;
    std::vector<Root> roots;
    std::vector<RealRoot> real;
    std::vector<std::unique_ptr<Node>> nodes;
    std::vector<std::unique_ptr<Obj>> objs;
    std::vector<std::unique_ptr<Obj>> graveyard;
    std::vector<Frame*> frames;
    bool probes   = true;
    int depth     = 0; // callbacks
    int next_cb   = 0;
    int next_obj  = 0;
    int budget    = 40; // operations inside callbacks
    int pumping   = 0;
    std::vector<int> sensor_order;
    bool stopping = false;

    Node& nd(int i) { return *nodes[i]; }

    // ------------------------------------------------------------ model ---
    Val pendval(int i)
    {
        auto& n = nd(i);
        if (n.kind == K_ROOT)
            return roots[n.root].pend;
        if (n.kind == K_SETTER)
            return n.pend;
        std::vector<Val> in;
        for (auto p : n.par)
            in.push_back(pendval(p));
        auto o = apply(n.kind, n.sub, in);
        return o ? *o : n.val;
    }
    bool pend_known(int i)
    {
        auto& n = nd(i);
        if (n.kind == K_SETTER)
            return n.pend_known;
        for (auto p : n.par)
            if (!pend_known(p))
                return false;
        return true;
    }
    void closure(int i, std::set<int>& out)
    {
        auto& n = nd(i);
        if (n.kind == K_ROOT)
            out.insert(n.root);
        if (n.kind == K_SETTER) {
            out.insert(~i);
            if (n.target >= 0)
                closure(n.target, out);
        }
        for (auto p : n.par)
            closure(p, out);
    }
    void sources(int i, std::set<int>& out)
    {
        auto& n = nd(i);
        if (n.kind == K_ROOT)
            out.insert(n.root);
        if (n.kind == K_SETTER)
            out.insert(~i);
        for (auto p : n.par)
            sources(p, out);
    }
    bool entangled(int a, int b)
    {
        std::set<int> wa, wb;
        closure(a, wa);
        closure(b, wb);
        for (auto x : wa)
            if (x < 0) {
                std::set<int> s;
                sources(nd(~x).par[0], s);
                for (auto y : s)
                    if (wb.count(y))
                        return true;
            }
        return false;
    }
    bool free_to_write(const std::set<int>& c)
    {
        for (auto f : frames)
            for (auto x : c)
                if (f->intent.count(x))
                    return false;
        return true;
    }
    void refreshed(int i)
    {
        auto& n = nd(i);
        if (n.kind == K_ROOT)
            return;
        if (n.kind != K_SETTER) {
            for (auto p : n.par)
                refreshed(p);
            auto v = pendval(i);
            if (n.curs.insert(v).second || v != n.val)
                n.dirty = true;
        }
    }
    Frame& top() { return *frames.back(); }

    // the effect of setting node i to v on the pending values
    void mwrite(int i, Val v, bool dry = false)
    {
        auto& n = nd(i);
        switch (n.kind) {
        case K_ROOT: {
            auto& r = roots[n.root];
            if (r.kind == R_STORE_A || r.kind == R_STORE_T) // setter functions only
                return;
            if (r.pend != v)
                r.touched = true;
            // a watcher may see the one or the other while a value is written
            // in parts
            n.curs.insert(r.pend);
            n.curs.insert(v);
            r.pend = v;
            if (r.kind == R_AUTO)
                top().expect[n.root].insert(v);
            return;
        }
        case K_SETTER:
            n.calls.push_back(v);
            if (n.fn == 1)
                mwrite(n.target, v, dry);
            if (n.fn == 2)
                mwrite(n.target, clamp(v), dry);
            n.pend       = v;
            n.pend_known = true;
            if (n.autom) {
                n.selfset = true;
                n.fn_done = false;
            } else
                n.curs.insert(v);
            return;
        default: break;
        }
        if (n.par.size() == 1) {
            int p = n.par[0];
            Val w;
            refreshed(i);
            auto pv = pendval(p);
            switch (n.kind) {
            case K_LENS_A: w = {v.x, pv.y}; break;
            case K_LENS_B: w = {pv.x, v.x}; break;
            case K_SECOND: w = {v.x, pv.y}; break;
            case K_UPD: w = {v.x, pv.y}; break;
            case K_SWAP: w = {v.y, v.x}; break;
            case K_INC: w = {v.x - 1}; break;
            case K_NEG: w = {-v.x}; break;
            case K_T2_FST: w = {v.x, pv.y}; break;
            case K_INCNEG: w = {-v.x - 1}; break;
            default: sim::harness_error("write through a reader");
            }
            mwrite(p, w, dry);
            return;
        }
        refreshed(i);
        Val w0, w1;
        switch (n.kind) {
        case K_MERGE:
        case K_MZOOM_P: w0 = {v.x}, w1 = {v.y}; break;
        case K_MXF_P: w0 = {v.y}, w1 = {v.x}; break;
        case K_MZOOM_1: w0 = {v.x}, w1 = pendval(n.par[1]); break;
        default: sim::harness_error("write through a reader");
        }
        if (!dry) {
            // the two sources are written in an unspecified order: allow for
            // the pending values seen on the way in the other one, too
            std::vector<Val> sp;
            std::vector<std::pair<bool, bool>> ss;
            std::vector<Val> np;
            std::vector<std::deque<Val>> nc;
            std::vector<bool> tt;
            for (auto& r : roots)
                sp.push_back(r.pend), tt.push_back(r.touched);
            for (auto& x : nodes)
                np.push_back(x->pend), nc.push_back(x->calls), ss.push_back({x->selfset, x->fn_done});
            mwrite(n.par[1], w1, true);
            mwrite(n.par[0], w0, true);
            for (std::size_t k = 0; k < roots.size(); ++k)
                roots[k].pend = sp[k], roots[k].touched = roots[k].touched || tt[k];
            for (std::size_t k = 0; k < np.size(); ++k)
                nodes[k]->pend = np[k], nodes[k]->calls = nc[k], nodes[k]->selfset = ss[k].first,
                nodes[k]->fn_done = ss[k].second;
        }
        mwrite(n.par[0], w0, dry);
        mwrite(n.par[1], w1, dry);
    }
    static Val clamp(Val v) { return {v.x % 2, v.y % 2}; }

    // --------------------------------------------------------- observing ---
    void root_check(std::size_t ri, Val o, bool in_cb)
    {
        auto& r = roots[ri];
        auto& n = nd(r.node);
        bool ok = false;
        switch (r.kind) {
        case R_STORE_A:
            for (auto k = r.shown; k < r.folds.size(); ++k)
                if (r.folds[k] == o && pumping) {
                    ok      = true;
                    r.shown = k;
                    break;
                }
            SIM_CHECK_ANY(({"C10", "C11", "C12", "C14"}), ok, "store %d shows (%d,%d), not a state it was folded to",
                          (int) ri, o.x, o.y);
            break;
        default:
            for (auto f : frames) {
                auto it = f->expect.find(ri);
                if (it != f->expect.end() && it->second.count(o))
                    ok = true;
            }
            if (r.kind == R_TRANS || r.kind == R_STORE_T)
                SIM_CHECK_ANY(({"C04", "C13"}), ok,
                              "transactional source %d shows (%d,%d), it was (%d,%d), pending (%d,%d), no commit",
                              (int) ri, o.x, o.y, n.val.x, n.val.y, r.pend.x, r.pend.y);
            else if (r.kind == R_AUTO)
                SIM_CHECK_ANY(({"C10", "C13"}), ok, "automatic state %d shows (%d,%d), written was (%d,%d)", (int) ri,
                              o.x, o.y, r.pend.x, r.pend.y);
            else
                SIM_CHECK("C15", ok, "sensor or constant %d shows (%d,%d), last sample (%d,%d)", (int) ri, o.x, o.y,
                          n.val.x, n.val.y);
        }
        (void) in_cb;
    }

    void product(const std::vector<std::vector<Val>>& opts, std::size_t k, std::vector<Val>& cur,
                 const std::function<void(const std::vector<Val>&)>& f)
    {
        if (k == opts.size()) {
            f(cur);
            return;
        }
        for (auto& v : opts[k]) {
            cur.push_back(v);
            product(opts, k + 1, cur, f);
            cur.pop_back();
        }
    }

    void observe(bool in_cb)
    {
        if (stopping)
            return;
        std::size_t N = nodes.size();
        std::vector<Val> obs(N);
        for (std::size_t i = 0; i < N; ++i)
            if (nd(i).alive)
                obs[i] = nd(i).keep.get();
        std::vector<char> aff(N, 0);
        std::vector<std::set<Val>> trans(N), curs(N);
        for (std::size_t i = 0; i < N; ++i)
            curs[i] = nd(i).curs;
        bool any = false;
        // committed roots show their new value before any watcher runs
        for (auto f : frames)
            if (f->commit && !f->seen) {
                f->seen = true;
                for (auto ri : f->roots) {
                    auto& r = roots[ri];
                    auto o  = obs[r.node];
                    if (r.kind == R_SENSOR)
                        SIM_CHECK_ANY(({"C15", "C10"}), o == r.pend, "sensor %d shows (%d,%d) after a commit, the sample was (%d,%d)",
                                  ri, o.x, o.y, r.pend.x, r.pend.y);
                    else if (r.kind == R_TRANS || r.kind == R_STORE_T)
                        SIM_CHECK_ANY(({"C04", "C13", "C10"}), o == r.pend,
                                      "source %d shows (%d,%d) %s a commit, (%d,%d) was written last", ri, o.x, o.y,
                                      in_cb ? "in a watcher during" : "after", r.pend.x, r.pend.y);
                    if (r.touched) {
                        aff[r.node] = 1;
                        any         = true;
                    }
                    r.touched = false;
                }
            }
        for (std::size_t ri = 0; ri < roots.size(); ++ri) {
            auto& n = nd(roots[ri].node);
            auto o  = obs[n.id];
            if (o != n.val) {
                root_check(ri, o, in_cb);
                aff[n.id] = 1;
                any       = true;
                for (auto f : frames)
                    f->intent.insert(ri);
                if (roots[ri].kind == R_STORE_A && o == roots[ri].pend)
                    roots[ri].touched = false;
            } else if (roots[ri].kind == R_STORE_A && pumping && roots[ri].touched) {
                // actions that undid each other may be published now
                aff[n.id] = 1;
                any       = true;
            }
            if (aff[n.id]) {
                trans[n.id] = {o};
                n.changed += o != n.val;
            }
        }
        for (std::size_t i = 0; i < N; ++i) {
            auto& n = nd(i);
            if (!n.alive || n.kind == K_ROOT)
                continue;
            auto o  = obs[i];
            int na  = 0;
            bool pc = false;
            for (auto p : n.par) {
                na += aff[p] != 0;
                pc |= aff[p] && obs[p] != nd(p).val;
            }
            if (n.kind == K_SETTER) {
                bool ok = false;
                auto p  = n.par[0];
                // was its pending value the visible one?
                bool calm = n.pend_known && n.pend == n.val && !n.selfset;
                for (auto& c : curs[i])
                    calm = calm && c == n.val;
                if (na) {
                    ok = o == obs[p] || (!pc && o == n.val);
                    if (n.selfset && n.fn_done && o == n.pend)
                        ok = true;
                    aff[i]   = 1;
                    trans[i] = trans[p];
                    trans[i].insert(o);
                    if (pc && n.selfset && n.fn_done && o == obs[p] && o != n.pend) {
                        // its source was published after its own value
                        n.pend       = o;
                        n.pend_known = true;
                        n.selfset    = false;
                    } else if (pc && !n.autom && !(n.selfset)) {
                        n.pend       = o;
                        n.pend_known = true;
                    } else if (!pc) {
                        if (n.pend != o)
                            n.pend_known = false;
                    }
                } else if (o != n.val) {
                    ok       = n.selfset && n.fn_done && o == n.pend;
                    aff[i]   = 1;
                    trans[i] = {o};
                    for (auto f : frames)
                        f->intent.insert(~(int) i);
                } else
                    ok = true;
                SIM_CHECK("C14", ok, "setter cursor %d shows (%d,%d); before (%d,%d), its source (%d,%d), written (%d,%d)",
                          (int) i, o.x, o.y, n.val.x, n.val.y, obs[p].x, obs[p].y, n.pend.x, n.pend.y);
                SIM_CHECK("C10", ok, "setter cursor %d shows (%d,%d); before (%d,%d), its source (%d,%d), written (%d,%d)",
                          (int) i, o.x, o.y, n.val.x, n.val.y, obs[p].x, obs[p].y, n.pend.x, n.pend.y);
                if (n.autom && !n.selfset) {
                    n.pend       = o;
                    n.pend_known = true;
                }
                if (aff[i] && o == n.val && calm && trans[i].size() <= 1)
                    aff[i] = 0;
                if (aff[i]) {
                    any = true;
                    if (o != n.val)
                        n.changed++;
                    else
                        n.maybe += trans[i].size() > 1;
                    if (pc || !na)
                        n.curs = {o};
                    else
                        n.curs.insert(o);
                }
                continue;
            }
            if (!na) {
                SIM_CHECK_ANY(({"C10", "C04", "C15", "C14"}), o == n.val,
                              "reader %d (kind %d) shows (%d,%d), it was (%d,%d) and no source was published", (int) i,
                              n.kind, o.x, o.y, n.val.x, n.val.y);
                continue;
            }
            any    = true;
            aff[i] = 1;
            // strict: the function of what the sources show now
            std::vector<Val> cur;
            for (auto p : n.par)
                cur.push_back(obs[p]);
            auto f     = apply(n.kind, n.sub, cur);
            Val strict = f ? *f : n.val;
            std::set<Val> tr;
            std::vector<std::vector<Val>> ot;
            bool glitch = false;
            for (auto p : n.par) {
                std::set<Val> t{obs[p]};
                if (aff[p]) {
                    t.insert(trans[p].begin(), trans[p].end());
                    if (na > 1)
                        t.insert(nd(p).val);
                }
                glitch |= t.size() > 1;
                ot.push_back({t.begin(), t.end()});
            }
            std::vector<Val> tmp;
            product(ot, 0, tmp, [&](const std::vector<Val>& in) {
                if (auto x = apply(n.kind, n.sub, in))
                    tr.insert(*x);
            });
            if (o != strict && !(o == n.val && !pc)) {
                bool known = !f && glitch && filtering(n.kind) && tr.count(o);
                SIM_CHECK_ANY(({"C10", "C04", "C15", "C14"}), known,
                              "reader %d (kind %d) shows (%d,%d), its sources say (%d,%d); it was (%d,%d)", (int) i,
                              n.kind, o.x, o.y, strict.x, strict.y, n.val.x, n.val.y);
                // the listed finding: latched half way through a propagation
                if (active("C10"))
                    sim::known("KF-GLITCH-C10");
            }
            tr.insert(o);
            if (o != n.val)
                n.changed++;
            else if (tr.size() > 1)
                n.maybe++;
            trans[i] = tr;
            // nothing changed on the way: it sends nothing down
            bool calm = !n.dirty && tr.size() <= 1;
            for (auto& c : curs[i])
                calm = calm && c == n.val;
            if (o == n.val && calm)
                aff[i] = 0;
            if (pc) {
                n.curs  = {o};
                n.dirty = false;
            } else
                n.curs.insert(o);
        }
        for (std::size_t i = 0; i < N; ++i)
            if (nd(i).alive)
                nd(i).val = obs[i];
        if (any)
            sim::nontrivial();
    }

    // ---------------------------------------------------------- watchers ---
    template <typename T>
    void attach(Obj& o, lager::reader<T>* r, lager::cursor<T>* c, bool bind)
    {
        auto cb = std::make_shared<Cb>();
        cb->id  = next_cb++;
        cb->o   = &o;
        cb->pos = o.cbs.size();
        o.cbs.push_back(cb);
        auto fn = [this, cb](const T& v) { on_cb(*cb, tov(v)); };
        ev(bind ? "bind" : "watch", o.id, cb->id, o.node);
        if (bind)
            o.expect_direct = true;
        if (r)
            bind ? (void) r->bind(fn) : (void) r->watch(fn);
        else
            bind ? (void) c->bind(fn) : (void) c->watch(fn);
        if (bind) {
            o.expect_direct = false;
            SIM_CHECK("C12", cb->calls == 1, "bind called its callback %d times at once", cb->calls);
            cb->calls = 0;
        }
    }
    void attach(Obj& o, bool bind)
    {
        o.h.visit([&](auto& x) {
            using X = std::decay_t<decltype(x)>;
            using T = typename X::value_type;
            if constexpr (std::is_same_v<X, lager::reader<T>>)
                attach<T>(o, &x, nullptr, bind);
            else
                attach<T>(o, nullptr, &x, bind);
        });
    }

    void on_cb(Cb& cb, Val v)
    {
        auto& o = *cb.o;
        if (stopping)
            return;
        if (o.moved)
            return;
        SIM_CHECK_ANY(({"C12", "C11"}), !cb.dead, "callback %d was called after its reader object ended it", cb.id);
        if (cb.dead)
            return;
        ev(o.probe ? "probe" : "call", cb.id, v.x, v.y);
        SIM_CHECK("C12", o.node >= 0, "callback %d of a reader object that refers to nothing was called", cb.id);
        if (o.node < 0)
            return;
        if (!o.expect_direct)
            observe(true);
        auto g = nd(o.node).keep.get();
        SIM_CHECK_ANY(({"C11", "C12"}), v == g, "callback %d was given (%d,%d), its reader shows (%d,%d)", cb.id, v.x,
                      v.y, g.x, g.y);
        cb.calls++;
        if (!o.mod && !cb.fresh)
            for (auto& x : o.cbs)
                if (x->pos < cb.pos && !x->fresh)
                    SIM_CHECK_ANY(({"C11", "C12"}), x->calls >= cb.calls, "callback %d was called before callback %d attached earlier", cb.id,
                              x->id);
        if (o.probe || o.expect_direct)
            return;
        if (depth >= 2 || budget <= 0 || !chance(35))
            return;
        struct G
        {
            int &a, &b;
            ~G() { --a, --b; }
        } gg{depth, o.on_stack};
        ++depth;
        ++o.on_stack;
        --budget;
        sim::Span sp;
        inside();
    }

    // ------------------------------------------------------ building nodes ---
    int add(int kind, int sub, int type, bool cursor, std::vector<int> par, Handle h)
    {
        auto n    = std::make_unique<Node>();
        n->id     = nodes.size();
        n->kind   = kind;
        n->sub    = sub;
        n->type   = type;
        n->cursor = cursor;
        n->par    = par;
        n->keep   = std::move(h);
        for (auto p : par)
            nd(p).kids++;
        if (kind != K_ROOT && kind != K_SETTER) {
            std::vector<Val> in;
            for (auto p : par)
                in.push_back(nd(p).val);
            auto o  = apply(kind, sub, in);
            n->val  = o ? *o : Val{};
            n->curs = {n->val};
        } else if (kind == K_SETTER) {
            n->val  = nd(par[0]).val;
            n->pend = n->val;
            n->curs = {n->val};
        }
        int id = n->id;
        ev("node", id, kind * 10 + sub, (par.empty() ? -1 : par[0]) * 100 + (par.size() < 2 ? -1 : par[1]));
        nodes.push_back(std::move(n));
        auto& r = nd(id);
        if (kind != K_ROOT) {
            auto g = r.keep.get();
            if (kind == K_SETTER)
                SIM_CHECK_ANY(({"C04", "C14"}), g == r.val, "new setter cursor shows (%d,%d), its source (%d,%d)", g.x, g.y, r.val.x, r.val.y);
            SIM_CHECK_ANY(({"C10", "C04", "C15"}), g == r.val, "new reader (kind %d) shows (%d,%d), its sources say (%d,%d)", kind, g.x,
                          g.y, r.val.x, r.val.y);
        }
        return id;
    }

    Obj& new_obj(int node, bool probe = false)
    {
        auto o    = std::make_unique<Obj>();
        auto& n   = nd(node);
        o->id     = next_obj++;
        o->type   = n.type;
        o->node   = node;
        o->probe  = probe;
        o->cursor = n.cursor && (probe || chance(50));
        o->h      = make_handle(n, o->cursor);
        if (!probe)
            n.objs++;
        ev("object", o->id, node, o->cursor);
        objs.push_back(std::move(o));
        return *objs.back();
    }
    Handle make_handle(Node& n, bool cursor)
    {
        Handle h;
        auto go = [&](auto t) {
            using T = decltype(t);
            if (cursor)
                h.v.emplace<lager::cursor<T>>(n.keep.c<T>());
            else
                h.v.emplace<lager::reader<T>>(n.keep.r<T>());
        };
        n.type == 0 ? go(0) : n.type == 1 ? go(P{}) : go(T2{});
        return h;
    }

    void gc()
    {
        bool again = true;
        while (again) {
            again = false;
            for (std::size_t i = nodes.size(); i-- > 0;) {
                auto& n = nd(i);
                if (!n.alive || n.kind == K_ROOT || n.kids || n.objs)
                    continue;
                ev("node dropped", n.id);
                n.alive = false;
                again   = true;
                for (std::size_t k = 0; k < objs.size(); ++k)
                    if (objs[k]->probe && objs[k]->node == n.id) {
                        for (auto& c : objs[k]->cbs)
                            c->dead = true;
                        objs[k]->h.v = std::monostate{};
                        graveyard.push_back(std::move(objs[k]));
                        objs.erase(objs.begin() + k);
                        break;
                    }
                n.keep.v = std::monostate{};
                for (auto p : n.par)
                    nd(p).kids--;
                if (n.target >= 0)
                    nd(n.target).kids--;
            }
        }
    }

    void release(Obj& o)
    {
        if (o.node >= 0 && !o.probe)
            nd(o.node).objs--;
        o.node = -1;
    }

    // --------------------------------------------------------- operations ---
    void add_root(int kind)
    {
        Root r;
        r.kind = kind;
        r.pend = {(int) choose(3), (int) choose(3)};
        r.env  = r.pend;
        RealRoot x;
        int ri   = roots.size();
        P init   = fromv<P>(r.pend);
        auto red = [this, ri](P p, Act a) { return reduce(ri, p, a); };
        Handle h;
        roots.push_back(r);
        auto& rr   = roots.back();
        auto& keep = h.v;
        switch (kind) {
        case R_TRANS:
            x.st = std::make_unique<lager::state<P, lager::transactional_tag>>(init);
            keep = lager::cursor<P>{*x.st};
            break;
        case R_AUTO:
            x.sa = std::make_unique<lager::state<P, lager::automatic_tag>>(init);
            keep = lager::cursor<P>{*x.sa};
            break;
        case R_SENSOR:
            x.se = std::make_unique<lager::sensor<P>>([this, ri, n = 0]() mutable { return sample(ri, n++); });
            keep = lager::reader<P>{*x.se};
            rr.expect_calls++;
            break;
        case R_STORE_T:
            x.stt = std::make_unique<StoreT>(mk_store<lager::transactional_tag>(init, queue, red));
            keep  = lager::reader<P>{*x.stt};
            break;
        case R_STORE_A:
            x.sta = std::make_unique<StoreA>(mk_store<lager::automatic_tag>(init, queue, red));
            keep  = lager::reader<P>{*x.sta};
            rr.folds.push_back(rr.pend);
            break;
        default:
            x.co = std::make_unique<lager::constant<P>>(init);
            keep = lager::reader<P>{*x.co};
        }
        ev("root", kind, rr.pend.x, rr.pend.y);
        bool c  = kind == R_TRANS || kind == R_AUTO;
        int id  = add(K_ROOT, 0, 1, c, {}, std::move(h));
        rr.node = id;
        auto& n = nd(id);
        n.root  = ri;
        n.val   = rr.pend;
        n.foot  = {ri * 4, ri * 4 + 1};
        SIM_CHECK_ANY(({"C10", "C15", "C04"}), n.keep.get() == n.val, "a new source does not show its initial value");
        real.push_back(std::move(x));
        if (probes)
            add_probe(id);
    }
    void add_probe(int id)
    {
        auto& o = new_obj(id, true);
        attach(o, false);
        o.cbs[0]->fresh = false;
    }
    P sample(int ri, int own)
    {
        auto& r = roots[ri];
        // the function has a state of its own
        SIM_CHECK("C15", own == r.calls, "sample %d of a sensor was made by a function that had made %d", r.calls + 1, own);
        r.calls++;
        r.pend = r.env;
        sensor_order.push_back(ri);
        if (!frames.empty())
            top().expect[ri].insert(r.env);
        ev("sample", ri, r.env.x, r.env.y);
        return fromv<P>(r.env);
    }
    P reduce(int ri, P p, Act a)
    {
        auto& r = roots[ri];
        SIM_CHECK_ANY(({"C10", "C04", "C14"}), tov(p) == r.pend, "a reducer was given a model that is not the last one");
        Val v = a.mode == 0 ? a.v : a.mode == 1 ? clamp(a.v) : tov(p);
        ev("reduce", ri, v.x, v.y);
        if (v != r.pend)
            r.touched = true;
        r.pend = v;
        if (r.kind == R_STORE_A)
            r.folds.push_back(v);
        return fromv<P>(v);
    }
    void dispatch(int ri, Act a)
    {
        ev("dispatch", ri, a.mode, a.v.x * 100 + a.v.y);
        if (real[ri].stt)
            real[ri].stt->dispatch(a);
        else
            real[ri].sta->dispatch(a);
    }

    int pick_node(int type, bool cursor_only = false)
    {
        std::vector<int> c;
        for (auto& n : nodes)
            if (n->alive && (type < 0 || n->type == type) && (!cursor_only || n->cursor))
                c.push_back(n->id);
        if (c.empty())
            return -1;
        // wide programs: most things derive from one node
        if (wide && chance(70) && std::find(c.begin(), c.end(), hub) != c.end())
            return hub;
        // prefer recent ones half of the time: deeper graphs
        if (chance(40))
            return c.back();
        return c[choose(c.size())];
    }
    int wide = 0; // how many nodes more than usual
    int hub  = -1;

    // raw write through a cursor (what setter functions do)
    void raw_set(const Handle& h, Val v, bool writer)
    {
        bool lvalue = chance(50);
        auto go     = [&](auto t) {
            using T   = decltype(t);
            auto c    = h.c<T>();
            const T x = fromv<T>(v);
            if (writer)
                lvalue ? lager::writer<T>{c}.set(x) : lager::writer<T>{c}.set(fromv<T>(v));
            else
                lvalue ? c.set(x) : c.set(fromv<T>(v));
        };
        if (std::holds_alternative<lager::cursor<int>>(h.v))
            go(0);
        else if (std::holds_alternative<lager::cursor<P>>(h.v))
            go(P{});
        else
            go(T2{});
    }

    struct Scope
    {
        World& w;
        Frame f;
        bool topl;
        explicit Scope(World& x)
            : w{x}
            , topl{x.frames.empty()}
        {
            w.frames.push_back(&f);
        }
        ~Scope() { w.frames.pop_back(); }
    };

    void begin_top()
    {
        for (auto& n : nodes) {
            n->changed = n->maybe = 0;
            if (n->kind == K_ROOT)
                n->curs.clear();
        }
        for (auto& o : objs) {
            o->mod = false;
            for (auto& c : o->cbs)
                c->calls = 0, c->fresh = false;
        }
    }
    void end_frame(Frame& f)
    {
        observe(false);
        for (auto& [ri, s] : f.expect)
            if (roots[ri].kind == R_AUTO)
                SIM_CHECK_ANY(({"C13", "C10"}), nd(roots[ri].node).val == roots[ri].pend,
                              "automatic state %d shows (%d,%d) after (%d,%d) was written", ri, nd(roots[ri].node).val.x,
                              nd(roots[ri].node).val.y, roots[ri].pend.x, roots[ri].pend.y);
        for (auto& r : roots)
            if (r.kind == R_AUTO)
                r.touched = false;
        if (f.pump)
            for (std::size_t k = 0; k < roots.size(); ++k)
                if (roots[k].kind == R_STORE_A) {
                    roots[k].touched = false;
                    SIM_CHECK_ANY(({"C10", "C14"}), nd(roots[k].node).val == roots[k].pend, "store %d is idle, but does not show its model", (int) k);
                    roots[k].shown = roots[k].folds.size() - 1;
                }
        for (auto& r : roots)
            if (r.kind == R_SENSOR)
                SIM_CHECK("C15", r.calls == r.expect_calls, "a sensor's function was called %d times, expected %d", r.calls,
                          r.expect_calls);
        for (auto& n : nodes)
            if (n->alive && n->kind == K_SETTER && (frames.size() == 1 || f.intent.count(~n->id))) {
                SIM_CHECK("C14", n->calls.empty(), "a setter's function was not called for a write");
                if (n->selfset && n->fn_done) {
                    SIM_CHECK("C14", n->val == n->pend, "automatic setter cursor shows (%d,%d) after (%d,%d) was written", n->val.x,
                              n->val.y, n->pend.x, n->pend.y);
                    n->selfset = false;
                }
            }
    }
    void end_top()
    {
        for (auto& o : objs) {
            for (auto& c : o->cbs) {
                int k = 0, m = 0;
                if (o->node >= 0) {
                    k = nd(o->node).changed;
                    m = nd(o->node).maybe;
                }
                if (o->mod || o->moved)
                    continue;
                int lo = k > 0, hi = k + m;
                if (!nested)
                    lo = k;
                if (c->fresh) {
                    lo = 0;
                    hi++;
                }
                SIM_CHECK_ANY(({"C11", "C12"}), c->calls >= lo, "callback %d was called %d times for %d changes of its reader (kind %d)",
                              c->id, c->calls, k, o->node >= 0 ? nd(o->node).kind : -1);
                SIM_CHECK_ANY(({"C11", "C12", "C04", "C15"}), c->calls <= hi,
                              "callback %d was called %d times for %d changes of its reader (kind %d)", c->id, c->calls, k,
                              o->node >= 0 ? nd(o->node).kind : -1);
                if (c->calls > k && !c->fresh && active("C11"))
                    sim::known("KF-GLITCH-C11");
            }
        }
        nested = false;
    }
    bool nested = false;

    template <typename F>
    void op(Frame proto, F&& f)
    {
        Scope s{*this};
        s.f = std::move(proto);
        if (s.topl)
            begin_top();
        else
            nested = true;
        f();
        end_frame(s.f);
        if (s.topl)
            end_top();
    }

    bool write()
    {
        int i = pick_node(-1, true);
        if (i < 0)
            return false;
        std::set<int> c;
        closure(i, c);
        if (!free_to_write(c))
            return false;
        if (!probes && c.size() > 1)
            return false;
        auto& n   = nd(i);
        // a part of a value the model is not sure of cannot be judged
        if (n.kind != K_SETTER && !pend_known(i))
            return false;
        Val v     = {(int) choose(4), n.type ? (int) choose(4) : 0};
        int how   = choose(3);
        Handle h  = n.keep; // keeps the node while it is being written
        bool upd  = how == 2;
        Frame f;
        f.intent = c;
        op(f, [&] {
            if (upd) {
                refreshed(i);
                auto pv  = pendval(i);
                bool sure = pend_known(i);
                int d    = v.x % 3;
                auto fn  = [d, t = n.type](Val x) { return Val{(x.x + 1 + d) % 4, t ? (x.y + d) % 4 : 0}; };
                ev("update", i, pv.x, pv.y);
                bool called = false;
                auto go     = [&](auto t) {
                    using T = decltype(t);
                    auto cu = h.c<T>();
                    cu.update([&](T x) {
                        called = true;
                        auto a = tov(x);
                        if (sure)
                            SIM_CHECK_ANY(({"C13", "C14"}), a == pv,
                                          "update was given (%d,%d), the pending value is (%d,%d)", a.x, a.y, pv.x, pv.y);
                        v = fn(a);
                        mwrite(i, v);
                        return fromv<T>(v);
                    });
                };
                auto held = [&](auto t) { // the function returns a reference
                    using T = decltype(t);
                    T kept  = fromv<T>({});
                    h.c<T>().update([&](const T& x) -> const T& {
                        called = true;
                        auto a = tov(x);
                        if (sure)
                            SIM_CHECK_ANY(({"C13", "C14"}), a == pv,
                                          "update was given (%d,%d), the pending value is (%d,%d)", a.x, a.y, pv.x, pv.y);
                        v = fn(a);
                        mwrite(i, v);
                        kept = fromv<T>(v);
                        return kept;
                    });
                    SIM_CHECK_ANY(({"C13", "C14"}), tov(kept) == v, "update altered the value its function refers to");
                };
                if (chance(40))
                    n.type == 0 ? held(0) : n.type == 1 ? held(P{}) : held(T2{});
                else
                    n.type == 0 ? go(0) : n.type == 1 ? go(P{}) : go(T2{});
                SIM_CHECK_ANY(({"C13", "C14"}), called, "update did not call its function");
            } else {
                ev("set", i, v.x, v.y);
                mwrite(i, v);
                raw_set(h, v, how == 1);
            }
        });
        return true;
    }

    // a commit of up to three roots at once
    bool commit()
    {
        std::vector<int> c;
        for (std::size_t k = 0; k < roots.size(); ++k)
            if (roots[k].kind == R_TRANS || roots[k].kind == R_SENSOR || roots[k].kind == R_STORE_T ||
                (roots[k].kind == R_AUTO && chance(10)) || (roots[k].kind == R_STORE_A && chance(0)))
                c.push_back(k);
        if (c.empty())
            return false;
        std::vector<int> pick;
        int n = 1 + choose(std::min<std::size_t>(3, c.size()));
        for (int k = 0; k < n; ++k) {
            auto j = choose(c.size());
            pick.push_back(c[j]);
            c.erase(c.begin() + j);
        }
        if (!probes && pick.size() > 1 && false)
            return false;
        std::set<int> cl(pick.begin(), pick.end());
        if (!free_to_write(cl))
            return false;
        Frame f;
        f.intent = cl;
        f.commit = true;
        f.roots  = cl;
        for (auto k : pick) {
            auto& r = roots[k];
            if (r.kind == R_SENSOR)
                r.expect_calls++;
            else
                f.expect[k].insert(r.pend);
        }
        auto so = sensor_order.size();
        ev("commit", pick[0], pick.size() > 1 ? pick[1] : -1, pick.size() > 2 ? pick[2] : -1);
        op(f, [&] { commit_real(pick); });
        std::vector<int> want;
        for (auto k : pick)
            if (roots[k].kind == R_SENSOR)
                want.push_back(k);
        std::vector<int> got(sensor_order.begin() + so, sensor_order.begin() + std::min(sensor_order.size(), so + want.size()));
        SIM_CHECK("C15", got == want, "sensors were not sampled in commit order");
        return true;
    }
    template <typename F>
    void with_root(int k, F&& f)
    {
        auto& x = real[k];
        if (x.st)
            f(*x.st);
        else if (x.sa)
            f(*x.sa);
        else if (x.se)
            f(*x.se);
        else if (x.stt)
            f(*x.stt);
        else
            sim::harness_error("commit of what");
    }
    void commit_real(const std::vector<int>& p)
    {
        with_root(p[0], [&](auto& a) {
            if (p.size() == 1)
                lager::commit(a);
            else
                with_root(p[1], [&](auto& b) {
                    if (p.size() == 2)
                        lager::commit(a, b);
                    else
                        with_root(p[2], [&](auto& c) { lager::commit(a, b, c); });
                });
        });
    }

    bool pump()
    {
        if (pumping || !frames.empty())
            return false;
        Frame f;
        f.pump = true;
        for (std::size_t k = 0; k < roots.size(); ++k)
            if (roots[k].kind == R_STORE_A || roots[k].kind == R_STORE_T)
                f.intent.insert(k);
        if (f.intent.empty())
            return false;
        ev("pump");
        pumping = 1;
        op(f, [&] { queue.step(); });
        pumping = 0;
        return true;
    }

    bool dispatch()
    {
        std::vector<int> c;
        for (std::size_t k = 0; k < roots.size(); ++k)
            if (roots[k].kind == R_STORE_A || roots[k].kind == R_STORE_T)
                c.push_back(k);
        if (c.empty())
            return false;
        dispatch(c[choose(c.size())], Act{(int) choose(3), {(int) choose(4), (int) choose(4)}});
        return true;
    }

    bool shift_env()
    {
        for (std::size_t k = 0; k < roots.size(); ++k)
            if (roots[k].kind == R_SENSOR && chance(60)) {
                roots[k].env = {(int) choose(4), (int) choose(4)};
                ev("environment", k, roots[k].env.x, roots[k].env.y);
                sim::fault("environment changes between samples");
                return true;
            }
        return false;
    }

    bool make_node();
    bool make_setter();

    bool object_op()
    {
        // operations on existing reader objects
        std::vector<int> c;
        for (std::size_t k = 0; k < objs.size(); ++k)
            if (!objs[k]->probe && objs[k]->on_stack == 0)
                c.push_back(k);
        if (c.empty())
            return false;
        auto idx = c[choose(c.size())];
        auto& o  = *objs[idx];
        bool in  = !frames.empty();
        switch (choose(10)) {
        case 0:
        case 1:
        case 2: // attach
            if (o.moved)
                return false;
            attach(o, false);
            o.cbs.back()->fresh = in;
            return true;
        case 3: // bind
            if (o.moved || o.node < 0 || in)
                return false;
            attach(o, true);
            o.cbs.back()->fresh = false;
            return true;
        case 4: // destroy
            ev("destroy", o.id);
            for (auto& cb : o.cbs)
                cb->dead = true;
            release(o);
            o.h.v = std::monostate{};
            graveyard.push_back(std::move(objs[idx]));
            objs.erase(objs.begin() + idx);
            gc();
            return true;
        case 5: // unbind
            if (o.moved)
                return false;
            ev("unbind", o.id);
            for (auto& cb : o.cbs)
                cb->dead = true;
            o.h.visit([](auto& x) { x.unbind(); });
            o.cbs.clear();
            o.mod = in;
            return true;
        case 6: { // nudge
            if (o.moved || o.node < 0 || in)
                return false;
            ev("nudge", o.id);
            for (auto& cb : o.cbs)
                cb->calls = 0;
            o.expect_direct = true;
            o.h.visit([](auto& x) { x.nudge(); });
            o.expect_direct = false;
            for (auto& cb : o.cbs) {
                SIM_CHECK("C12", cb->calls == 1, "nudge called callback %d %d times", cb->id, cb->calls);
                cb->calls = 0;
            }
            return true;
        }
        case 7: { // copy: a new object without callbacks
            if (o.moved || o.node < 0)
                return false;
            auto x    = std::make_unique<Obj>();
            x->id     = next_obj++;
            x->type   = o.type;
            x->cursor = o.cursor;
            x->node   = o.node;
            x->h      = o.h; // copy construction
            nd(o.node).objs++;
            ev("copy", o.id, x->id);
            objs.push_back(std::move(x));
            return true;
        }
        case 8: { // assign from another object of the same type, or from a node
            bool reset = chance(15);
            int node   = reset ? -1 : pick_node(o.type, o.cursor);
            if (!reset && node < 0)
                return false;
            bool mv   = chance(50);
            int from  = -1;
            if (!reset && chance(40))
                for (std::size_t k = 0; k < objs.size(); ++k)
                    if (objs[k]->node == node && !objs[k]->probe && objs[k]->cursor == o.cursor && objs[k]->on_stack == 0 &&
                        (!objs[k]->moved)) {
                        from = k;
                        break;
                    }
            ev(reset ? "reset" : mv ? "move assign" : "assign", o.id, node, from);
            int old = o.node;
            if (from >= 0 && objs[from].get() != &o) {
                auto& x = *objs[from];
                std::visit(
                    [&](auto& a) {
                        using A = std::decay_t<decltype(a)>;
                        if constexpr (!std::is_same_v<A, std::monostate>) {
                            if (mv)
                                a = std::move(std::get<A>(x.h.v));
                            else
                                a = std::get<A>(x.h.v);
                        }
                    },
                    o.h.v);
                if (mv) {
                    release(x);
                    // what becomes of a moved-from object's callbacks is not
                    // specified: it only gets destroyed or assigned
                    if (!x.cbs.empty())
                        x.moved = true;
                }
            } else if (from >= 0) {
                std::visit(
                    [&](auto& a) {
                        auto& b = a;
                        a       = b; // self assignment
                    },
                    o.h.v);
            } else {
                std::visit(
                    [&](auto& a) {
                        using A = std::decay_t<decltype(a)>;
                        if constexpr (!std::is_same_v<A, std::monostate>) {
                            if (reset) {
                                a = A{};
                                return;
                            }
                            Handle h = make_handle(nd(node), o.cursor);
                            if (mv)
                                a = std::move(std::get<A>(h.v));
                            else
                                a = std::get<A>(h.v);
                        }
                    },
                    o.h.v);
            }
            o.node = node;
            if (o.moved) {
                // assigned again: its callbacks follow
                o.moved = false;
            }
            if (node >= 0)
                nd(node).objs++;
            if (old >= 0)
                nd(old).objs--;
            o.mod = in;
            gc();
            return true;
        }
        default: { // an object that refers to nothing yet
            auto x    = std::make_unique<Obj>();
            x->id     = next_obj++;
            x->type   = choose(3);
            x->cursor = chance(40);
            auto go   = [&](auto t) {
                using T = decltype(t);
                if (x->cursor)
                    x->h.v.emplace<lager::cursor<T>>();
                else
                    x->h.v.emplace<lager::reader<T>>();
            };
            x->type == 0 ? go(0) : x->type == 1 ? go(P{}) : go(T2{});
            ev("empty object", x->id);
            attach(*x, false);
            x->cbs.back()->fresh = in;
            x->mod               = in;
            objs.push_back(std::move(x));
            return true;
        }
        }
    }
    bool watch_some()
    {
        int i = pick_node(-1);
        if (i < 0)
            return false;
        auto& o = new_obj(i);
        attach(o, false);
        o.cbs.back()->fresh = !frames.empty();
        return true;
    }

    void inside()
    {
        switch (choose(6)) {
        case 0: write(); break;
        case 1: watch_some(); break;
        case 2: object_op(); break;
        case 3: make_node(); break;
        case 4: commit(); break;
        default: dispatch(); break;
        }
    }

    void step()
    {
        sim::Span sp;
        int w[8] = {6, 4, 3, 4, 3, 3, 2, 2};
        if (active("C12"))
            w[2] = 8;
        if (active("C15"))
            w[5] = 6;
        if (active("C14"))
            w[7] = 6;
        int sum = 0;
        for (auto x : w)
            sum += x;
        int k = choose(sum), j = 0;
        while (k >= w[j])
            k -= w[j++];
        switch (j) {
        case 0: write(); break;
        case 1: commit(); break;
        case 2: object_op(); break;
        case 3: make_node(); break;
        case 4: watch_some(); break;
        case 5: shift_env() || dispatch(); break;
        case 6: pump(); break;
        default: make_setter(); break;
        }
    }
};

// A reader or cursor of the given kind, over the given parents.
bool World::make_node()
{
    int cnt = 0;
    for (auto& n : nodes)
        cnt += n->alive;
    if (cnt > (sim::g_thorough ? 22 : 16) + wide)
        return false;
    static const int table[] = {K_LENS_A, K_LENS_B, K_SWAP,  K_SECOND,  K_INC,     K_NEG,   K_UPD,  K_MAP_I,
                                K_MAP_P,  K_MAP_PP, K_FILT_I, K_FILT_P, K_FILTMAP, K_LENSMAP, K_MERGE, K_MMAP,
                                K_MFILT,  K_MZOOM_P, K_MZOOM_1, K_MXF_P, K_M3,      K_MPP,   K_T2_FST, K_T2_MAP,
                                K_LENS_A, K_LENS_B, K_MERGE, K_MMAP,   K_INCNEG, K_INCNEG, K_DBLINC};
    int kind                 = table[choose(std::size(table))];
    int sub                  = choose(4);
    int form                 = choose(6); // how it is spelled
    std::vector<int> types;
    switch (kind) {
    case K_INC:
    case K_NEG:
    case K_INCNEG:
    case K_DBLINC:
    case K_MAP_I:
    case K_FILT_I:
    case K_FILTMAP: types = {0}; break;
    case K_MERGE:
    case K_MMAP:
    case K_MFILT:
    case K_MZOOM_P:
    case K_MZOOM_1:
    case K_MXF_P: types = {0, 0}; break;
    case K_M3: types = {1, 0, 0}; break;
    case K_MPP: types = {1, 1}; break;
    case K_T2_FST:
    case K_T2_MAP: types = {2}; break;
    default: types = {1};
    }
    static const std::set<int> two_way = {K_LENS_A, K_LENS_B, K_SWAP, K_SECOND, K_INC, K_NEG, K_UPD, K_INCNEG,
                                          K_MERGE, K_MZOOM_P, K_MZOOM_1, K_MXF_P, K_T2_FST};
    bool cur = two_way.count(kind) && chance(80);
    std::vector<int> par;
    for (auto t : types) {
        int p = pick_node(t, cur);
        if (p < 0 && cur) {
            cur = false;
            p   = pick_node(t);
        }
        if (p < 0)
            return false;
        // the same reader twice cannot be linked
        if (std::find(par.begin(), par.end(), p) != par.end())
            return false;
        par.push_back(p);
    }
    for (auto p : par)
        cur = cur && nd(p).cursor;
    std::set<int> foot;
    if (cur) {
        if (par.size() == 2) {
            auto &a = nd(par[0]).foot, &b = nd(par[1]).foot;
            for (auto x : a)
                if (b.count(x))
                    cur = false;
            // writing one part must not move the source of a setter that the
            // other part is written through: the order is unspecified
            if (entangled(par[0], par[1]) || entangled(par[1], par[0]))
                cur = false;
            foot = a;
            foot.insert(b.begin(), b.end());
        } else {
            auto& pf = nd(par[0]);
            foot     = pf.foot;
            // only sources themselves are split into parts
            if (pf.kind == K_ROOT) {
                if (kind == K_LENS_A || kind == K_SECOND || kind == K_UPD)
                    foot = {pf.root * 4};
                if (kind == K_LENS_B)
                    foot = {pf.root * 4 + 1};
            }
        }
    }
    Handle h;
    auto C0 = [&](int k) { return nd(par[k]).keep.c<int>(); };
    auto CP = [&](int k) { return nd(par[k]).keep.c<P>(); };
    auto R0 = [&](int k) { return nd(par[k]).keep.r<int>(); };
    auto RP = [&](int k) { return nd(par[k]).keep.r<P>(); };
    auto ci = [&](auto&& e) { h.v = lager::cursor<int>{std::forward<decltype(e)>(e)}; };
    auto cp = [&](auto&& e) { h.v = lager::cursor<P>{std::forward<decltype(e)>(e)}; };
    auto ct = [&](auto&& e) { h.v = lager::cursor<T2>{std::forward<decltype(e)>(e)}; };
    auto ri = [&](auto&& e) { h.v = lager::reader<int>{std::forward<decltype(e)>(e)}; };
    auto rp = [&](auto&& e) { h.v = lager::reader<P>{std::forward<decltype(e)>(e)}; };
    auto rt = [&](auto&& e) { h.v = lager::reader<T2>{std::forward<decltype(e)>(e)}; };
    auto swapl  = lager::lenses::getset([](P p) { return P{p.b, p.a}; }, [](P, P q) { return P{q.b, q.a}; });
    auto firstl = lager::lenses::getset([](T2 t) { return std::get<0>(t); },
                                        [](T2 t, int x) {
                                            std::get<0>(t) = x;
                                            return t;
                                        });
    auto pairl  = lager::lenses::getset([](T2 t) { return P{std::get<0>(t), std::get<1>(t)}; },
                                       [](T2, P p) { return T2{p.a, p.b}; });
    auto incf = zug::map([](int x) { return x + 1; });
    auto decf = zug::map([](int x) { return x - 1; });
    auto negf = zug::map([](int x) { return -x; });
    auto incl = lager::lenses::getset([](int x) { return x + 1; }, [](int, int y) { return y - 1; });
    auto negl = lager::lenses::getset([](int x) { return -x; }, [](int, int y) { return -y; });
    auto ppf  = zug::map([](int a, int b) { return P{a, b}; });
    auto ppg  = zug::map([](P p) { return T2{p.a, p.b}; });
    auto one  = [](auto x) { return x; };
    switch (kind) {
    case K_INCNEG:
        if (cur)
            switch (form) {
            case 0: ci(C0(0).xform(incf, decf).map([](int x) { return -x; }, [](int x) { return -x; })); break;
            case 1: ci(C0(0).zoom(incl).xform(negf, negf)); break;
            case 2: ci(C0(0).xform(incf, decf).zoom(negl)); break;
            case 3: ci(C0(0).zoom(incl).zoom(negl)); break;
            case 4: ci(lager::with(C0(0)).xform(incf, decf).make().xform(negf, negf)); break;
            case 5: ci(lager::with(C0(0)).zoom(incl).make().zoom(negl)); break;
            }
        else
            switch (form) {
            case 0: ri(R0(0).xform(incf).xform(negf)); break;
            case 1: ri(R0(0).zoom(incl).xform(negf)); break;
            case 2: ri(R0(0).xform(incf).zoom(negl)); break;
            case 3: ri(R0(0).zoom(incl).zoom(negl)); break;
            case 4: ri(lager::with(R0(0)).xform(incf).make().xform(negf)); break;
            case 5: ri(lager::with(R0(0)).map([](int x) { return x + 1; }).map([](int x) { return -x; })); break;
            }
        break;
    case K_DBLINC: {
        auto dbl = [](int x) { return 2 * x; };
        bool c   = nd(par[0]).cursor;
        switch (form) {
        case 0: ri(R0(0).xform(incf).map(dbl)); break;
        case 1: ri(R0(0).zoom(incl).map(dbl)); break;
        case 2: c ? ri(C0(0).xform(incf, decf).xform(zug::map(dbl))) : ri(R0(0).xform(incf).make().map(dbl)); break;
        case 3: c ? ri(C0(0).zoom(incl).map(dbl)) : ri(lager::with(R0(0)).xform(incf).xform(zug::map(dbl))); break;
        case 4: c ? ri(lager::with(C0(0)).xform(incf, decf).map(dbl)) : ri(lager::with(R0(0)).zoom(incl).make().map(dbl)); break;
        case 5: ri(R0(0).xform(zug::comp(incf, zug::map(dbl)))); break;
        }
        break;
    }
    case K_LENS_A:
        if (cur && form == 5) {
            auto w = lager::with(CP(0)).make();
            ci(w[&P::a]);
        } else if (cur && form == 4) {
            auto x = CP(0)[&P::a].make();
            ci(lager::with(std::move(x)).zoom(zug::identity));
        } else if (cur)
            sub % 2 ? ci(CP(0)[&P::a]) : ci(CP(0).zoom(lager::lenses::attr(&P::a)));
        else
            sub % 2 ? ri(RP(0)[&P::a]) : ri(RP(0).zoom(lager::lenses::attr(&P::a)));
        break;
    case K_LENS_B:
        if (cur)
            sub % 2 ? ci(CP(0)[&P::b]) : ci(CP(0).zoom(lager::lenses::attr(&P::b)));
        else
            sub % 2 ? ri(RP(0)[&P::b]) : ri(RP(0).zoom(lager::lenses::attr(&P::b)));
        break;
    case K_SWAP: cur ? cp(CP(0).zoom(swapl)) : rp(RP(0).zoom(swapl)); break;
    case K_SECOND:
        // two lenses fused into one node
        if (cur)
            ci(CP(0).zoom(swapl).zoom(lager::lenses::attr(&P::b)));
        else
            ri(RP(0).zoom(swapl).zoom(lager::lenses::attr(&P::b)));
        break;
    case K_INC: {
        auto f = zug::map([](int x) { return x + 1; });
        auto g = zug::map([](int x) { return x - 1; });
        cur ? ci(C0(0).xform(f, g)) : ri(R0(0).xform(f));
        break;
    }
    case K_NEG: {
        auto f = zug::map([](int x) { return -x; });
        cur ? ci(C0(0).xform(f, f)) : ri(R0(0).xform(f));
        break;
    }
    case K_UPD: {
        auto f = zug::map([](P p) { return p.a; });
        cur ? ci(CP(0).xform(f, lager::update([](P p, int x) {
                             p.a = x;
                             return p;
                         })))
            : ri(RP(0).xform(f));
        break;
    }
    case K_MAP_I: ri(R0(0).map([sub](int x) { return map_i(sub, x); })); break;
    case K_MAP_P: ri(RP(0).map([sub](P p) { return map_p(sub, tov(p)); })); break;
    case K_MAP_PP: rp(RP(0).map([sub](P p) { return fromv<P>(map_pp(sub, tov(p))); })); break;
    case K_FILT_I: ri(R0(0).filter([sub](int x) { return filt_i(sub, x); })); break;
    case K_FILT_P: rp(RP(0).filter([sub](P p) { return filt_p(sub, tov(p)); })); break;
    case K_FILTMAP:
        ri(R0(0).filter([sub](int x) { return filt_i(sub, x); }).map([sub](int x) { return map_i((sub + 1) % 4, x); }));
        break;
    case K_LENSMAP: {
        auto f = [sub](int x) { return map_i(sub, x); };
        bool c = nd(par[0]).cursor;
        switch (form) {
        case 0: ri(RP(0)[&P::a].map(f)); break;
        case 1: c ? ri(CP(0)[&P::a].map(f)) : ri(RP(0)[&P::a].make().map(f)); break;
        case 2: ri(RP(0).zoom(swapl)[&P::b].map(f)); break;
        case 3: ri(RP(0).map([](P p) { return P{p.b, p.a}; })[&P::b].map(f)); break;
        case 4: c ? ri(CP(0).zoom(swapl).xform(zug::map([f](P p) { return f(p.b); }))) : ri(RP(0).xform(zug::map(&P::a)).map(f)); break;
        case 5: c ? ri(CP(0).map([](P p) { return p.a; }).map(f)) : ri(lager::with(RP(0)).map([](P p) { return p.a; }).map(f)); break;
        }
        break;
    }
    case K_MERGE:
        if (cur)
            form == 0   ? ct(lager::with(C0(0), C0(1)).zoom(zug::identity))
            : form == 1 ? ct(lager::with(C0(0), C0(1)).zoom(pairl).zoom(lager::lenses::getset(
                              [](P p) { return T2{p.a, p.b}; },
                              [](P, T2 x) {
                                  return P{std::get<0>(x), std::get<1>(x)};
                              })))
                        : ct(lager::with(C0(0), C0(1)));
        else if (form < 2 && nd(par[0]).cursor)
            rt(lager::with(C0(0), R0(1)));
        else if (form < 2 && nd(par[1]).cursor) {
            auto a = R0(0);
            auto b = C0(1);
            form ? rt(lager::with(a, b)) : rt(lager::with(std::move(a), std::move(b)));
        } else if (form == 2)
            rt(lager::with(R0(0).map(one), R0(1)));
        else
            rt(lager::with(R0(0), R0(1)));
        break;
    case K_MMAP: {
        auto f = [sub](int a, int b) { return map_ii(sub, a, b); };
        switch (form) {
        case 0: ri(lager::with(R0(0), R0(1)).zoom(pairl).map([f](P p) { return f(p.a, p.b); })); break;
        case 1:
            ri(lager::with(R0(0), R0(1)).xform(ppf).zoom(swapl).map([f](P p) { return f(p.b, p.a); }));
            break;
        case 2:
            nd(par[0]).cursor ? ri(lager::with(C0(0), R0(1)).map(f)) : ri(lager::with(R0(0).map(one), R0(1)).map(f));
            break;
        case 3: ri(lager::with(R0(0), R0(1)).make().map([f](T2 x) { return f(std::get<0>(x), std::get<1>(x)); })); break;
        default: ri(lager::with(R0(0), R0(1)).map(f));
        }
        break;
    }
    case K_MFILT:
        rt(lager::with(R0(0), R0(1)).filter([sub](int a, int b) { return filt_p(sub, {a, b}); }));
        break;
    case K_MZOOM_P:
#ifndef SIM_PLAIN
        if (cur)
            form == 0   ? cp(lager::with(C0(0), C0(1)).xform(ppf, ppg))
            : form == 1 ? cp(lager::with(C0(0), C0(1)).zoom(pairl).zoom(swapl).zoom(swapl))
            : form == 2 ? cp(lager::with(C0(0), C0(1)).xform(ppf, ppg).zoom(swapl).zoom(swapl))
                        : cp(lager::with(C0(0), C0(1)).zoom(pairl));
#else
        if (cur)
            cp(lager::with(C0(0), C0(1)).zoom(pairl));
#endif
        else
            form == 0   ? rp(lager::with(R0(0), R0(1)).xform(ppf))
            : form == 1 ? rp(lager::with(R0(0), R0(1)).xform(ppf).zoom(swapl).zoom(swapl))
                        : rp(lager::with(R0(0), R0(1)).zoom(pairl));
        break;
    case K_MZOOM_1:
        if (form == 0)
            cur ? ci(lager::with(C0(0), C0(1)).zoom(pairl)[&P::a]) : ri(lager::with(R0(0), R0(1)).zoom(pairl)[&P::a]);
#ifndef SIM_PLAIN
        else if (form == 1)
            cur ? ci(lager::with(C0(0), C0(1)).xform(ppf, ppg)[&P::a]) : ri(lager::with(R0(0), R0(1)).xform(ppf)[&P::a]);
#endif
        else
            cur ? ci(lager::with(C0(0), C0(1)).zoom(firstl)) : ri(lager::with(R0(0), R0(1)).zoom(firstl)); break;
    case K_MXF_P: {
        auto f   = zug::map([](int a, int b) { return P{b, a}; });
        auto g   = zug::map([](P p) { return T2{p.b, p.a}; });
        auto swf = zug::map([](P p) { return P{p.b, p.a}; });
#ifndef SIM_PLAIN
        if (cur && form == 0)
            cp(lager::with(C0(0), C0(1)).xform(ppf, ppg).xform(swf, swf));
        else if (cur && form == 1)
            cp(lager::with(C0(0), C0(1)).zoom(pairl).xform(swf, swf));
        else
#endif
            cur ? cp(lager::with(C0(0), C0(1)).xform(f, g)) : rp(lager::with(R0(0), R0(1)).xform(f));
        break;
    }
    case K_M3:
        ri(lager::with(RP(0), R0(1), R0(2)).map([sub](P p, int a, int b) {
            return map_p(sub, tov(p)) + map_ii(sub, a, b);
        }));
        break;
    case K_MPP:
        ri(lager::with(RP(0), RP(1)).map([sub](P p, P q) {
            return map_p(sub, tov(p)) + 3 * map_p((sub + 1) % 4, tov(q));
        }));
        break;
    case K_T2_FST:
        cur ? ci(nd(par[0]).keep.c<T2>().zoom(firstl)) : ri(nd(par[0]).keep.r<T2>().zoom(firstl));
        break;
    case K_T2_MAP:
        ri(nd(par[0]).keep.r<T2>().map([sub](T2 t) { return map_ii(sub, std::get<0>(t), std::get<1>(t)); }));
        break;
    }
    static const std::map<int, int> otype = {{K_SWAP, 1},  {K_MAP_PP, 1}, {K_FILT_P, 1}, {K_MERGE, 2},
                                             {K_MFILT, 2}, {K_MZOOM_P, 1}, {K_MXF_P, 1}};
    auto it    = otype.find(kind);
    int id     = add(kind, sub, it == otype.end() ? 0 : it->second, cur, par, std::move(h));
    nd(id).foot = foot;
    auto& o    = new_obj(id);
    if (chance(60)) {
        attach(o, false);
        o.cbs.back()->fresh = !frames.empty();
    }
    return true;
}

bool World::make_setter()
{
    if (!probes)
        return false;
    int p = pick_node(choose(2));
    if (p < 0)
        return false;
    int cnt = 0;
    for (auto& n : nodes)
        cnt += n->alive;
    if (cnt > 16)
        return false;
    bool autom  = chance(50);
    int spelled = choose(5);
    auto& pn    = nd(p);
    int fn     = choose(4), target = -1, store = -1;
    if (fn == 1 || fn == 2) {
        target = pn.cursor && chance(70) ? p : pick_node(pn.type, true);
        if (target < 0)
            fn = 0;
        else {
            // no second setter behind the target: keep the order of calls plain
            std::set<int> c;
            closure(target, c);
            for (auto x : c)
                if (x < 0)
                    fn = 0;
        }
        if (!fn)
            target = -1;
    }
    if (fn == 3) {
        for (std::size_t k = 0; k < roots.size(); ++k)
            if (roots[k].kind == R_STORE_A || roots[k].kind == R_STORE_T)
                store = k;
        if (store < 0)
            fn = 0;
    }
    auto idp      = std::make_shared<int>(-1);
    int mode      = choose(2);
    Handle th     = target >= 0 ? nd(target).keep : Handle{};
    auto body     = [this, idp, fn, th, store, mode](Val v) {
        auto& n = nd(*idp);
        ev("setter function", *idp, v.x, v.y);
        SIM_CHECK("C14", !n.calls.empty(), "a setter's function was called without a write");
        if (!n.calls.empty()) {
            auto e = n.calls.front();
            n.calls.pop_front();
            SIM_CHECK("C14", e == v, "a setter's function was given (%d,%d), (%d,%d) was written", v.x, v.y, e.x, e.y);
        }
        if (fn == 1)
            raw_set(th, v, false);
        if (fn == 2)
            raw_set(th, clamp(v), false);
        if (fn == 3)
            dispatch(store, Act{mode, v});
        n.fn_done    = true;
        n.pend       = v;
        n.pend_known = true;
        if (!n.autom)
            n.curs.insert(v);
    };
    Handle h;
    auto go = [&](auto t) {
        using T = decltype(t);
        // takes its value: what it is given may be moved from
        std::function<void(T)> f = [body](const T& v) { body(tov(v)); };
        auto mk = [&](auto&& r) {
            if (autom)
                h.v = lager::cursor<T>{std::move(r).template setter<lager::automatic_tag>(f)};
            else
                h.v = lager::cursor<T>{std::move(r).setter(f)};
        };
        // cursors have no setter()
        spelled == 0   ? mk(lager::with(pn.keep.template r<T>()))
        : spelled == 1 ? mk(pn.keep.template r<T>().map([](T x) { return x; }))
                       : mk(pn.keep.template r<T>());
    };
    pn.type == 0 ? go(0) : go(P{});
    int type = pn.type;
    int id   = add(K_SETTER, fn, type, true, {p}, std::move(h));
    *idp     = id;
    auto& n  = nd(id);
    n.autom  = autom;
    n.fn     = fn;
    n.target = target;
    n.foot   = {~id};
    if (target >= 0) {
        nd(target).kids++;
        n.foot.insert(nd(target).foot.begin(), nd(target).foot.end());
    }
    auto& o = new_obj(id);
    (void) o;
    add_probe(id);
    objs.back()->cbs[0]->fresh = !frames.empty();
    return true;
}

SIM_SCENARIO(graph_history)
{
    World w;
    w.probes = !chance(25);
    int nr   = 1 + choose(4);
    for (int k = 0; k < nr; ++k) {
        int kind = R_TRANS;
        int x    = choose(12);
        if (active("C15"))
            kind = x < 6 ? R_SENSOR : x < 9 ? R_TRANS : R_AUTO;
        else
            kind = x < 4 ? R_TRANS : x < 8 ? R_AUTO : x < 9 ? R_SENSOR : x < 10 ? R_STORE_A : x < 11 ? R_STORE_T : R_CONST;
        if (!w.probes && (kind == R_STORE_A || kind == R_STORE_T))
            kind = R_AUTO;
        w.add_root(kind);
    }
    if (chance(3)) {
        w.wide = 10 + choose(24);
        w.hub  = w.pick_node(-1);
        for (int k = 0; k < w.wide; ++k)
            w.make_node();
    }
    int avg = sim::g_thorough ? 60 : 35;
    while (sim::more(avg))
        w.step();
    w.pump();
    // teardown in a random order must not call anything
    w.stopping = true;
    for (auto& o : w.objs)
        for (auto& c : o->cbs)
            c->dead = true;
}
} // namespace
