// Properties of Qt objects over readers and cursors (C26): lager/extra/qt.hpp.
#include <lager_simulation/qt.hpp>

#include "sim.hpp"

#include <lager/event_loop/queue.hpp>
#include <lager/extra/qt.hpp>
#include <lager/lenses/attr.hpp>
#include <lager/state.hpp>
#include <lager/store.hpp>

#include <memory>
#include <optional>
#include <string>
#include <vector>

namespace {
using sim::active;
using sim::choose;
using sim::ev;
namespace ls = lager_simulation;

struct rec
{
    int a = 0, b = 0;
    std::string c;
    bool operator==(const rec& o) const { return a == o.a && b == o.b && c == o.c; }
    bool operator!=(const rec& o) const { return !(*this == o); }
};

struct heard
{
    int obj, prop;
    std::string text;
};
std::vector<heard>* g_heard;

std::string show(int v) { return std::to_string(v); }
std::string show(const std::string& s) { return s; }

class View : public QObject
{
    Q_OBJECT
public:
    View(int id, lager::reader<int> n, lager::cursor<int> m, lager::cursor<std::string> c, int k)
        : id_{id}
        , LAGER_QT(kind){k}
        , LAGER_QT(number){std::move(n)}
        , LAGER_QT(amount){std::move(m)}
        , LAGER_QT(caption){std::move(c)}
    {}

private:
    int id_;

public:
    LAGER_QT_CONST(int, kind)
    LAGER_QT_READER(int, number);
    LAGER_QT_CURSOR(int, amount);
    LAGER_QT_CURSOR(std::string, caption);

    void renumber(lager::reader<int> n) { LAGER_QT(number) = std::move(n); }
    void remount(lager::cursor<int> m) { LAGER_QT(amount) = std::move(m); }
};
// what moc writes
#define SIGNAL_SENT                                                            \
    if (signalsBlocked())                                                      \
    return
void say(int id, int prop, const std::string& t)
{
    ev("signal", id, prop);
    g_heard->push_back({id, prop, t});
}
void View::numberChanged(const int& v)
{
    SIGNAL_SENT;
    SIM_CHECK("C26", v == number(), "numberChanged(%d) while the property reads %d", v, number());
    say(id_, 0, show(v));
}
void View::amountChanged(const int& v)
{
    SIGNAL_SENT;
    SIM_CHECK("C26", v == amount(), "amountChanged(%d) while the property reads %d", v, amount());
    say(id_, 1, show(v));
}
void View::captionChanged(const std::string& v)
{
    SIGNAL_SENT;
    SIM_CHECK("C26", v == caption(), "captionChanged while the property reads otherwise");
    say(id_, 2, show(v));
}


// the three sources, what they hold and what they show: 0 an automatic state, 1 a transactional one, 2 a store
struct Src
{
    rec now, shown;
};
} // namespace

SIM_SCENARIO(qt_props)
{
    std::vector<heard> heard_;
    g_heard = &heard_;
    ls::QtWorld w;
    ls::qt() = &w;
    {
        lager::queue_event_loop loop;
        auto s0 = lager::make_state(rec{}, lager::automatic_tag{});
        auto s1 = lager::make_state(rec{}, lager::transactional_tag{});
        bool st_auto = choose(2);
        // the store's actions are whole models
        std::optional<lager::store<rec, rec>> st;
        auto red = lager::with_reducer([](rec, rec n) { return n; });
        if (st_auto)
            st.emplace(lager::make_store<rec, lager::automatic_tag>(rec{}, lager::with_queue_event_loop{loop}, red));
        else
            st.emplace(lager::make_store<rec, lager::transactional_tag>(rec{}, lager::with_queue_event_loop{loop}, red));
        Src src[3];
        std::vector<rec> pending; // dispatched

        auto cur = [&](int s) -> lager::cursor<rec> {
            if (s == 0)
                return lager::cursor<rec>{s0};
            return lager::cursor<rec>{s1};
        };
        auto rd_int = [&](int s, bool a) -> lager::reader<int> {
            auto p = a ? &rec::a : &rec::b;
            if (s == 2)
                return lager::reader<rec>{*st}[p];
            return cur(s)[p];
        };

        struct Obj
        {
            std::unique_ptr<View> v;
            int ns, ms, cs, k;
            bool na, ma;
        };
        std::vector<std::unique_ptr<Obj>> objs;
        int made = 0;

        auto pub = [&](int s, bool a) { return a ? src[s].shown.a : src[s].shown.b; };
        // every object's view before an operation, and what must be heard after
        struct Before
        {
            std::string v[3];
        };
        auto look = [&](Obj& o) {
            return Before{{show(pub(o.ns, o.na)), show(pub(o.ms, o.ma)), src[o.cs].shown.c}};
        };
        auto settle = [&](const std::vector<Before>& was) {
            for (std::size_t i = 0; i < objs.size(); ++i) {
                auto& o  = *objs[i];
                auto now = look(o);
                for (int p = 0; p < 3; ++p) {
                    int n = 0;
                    std::string last;
                    for (auto& h : heard_)
                        if (h.obj == o.k && h.prop == p)
                            ++n, last = h.text;
                    bool changed = now.v[p] != was[i].v[p];
                    SIM_CHECK("C26", n == (changed ? 1 : 0), "property %d of object %d changed %d times and told %d times",
                              p, o.k, int(changed), n);
                    SIM_CHECK("C26", !n || last == now.v[p], "property %d of object %d tells '%s', it is '%s'", p, o.k,
                              last.c_str(), now.v[p].c_str());
                }
                SIM_CHECK("C26", show(o.v->number()) == now.v[0], "number of object %d reads %d, it is %s", o.k,
                          o.v->number(), now.v[0].c_str());
                SIM_CHECK("C26", show(o.v->amount()) == now.v[1], "amount of object %d reads %d, it is %s", o.k,
                          o.v->amount(), now.v[1].c_str());
                SIM_CHECK("C26", o.v->caption() == now.v[2], "caption of object %d reads '%s', it is '%s'", o.k,
                          o.v->caption().c_str(), now.v[2].c_str());
                SIM_CHECK("C26", o.v->kind() == o.k * 3, "constant of object %d reads %d", o.k, o.v->kind());
            }
            for (auto& h : heard_) {
                bool there = false;
                for (auto& o : objs)
                    there |= o->k == h.obj;
                SIM_CHECK("C26", there, "object %d signals after it was destroyed", h.obj);
            }
            heard_.clear();
        };
        auto all = [&] {
            std::vector<Before> r;
            for (auto& o : objs)
                r.push_back(look(*o));
            return r;
        };
        auto publish_auto = [&](int s) {
            if (s == 0)
                src[0].shown = src[0].now;
        };
        auto text = [&] { return std::string(choose(3) * 12, char('a' + choose(2))); };

        int steps = 5 + choose(40);
        for (int step = 0; step < steps; ++step) {
            auto was = all();
            switch (int op = choose(12)) {
            case 0:
            case 1: {
                if (objs.size() >= 5)
                    break;
                auto o = std::make_unique<Obj>();
                o->ns = choose(3), o->ms = choose(2), o->cs = choose(2), o->k = made++;
                o->na = choose(2), o->ma = choose(2);
                auto p = o->ma ? &rec::a : &rec::b;
                o->v   = std::make_unique<View>(o->k, rd_int(o->ns, o->na), cur(o->ms)[p], cur(o->cs)[&rec::c], o->k * 3);
                ev("new", o->k, o->ns, o->ms);
                objs.push_back(std::move(o));
                was = all();
                break;
            }
            case 2: {
                if (objs.empty())
                    break;
                int i = choose(objs.size());
                ev("destroy", objs[i]->k);
                objs.erase(objs.begin() + i);
                was = all();
                break;
            }
            case 3: {
                int s = choose(2);
                rec r = src[s].now;
                r.a   = choose(4);
                if (choose(2))
                    r.b = choose(4);
                if (choose(2))
                    r.c = text();
                ev("set", s, r.a, r.b);
                src[s].now = r;
                publish_auto(s);
                if (s == 0)
                    s0.set(r);
                else
                    s1.set(r);
                break;
            }
            case 4: {
                rec r{int(choose(4)), int(choose(4)), text()};
                ev("dispatch", r.a, r.b);
                pending.push_back(r);
                st->dispatch(r);
                break;
            }
            case 5: {
                // (what is reduced last is what a step publishes for a store
                // that publishes by itself; each on its way does, too)
                if (st_auto && pending.size() > 1)
                    break;
                ev("step", pending.size());
                for (auto& r : pending)
                    src[2].now = r;
                pending.clear();
                if (st_auto)
                    src[2].shown = src[2].now;
                loop.step();
                break;
            }
            case 6: {
                int s = 1 + choose(2);
                ev("commit", s);
                if (s == 1) {
                    src[1].shown = src[1].now;
                    lager::commit(s1);
                } else {
                    src[2].shown = src[2].now;
                    lager::commit(*st);
                }
                break;
            }
            case 7: {
                src[1].shown = src[1].now;
                src[2].shown = src[2].now;
                ev("commit both");
                lager::commit(s1, *st);
                break;
            }
            case 8:
            case 9: {
                if (objs.empty())
                    break;
                auto& o = *objs[choose(objs.size())];
                int v   = choose(4);
                ev("setamount", o.k, v);
                // (a cursor sets over what is current, published or not)
                (o.ma ? src[o.ms].now.a : src[o.ms].now.b) = v;
                publish_auto(o.ms);
                o.v->setamount(v);
                break;
            }
            case 10: {
                if (objs.empty())
                    break;
                auto& o      = *objs[choose(objs.size())];
                auto t       = text();
                src[o.cs].now.c = t;
                ev("setcaption", o.k, t.size());
                publish_auto(o.cs);
                o.v->setcaption(t);
                break;
            }
            case 11: {
                if (objs.empty())
                    break;
                auto& o = *objs[choose(objs.size())];
                if (choose(2)) {
                    o.ns = choose(3), o.na = choose(2);
                    ev("renumber", o.k, o.ns);
                    o.v->renumber(rd_int(o.ns, o.na));
                } else {
                    o.ms = choose(2), o.ma = choose(2);
                    ev("remount", o.k, o.ms);
                    o.v->remount(cur(o.ms)[o.ma ? &rec::a : &rec::b]);
                }
                was = all(); // (pointing elsewhere is not a change)
                break;
            }
            default: (void) op;
            }
            if (heard_.size())
                sim::nontrivial();
            settle(was);
        }
    }
    ls::qt() = nullptr;
}
