// The HTTP debugging interface beside a running application (C20): the server's
// own thread, the application thread and client threads run under the simulated
// scheduler; the connections are in memory.
#include "rt.hpp"

#include <lager/debug/debugger.hpp>
#include <lager/debug/http_server.hpp>
#include <lager/event_loop/safe_queue.hpp>
#include <lager/store.hpp>

#include <optional>
#include <sstream>
#include <thread>

namespace app {
struct model
{
    int a = 0;
    int b = 0; // twice a
};
struct add
{
    int by = 0;
};
using action = std::variant<add>;
inline model update(model m, action x)
{
    m.a += std::get<add>(x).by;
    m.b = 2 * m.a;
    return m;
}
} // namespace app
LAGER_STRUCT(app, model, a, b);
LAGER_STRUCT(app, add, by);

namespace {

using sim::active;
using sim::chance;
using sim::choose;
using sim::ev;
using sim::Quiet;
namespace ls = lager_simulation;

using dbg = lager::debugger<app::action, app::model, lager::deps<>>;

struct Proxy
{
    struct Hold
    {
        std::optional<lager::context<dbg::action>> ctx;
        lager::reader<dbg::model> data;
        void init(lager::context<dbg::action> c, lager::reader<dbg::model> d)
        {
            ctx  = std::move(c);
            data = std::move(d);
        }
    };
    std::weak_ptr<Hold> hold;
    template <typename D>
    std::shared_ptr<Hold> make(D)
    {
        auto h = std::make_shared<Hold>();
        hold   = h;
        return h;
    }
};

struct Loop // the safe queue, counting what goes through it; may be paused
{
    lager::with_safe_queue_event_loop w;
    long long* posted;
    template <typename Fn>
    void post(Fn&& fn)
    {
        w.post(std::forward<Fn>(fn));
        Quiet z;
        ++*posted;
    }
    template <typename Fn>
    void async(Fn&&)
    {}
    void finish() {}
    void pause() {}
    void resume() {}
};

struct Seen // a published state
{
    std::size_t cursor, size;
    bool paused;
    std::vector<std::pair<int, int>> at; // models by step
};
struct Answer
{
    int conn;
    std::string bytes;
    std::size_t published; // states published when it was made
    int req;
};
struct Req
{
    int kind; // 0 info, 1 step, 2 undo, 3 redo, 4 goto, 5 pause, 6 resume
    unsigned long arg = 0;
    std::string bytes;
};
struct World
{
    std::vector<Seen> seen;
    std::vector<Answer> answers;
    std::vector<std::shared_ptr<ls::Conn>> conns;
    std::vector<std::vector<Req>> reqs;
    std::vector<std::size_t> answered;
    long long posted = 0;
    int commands     = 0;
    int clients      = 0;
    bool down        = false;
};
World* W = nullptr;

void note(const dbg::model& m)
{
    Quiet z;
    Seen s{m.cursor, m.history.size(), m.paused, {}};
    s.at.push_back({m.init.a, m.init.b});
    for (auto& h : m.history)
        s.at.push_back({h.model.a, h.model.b});
    ev("published", (long long) s.cursor, (long long) s.size, s.paused);
    W->seen.push_back(std::move(s));
}

std::string body_of(const std::string& s)
{
    auto p = s.find("\r\n\r\n");
    return p == std::string::npos ? "" : s.substr(p + 4);
}

void judge(const std::vector<bool>& complete)
{
    Quiet z;
    std::size_t at = 0;
    std::vector<std::size_t> idx(W->conns.size(), 0);
    for (auto& a : W->answers) {
        auto& r = W->reqs[a.conn][a.req];
        SIM_CHECK("C20", a.bytes.compare(0, 12, "HTTP/1.1 200") == 0 || (r.kind == 1 && a.bytes.compare(0, 12, "HTTP/1.1 500") == 0),
                  "a request was answered '%s'", a.bytes.substr(0, 30).c_str());
        if (r.kind > 1)
            continue;
        auto body = body_of(a.bytes);
        bool ok   = false;
        std::size_t from = at;
        rapidjson::Document d;
        d.Parse(body.c_str());
        bool err = a.bytes.compare(0, 12, "HTTP/1.1 500") == 0;
        SIM_CHECK("C20", err || !d.HasParseError(), "response is not JSON: %s", body.c_str());
        for (; at < a.published; ++at) {
            auto& s = W->seen[at];
            if (r.kind == 0) {
                ok = d.HasMember("cursor") && d["cursor"].GetUint64() == s.cursor && d["summary"].GetUint64() == s.size &&
                     d["paused"].GetBool() == s.paused;
            } else if (r.arg > s.size)
                ok = err;
            else
                ok = !err && d.HasMember("model") && d["model"]["a"].GetInt() == s.at[r.arg].first &&
                     d["model"]["b"].GetInt() == s.at[r.arg].second && d.HasMember("action") == (r.arg > 0);
            if (ok)
                break;
        }
        SIM_CHECK("C20", ok,
                  "response %s to request %d of connection %d is no published model from number %d (reported before) to %d "
                  "(newest)",
                  body.c_str(), a.req, a.conn, (int) from, (int) a.published - 1);
    }
    for (std::size_t i = 0; i < W->conns.size(); ++i)
        if (complete[i])
            SIM_CHECK("C20", W->answered[i] == W->reqs[i].size(), "connection %d: %d of %d requests answered", (int) i,
                      (int) W->answered[i], (int) W->reqs[i].size());
}

} // namespace

SIM_SCENARIO(th_http)
{
    sim::g_judge_races = active("C20");
    sim::run_threads([] {
        World w;
        W = &w;
        {
            Quiet z;
            auto& pol    = ls::policy();
            int style    = choose(3);
            pol.chunk    = [style](std::size_t n) -> std::size_t {
                return style == 0 || n <= 1 ? n : style == 1 ? (n + 1) / 2 : 1 + choose(n);
            };
            pol.on_read  = [](int, std::size_t) {};
            pol.on_write = [](int id, const std::string& s) {
                Quiet z;
                int k = W->answered[id]++;
                ev("response", id, k, (long long) s.size());
                SIM_CHECK("C20", k < (int) W->reqs[id].size(), "connection %d: more responses than requests", id);
                W->answers.push_back({id, s, W->seen.size(), k});
            };
        }
        lager::safe_queue_event_loop q;
        Proxy proxy;
        std::optional<std::thread> watchdog;
        {
            auto store = lager::make_store<app::action>(
                app::model{5, 10}, Loop{lager::with_safe_queue_event_loop{q}, &w.posted}, lager::with_debugger(proxy));
            auto hold                = proxy.hold.lock();
            lager::reader<dbg::model> first = hold->data;
            note(first.get());
            first.watch([](const dbg::model& m) { note(m); });
            const char* argv[] = {"prog"};
            auto factory       = lager::http_debug_server{1, argv, 8080, "/nonexistent"};
            auto server        = factory.make(dbg{});
            server->init(*hold->ctx, hold->data);
            auto* net = ls::Net::last;
            int n     = 1 + choose(2);
            bool mid  = chance(25); // shut down with requests in progress
            {
                Quiet z;
                w.clients = n;
                for (int i = 0; i < n; ++i) {
                    auto c = std::make_shared<ls::Conn>();
                    c->id  = i;
                    c->ioc = net->ioc;
                    w.conns.push_back(c);
                    w.reqs.push_back({});
                    w.answered.push_back(0);
                }
            }
            std::vector<std::thread> ts;
            for (int i = 0; i < n; ++i) {
                std::vector<Req> rs;
                int k = 1 + choose(4);
                {
                    Quiet z;
                    for (int j = 0; j < k; ++j) {
                        Req r;
                        const char* paths[] = {"GET /api/", "GET /api/step/", "POST /api/undo", "POST /api/redo",
                                               "POST /api/goto/", "POST /api/pause", "POST /api/resume"};
                        r.kind              = choose(2) ? choose(7) : 0;
                        auto line           = std::string{paths[r.kind]};
                        if (r.kind == 1 || r.kind == 4) {
                            r.arg = choose(4);
                            line += std::to_string(r.arg);
                        }
                        r.bytes = line + " HTTP/1.1\r\nContent-Length: 0\r\n\r\n";
                        rs.push_back(r);
                    }
                }
                ts.emplace_back([i, rs, net, mid] {
                    auto c = W->conns[i];
                    boost::asio::post(net->ioc->get_executor(), [net, c] {
                        {
                            Quiet z;
                            net->all.push_back(c);
                            net->incoming.push_back(c);
                        }
                        net->pump();
                    });
                    for (std::size_t j = 0; j < rs.size(); ++j) {
                        {
                            Quiet z;
                            W->reqs[i].push_back(rs[j]);
                            if (rs[j].kind > 1)
                                W->commands++;
                            ev("request", i, (long long) j, rs[j].kind);
                        }
                        boost::asio::post(net->ioc->get_executor(), [c, b = rs[j].bytes] {
                            {
                                Quiet z;
                                c->rx += b;
                            }
                            c->pump();
                        });
                        if (choose(2) && !mid)
                            sim::wait_until_or_idle([&] { return W->answered[i] > j; });
                    }
                    Quiet z;
                    W->clients--;
                });
            }
            // the application
            int acts = 1 + choose(4);
            for (int i = 0; i < acts; ++i) {
                store.dispatch(app::action{app::add{1 + i}});
                if (choose(2))
                    q.step();
            }
            if (mid) {
                for (auto& t : ts)
                    t.join();
                for (int i = choose(3); i > 0; --i)
                    q.step();
                sim::fault("shutdown with requests in progress");
            } else {
                for (;;) {
                    long long seen;
                    {
                        Quiet z;
                        seen = w.posted;
                    }
                    q.step();
                    bool over;
                    {
                        Quiet z;
                        over = w.clients == 0;
                        for (std::size_t i = 0; over && i < w.conns.size(); ++i)
                            over = w.answered[i] == w.reqs[i].size();
                    }
                    if (over)
                        break;
                    // woken by posted work or by the last response
                    if (!sim::wait_until_or_idle([&] {
                            if (w.posted != seen)
                                return true;
                            if (w.clients)
                                return false;
                            for (std::size_t i = 0; i < w.conns.size(); ++i)
                                if (w.answered[i] != w.reqs[i].size())
                                    return false;
                            return true;
                        }))
                        break;
                }
                for (auto& t : ts)
                    t.join();
                for (int i = 0; i < 6; ++i)
                    q.step();
                {
                    Quiet z;
                    // (an action or command is posted, and its effect may be)
                    SIM_CHECK("C20", w.posted >= w.commands + acts && w.posted <= 2 * (w.commands + acts),
                              "%d commands and %d actions led to %d posts on the loop", w.commands, acts, (int) w.posted);
                }
                // everything is quiet: one more request reports the newest model
                std::size_t before;
                {
                    Quiet z;
                    before = w.answered[0];
                    Req r{0, 0, "GET /api/ HTTP/1.1\r\n\r\n"};
                    w.reqs[0].push_back(r);
                }
                boost::asio::post(net->ioc->get_executor(), [c = w.conns[0]] {
                    {
                        Quiet z;
                        c->rx += "GET /api/ HTTP/1.1\r\n\r\n";
                    }
                    c->pump();
                });
                sim::wait_until_or_idle([&] { return w.answered[0] > before; });
                Quiet z;
                SIM_CHECK("C20", w.answered[0] > before, "the server no longer answers");
                rapidjson::Document d;
                auto body = body_of(w.answers.back().bytes);
                d.Parse(body.c_str());
                auto& s = w.seen.back();
                SIM_CHECK("C20",
                          !d.HasParseError() && d["cursor"].GetUint64() == s.cursor && d["summary"].GetUint64() == s.size &&
                              d["paused"].GetBool() == s.paused,
                          "with everything settled the server reports %s, the newest model has cursor %d of %d",
                          body.c_str(), (int) s.cursor, (int) s.size);
            }
            server.reset(); // ends the server's thread
            {
                Quiet z;
                w.down = true;
                ev("down");
            }
            for (int i = 0; i < 4; ++i)
                q.step();
            Quiet z;
            judge(std::vector<bool>(w.conns.size(), !mid));
            hold->data = {};
            hold->ctx.reset();
        }
        sim::nontrivial();
        Quiet z;
        for (auto& c : w.conns) {
            c->rd.drop();
            c->wr.drop();
        }
        ls::policy() = ls::Policy{};
        W            = nullptr;
    });
}
