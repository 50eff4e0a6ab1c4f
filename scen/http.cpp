// The HTTP debugging interface (C19): real router, sessions, listener, Beast
// parser and serializer, debugger and store; the TCP connections are in memory
// and every chunk, delay, close and reset comes from the tape.
#include "any_loop.hpp"
#include "sim.hpp"

#include <lager/debug/debugger.hpp>
#include <lager/debug/http_server.hpp>
#include <lager/store.hpp>

#include <cereal/archives/json.hpp>

#include <fstream>
#include <optional>
#include <sstream>

namespace app {
struct model
{
    int value = -1;
    std::string text;
};
struct add
{
    int by = 0;
};
struct say
{
    std::string what;
};
using action = std::variant<add, say>;
inline model update(model m, action a)
{
    return std::visit(lager::visitor{[&](add x) {
                                         m.value += x.by;
                                         return m;
                                     },
                                     [&](say x) {
                                         m.text = x.what;
                                         return m;
                                     }},
                      a);
}
} // namespace app
LAGER_STRUCT(app, model, value, text);
LAGER_STRUCT(app, add, by);
LAGER_STRUCT(app, say, what);

namespace {

using sim::active;
using sim::chance;
using sim::choose;
using sim::ev;
using sim::more;
namespace ls = lager_simulation;

using dbg = lager::debugger<app::action, app::model, lager::deps<>>;

struct Proxy // stands where the server stands, so that the scenario owns it
{
    struct Hold
    {
        std::optional<lager::context<dbg::action>> ctx;
        lager::reader<dbg::model> data;
        void init(lager::context<dbg::action> c, lager::reader<dbg::model> d)
        {
            ctx  = std::move(c);
            data = std::move(d);
        }
    };
    std::weak_ptr<Hold> hold;
    template <typename D>
    std::shared_ptr<Hold> make(D)
    {
        auto h = std::make_shared<Hold>();
        hold   = h;
        return h;
    }
};

std::string www()
{
    std::string f = __FILE__;
    return f.substr(0, f.rfind('/')) + "/www";
}
std::string slurp(const std::string& p)
{
    std::ifstream f{p, std::ios::binary};
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}

enum Kind
{
    k_info,
    k_step,
    k_goto,
    k_undo,
    k_redo,
    k_pause,
    k_resume,
    k_file,
    k_missing,  // no such file
    k_wrong,    // no such route
    k_traverse, // a path that leaves the resource directory
    k_bad,      // not HTTP
    k_count
};
const char* names[] = {"info", "step", "goto", "undo", "redo", "pause", "resume", "file", "missing", "wrong", "traverse", "bad"};

struct Req
{
    Kind kind;
    std::string target;
    std::string bytes;
    unsigned long arg = 0;
    bool overflow     = false;
    std::string file, type;
    std::size_t end = 0;
};
struct Client
{
    std::shared_ptr<ls::Conn> c;
    std::string out; // not delivered yet
    std::size_t queued = 0, consumed = 0;
    std::vector<Req> reqs;
    std::size_t answered = 0;
    std::string expect; // every response started
    bool bad = false, eof = false, reset = false;
};

struct Resp
{
    int status = 0;
    std::string type, body;
    bool ok = false;
    std::string why;
};
Resp parse(const std::string& s)
{
    Resp r;
    auto h = s.find("\r\n\r\n");
    if (h == std::string::npos || s.compare(0, 9, "HTTP/1.1 ") != 0) {
        r.why = "not an HTTP/1.1 response";
        return r;
    }
    r.status     = std::atoi(s.c_str() + 9);
    r.body       = s.substr(h + 4);
    long len     = -1;
    std::size_t p = s.find("\r\n") + 2;
    while (p < h + 2) {
        auto e    = s.find("\r\n", p);
        auto line = s.substr(p, e - p);
        p         = e + 2;
        auto c    = line.find(':');
        auto k    = line.substr(0, c);
        for (auto& x : k)
            x = std::tolower(x);
        auto v = c == std::string::npos ? "" : line.substr(line.find_first_not_of(' ', c + 1));
        if (k == "content-type")
            r.type = v;
        if (k == "content-length")
            len = std::atol(v.c_str());
    }
    if (len != (long) r.body.size()) {
        r.why = sim::fmt("content-length %ld, body of %d bytes", len, (int) r.body.size());
        return r;
    }
    r.ok = true;
    return r;
}
bool same_json(const std::string& a, const std::string& b)
{
    rapidjson::Document x, y;
    x.Parse(a.c_str());
    y.Parse(b.c_str());
    return !x.HasParseError() && !y.HasParseError() && x == y;
}

const char* texts[] = {"", "a", "\"quoted\\\"", "line\nbreak\ttab", "caf\xc3\xa9 \xe2\x98\x83", "</script>", "{\"a\": [1, 2]}"};

struct Runner
{
    std::shared_ptr<LoopImpl> loop = make_loop(0);
    std::vector<Client> clients;
    std::vector<dbg::action> cmds; // dispatched by the handler now running
    lager::reader<dbg::model> pub;
    ls::Net* net = nullptr;
    std::string program;
    int budget = 400;

    std::string json_info()
    {
        auto& m = pub.get();
        auto s  = std::ostringstream{};
        {
            auto a = cereal::JSONOutputArchive{s};
            a(cereal::make_nvp("program", program), cereal::make_nvp("summary", m.history.size()),
              cereal::make_nvp("cursor", m.cursor), cereal::make_nvp("paused", m.paused));
        }
        return s.str();
    }
    std::string json_step(std::size_t n)
    {
        auto& m = pub.get();
        auto s  = std::ostringstream{};
        {
            auto a = cereal::JSONOutputArchive{s};
            if (n > 0) {
                a(cereal::make_nvp("action", m.history[n - 1].action));
                a(cereal::make_nvp("model", m.history[n - 1].model));
            } else
                a(cereal::make_nvp("model", m.init));
        }
        return s.str();
    }

    void on_write(int id, const std::string& bytes)
    {
        auto& cl = clients[id];
        auto k   = cl.answered;
        ev("response", id, (long long) k, (long long) bytes.size());
        SIM_CHECK("C19", k < cl.reqs.size(), "connection %d: response %d, but only %d requests were sent", id, (int) k,
                  (int) cl.reqs.size());
        auto& r = cl.reqs[k];
        SIM_CHECK("C19", r.kind != k_bad, "connection %d: an invalid request was answered", id);
        SIM_CHECK("C19", cl.consumed >= r.end, "connection %d: request %d answered before it was received", id, (int) k);
        auto resp = parse(bytes);
        SIM_CHECK("C19", resp.ok, "connection %d: %s", id, resp.why.c_str());
        cl.answered++;
        cl.expect += bytes;
        // commands
        std::size_t want = r.kind >= k_goto && r.kind <= k_resume && !r.overflow ? 1 : 0;
        SIM_CHECK("C19", cmds.size() == want, "request %s %s dispatched %d commands", names[r.kind], r.target.c_str(),
                  (int) cmds.size());
        if (want) {
            bool ok = false;
            switch (r.kind) {
            case k_goto: {
                auto* g = std::get_if<dbg::goto_action>(&cmds[0]);
                ok      = g && g->cursor == r.arg;
                break;
            }
            case k_undo: ok = std::holds_alternative<dbg::undo_action>(cmds[0]); break;
            case k_redo: ok = std::holds_alternative<dbg::redo_action>(cmds[0]); break;
            case k_pause: ok = std::holds_alternative<dbg::pause_action>(cmds[0]); break;
            case k_resume: ok = std::holds_alternative<dbg::resume_action>(cmds[0]); break;
            default: break;
            }
            SIM_CHECK("C19", ok, "request %s %s dispatched another command (number %d)", names[r.kind],
                      r.target.c_str(), (int) cmds[0].index());
        }
        cmds.clear();
        auto& m = pub.get();
        SIM_CHECK("C19", resp.body.find("SECRET") == std::string::npos,
                  "GET %s returned a file from outside the resource directory", r.target.c_str());
        switch (r.kind) {
        case k_info:
            SIM_CHECK("C19", resp.status == 200 && resp.type == "application/json" && same_json(resp.body, json_info()),
                      "GET /api answered %d %s, the model calls for %s", resp.status, resp.body.c_str(),
                      json_info().c_str());
            break;
        case k_step:
            if (r.overflow || r.arg > m.history.size())
                SIM_CHECK("C19", resp.status == 500, "GET %s answered %d, there are %d steps", r.target.c_str(),
                          resp.status, (int) m.history.size());
            else
                SIM_CHECK("C19",
                          resp.status == 200 && resp.type == "application/json" && same_json(resp.body, json_step(r.arg)),
                          "GET %s answered %d %s, the model calls for %s", r.target.c_str(), resp.status,
                          resp.body.c_str(), json_step(r.arg).c_str());
            break;
        case k_goto:
        case k_undo:
        case k_redo:
        case k_pause:
        case k_resume:
            SIM_CHECK("C19", resp.status == (r.overflow ? 500 : 200), "POST %s answered %d", r.target.c_str(), resp.status);
            break;
        case k_file: {
            auto want_body = slurp(www() + "/res/gui/" + r.file);
            SIM_CHECK("C19", resp.status == 200 && resp.body == want_body && resp.type == r.type,
                      "GET %s answered %d %s of %d bytes, the file has %d", r.target.c_str(), resp.status,
                      resp.type.c_str(), (int) resp.body.size(), (int) want_body.size());
            break;
        }
        case k_missing:
        case k_wrong:
            SIM_CHECK("C19", resp.status == 404, "%s answered %d", r.target.c_str(), resp.status);
            break;
        default: break;
        }
    }

    Req gen()
    {
        Req r;
        r.kind      = (Kind) choose(chance(25) ? k_count : k_file);
        auto method = r.kind >= k_goto && r.kind <= k_resume ? "POST" : "GET";
        auto number = [&] {
            int n = pub.get().history.size();
            switch (choose(9)) {
            case 0: return std::string{"0"};
            case 5: { // far beyond the end, but a number
                static const unsigned long big[] = {255, 256, 65535, 65536, 2147483648ul, 4294967296ul,
                                                    9223372036854775807ul, 18446744073709551615ul};
                r.arg = big[choose(8)];
                if (chance(50) && r.arg % 2 == 0)
                    r.arg += choose(n + 1);
                break;
            }
            case 1: r.arg = n; break;
            case 2: r.arg = n + 1 + choose(3); break;
            case 3:
                r.overflow = true;
                return std::string{"99999999999999999999999"};
            case 4: r.arg = n ? n - 1 : 0; return "00" + std::to_string(r.arg);
            default: r.arg = choose(n + 1);
            }
            return std::to_string(r.arg);
        };
        switch (r.kind) {
        case k_info: r.target = chance(50) ? "/api/" : "/api"; break;
        case k_step: r.target = "/api/step/" + number(); break;
        case k_goto: r.target = "/api/goto/" + number(); break;
        case k_undo: r.target = "/api/undo"; break;
        case k_redo: r.target = "/api/redo"; break;
        case k_pause: r.target = "/api/pause"; break;
        case k_resume: r.target = "/api/resume"; break;
        case k_file: {
            static const struct
            {
                const char *t, *f, *m;
            } fs[] = {{"/", "index.html", "text/html"},
                      {"/index.html", "index.html", "text/html"},
                      {"/app.js", "app.js", "application/javascript"},
                      {"/style.CSS", "style.CSS", "text/css"},
                      {"/data.json", "data.json", "application/json"},
                      {"/blob", "blob", "application/text"},
                      {"/empty.txt", "empty.txt", "text/plain"},
                      {"/sub/pic.svg", "sub/pic.svg", "image/svg+xml"}};
            auto& f  = fs[choose(8)];
            r.target = f.t;
            r.file   = f.f;
            r.type   = f.m;
            break;
        }
        case k_missing: {
            const char* t[] = {"/nothing.html", "/index.html?x=1", "/api/step", "/api/step/abc", "/api/undo", "/sub/nope", "/app.js/"};
            r.target        = t[choose(7)];
            if (chance(15))
                r.target = "/" + std::string(1000 + choose(3000), 'x');
            break;
        }
        case k_wrong: {
            const char* t[] = {"/api/goto/", "/api/goto/x", "/api/undo/", "/api/", "/index.html", "/api/stop", "/api/pauses"};
            r.target        = t[choose(7)];
            method          = "POST";
            if (chance(30)) {
                method   = chance(50) ? "PUT" : "DELETE";
                r.target = "/api/undo";
            }
            break;
        }
        case k_traverse: {
            const char* t[] = {"/../private.txt", "/../../secret.txt", "/sub/../../private.txt", "../private.txt",
                               "/..//private.txt", "/./../private.txt", "/sub/../../../secret.txt", "/%2e%2e/private.txt"};
            r.target        = t[choose(8)];
            break;
        }
        case k_bad: {
            const char* t[] = {"\x01\x02\x03 nonsense\r\n\r\n", "GET\r\n\r\n", "GET /api/ HTTP/9.9.9\r\n\r\n",
                               "POST /api/undo HTTP/1.1\r\nContent-Length: 99999999\r\n\r\n",
                               "POST /api/undo HTTP/1.1\r\nContent-Length: 3\r\nContent-Length: 4\r\n\r\nabcd",
                               "POST /api/undo HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n",
                               "GET /api/ HTTP/1.1\r\nbroken header\r\n\r\n"};
            int i           = choose(8);
            r.bytes         = i < 7 ? t[i] : "GET /api/ HTTP/1.1\r\nX: " + std::string(9000, 'y') + "\r\n\r\n";
            r.target        = "(bad)";
            return r;
        }
        default: break;
        }
        auto ver = chance(8) ? "HTTP/1.0" : "HTTP/1.1";
        r.bytes  = std::string{method} + " " + r.target + " " + ver + "\r\nHost: localhost\r\n";
        if (chance(25))
            r.bytes += "X-Filler: " + std::string(choose(300), 'f') + "\r\n";
        if (chance(10))
            r.bytes += "Connection: keep-alive\r\n";
        std::string body;
        if (chance(20))
            body = std::string(choose(20) ? choose(50) : 70000, 'b');
        if (!body.empty() && chance(40) && std::string{ver} == "HTTP/1.1") {
            r.bytes += "Transfer-Encoding: chunked\r\n\r\n";
            std::size_t cut = choose(body.size()) + 1;
            for (std::size_t i = 0; i < body.size(); i += cut) {
                auto part = body.substr(i, cut);
                std::ostringstream s;
                s << std::hex << part.size() << "\r\n" << part << "\r\n";
                r.bytes += s.str();
                if (cut < body.size() / 8 + 1)
                    cut = body.size() / 8 + 1;
            }
            r.bytes += "0\r\n\r\n";
        } else if (!body.empty() || std::string{method} != "GET" || chance(10))
            r.bytes += "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
        else
            r.bytes += "\r\n";
        return r;
    }

    void connect()
    {
        auto c = std::make_shared<ls::Conn>();
        c->id  = clients.size();
        c->ioc = net->ioc;
        if (chance(20))
            c->window = choose(40); // a slow reader
        Client cl;
        cl.c = c;
        clients.push_back(std::move(cl));
        net->all.push_back(c);
        net->incoming.push_back(c);
        ev("connect", c->id, (long long) c->window);
        net->pump();
    }
    void request(Client& cl)
    {
        if (cl.bad || cl.eof || cl.reset)
            return;
        auto r = gen();
        cl.bad = r.kind == k_bad;
        cl.out += r.bytes;
        cl.queued += r.bytes.size();
        r.end = cl.queued;
        ev(names[r.kind], cl.c->id, (long long) cl.reqs.size(), (long long) r.bytes.size());
        cl.reqs.push_back(std::move(r));
        sim::nontrivial();
    }
    void deliver(Client& cl, std::size_t n)
    {
        if (cl.reset || cl.eof || cl.out.empty())
            return;
        n = std::min(n, cl.out.size());
        cl.c->rx += cl.out.substr(0, n);
        cl.out.erase(0, n);
        ev("deliver", cl.c->id, (long long) n);
        if (n && !cl.out.empty())
            sim::fault("message split");
        cl.c->pump();
    }
    void poll(int n)
    {
        while (n-- > 0) {
            net->ioc->restart();
            auto k = net->ioc->poll_one();
            SIM_CHECK("C19", cmds.empty(), "a command was dispatched without a request for it");
            if (!k)
                break;
        }
    }
    void run()
    {
        ls::io_context::stepped = true;
        program                 = chance(50) ? "prog --flag \"x\"" : "prog";
        auto& pol               = ls::policy();
        int style               = choose(3);
        pol.chunk               = [style](std::size_t n) -> std::size_t {
            if (n <= 1 || style == 0)
                return n;
            if (style == 1)
                return 1 + choose(std::min<std::size_t>(n, 64));
            return chance(70) ? n : 1 + choose(n);
        };
        pol.on_write = [this](int id, const std::string& s) { on_write(id, s); };
        pol.on_read  = [this](int id, std::size_t n) { clients[id].consumed += n; };

        auto proxy = Proxy{};
        auto init  = app::model{(int) choose(100), texts[choose(7)]};
        std::shared_ptr<lager::detail::http_debug_server_impl<dbg>> server;
        {
            auto store = lager::make_store<app::action>(init, AnyLoop{loop}, lager::with_debugger(proxy));
            auto hold  = proxy.hold.lock();
            pub        = hold->data;
            for (int i = choose(4); i > 0; --i)
                store.dispatch(app::action{app::add{i}});
            if (chance(50))
                loop->step();
            const char* argv1[] = {"prog"};
            const char* argv2[] = {"prog", "--flag", "\"x\""};
            auto factory        = program == "prog" ? lager::http_debug_server{1, argv1, 8080, www() + "/res"}
                                                    : lager::http_debug_server{3, argv2, 8080, www() + "/res"};
            server              = factory.make(dbg{});
            auto ctx            = *hold->ctx;
            auto al             = AnyLoop{loop};
            server->init(lager::context<dbg::action>{[this, ctx](dbg::action a) {
                                                         ev("command", (long long) a.index());
                                                         cmds.push_back(a);
                                                         return ctx.dispatch(a);
                                                     },
                                                     al, lager::deps<>{}},
                         hold->data);
            net = ls::Net::last;
            SIM_CHECK("C19", net && net->listening && net->port == 8080, "the server does not listen on its port");
            connect();
            int ops = sim::g_thorough ? 90 : 50;
            while (more(ops) && budget-- > 0) {
                sim::Span sp;
                switch (choose(12)) {
                case 0:
                    if (clients.size() < 5)
                        connect();
                    break;
                case 1:
                case 2:
                case 3: request(clients[choose(clients.size())]); break;
                case 4:
                case 5: {
                    auto& cl = clients[choose(clients.size())];
                    deliver(cl, chance(60) ? cl.out.size() : choose(cl.out.size() + 1));
                    break;
                }
                case 6:
                case 7: poll(1 + choose(6)); break;
                case 8: {
                    if (chance(50))
                        store.dispatch(app::action{app::add{(int) choose(9)}});
                    else
                        store.dispatch(app::action{app::say{texts[choose(7)]}});
                    break;
                }
                case 9: loop->step(); break;
                case 10: {
                    auto& cl = clients[choose(clients.size())];
                    if (cl.c->window != ~std::size_t{0}) {
                        cl.c->window += choose(200);
                        cl.c->pump();
                    }
                    break;
                }
                case 11: {
                    if (!chance(40))
                        break;
                    auto& cl = clients[choose(clients.size())];
                    if (cl.reset)
                        break;
                    if (chance(50) && !cl.eof) {
                        // the client closes its side, perhaps in the middle of a request
                        sim::fault("half close");
                        if (chance(50))
                            deliver(cl, cl.out.size());
                        else if (!cl.out.empty())
                            sim::fault("closed midway");
                        cl.eof        = true;
                        cl.c->rx_eof  = true;
                        ev("eof", cl.c->id);
                        cl.c->pump();
                    } else {
                        sim::fault("connection reset");
                        cl.reset    = true;
                        cl.c->reset = true;
                        ev("reset", cl.c->id);
                        cl.c->pump();
                    }
                    break;
                }
                }
            }
            // the network heals: everything in flight arrives, all clients read
            bool abrupt = chance(15); // or the server is shut down as it is
            if (!abrupt) {
                for (int round = 0; round < 4; ++round)
                    for (auto& cl : clients) {
                        cl.c->window = ~std::size_t{0};
                        if (!cl.eof)
                            deliver(cl, cl.out.size());
                        cl.c->pump();
                        poll(100000);
                        loop->step();
                    }
                for (auto& cl : clients) {
                    if (cl.reset)
                        continue;
                    std::size_t delivered = cl.queued - cl.out.size(), want = 0;
                    while (want < cl.reqs.size() && cl.reqs[want].kind != k_bad && cl.reqs[want].end <= delivered)
                        want++;
                    SIM_CHECK("C19", cl.answered == want, "connection %d: %d of %d complete requests answered", cl.c->id,
                              (int) cl.answered, (int) want);
                    SIM_CHECK("C19", cl.c->tx == cl.expect, "connection %d: the client received %d bytes, sent were %d",
                              cl.c->id, (int) cl.c->tx.size(), (int) cl.expect.size());
                    if (cl.bad && cl.out.empty())
                        SIM_CHECK("C19", cl.c->closed, "connection %d stays open after an invalid request", cl.c->id);
                }
                for (auto& cl : clients)
                    if (!cl.reset) {
                        cl.c->rx_eof = true;
                        cl.c->pump();
                    }
                poll(100000);
                for (auto& cl : clients)
                    SIM_CHECK("C19", cl.c->closed, "connection %d: the session outlives the connection", cl.c->id);
            } else
                sim::fault("shutdown with requests in progress");
            server.reset();
            net = nullptr;
            loop->step();
            // the hold keeps the store's node: let go of it
            hold->data = {};
            hold->ctx.reset();
            pub = {};
        }
        for (auto& cl : clients) {
            cl.c->rd.drop();
            cl.c->wr.drop();
        }
        clients.clear();
        pol = ls::Policy{};
    }
};

} // namespace

SIM_SCENARIO(http_history)
{
    auto r = std::make_unique<Runner>();
    r->run();
}
