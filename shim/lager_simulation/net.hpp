// In-memory TCP for lager/debug/http_server.hpp under simulation: every byte,
// chunk, delay, close and reset on a connection is decided by the scenario.
#pragma once
#include <boost/asio/any_completion_handler.hpp>
#include <boost/asio/buffer.hpp>
#include <boost/asio/executor_work_guard.hpp>
#include <boost/asio/io_context.hpp>
#include <boost/asio/post.hpp>
#include <boost/asio/socket_base.hpp>

#include <algorithm>
#include <deque>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <vector>

namespace lager_simulation {

namespace ba = boost::asio;
using ec_t   = boost::system::error_code;

struct io_context : ba::io_context
{
    //! When stepped, run() returns at once and the scenario polls instead.
    static inline bool stepped = false;
    std::size_t run()
    {
        if (stepped)
            return 0;
        return ba::io_context::run();
    }
};

//! Decisions and observations; set by the scenario.
struct Policy
{
    // how many of n available bytes a read or write moves (1..n)
    std::function<std::size_t(std::size_t)> chunk = [](std::size_t n) { return n; };
    // a write operation begins on connection `id` with these bytes
    std::function<void(int id, const std::string&)> on_write = [](int, const std::string&) {};
    // bytes taken in by the server
    std::function<void(int id, std::size_t)> on_read = [](int, std::size_t) {};
};
inline Policy& policy()
{
    static Policy p;
    return p;
}

//! A pending operation: counts as outstanding work of its io_context, as an
//! operation on a real socket does.
template <typename Sig>
struct Pending
{
    ba::any_completion_handler<Sig> f;
    std::optional<ba::executor_work_guard<ba::io_context::executor_type>> work;
    explicit operator bool() const { return static_cast<bool>(f); }
    template <typename H>
    void set(io_context& c, H&& h)
    {
        f = std::forward<H>(h);
        work.emplace(c.get_executor());
    }
    ba::any_completion_handler<Sig> take()
    {
        auto r = std::move(f);
        f      = nullptr;
        return r;
    }
    void drop()
    {
        auto r = take();
        work.reset();
    }
};

//! One connection.  Everything here is touched from the io_context only.
struct Conn
{
    int id;
    io_context* ioc = nullptr;
    std::string rx; // client to server, delivered and not yet read
    std::string tx; // server to client
    std::size_t window = ~std::size_t{0}; // what the client still takes
    bool rx_eof = false, reset = false;
    bool tx_shut = false; // the server shut its side down
    bool closed  = false; // the server destroyed its socket
    std::size_t outstanding = 0; // of the write operation in progress

    using handler_t = Pending<void(ec_t, std::size_t)>;
    handler_t rd, wr;
    std::vector<ba::mutable_buffer> rbuf;
    std::vector<ba::const_buffer> wbuf;

    void complete(handler_t& h, ec_t ec, std::size_t n)
    {
        ba::post(ioc->get_executor(), [f = h.take(), ec, n]() mutable { std::move(f)(ec, n); });
        if (!h)
            h.work.reset();
    }
    void pump()
    {
        if (rd) {
            if (reset)
                complete(rd, ba::error::connection_reset, 0);
            else if (ba::buffer_size(rbuf) == 0)
                complete(rd, {}, 0);
            else if (!rx.empty()) {
                auto n = std::min(rx.size(), ba::buffer_size(rbuf));
                n      = policy().chunk(n);
                ba::buffer_copy(rbuf, ba::buffer(rx, n));
                rx.erase(0, n);
                policy().on_read(id, n);
                complete(rd, {}, n);
            } else if (rx_eof)
                complete(rd, ba::error::eof, 0);
        }
        if (wr) {
            auto size = ba::buffer_size(wbuf);
            if (reset) {
                outstanding = 0;
                complete(wr, ba::error::broken_pipe, 0);
            } else if (size == 0)
                complete(wr, {}, 0);
            else if (window > 0) {
                auto n = policy().chunk(std::min(size, window));
                std::string s(size, '\0');
                ba::buffer_copy(ba::buffer(s), wbuf);
                tx.append(s, 0, n);
                if (window != ~std::size_t{0})
                    window -= n;
                outstanding = size - n;
                complete(wr, {}, n);
            }
        }
    }
};

struct Socket;

//! The listening side of one io_context.
struct Net : ba::execution_context::service
{
    using key_type = Net;
    static inline ba::execution_context::id id;
    static inline Net* last = nullptr; // most recently created

    io_context* ioc = nullptr;
    Pending<void(ec_t, Socket)> accept;
    std::deque<std::shared_ptr<Conn>> incoming;
    std::vector<std::shared_ptr<Conn>> all;
    bool gone = false;
    int port       = -1; // bound to
    bool listening = false;

    explicit Net(ba::execution_context& c)
        : ba::execution_context::service(c)
    {
        last = this;
    }
    void shutdown() noexcept override
    {
        gone = true;
        last = nullptr;
        // pending operations are abandoned, as asio abandons them
        accept.drop();
        auto all_ = all;
        for (auto& c : all_) {
            c->rd.drop();
            c->wr.drop();
        }
    }
    inline void pump();
};

struct Socket
{
    using executor_type = ba::io_context::executor_type;
    using shutdown_type = ba::socket_base::shutdown_type;
    static constexpr auto shutdown_send    = ba::socket_base::shutdown_send;
    static constexpr auto shutdown_receive = ba::socket_base::shutdown_receive;
    static constexpr auto shutdown_both    = ba::socket_base::shutdown_both;

    std::shared_ptr<Conn> c;

    explicit Socket(std::shared_ptr<Conn> x = nullptr)
        : c{std::move(x)}
    {}
    explicit Socket(io_context&) {}
    Socket(Socket&&) = default;
    template <typename O>
    void set_option(O)
    {}
    template <typename O>
    void set_option(O, ec_t& ec)
    {
        ec = {};
    }
    Socket& operator=(Socket&& o)
    {
        close();
        c = std::move(o.c);
        return *this;
    }
    ~Socket() { close(); }

    void close()
    {
        if (c) {
            c->closed = true;
            c->tx_shut = true;
        }
        c.reset();
    }
    void close(ec_t& ec)
    {
        ec = {};
        close();
    }
    bool is_open() const { return c != nullptr; }
    executor_type get_executor() noexcept { return c->ioc->get_executor(); }

    void shutdown(shutdown_type t, ec_t& ec)
    {
        ec = {};
        if (!c || c->reset)
            ec = ba::error::not_connected;
        else if (t != shutdown_receive)
            c->tx_shut = true;
    }
    void shutdown(shutdown_type t)
    {
        ec_t ec;
        shutdown(t, ec);
        if (ec)
            throw boost::system::system_error(ec);
    }

    template <typename Buffers, typename Token>
    auto async_read_some(const Buffers& b, Token&& token)
    {
        return ba::async_initiate<Token, void(ec_t, std::size_t)>(
            [](auto handler, Conn* c, const Buffers& b) {
                c->rbuf.clear();
                for (auto i = ba::buffer_sequence_begin(b); i != ba::buffer_sequence_end(b); ++i)
                    c->rbuf.push_back(*i);
                c->rd.set(*c->ioc, std::move(handler));
                c->pump();
            },
            token, c.get(), b);
    }
    template <typename Buffers, typename Token>
    auto async_write_some(const Buffers& b, Token&& token)
    {
        return ba::async_initiate<Token, void(ec_t, std::size_t)>(
            [](auto handler, Conn* c, const Buffers& b) {
                c->wbuf.clear();
                for (auto i = ba::buffer_sequence_begin(b); i != ba::buffer_sequence_end(b); ++i)
                    c->wbuf.push_back(*i);
                if (c->outstanding == 0) {
                    std::string s(ba::buffer_size(c->wbuf), '\0');
                    ba::buffer_copy(ba::buffer(s), c->wbuf);
                    policy().on_write(c->id, s);
                }
                c->wr.set(*c->ioc, std::move(handler));
                c->pump();
            },
            token, c.get(), b);
    }
};

inline void Net::pump()
{
    if (accept && !incoming.empty()) {
        auto c = incoming.front();
        incoming.pop_front();
        ba::post(ioc->get_executor(), [f = accept.take(), c]() mutable { std::move(f)(ec_t{}, Socket{c}); });
        if (!accept)
            accept.work.reset();
    }
}

struct Acceptor
{
    using executor_type = ba::io_context::executor_type;
    Net* net;
    explicit Acceptor(io_context& c)
        : net{&ba::use_service<Net>(static_cast<ba::execution_context&>(c))}
    {
        net->ioc = &c;
    }
    Acceptor(const Acceptor&) = delete;
    executor_type get_executor() noexcept { return net->ioc->get_executor(); }
    template <typename E>
    Acceptor(io_context& c, const E& e, bool = true)
        : Acceptor{c}
    {
        bind(e);
        listen();
    }
    template <typename P>
    void open(P)
    {}
    template <typename P>
    ec_t open(P, ec_t& ec)
    {
        return ec = {};
    }
    bool is_open() const { return true; }
    template <typename O>
    void set_option(O)
    {}
    template <typename O>
    ec_t set_option(O, ec_t& ec)
    {
        return ec = {};
    }
    template <typename E>
    void bind(const E& e)
    {
        net->port = e.port();
    }
    template <typename E>
    ec_t bind(const E& e, ec_t& ec)
    {
        bind(e);
        return ec = {};
    }
    void listen(int = 0) { net->listening = true; }
    ec_t listen(int, ec_t& ec)
    {
        listen();
        return ec = {};
    }
    void close()
    {
        net->listening = false;
        net->accept.drop();
    }
    void close(ec_t& ec)
    {
        ec = {};
        close();
    }
    // the older way, into a socket at hand
    template <typename Fn>
    void async_accept(Socket& peer, Fn fn)
    {
        async_accept([&peer, fn = std::move(fn)](ec_t ec, Socket s) mutable {
            peer = std::move(s);
            fn(ec);
        });
    }
    template <typename Token>
    auto async_accept(Token&& token)
    {
        return ba::async_initiate<Token, void(ec_t, Socket)>(
            [](auto handler, Net* n) {
                n->accept.set(*n->ioc, std::move(handler));
                n->pump();
            },
            token, net);
    }
};

struct Tcp
{
    using socket   = Socket;
    using acceptor = Acceptor;
    static Tcp v4() { return {}; }
    static Tcp v6() { return {}; }
    struct no_delay
    {
        explicit no_delay(bool) {}
    };
    struct endpoint
    {
        unsigned short port_ = 0;
        endpoint()           = default;
        endpoint(Tcp, unsigned short p)
            : port_{p}
        {}
        endpoint(const ba::ip::address&, unsigned short p)
            : port_{p}
        {}
        Tcp protocol() const { return {}; }
        unsigned short port() const { return port_; }
    };
};

namespace asio {
using namespace ::boost::asio;
using ::lager_simulation::io_context;
namespace ip {
using namespace ::boost::asio::ip;
using tcp = ::lager_simulation::Tcp;
}
} // namespace asio

} // namespace lager_simulation
