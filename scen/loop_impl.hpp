// The event loops a store may run on, behind one small interface.
#pragma once

#include <lager/event_loop/boost_asio.hpp>
#include <lager/event_loop/manual.hpp>
#include <lager/event_loop/queue.hpp>
#include <lager/event_loop/safe_queue.hpp>

#include <boost/asio/io_context.hpp>
#include <boost/asio/strand.hpp>

#include <functional>
#include <memory>
#include <new>

namespace {

// ------------------------------------------------------------------ loops --
struct LoopImpl
{
    int running                                   = 0;
    int paused                                    = 0;
    int finished                                  = 0;
    virtual ~LoopImpl()                           = default;
    virtual void post(std::function<void()> f)    = 0;
    virtual void step(bool one)                   = 0; // may throw
    virtual const char* name() const              = 0;
    virtual bool sync() const { return false; }
};
struct RunGuard
{
    int& r;
    RunGuard(int& x)
        : r{++x}
    {}
    ~RunGuard() { --r; }
};
struct QueueLoop : LoopImpl
{
    lager::queue_event_loop q;
    lager::with_queue_event_loop w{q};
    void post(std::function<void()> f) override { w.post(std::move(f)); }
    void step(bool) override
    {
        RunGuard g{running};
        q.step();
    }
    const char* name() const override { return "queue"; }
};
struct SafeLoop : LoopImpl
{
    lager::safe_queue_event_loop q;
    lager::with_safe_queue_event_loop w{q};
    void post(std::function<void()> f) override { w.post(std::move(f)); }
    void step(bool) override
    {
        RunGuard g{running};
        q.step();
    }
    const char* name() const override { return "safe_queue"; }
};
struct ManualLoop : LoopImpl
{
    lager::with_manual_event_loop w;
    void post(std::function<void()> f) override
    {
        RunGuard g{running};
        w.post(std::move(f));
    }
    void step(bool) override
    {
        // whatever an exception left behind runs at the next post
        RunGuard g{running};
        w.post([] {});
    }
    const char* name() const override { return "manual"; }
    bool sync() const override { return true; }
};
template <bool Strand>
struct AsioLoop : LoopImpl
{
    boost::asio::io_context ioc;
    using strand_t = boost::asio::strand<boost::asio::io_context::executor_type>;
    using ex_t     = std::conditional_t<Strand, strand_t, boost::asio::io_context::executor_type>;
    ex_t ex;
    lager::with_boost_asio_event_loop<ex_t> w;
    static ex_t mk(boost::asio::io_context& c)
    {
        if constexpr (Strand)
            return boost::asio::make_strand(c);
        else
            return c.get_executor();
    }
    AsioLoop()
        : ex{mk(ioc)}
        , w{ex, [this] { ++finished; }}
    {}
    void post(std::function<void()> f) override { w.post(std::move(f)); }
    void step(bool one) override
    {
        RunGuard g{running};
        ioc.restart();
        if (one)
            ioc.poll_one();
        else
            ioc.poll();
    }
    const char* name() const override { return Strand ? "asio strand" : "asio"; }
};

// the n-th post from now is refused (0: none)
inline int refuse_post   = 0;
inline bool post_refused = false;

struct AnyLoop
{
    std::shared_ptr<LoopImpl> l;
    template <typename Fn>
    void post(Fn&& fn)
    {
        if (refuse_post && --refuse_post == 0) {
            post_refused = true;
            throw std::bad_alloc{};
        }
        l->post(std::forward<Fn>(fn));
    }
    template <typename Fn>
    void async(Fn&&)
    {}
    void finish() { ++l->finished; }
    void pause() { ++l->paused; }
    void resume() { --l->paused; }
};

} // namespace
