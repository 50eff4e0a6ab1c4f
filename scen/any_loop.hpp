// The event loops used by store scenarios, behind one run-time interface.
#pragma once
#include <lager/event_loop/manual.hpp>
#include <lager/event_loop/queue.hpp>
#include <lager/event_loop/safe_queue.hpp>

#include <functional>
#include <memory>

namespace {

struct LoopImpl
{
    int running                                = 0;
    virtual ~LoopImpl()                        = default;
    virtual void post(std::function<void()> f) = 0;
    virtual void step()                        = 0; // may throw
    virtual const char* name() const           = 0;
};
struct RunGuard
{
    int& r;
    RunGuard(int& x)
        : r{++x}
    {}
    ~RunGuard() { --r; }
};
struct QueueLoop : LoopImpl
{
    lager::queue_event_loop q;
    lager::with_queue_event_loop w{q};
    void post(std::function<void()> f) override { w.post(std::move(f)); }
    void step() override
    {
        RunGuard g{running};
        q.step();
    }
    const char* name() const override { return "queue"; }
};
struct SafeLoop : LoopImpl
{
    lager::safe_queue_event_loop q;
    lager::with_safe_queue_event_loop w{q};
    void post(std::function<void()> f) override { w.post(std::move(f)); }
    void step() override
    {
        RunGuard g{running};
        q.step();
    }
    const char* name() const override { return "safe_queue"; }
};
struct ManualLoop : LoopImpl
{
    lager::with_manual_event_loop w;
    void post(std::function<void()> f) override
    {
        RunGuard g{running};
        w.post(std::move(f));
    }
    void step() override
    {
        RunGuard g{running};
        w.post([] {});
    }
    const char* name() const override { return "manual"; }
};

struct AnyLoop
{
    std::shared_ptr<LoopImpl> l;
    template <typename Fn>
    void post(Fn&& fn)
    {
        l->post(std::forward<Fn>(fn));
    }
    template <typename Fn>
    void async(Fn&&)
    {}
    void finish() {}
    void pause() {}
    void resume() {}
};

inline std::shared_ptr<LoopImpl> make_loop(int kind)
{
    switch (kind) {
    case 0: return std::make_shared<QueueLoop>();
    case 1: return std::make_shared<ManualLoop>();
    default: return std::make_shared<SafeLoop>();
    }
}

} // namespace
