// The part of Qt that lager/event_loop/qt.hpp and qml.hpp stand on, simulated:
// posted events, functor calls across threads, timers on a virtual clock, the
// frames of a window and a thread pool.  Which of the things that could happen
// next does happen is up to the scenario.
#pragma once
#include <chrono>
#include <condition_variable>
#include <deque>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>
#include <type_traits>
#include <utility>
#include <vector>

class QObject;
class QTimer;
class QQuickItem;

class QEvent
{
public:
    enum Type
    {
        None          = 0,
        MetaCall      = 43,
        Timer         = 1,
        UpdateRequest = 77,
        PolishRequest = 74,
        User          = 1000,
        MaxUser       = 65535
    };
    explicit QEvent(Type t)
        : type_{t}
    {}
    virtual ~QEvent() = default;
    Type type() const { return type_; }
    void accept() { accepted_ = true; }
    void ignore() { accepted_ = false; }
    void setAccepted(bool v) { accepted_ = v; }
    bool isAccepted() const { return accepted_; }
    static int registerEventType(int = -1)
    {
        static int next = MaxUser;
        return next--;
    }

private:
    Type type_;
    bool accepted_ = true;
};

namespace Qt {
enum ConnectionType
{
    AutoConnection,
    DirectConnection,
    QueuedConnection,
    UniqueConnection = 0x80
};
enum TimerType
{
    PreciseTimer,
    CoarseTimer,
    VeryCoarseTimer
};
enum EventPriority
{
    HighEventPriority   = 1,
    NormalEventPriority = 0,
    LowEventPriority    = -1
};
}

// a thread, as far as one can tell them apart
class QThread
{
public:
    std::thread::id id;
    static QThread* currentThread();
    bool operator==(const QThread& o) const { return id == o.id; }
};

namespace lager_simulation {
struct MetaCallEvent : QEvent
{
    std::function<void()> fn;
    explicit MetaCallEvent(std::function<void()> f)
        : QEvent{QEvent::MetaCall}
        , fn{std::move(f)}
    {}
};
struct QtWorld
{
    std::mutex m; // guards what Qt guards: the posted events, the pool
    std::deque<std::pair<QObject*, std::unique_ptr<QEvent>>> posted;
    std::thread::id home = std::this_thread::get_id();
    bool quit            = false;
    long long now        = 0; // milliseconds
    std::vector<QTimer*> timers;
    // the one window: items that want polishing, items with dirty content
    bool exposed = false;
    std::vector<QQuickItem*> polish;
    std::vector<QQuickItem*> dirty;
    // every thread met so far
    std::deque<QThread> threads;
    void post(QObject* o, std::unique_ptr<QEvent> e)
    {
        std::lock_guard<std::mutex> l{m};
        posted.emplace_back(o, std::move(e));
    }
    bool deliver(); // the oldest posted event
    bool due() const;
    bool fire(int which);
    bool frame();
};
inline QtWorld*& qt()
{
    static QtWorld* w = nullptr;
    return w;
}
} // namespace lager_simulation

class QObject
{
public:
    explicit QObject(QObject* = nullptr) {}
    QObject(const QObject&) = delete;
    virtual ~QObject()
    {
        auto w = lager_simulation::qt();
        if (!w)
            return; // (the application, after the run)
        // what was posted goes unseen, and is destroyed outside the lock
        std::vector<std::unique_ptr<QEvent>> dead;
        {
            std::lock_guard<std::mutex> l{w->m};
            for (auto i = w->posted.begin(); i != w->posted.end();)
                if (i->first == this) {
                    dead.push_back(std::move(i->second));
                    i = w->posted.erase(i);
                } else
                    ++i;
        }
    }
    virtual bool event(QEvent* e)
    {
        if (e->type() == QEvent::MetaCall) {
            static_cast<lager_simulation::MetaCallEvent*>(e)->fn();
            return true;
        }
        return false;
    }
    // (all senders are timers, and those live on the loop's thread)
    template <typename S, typename Sig, typename R, typename Slot>
    static void connect(S* sender, Sig, R* receiver, Slot slot, Qt::ConnectionType t = Qt::AutoConnection)
    {
        auto call = [receiver, slot] {
            if constexpr (std::is_member_function_pointer_v<Slot>)
                (receiver->*slot)();
            else
                slot();
        };
        if (t == Qt::QueuedConnection)
            sender->slots_.push_back([receiver, call] {
                lager_simulation::qt()->post(receiver, std::make_unique<lager_simulation::MetaCallEvent>(call));
            });
        else
            sender->slots_.push_back(call);
    }
    template <typename S, typename Sig, typename Slot>
    static void connect(S* sender, Sig, Slot slot)
    {
        sender->slots_.push_back([slot]() mutable { slot(); });
    }
    QThread* thread() const
    {
        return thread_;
    }
    void deleteLater()
    {
        lager_simulation::qt()->post(this, std::make_unique<lager_simulation::MetaCallEvent>([this] { delete this; }));
    }
    void setObjectName(const char*) {}
    // (what stands for moc's code asks signalsBlocked())
    bool signalsBlocked() const { return blocked_; }
    bool blockSignals(bool b) { return std::exchange(blocked_, b); }

private:
    bool blocked_     = false;
    QThread* thread_ = lager_simulation::qt() ? QThread::currentThread() : nullptr;
};

class QSignalBlocker
{
    QObject* o_;
    bool was_;

public:
    explicit QSignalBlocker(QObject* o)
        : o_{o}
        , was_{o && o->blockSignals(true)}
    {}
    explicit QSignalBlocker(QObject& o)
        : QSignalBlocker{&o}
    {}
    QSignalBlocker(const QSignalBlocker&) = delete;
    ~QSignalBlocker() { unblock(); }
    void unblock()
    {
        if (o_)
            o_->blockSignals(was_);
        o_ = nullptr;
    }
};

inline QThread* QThread::currentThread()
{
    auto w = lager_simulation::qt();
    std::lock_guard<std::mutex> l{w->m};
    for (auto& t : w->threads)
        if (t.id == std::this_thread::get_id())
            return &t;
    w->threads.push_back(QThread{std::this_thread::get_id()});
    return &w->threads.back();
}

using QMutex = std::mutex;
template <typename M = QMutex>
class QMutexLocker
{
    std::unique_lock<M> l_;

public:
    explicit QMutexLocker(M* m)
        : l_{*m}
    {}
    void unlock() { l_.unlock(); }
    void relock() { l_.lock(); }
};
template <typename M>
QMutexLocker(M*) -> QMutexLocker<M>;

struct QMetaObject
{
    template <typename C>
    static bool invokeMethod(C* o, void (C::*fn)(), Qt::ConnectionType t = Qt::AutoConnection)
    {
        return invokeMethod(static_cast<QObject*>(o), [o, fn] { (o->*fn)(); }, t);
    }
    template <typename Fn, std::enable_if_t<!std::is_member_function_pointer_v<std::decay_t<Fn>>, int> = 0>
    static bool invokeMethod(QObject* o, Fn&& fn, Qt::ConnectionType t = Qt::AutoConnection)
    {
        auto w = lager_simulation::qt();
        if (t == Qt::DirectConnection || (t == Qt::AutoConnection && std::this_thread::get_id() == w->home)) {
            fn();
            return true;
        }
        // Qt keeps the functor as it is, moved or copied once
        auto f = std::make_shared<std::decay_t<Fn>>(std::forward<Fn>(fn));
        w->post(o, std::make_unique<lager_simulation::MetaCallEvent>([f] { (*f)(); }));
        return true;
    }
};

class QCoreApplication : public QObject
{
public:
    static QCoreApplication* instance()
    {
        static QCoreApplication a;
        return &a;
    }
    static void postEvent(QObject* o, QEvent* e, int = Qt::NormalEventPriority)
    {
        lager_simulation::qt()->post(o, std::unique_ptr<QEvent>{e});
    }
    static bool sendEvent(QObject* o, QEvent* e) { return o->event(e); }
    static void exit(int = 0) { quit(); }
    static void quit()
    {
        auto w = lager_simulation::qt();
        std::lock_guard<std::mutex> l{w->m};
        w->quit = true;
    }
};

class QTimer : public QObject
{
public:
    explicit QTimer(QObject* = nullptr) { lager_simulation::qt()->timers.push_back(this); }
    ~QTimer() override
    {
        auto& ts = lager_simulation::qt()->timers;
        for (auto i = ts.begin(); i != ts.end(); ++i)
            if (*i == this) {
                ts.erase(i);
                break;
            }
    }
    void timeout() {}
    void start(int ms)
    {
        period = ms;
        start();
    }
    void start(std::chrono::milliseconds ms) { start(int(ms.count())); }
    void start()
    {
        running = true;
        next    = lager_simulation::qt()->now + period;
    }
    void stop() { running = false; }
    bool isActive() const { return running; }
    int interval() const { return period; }
    void setInterval(int ms)
    {
        period = ms;
        if (running)
            start();
    }
    void setSingleShot(bool v) { once = v; }
    bool isSingleShot() const { return once; }
    void setTimerType(Qt::TimerType) {}
    // (from the loop's thread; elsewhere Qt hands it over first)
    template <typename Fn>
    static void singleShot(int ms, QObject* o, Fn fn)
    {
        auto f = std::make_shared<std::decay_t<Fn>>(std::move(fn));
        QMetaObject::invokeMethod(
            o,
            [ms, f] {
                if (ms == 0)
                    return (*f)();
                auto t    = new QTimer;
                t->once   = true;
                t->slots_ = {[f, t] {
                    (*f)();
                    t->deleteLater();
                }};
                t->start(ms);
            },
            Qt::QueuedConnection);
    }

    int period     = 0;
    bool running   = false;
    bool once      = false;
    long long next = 0;
    std::vector<std::function<void()>> slots_;
};

class QSGNode;

class QQuickItem : public QObject
{
public:
    struct UpdatePaintNodeData
    {};
    enum Flag
    {
        ItemHasContents = 8
    };
    explicit QQuickItem(QQuickItem* = nullptr) {}
    ~QQuickItem() override { leave(); }
    void setFlag(Flag, bool on = true) { contents = on; }
    void setFlags(Flag) { contents = true; }
    Flag flags() const { return contents ? ItemHasContents : Flag{}; }
    bool isVisible() const { return in_window && lager_simulation::qt()->exposed; }
    bool event(QEvent* e) override { return QObject::event(e); }
    void polish()
    {
        if (!polish_scheduled) {
            polish_scheduled = true;
            if (in_window)
                lager_simulation::qt()->polish.push_back(this);
        }
    }
    void update()
    {
        if (contents && in_window && !content_dirty) {
            content_dirty = true;
            lager_simulation::qt()->dirty.push_back(this);
        }
    }
    // the item becomes part of the window
    void enter()
    {
        if (in_window)
            return;
        in_window = true;
        if (polish_scheduled)
            lager_simulation::qt()->polish.push_back(this);
        if (contents) {
            content_dirty = true;
            lager_simulation::qt()->dirty.push_back(this);
        }
    }
    void leave()
    {
        auto w    = lager_simulation::qt();
        auto drop = [&](auto& v) {
            for (auto i = v.begin(); i != v.end();)
                i = *i == this ? v.erase(i) : i + 1;
        };
        drop(w->polish);
        drop(w->dirty);
        in_window = content_dirty = false;
    }

    virtual void updatePolish() {}
    virtual QSGNode* updatePaintNode(QSGNode*, UpdatePaintNodeData*) { return nullptr; }

    bool in_window = false, polish_scheduled = false, content_dirty = false, contents = false;
};

// (every job gets a thread of its own, which may be scheduled late)
class QThreadPool : public QObject
{
    std::mutex m_;
    std::condition_variable cv_;
    int active_ = 0;
    std::vector<std::thread> workers_;
    std::vector<std::thread::id> ids_;

public:
    ~QThreadPool() override
    {
        waitForDone();
        for (auto& t : workers_)
            t.join();
    }
    static QThreadPool* globalInstance();
    void start(std::function<void()> fn)
    {
        std::lock_guard<std::mutex> l{m_};
        ++active_;
        workers_.emplace_back([this, fn = std::move(fn)]() mutable {
            {
                std::lock_guard<std::mutex> l{m_};
                ids_.push_back(std::this_thread::get_id());
            }
            fn();
            fn = nullptr;
            std::lock_guard<std::mutex> l{m_};
            --active_;
            cv_.notify_all();
        });
    }
    int activeThreadCount()
    {
        std::lock_guard<std::mutex> l{m_};
        return active_;
    }
    bool waitForDone(int = -1)
    {
        std::unique_lock<std::mutex> l{m_};
        cv_.wait(l, [&] { return active_ == 0; });
        return true;
    }
    // is the calling thread one of this pool's?
    bool mine()
    {
        std::lock_guard<std::mutex> l{m_};
        for (auto& i : ids_)
            if (i == std::this_thread::get_id())
                return true;
        return false;
    }
};
namespace lager_simulation {
inline QThreadPool*& global_pool()
{
    static QThreadPool* p = nullptr;
    return p;
}
} // namespace lager_simulation
inline QThreadPool* QThreadPool::globalInstance() { return lager_simulation::global_pool(); }

namespace QtConcurrent {
template <typename Fn>
void run(QThreadPool* pool, Fn&& fn)
{
    pool->start(std::function<void()>{std::forward<Fn>(fn)});
}
template <typename Fn>
void run(Fn&& fn)
{
    run(QThreadPool::globalInstance(), std::forward<Fn>(fn));
}
} // namespace QtConcurrent

namespace lager_simulation {
inline bool QtWorld::deliver()
{
    std::pair<QObject*, std::unique_ptr<QEvent>> e;
    {
        std::lock_guard<std::mutex> l{m};
        if (posted.empty())
            return false;
        e = std::move(posted.front());
        posted.pop_front();
    }
    e.first->event(e.second.get());
    return true;
}
inline bool QtWorld::due() const
{
    for (auto t : timers)
        if (t->running && t->next <= now)
            return true;
    return false;
}
inline bool QtWorld::fire(int which)
{
    for (std::size_t k = 0; k < timers.size(); ++k) {
        auto t = timers[(k + which) % timers.size()];
        if (t->running && t->next <= now) {
            t->next = now + t->period;
            if (t->once)
                t->running = false;
            for (auto& s : t->slots_)
                s();
            return true;
        }
    }
    return false;
}
inline bool QtWorld::frame()
{
    if (!exposed)
        return false;
    // what an item polishes from inside updatePolish() is done in the same go
    int guard = 1000;
    while (!polish.empty() && --guard > 0) {
        auto i = polish.back();
        polish.pop_back();
        i->polish_scheduled = false;
        i->updatePolish();
    }
    auto d = std::move(dirty);
    dirty.clear();
    for (auto i : d) {
        i->content_dirty = false;
        QQuickItem::UpdatePaintNodeData u;
        i->updatePaintNode(nullptr, &u);
    }
    return true;
}
} // namespace lager_simulation

// as Qt's headers do
#define Q_OBJECT
#define Q_GADGET
#define Q_PROPERTY(...)
#define Q_SIGNAL
#define Q_SIGNALS public
#define Q_SLOT
#define Q_SLOTS
#define Q_INVOKABLE
#define Q_EMIT
#define emit
#define Q_UNUSED(x) (void) x;
#define Q_ASSERT(x) static_cast<void>(false && (x))
#define Q_DECL_OVERRIDE override
#define Q_NULLPTR nullptr
#define Q_LIKELY(x) (x)
#define Q_UNLIKELY(x) (x)
#define Q_DISABLE_COPY(C)                                                      \
    C(const C&) = delete;                                                      \
    C& operator=(const C&) = delete;
