// The contract of the parts of Qt that lager's event loops and properties use.
// Used by the verifier and by native builds.  Assumed of Qt:
//  - a queued invocation runs once, later, in the thread of the event loop, in
//    the order of posting; a direct one runs at once; an automatic one is direct
//    when it is made in the thread of the receiver and queued otherwise;
//  - a thread pool runs every job once, at any moment until waitForDone() returns;
//  - polish() schedules updatePolish() of an item, once per frame; a running timer
//    emits timeout.
#pragma once
#include "gloop.h"
#include <lv.h>
#include <thread>
#include <tuple>
#include <type_traits>
#include <utility>

#define Q_OBJECT
#define Q_SIGNAL
#define Q_SLOT
#define Q_INVOKABLE
#define Q_PROPERTY(...)
#define Q_SIGNALS public
#define signals public
#define slots
#define emit
#define Q_EMIT

namespace Qt {
enum ConnectionType
{
    AutoConnection,
    DirectConnection,
    QueuedConnection,
    BlockingQueuedConnection,
    UniqueConnection = 0x80
};
} // namespace Qt

class QObject;
class QEvent;
class QTimer;
namespace lv {
struct qt_state
{
    gloop loop;           // of the thread of the application
    std::thread::id main; // that thread
    QObject* ctx   = nullptr;
    QTimer* timers[4];
    unsigned n_timers = 0;
    void fire_timers();
    unsigned quits = 0;
};
inline qt_state* g_qt;
} // namespace lv

class QEvent
{
public:
    enum Type
    {
        None,
        Timer          = 1,
        User           = 1000,
        PolishRequest  = 74,
        UpdateRequest  = 77,
        LayoutRequest  = 76
    };
    explicit QEvent(Type t)
        : t_{t}
    {}
    virtual ~QEvent() = default;
    Type type() const { return t_; }

private:
    Type t_;
};

class QObject
{
public:
    explicit QObject(QObject* = nullptr) {}
    virtual ~QObject() = default;
    QObject(const QObject&) = delete;
    virtual bool event(QEvent*) { return false; }
    template <typename S, typename F1, typename R, typename F2>
    static void connect(const S* s, F1 signal, R* r, F2 slot, Qt::ConnectionType = Qt::AutoConnection)
    {
        const_cast<S*>(s)->lv_connect(signal, [r, slot] { (r->*slot)(); });
    }
    template <typename S, typename F1, typename F>
    static void connect(const S* s, F1 signal, F f)
    {
        const_cast<S*>(s)->lv_connect(signal, f);
    }
};

struct QMetaObject
{
    template <typename F>
    static bool invokeMethod(QObject* ctx, F&& fn, Qt::ConnectionType t = Qt::AutoConnection)
    {
        lv_assert(ctx != nullptr, "invoked on an object");
        bool here = std::this_thread::get_id() == lv::g_qt->main;
        if (t == Qt::DirectConnection || (t == Qt::AutoConnection && here)) {
            fn();
            return true;
        }
        lv_assert(t == Qt::QueuedConnection || t == Qt::AutoConnection, "does not block");
        lv::g_qt->ctx = ctx;
        auto p        = std::make_shared<std::decay_t<F>>(std::forward<F>(fn));
        lv::g_qt->loop.push([p] { (*p)(); });
        return true;
    }
};

class QThreadPool : public QObject
{
public:
    std::function<void()> jobs[4];
    unsigned n_jobs = 0, ran = 0;
    static QThreadPool* globalInstance()
    {
        static QThreadPool p;
        return &p;
    }
    template <typename F>
    void start(F&& f, int = 0)
    {
        lv_assert(n_jobs < 4, "ghost-pool-capacity");
        auto p         = std::make_shared<std::decay_t<F>>(std::forward<F>(f));
        jobs[n_jobs++] = [p] { (*p)(); };
    }
    void lv_run_job()
    {
        auto f      = std::move(jobs[ran]);
        jobs[ran++] = nullptr;
        lv::in_thread(1, [&] { f(); });
    }
    // the jobs of this pool, not of others
    bool waitForDone(int = -1)
    {
        while (ran < n_jobs)
            lv_run_job();
        n_jobs = ran = 0;
        return true;
    }
};
template <typename T>
struct QFuture
{};
namespace QtConcurrent {
template <typename F>
auto run(QThreadPool* p, F&& f) -> QFuture<decltype(f())>
{
    p->start(std::forward<F>(f));
    return {};
}
template <typename F>
auto run(F&& f) -> QFuture<decltype(f())>
{
    return run(QThreadPool::globalInstance(), std::forward<F>(f));
}
} // namespace QtConcurrent

class QCoreApplication : public QObject
{
public:
    static QCoreApplication* instance()
    {
        static QCoreApplication a;
        return &a;
    }
    static void quit() { lv::g_qt->quits++; }
    static void exit(int = 0) { lv::g_qt->quits++; }
    // takes the event
    static void postEvent(QObject* o, QEvent* e, int = 0)
    {
        std::shared_ptr<QEvent> p{e};
        lv::g_qt->loop.push([o, p] { o->event(p.get()); });
    }
};
using QGuiApplication = QCoreApplication;

class QTimer : public QObject
{
public:
    explicit QTimer(QObject* p = nullptr)
        : QObject{p}
    {
        lv_assert(lv::g_qt->n_timers < 4, "ghost-timer-capacity");
        lv::g_qt->timers[lv::g_qt->n_timers++] = this;
    }
    struct private_signal
    {};
    void timeout(private_signal = {}) {}
    void start(int ms)
    {
        interval = ms;
        active   = true;
    }
    void start() { active = true; }
    void stop() { active = false; }
    bool isActive() const { return active; }
    void setInterval(int ms) { interval = ms; }
    void setSingleShot(bool s) { single = s; }
    template <typename S>
    void lv_connect(S, std::function<void()> f)
    {
        lv_assert(!slot, "ghost-timer-capacity");
        slot = std::move(f);
    }
    void lv_fire()
    {
        if (active) {
            if (single)
                active = false;
            if (slot)
                slot();
        }
    }
    int interval = 0;
    bool active = false, single = false;
    std::function<void()> slot;
};

inline void lv::qt_state::fire_timers()
{
    for (unsigned i = 0; i < n_timers; ++i)
        timers[i]->lv_fire();
}

class QSGNode;
class QQuickItem : public QObject
{
public:
    struct UpdatePaintNodeData
    {};
    explicit QQuickItem(QQuickItem* p = nullptr) {}
    // at most one polish is scheduled per frame
    void polish() { lv_polish = true; }
    void update() { lv_paint = true; }
    virtual void updatePolish() {}
    virtual QSGNode* updatePaintNode(QSGNode* n, UpdatePaintNodeData*) { return nullptr; }
    virtual void componentComplete() {}
    bool lv_polish = false, lv_paint = false;
    // a frame of the window (when it is visible)
    void lv_frame()
    {
        if (lv_polish) {
            lv_polish = false;
            updatePolish();
        }
        if (lv_paint) {
            lv_paint = false;
            UpdatePaintNodeData d;
            updatePaintNode(nullptr, &d);
        }
    }
};
