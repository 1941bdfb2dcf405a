// The Boost.Asio loop, on an executor that is nothing but its contract.
// LV_FLAGS: -include lv_inline_std.h
#include "gloop.h"
#include <boost/asio/execution.hpp>
#include <boost/asio/execution_context.hpp>
#include <lager/event_loop/boost_asio.hpp>
using namespace lv;

namespace {
gloop* g_loop;
int g_work;
struct context : boost::asio::execution_context
{};
// (the executor concept of Asio: posts are queued, in order; outstanding work is counted)
struct executor
{
    boost::asio::execution_context& context() const noexcept
    {
        static struct context c;
        return c;
    }
    void on_work_started() const noexcept { ++g_work; }
    void on_work_finished() const noexcept { --g_work; }
    template <typename F, typename A>
    void dispatch(F&& f, const A&) const
    {
        lv_assert(false, "posted, not run on the spot");
    }
    template <typename F, typename A>
    void defer(F&& f, const A&) const
    {
        lv_assert(false, "posted, not deferred");
    }
    template <typename F, typename A>
    void post(F&& f, const A&) const
    {
        auto p = std::make_shared<std::decay_t<F>>(std::forward<F>(f));
        g_loop->push([p] { (*p)(); });
    }
    friend bool operator==(const executor&, const executor&) noexcept { return true; }
    friend bool operator!=(const executor&, const executor&) noexcept { return false; }
};
} // namespace

LV_CONTRACT(posts)
{
    gloop l;
    g_loop = &l;
    g_work = 0;
    {
        lager::with_boost_asio_event_loop<executor> w{executor{}};
        V a = any("a"), b = any("b"), c = any("c");
        Log log;
        w.post([&, a] {
            log.push(1, a.id);
            w.post([&, c] { log.push(3, c.id); });
        });
        w.post([&, b] { log.push(2, b.id); });
        lv_assert(log.n == 0, "not run at once");
        l.drain();
        lv_assert(log.n == 3 && log.is(0, 1, a.id) && log.is(1, 2, b.id) && log.is(2, 3, c.id), "each once, in order");
        w.pause();
        w.resume();
        w.finish();
    }
    lv_assert(g_work == 0, "no outstanding work");
}
// what is given by name stays with who gave it
LV_CONTRACT(tasks_given_by_name)
{
    gloop l;
    g_loop = &l;
    g_work = 0;
    lager::with_boost_asio_event_loop<executor> w{executor{}};
    unsigned n = 0;
    by_name t{&n};
    w.post(t);
    w.post(t);
    lv_assert(n == 0 && !t.gone, "not run at once, nor taken");
    w.post(t);
    l.drain();
    lv_assert(n == 3, "once for each time it was posted");
}
LV_CONTRACT(finish)
{
    gloop l;
    g_loop = &l;
    unsigned stops = 0;
    lager::with_boost_asio_event_loop<executor> w{executor{}, [&] { ++stops; }};
    auto v = w;
    v.finish();
    lv_assert(stops == 1, "stops the program as it was told to");
}

#ifdef LV_VERIFY
// a thread is started and runs at a moment chosen by the contract
namespace {
std::thread::_State* g_thread;
bool g_detached;
} // namespace
void std::thread::_M_start_thread(_State_ptr s, void (*)())
{
    lv_assert(!g_thread, "one thread");
    g_thread = s.release();
    _M_id    = id(1);
}
void std::thread::detach()
{
    lv_assert(_M_id != id(), "detached once");
    g_detached = true;
    _M_id      = id();
}
std::thread::_State::~_State() = default;
#endif
LV_CONTRACT(async)
{
    gloop l;
    g_loop = &l;
    g_work = 0;
    lager::with_boost_asio_event_loop<executor> w{executor{}};
    std::atomic<int> runs{0};
    std::atomic<bool> alive{false};
    w.async([&] {
        alive = g_work > 0;
        ++runs;
    });
    bool in_loop = l.pending();
    lv_assert(!in_loop, "not run by the loop");
#ifdef LV_VERIFY
    lv_assert(runs == 0 && g_thread && g_detached, "in a thread of its own");
    lv_assert(g_work > 0, "the program is kept running meanwhile");
    lv_set_thread(1);
    g_thread->_M_run();
    delete g_thread;
    lv_set_thread(0);
    g_thread = nullptr;
    lv_assert(g_work == 0, "until it is finished");
#else
    for (int i = 0; i < 100000 && !runs; ++i)
        std::this_thread::yield();
    while (!runs)
        std::this_thread::sleep_for(std::chrono::milliseconds(1));
    std::this_thread::sleep_for(std::chrono::milliseconds(2));
#endif
    lv_assert(runs == 1 && alive, "once");
}
namespace {
struct counts
{
    std::atomic<int>* runs;
    bool gone = false;
    explicit counts(std::atomic<int>* r)
        : runs(r)
    {}
    counts(const counts&) = default;
    counts(counts&& o)
        : runs(o.runs)
        , gone(o.gone)
    {
        o.gone = true;
    }
    void operator()() const
    {
        if (!gone)
            ++*runs;
    }
};
} // namespace
LV_CONTRACT(async_given_by_name)
{
    gloop l;
    g_loop = &l;
    g_work = 0;
    lager::with_boost_asio_event_loop<executor> w{executor{}};
    std::atomic<int> runs{0};
    counts f{&runs};
    for (int k = 1; k <= 2; ++k) {
        w.async(f);
        lv_assert(!f.gone, "not taken");
#ifdef LV_VERIFY
        lv_set_thread(1);
        g_thread->_M_run();
        delete g_thread;
        lv_set_thread(0);
        g_thread = nullptr;
        lv_assert(g_work == 0, "finished");
#else
        for (int i = 0; i < 100 && runs < k; ++i)
            std::this_thread::sleep_for(std::chrono::milliseconds(1));
        std::this_thread::sleep_for(std::chrono::milliseconds(2));
#endif
        lv_assert(runs == k, "once for each time");
    }
}

// ... and everything the same when it happens again
LV_CONTRACT(posts_again)
{
    lvc_posts();
    lvc_posts();
}
LV_CONTRACT(tasks_given_by_name_again)
{
    lvc_tasks_given_by_name();
    lvc_tasks_given_by_name();
}
LV_CONTRACT(finish_again)
{
    lvc_finish();
    lvc_finish();
}
LV_CONTRACT(async_again)
{
    lvc_async();
    lvc_async();
}
LV_CONTRACT(async_given_by_name_again)
{
    lvc_async_given_by_name();
    lvc_async_given_by_name();
}
