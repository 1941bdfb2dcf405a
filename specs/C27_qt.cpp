// The Qt loop.  Qt is replaced by its contract, see stubs/qt/lv_qt.h.
// LV_FLAGS: -include lv_inline_std.h -I{VERIF}/stubs/qt
#include "gloop.h"
#include "lv_qt.h"
#include <lager/event_loop/qt.hpp>
using namespace lv;

namespace {
struct qt : qt_state
{
    qt()
    {
        g_qt = this;
        main = std::this_thread::get_id();
    }
};
} // namespace

// from whatever thread a task is posted, it runs later, in the event loop
LV_CONTRACT(qt_posts)
{
    qt q;
    QObject o;
    lager::with_qt_event_loop w{o};
    Log log;
    V a = any("a"), b = any("b"), c = any("c");
    bool mine = any_bool("posted by the thread of the loop");
    auto post = [&](auto f) {
        if (mine)
            w.post(f);
        else
            in_thread(1, [&] { w.post(f); });
    };
    post([&, a] {
        log.push(1, a.id);
        w.post([&, c] { log.push(3, c.id); });
    });
    post([&, b] { log.push(2, b.id); });
    lv_assert(log.n == 0, "not run by the call that posts it");
    lv_assert(q.ctx == &o, "in the thread of the object it was given");
    q.loop.drain();
    lv_assert(log.n == 3 && log.is(0, 1, a.id) && log.is(1, 2, b.id) && log.is(2, 3, c.id), "each once, in order");
}
LV_CONTRACT(qt_tasks_are_released)
{
    qt q;
    QObject o;
    auto t = std::make_shared<int>(1);
    {
        lager::with_qt_event_loop w{o};
        w.post([t] {});
        lv_assert(t.use_count() == 2, "kept until it ran");
        q.loop.drain();
    }
    lv_assert(t.use_count() == 1, "and released then");
}
// asynchronous work runs outside of the loop and the program waits for it
LV_CONTRACT(qt_async)
{
    qt q;
    QObject o;
    QThreadPool other;
    unsigned runs = 0;
    V a = any("a");
    uint64_t got = 0;
    std::thread::id where{};
    {
        lager::with_qt_event_loop w = any_bool("own pool") ? lager::with_qt_event_loop{o, other} : lager::with_qt_event_loop{o};
        w.async([&, a] {
            ++runs;
            got   = a.id;
            where = std::this_thread::get_id();
        });
        lv_assert(runs == 0 || where != q.main, "not run by the call");
        lv_assert(!q.loop.pending(), "nor by the loop");
    }
    lv_assert(runs == 1 && got == a.id, "once, before the loop is gone");
    lv_assert(where != q.main, "in another thread");
}
LV_CONTRACT(qt_finish)
{
    qt q;
    QObject o;
    lager::with_qt_event_loop w{o};
    w.finish();
    lv_assert(q.quits == 1, "the application is told to quit");
    unsigned failed = 0;
    try {
        w.pause();
    } catch (std::exception&) {
        ++failed;
    }
    try {
        w.resume();
    } catch (std::exception&) {
        ++failed;
    }
    lv_assert(failed == 2, "what is not supported fails loudly");
}
// what is given by name stays with who gave it
LV_CONTRACT(qt_tasks_given_by_name)
{
    qt q;
    QObject o;
    unsigned n = 0, m = 0;
    by_name t{&n}, s{&m};
    {
        lager::with_qt_event_loop w{o};
        for (unsigned i = 0; i < 3; ++i)
            w.post(t);
        lv_assert(n == 0 && !t.gone, "not run at once, nor taken");
        w.async(s);
        w.async(s);
        lv_assert(!s.gone, "nor is asynchronous work");
        q.loop.drain();
    }
    lv_assert(n == 3 && m == 2, "once for each time it was given");
}

// ... and everything the same when it happens again
LV_CONTRACT(qt_posts_again)
{
    lvc_qt_posts();
    lvc_qt_posts();
}
LV_CONTRACT(qt_tasks_are_released_again)
{
    lvc_qt_tasks_are_released();
    lvc_qt_tasks_are_released();
}
LV_CONTRACT(qt_async_again)
{
    lvc_qt_async();
    lvc_qt_async();
}
LV_CONTRACT(qt_finish_again)
{
    lvc_qt_finish();
    lvc_qt_finish();
}
LV_CONTRACT(qt_tasks_given_by_name_again)
{
    lvc_qt_tasks_given_by_name();
    lvc_qt_tasks_given_by_name();
}
