// The loop that is an item of a QML scene.  Qt is replaced by its contract, see
// stubs/qt/lv_qt.h.
// LV_FLAGS: -include lv_inline_std.h -I{VERIF}/stubs/qt
#include "gloop.h"
#include "lv_qt.h"
#include <lager/event_loop/qml.hpp>
using namespace lv;

namespace {
struct qt : qt_state
{
    qt()
    {
        g_qt = this;
        main = std::this_thread::get_id();
    }
};
// (a window may show the item, with frames every now and then, or not)
struct item : lager::event_loop_quick_item
{
    unsigned steps = 0;
    void step() override
    {
        ++steps;
        lager::event_loop_quick_item::step();
    }
    void frame() { lv_frame(); }
};
} // namespace

LV_CONTRACT(qml_posts)
{
    qt q;
    item o;
    lager::with_qml_event_loop w{o};
    Log log;
    V a = any("a"), b = any("b"), c = any("c");
    bool mine = any_bool("posted by the thread of the loop");
    auto post = [&](auto f) {
        if (mine)
            w.post(f);
        else
            in_thread(1, [&] { w.post(f); });
    };
    post([&, a] {
        log.push(1, a.id);
        lv_assert(std::this_thread::get_id() == q.main, "runs in the thread of the loop");
        w.post([&, c] { log.push(3, c.id); });
    });
    post([&, b] { log.push(2, b.id); });
    lv_assert(log.n == 0, "not run by the call that posts it");
    if (!mine) {
        lv_assert(q.ctx == &o, "handed over to the thread of the item");
        q.loop.drain();
        lv_assert(log.n == 0, "not outside of the step");
    }
    lv_assert(o.lv_polish, "a frame is requested");
    o.frame();
    lv_assert(o.steps == 1, "which is a step");
    if (log.n < 3) {
        q.loop.drain();
        lv_assert(o.lv_polish, "the next frame is on its way");
        o.frame();
    }
    lv_assert(log.n == 3 && log.is(0, 1, a.id) && log.is(1, 2, b.id) && log.is(2, 3, c.id), "each once, in order");
}
// once it was shown it goes on by itself, frame by frame, or by the timer when
// the window is hidden
LV_CONTRACT(qml_goes_on)
{
    qt q;
    item o;
    lager::with_qml_event_loop w{o};
    unsigned ran = 0, before = pick("frames before", 3);
    w.post([] {});
    for (unsigned i = 0; i < before + 1; ++i) {
        o.frame();
        q.loop.drain();
    }
    bool after = any_bool("posted after");
    w.post([&] { ++ran; });
    lv_assert(ran == 0, "not run by the call that posts it");
    if (any_bool("visible")) {
        for (unsigned i = 0; i < 2; ++i) {
            o.frame();
            q.loop.drain();
        }
    } else
        q.fire_timers();
    lv_assert(ran == 1, "run once");
    lv_assert(o.lv_polish, "the next frame is requested");
    for (unsigned i = 0; i < 2; ++i) {
        o.frame();
        q.loop.drain();
    }
    q.fire_timers();
    lv_assert(ran == 1, "and never again");
}
// a task that throws does not take the others with it
LV_CONTRACT(qml_exceptions)
{
    qt q;
    item o;
    lager::with_qml_event_loop w{o};
    Log log;
    bool t[3];
    for (unsigned i = 0; i < 3; ++i) {
        t[i] = any_bool("throws");
        w.post([&, i] {
            log.push(1, i);
            if (t[i])
                throw 5;
        });
    }
    unsigned thrown = 0;
    for (unsigned i = 0; i < 4; ++i)
        try {
            o.step();
        } catch (int) {
            ++thrown;
        }
    lv_assert(log.n == 3 && log.is(0, 1, 0) && log.is(1, 1, 1) && log.is(2, 1, 2), "each once, in order");
    lv_assert(thrown == t[0] + t[1] + t[2], "the exceptions reach the step");
}
LV_CONTRACT(qml_unsupported)
{
    qt q;
    item o;
    lager::with_qml_event_loop w{o};
    unsigned failed = 0, ran = 0;
    auto fails = [&](auto f) {
        try {
            f();
        } catch (std::exception&) {
            ++failed;
        }
    };
    fails([&] { w.finish(); });
    fails([&] { w.pause(); });
    fails([&] { w.resume(); });
    fails([&] { w.async([&] { ++ran; }); });
    lv_assert(failed == 4 && ran == 0, "what is not supported fails loudly");
}
// what is given by name stays with who gave it
LV_CONTRACT(qml_tasks_given_by_name)
{
    qt q;
    item o;
    lager::with_qml_event_loop w{o};
    unsigned n = 0;
    by_name t{&n};
    bool mine = any_bool("posted by the thread of the loop");
    for (unsigned i = 0; i < 3; ++i)
        if (mine)
            w.post(t);
        else
            in_thread(1, [&] { w.post(t); });
    lv_assert(n == 0 && !t.gone, "not run at once, nor taken");
    q.loop.drain();
    o.frame();
    lv_assert(n == 3, "once for each time it was posted");
}

// ... and everything the same when it happens again
LV_CONTRACT(qml_posts_again)
{
    lvc_qml_posts();
    lvc_qml_posts();
}
LV_CONTRACT(qml_goes_on_again)
{
    lvc_qml_goes_on();
    lvc_qml_goes_on();
}
LV_CONTRACT(qml_exceptions_again)
{
    lvc_qml_exceptions();
    lvc_qml_exceptions();
}
LV_CONTRACT(qml_unsupported_again)
{
    lvc_qml_unsupported();
    lvc_qml_unsupported();
}
LV_CONTRACT(qml_tasks_given_by_name_again)
{
    lvc_qml_tasks_given_by_name();
    lvc_qml_tasks_given_by_name();
}
