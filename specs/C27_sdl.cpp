// The SDL loop.  SDL's event queue is assumed to be a FIFO that may also contain
// other events; it is provided here.
// LV_FLAGS: -include lv_inline_std.h -DSDL_MAIN_HANDLED
#include "lv.h"
#include <lager/event_loop/sdl.hpp>
using namespace lv;

namespace {
struct sdl_queue
{
    SDL_Event e[24];
    unsigned head, tail, types;
    uint32_t ticks, tick_time;
    bool asleep;
} g_q;
Log g_log;
void other(uint64_t id)
{
    SDL_Event e;
    SDL_zero(e);
    e.type      = SDL_KEYDOWN;
    e.user.code = (int) id;
    SDL_PushEvent(&e);
}
void reset()
{
    g_q.head = g_q.tail = 0;
    g_q.asleep          = false;
    g_q.tick_time       = 20;
    g_log.clear();
}
enum
{
    task_ran = 1,
    handled,
    ticked
};
} // namespace
extern "C" {
Uint32 SDL_RegisterEvents(int n)
{
    g_q.types += n;
    return SDL_USEREVENT + g_q.types - n;
}
int SDL_PushEvent(SDL_Event* e)
{
    lv_assert(g_q.tail < 24, "ghost-queue-capacity");
    g_q.e[g_q.tail++] = *e;
    return 1;
}
int SDL_PollEvent(SDL_Event* e)
{
    if (g_q.head == g_q.tail)
        return 0;
    *e = g_q.e[g_q.head++];
    return 1;
}
// waiting with nothing in the queue sleeps for ever; the sleep is interrupted here
// (an error is returned) for the contract to look at it
struct slept
{};
int SDL_WaitEvent(SDL_Event* e)
{
    if (g_q.head == g_q.tail)
        throw slept{};
    return SDL_PollEvent(e);
}
Uint32 SDL_GetTicks(void) { return g_q.ticks += g_q.tick_time; }
void SDL_Delay(Uint32 ms)
{
    lv_assert(ms < 60000, "no endless delay");
    g_q.ticks += ms;
}
void* SDL_memset(void* p, int c, size_t n) { return __builtin_memset(p, c, n); }
}
namespace {
// what was put in the queue: tasks and other events, with what they do when it is their turn
struct item
{
    bool task;
    unsigned act; // 0: nothing, 1: post another task, 2: finish / stop
};
struct script
{
    item it[4];
    unsigned n = 0, posted = 0;
};
template <typename Loop>
void post_one(Loop& l, script& s, unsigned i)
{
    l.post([&l, &s, i] {
        g_log.push(task_ran, i);
        if (s.it[i].act == 1)
            l.post([i] { g_log.push(task_ran, 100 + i); });
        else if (s.it[i].act == 2)
            l.finish();
    });
}
void fill(lager::sdl_event_loop& l, script& s, unsigned n)
{
    s.n = n;
    for (unsigned i = 0; i < n; ++i) {
        s.it[i].task = any_bool("task");
        s.it[i].act  = pick("act", 3);
        if (s.it[i].task)
            post_one(l, s, i);
        else
            other(i);
    }
}
// the queue, as it must have been worked off up to the first item that stops the loop
unsigned expected(const script& s, Log& want, bool drains)
{
    unsigned extra[4], nx = 0, stop = 0;
    for (unsigned i = 0; i < s.n; ++i) {
        want.push(s.it[i].task ? task_ran : handled, i);
        if (s.it[i].act == 1 && s.it[i].task)
            extra[nx++] = i;
        if (s.it[i].act == 2) {
            stop = s.it[i].task ? 1 : 2;
            if (stop == 2 || !drains)
                return stop;
        }
    }
    for (unsigned i = 0; i < nx; ++i)
        want.push(task_ran, 100 + extra[i]);
    return stop;
}
bool same(const Log& a, const Log& b, unsigned n)
{
    if (a.n < n || b.n < n)
        return false;
    for (unsigned i = 0; i < n; ++i)
        if (a.e[i].kind != b.e[i].kind || a.e[i].a != b.e[i].a)
            return false;
    return true;
}
} // namespace

// everything is worked off in order, each task run and each other event handed to
// the handler once; the loop sleeps when nothing is left and returns when told to
LV_BOUNDED(waiting_loop)
{
    reset();
    lager::sdl_event_loop l;
    script s;
    fill(l, s, pick("n", 4));
    bool sleeps = false;
    try {
        l.run([&](const SDL_Event& e) {
            lv_assert(e.type == SDL_KEYDOWN, "the handler sees the other events");
            g_log.push(handled, e.user.code);
            return s.it[e.user.code].act != 2;
        });
    } catch (slept) {
        sleeps = true;
    }
    Log want;
    unsigned stop = expected(s, want, false);
    lv_assert(same(g_log, want, want.n) && g_log.n == want.n, "each once, in order");
    lv_assert(sleeps == !stop, "returns when told to stop, and only then");
    lv_cover("end");
}
LV_BOUNDED(ticking_loop)
{
    reset();
    lager::sdl_event_loop l;
    script s;
    fill(l, s, pick("n", 4));
    unsigned ticks = 0;
    l.run(
        [&](const SDL_Event& e) {
            lv_assert(e.type == SDL_KEYDOWN, "the handler sees the other events");
            lv_assert(ticks == 0, "all events are handled before the tick");
            g_log.push(handled, e.user.code);
            return s.it[e.user.code].act != 2;
        },
        [&](float) {
            lv_assert(g_q.head == g_q.tail, "ticks when nothing is left");
            return ++ticks < 2;
        });
    Log want;
    unsigned stop = expected(s, want, true);
    // (a task that says finish lets the others go ahead)
    lv_assert(same(g_log, want, want.n) && g_log.n == want.n, "each once, in order");
    lv_assert(stop != 2 || ticks == 0, "returns at once when the handler says so");
    lv_assert(stop != 1 || ticks <= 1, "returns soon when finished");
    lv_assert(stop || ticks == 2, "goes on until the tick says stop");
    lv_cover("end");
}
// while it is paused tasks still run, but there are no ticks and other events are dropped
LV_BOUNDED(paused_loop)
{
    reset();
    lager::sdl_event_loop l;
    unsigned n = pick("n", 4), stop = pick("stop", 4);
    bool task[4];
    l.pause();
    for (unsigned i = 0; i < n; ++i) {
        task[i] = any_bool("task");
        if (task[i])
            l.post([i] { g_log.push(task_ran, i); });
        else
            other(i);
    }
    bool finish = any_bool("finish"), resumed = false;
    l.post([&] {
        if (finish)
            l.finish();
        else {
            l.resume();
            resumed = true;
        }
    });
    bool sleeps = false;
    try {
        l.run(
            [&](const SDL_Event& e) {
                g_log.push(handled, e.user.code);
                return true;
            },
            [&](float) {
                lv_assert(resumed, "no ticks while it is paused");
                g_log.push(ticked);
                return false;
            });
    } catch (slept) {
        sleeps = true;
    }
    unsigned k = 0;
    for (unsigned i = 0; i < n; ++i)
        if (task[i])
            lv_assert(g_log.is(k++, task_ran, i), "tasks run in order");
    lv_assert(g_log.count(task_ran) == k && g_log.count(handled) == 0, "and nothing else happens");
    lv_assert(g_log.count(ticked) == (finish ? 0 : 1), "it ticks again when resumed");
    lv_assert(!sleeps, "it returns when finished, also while it is paused");
    lv_cover("end");
}
// ticks come at the frame rate: never more often, and as soon as they may; they are
// told how long the last one took, but never more than what was given as a limit
LV_BOUNDED(frame_rate)
{
    reset();
    g_q.tick_time = 0;
    g_q.ticks     = pick("start", 2) * 977;
    lager::sdl_event_loop l;
    unsigned work[] = {0, 30, 99, 260};
    unsigned n = 0, last = 0, before = g_q.ticks, worked = 0;
    l.run([](const SDL_Event&) { return true; },
          [&](float dt) {
              auto now = g_q.ticks;
              if (n) {
                  lv_assert(now - last + 1 >= 100, "not more often than the rate");
                  lv_assert(now - last <= (worked > 100 ? worked : 101), "and not later than needed");
              }
              lv_assert(dt >= 0 && dt <= 200, "within the limit");
              if (n > 1) // (measured from one step to the next, before the delay)
                  lv_assert(dt <= now - before, "not longer than it took");
              before = last;
              last   = now;
              worked = work[pick("work", 4)];
              g_q.ticks += worked;
              return ++n < 4;
          },
          10, 5);
    lv_assert(n == 4, "goes on until the tick says stop");
    lv_cover("end");
}
// what the store is given
LV_CONTRACT(adaptor)
{
    reset();
    lager::sdl_event_loop l;
    lager::with_sdl_event_loop w{l};
    V a = any("a"), got;
    w.post([&, a] { got = a; });
    lv_assert(got == V{}, "not run at once");
    w.post([&] { w.finish(); });
    l.run([&](const SDL_Event&) { return true; });
    lv_assert(got == a, "run by the loop");
    bool thrown = false;
    try {
        w.async([] {});
    } catch (const std::exception&) {
        thrown = true;
    }
    lv_assert(thrown, "async fails loudly");
    lv_cover("end");
}
// the adaptor pauses, resumes and finishes the loop itself
LV_CONTRACT(adaptor_pauses)
{
    reset();
    lager::sdl_event_loop l;
    lager::with_sdl_event_loop w{l};
    bool resumed = false;
    unsigned n   = 0;
    w.pause();
    other(0);
    w.post([&] {
        ++n;
        w.resume();
        resumed = true;
    });
    l.run(
        [&](const SDL_Event&) {
            lv_assert(resumed, "no events while it is paused");
            return true;
        },
        [&](float) {
            lv_assert(resumed, "no ticks while it is paused");
            w.finish();
            return true;
        });
    lv_assert(n == 1 && resumed, "tasks run");
    lv_cover("end");
}
LV_CONTRACT(tasks_given_by_name)
{
    reset();
    lager::sdl_event_loop l;
    lager::with_sdl_event_loop w{l};
    unsigned n = 0;
    by_name t{&n};
    w.post(t);
    l.post(t);
    w.post(t);
    lv_assert(n == 0 && !t.gone, "not run at once, nor taken");
    w.post([&] { w.finish(); });
    l.run([&](const SDL_Event&) { return true; });
    lv_assert(n == 3, "once for each time it was posted");
    lv_cover("end");
}
