// The SDL loop, for any number of events: the queue hands out event after event,
// arbitrarily tasks and others, until the program ends (by an exception).
// LV_FLAGS: -include lv_inline_std.h -DSDL_MAIN_HANDLED
#include "lv.h"
#include <lager/event_loop/sdl.hpp>
using namespace lv;

namespace {
uint64_t g_k, g_done, g_stop, g_ticks, g_polls;
uint32_t g_type;
bool g_paused;
struct the_end
{};
struct task
{
    uint64_t i;
    void operator()()
    {
        lv_assert(g_done == i, "a task runs in its turn, once");
        ++g_done;
    }
};
int next_event(SDL_Event* e)
{
    lv_assert(g_done == g_k, "every event is worked off before the next one");
    if (g_k == g_stop)
        throw the_end{};
    if (lv_uf1("task", g_k) & 1) {
        e->type       = g_type;
        e->user.data1 = new std::function<void()>(task{g_k});
    } else {
        e->type = SDL_KEYDOWN;
        if (g_paused)
            ++g_done; // dropped
    }
    ++g_k;
    return 1;
}
} // namespace
extern "C" {
Uint32 SDL_RegisterEvents(int n)
{
    g_type = SDL_USEREVENT + 3;
    return g_type;
}
int SDL_PushEvent(SDL_Event* e) { return 1; }
int SDL_PollEvent(SDL_Event* e)
{
    lv_assert(!g_paused, "waits while it is paused");
    if (lv_uf1("empty", g_polls++) & 1)
        return 0;
    return next_event(e);
}
int SDL_WaitEvent(SDL_Event* e) { return next_event(e); }
Uint32 SDL_GetTicks(void) { return 20; }
void SDL_Delay(Uint32) {}
void* SDL_memset(void* p, int c, size_t n) { return __builtin_memset(p, c, n); }
}
namespace {
void start()
{
    g_k = g_done = g_ticks = g_polls = 0;
    g_paused               = false;
    g_stop                 = lv_len("stop");
#ifndef LV_VERIFY
    g_stop %= 20;
#endif
}
// how long a frame lasted is of no interest here
float some_time(void*) { return 1; }
struct handler
{
    bool operator()(const SDL_Event& e)
    {
        lv_assert(!g_paused, "nothing is handled while it is paused");
        lv_assert(e.type == SDL_KEYDOWN, "tasks are not handed to the handler");
        lv_assert(g_done + 1 == g_k, "an event is handled in its turn, once");
        ++g_done;
        return true;
    }
};
} // namespace

LV_CONTRACT(any_number_of_events)
{
    start();
    lager::sdl_event_loop l;
    try {
        l.run(handler{});
        lv_assert(false, "goes on until told to stop");
    } catch (the_end) {
    }
    lv_assert(g_done == g_stop, "everything up to the end");
    lv_cover("end");
}
LV_CONTRACT(any_number_of_events_and_ticks)
{
    start();
    lager::sdl_event_loop l;
    lv_replace("constant_fps_step::operator()()", (void*) some_time);
    lv_inv([](void*, uint64_t, uint64_t) { return g_done == g_k && g_k <= g_stop; }, nullptr, 0);
    try {
        l.run(handler{}, [](float) {
            lv_assert(g_done == g_k, "no tick in the middle of an event");
            ++g_ticks;
            return true;
        });
        lv_assert(false, "goes on until told to stop");
    } catch (the_end) {
    }
    lv_assert(g_done == g_stop, "everything up to the end");
    lv_cover("end");
}
LV_CONTRACT(any_number_of_events_while_paused)
{
    start();
    lager::sdl_event_loop l;
    g_paused = true;
    l.pause();
    try {
        l.run(handler{}, [](float) {
            lv_assert(false, "no tick while it is paused");
            return true;
        });
        lv_assert(false, "goes on until told to stop");
    } catch (the_end) {
    }
    lv_assert(g_done == g_stop, "every task up to the end");
    lv_cover("end");
}
