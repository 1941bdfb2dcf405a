// An event loop that is nothing but its contract: tasks run once each, in the
// order in which they were posted, at moments the contract chooses.
#pragma once
#include "lv.h"
#include <functional>
#include <utility>

namespace lv {
struct gloop
{
    std::function<void()> t[48];
    unsigned n = 0, i = 0;
    unsigned asyncs = 0, finishes = 0, pauses = 0, resumes = 0;
    bool inside = false;
    void push(std::function<void()> f)
    {
        lv_assert(n < 48, "ghost-loop-capacity");
        t[n++] = std::move(f);
    }
    bool pending() const { return i < n; }
    void step()
    {
        auto f = std::move(t[i]);
        t[i++] = nullptr;
        bool was = inside;
        inside   = true;
        f();
        inside = was;
    }
    unsigned drain()
    {
        unsigned k = 0;
        while (pending()) {
            step();
            ++k;
        }
        return k;
    }
};
// what is handed to the store
struct with_gloop
{
    gloop* l;
    template <typename Fn>
    void post(Fn&& f)
    {
        l->push(std::forward<Fn>(f));
    }
    template <typename Fn>
    void async(Fn&& f)
    {
        l->asyncs++;
        f();
    }
    void finish() { l->finishes++; }
    void pause() { l->pauses++; }
    void resume() { l->resumes++; }
};
} // namespace lv
