// The promise may be fulfilled by one thread while another one attaches the
// continuation.  (Uses the names of the internal state.)  Release mode: a debug
// assertion looks at the callback before taking the lock, which is harmless (only
// the very call that evaluates it can ever set it) and is not judged here.
// LV_FLAGS: -DNDEBUG
#include <stdexcept>
#include "gloop.h"
#include <lager/future.hpp>
using namespace lv;
using lager::future;
using lager::promise;
using state_t = lager::detail::promise_state;

namespace {
struct world
{
    gloop l;
    with_gloop w{&l};
    std::pair<promise, future> pf = promise::with_loop(w);
    std::shared_ptr<state_t> st   = pf.second.state_; // keeps the shared state alive
    unsigned n                    = 0;
    world()
    {
        lv_guard(&st->callback, sizeof(st->callback), &st->mutex);
        lv_guard(&st->done, sizeof(st->done), &st->mutex);
    }
    ~world() { lv_unguard(st.get()); }
};
} // namespace

// the shared state is only touched while holding its lock, by either side
LV_CONTRACT(shared_state_under_lock)
{
    world x;
    if (any_bool("promise first")) {
        x.pf.first();
        std::move(x.pf.second).then([&] { ++x.n; });
    } else {
        std::move(x.pf.second).then([&] { ++x.n; });
        x.pf.first();
    }
    x.l.drain();
    lv_assert(x.n == 1, "exactly once");
}
// what another thread does, right before the when-th acquisition of the lock by this
// one (the shared state being accessed under the lock only, there is no other
// moment that matters), or after everything
namespace {
struct other
{
    world& x;
    unsigned when;
    void (*act)(world&);
    bool done = false;
    void arm()
    {
        lv_before_lock(&x.st->mutex, &other::step, this);
    }
    static void step(void* c)
    {
        auto* o = static_cast<other*>(c);
        if (o->done)
            return;
        if (o->when == 0) {
            o->done = true;
            o->act(o->x);
        } else {
            --o->when;
            o->arm();
        }
    }
    void finish()
    {
        if (!done) {
            done = true;
            act(x);
        }
    }
};
} // namespace
// the promise is fulfilled by another thread while then() is running
LV_CONTRACT(fulfilled_during_then)
{
    world x;
    other o{x, pick("before acquisition", 4), [](world& x) { x.pf.first(); }};
    o.arm();
    std::move(x.pf.second).then([&] { ++x.n; });
    o.finish();
    x.l.drain();
    lv_assert(x.n == 1, "exactly once");
}
// then() runs in another thread while the promise is being fulfilled
LV_CONTRACT(then_during_fulfilment)
{
    world x;
    other o{x, pick("before acquisition", 4), [](world& x) { std::move(x.pf.second).then([&x] { ++x.n; }); }};
    o.arm();
    x.pf.first();
    o.finish();
    x.l.drain();
    lv_assert(x.n == 1, "exactly once");
}
