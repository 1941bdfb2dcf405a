// Promises and futures.
#include "gloop.h"
#include "nodes.h"
#include <lager/store.hpp>
using namespace lv;
using lager::future;
using lager::promise;

// whichever comes first, the continuation runs exactly once, in the loop
LV_CONTRACT(continuation_runs_once_in_loop)
{
    gloop l;
    with_gloop w{&l};
    auto pf    = promise::with_loop(w);
    auto p     = std::move(pf.first);
    auto f     = std::move(pf.second);
    unsigned n = 0;
    bool in    = true;
    auto fn    = [&] { ++n; in = in && l.inside; };
    bool order = any_bool("promise first");
    lv_assert(bool(f), "the future is valid");
    if (order) {
        p();
        if (any_bool("drain"))
            l.drain();
        std::move(f).then(fn);
    } else {
        std::move(f).then(fn);
        if (any_bool("drain"))
            l.drain();
        lv_assert(n == 0 && !l.pending(), "not before the promise");
        p();
    }
    lv_assert(n == 0, "not synchronously");
    l.drain();
    lv_assert(n == 1 && in, "exactly once, from the loop");
    l.drain();
    lv_assert(n == 1, "never again");
}
// the promise can not be fulfilled twice through the same handle
LV_CONTRACT(promise_twice_throws)
{
    gloop l;
    with_gloop w{&l};
    auto pf    = promise::with_loop(w);
    unsigned n = 0;
    std::move(pf.second).then([&] { ++n; });
    pf.first();
    bool thrown = false;
    try {
        pf.first();
    } catch (const std::runtime_error&) {
        thrown = true;
    }
    l.drain();
    lv_assert(thrown && n == 1, "the second time is an error and has no effect");
    auto inv = promise::invalid();
    bool t2  = false;
    try {
        inv.first();
    } catch (const std::runtime_error&) {
        t2 = true;
    }
    lv_assert(t2 && !inv.second, "an invalid promise can not be fulfilled");
}
// a future without a promise is complete
LV_CONTRACT(empty_future_is_complete)
{
    unsigned n = 0, k = 0;
    future{}.then([&] { ++n; }).then([&] { k = n; ++n; });
    lv_assert(n == 2 && k == 1, "continuations run at once, in order");
    gloop l;
    with_gloop w{&l};
    auto pf = promise::with_loop(w);
    bool in = false;
    future r = future{}.then([&]() -> future { in = true; return std::move(pf.second); });
    bool done = false;
    std::move(r).then([&] { done = true; });
    l.drain();
    lv_assert(in && !done, "follows the future that is returned");
    pf.first();
    l.drain();
    lv_assert(done, "completes with it");
}
// chains: each link once, in order, wherever in the chain the promise is kept
LV_CONTRACT(chain)
{
    gloop l;
    with_gloop w{&l};
    Log log;
    auto pf = promise::with_loop(w);
    auto p  = std::move(pf.first);
    unsigned at = pick("fulfilled before link", 4);
    future f    = std::move(pf.second);
    if (at == 0) p();
    f = std::move(f).then([&] { log.push(1); });
    if (at == 1) { p(); if (any_bool("drain")) l.drain(); }
    f = std::move(f).then([&] { log.push(2); });
    if (at == 2) { p(); if (any_bool("drain")) l.drain(); }
    f = std::move(f).then([&] { log.push(3); });
    if (at == 3) { lv_assert(log.n == 0, "nothing before the promise"); p(); }
    l.drain();
    lv_assert(log.n == 3 && log.is(0, 1) && log.is(1, 2) && log.is(2, 3), "each link once, in order");
}
// a continuation that returns a future is complete when that future is
LV_CONTRACT(continuation_returning_future)
{
    gloop l;
    with_gloop w{&l};
    Log log;
    auto a = promise::with_loop(w);
    auto b = promise::with_loop(w);
    unsigned when = pick("inner fulfilled", 3);
    if (when == 0) b.first();
    future f = std::move(a.second).then([&, fb = std::move(b.second)]() mutable -> future { log.push(1); return std::move(fb); });
    std::move(f).then([&] { log.push(2); });
    if (when == 1) b.first();
    l.drain();
    lv_assert(log.n == 0, "waits for the outer promise");
    a.first();
    l.drain();
    lv_assert(log.is(0, 1) && log.n == (when == 2 ? 1 : 2), "then for the inner one");
    if (when == 2) b.first();
    l.drain();
    lv_assert(log.n == 2 && log.is(1, 2), "complete");
}
LV_CONTRACT(also_waits_for_both)
{
    gloop l;
    with_gloop w{&l};
    auto a = promise::with_loop(w);
    auto b = promise::with_loop(w);
    unsigned n = 0;
    bool ea = any_bool("first is empty"), eb = any_bool("second is empty");
    future fa = ea ? future{} : std::move(a.second), fb = eb ? future{} : std::move(b.second);
    fa.also(std::move(fb)).then([&] { ++n; });
    bool order = any_bool("order");
    bool da = ea, db = eb;
    for (unsigned i = 0; i < 2; ++i) {
        l.drain();
        lv_assert(n == (da && db), "complete iff both are");
        bool first = (i == 0) == order;
        if (first && !ea) { a.first(); da = true; }
        if (!first && !eb) { b.first(); db = true; }
    }
    l.drain();
    lv_assert(n == 1, "once");
}
// the future of a dispatch completes after the action was reduced and published
// and its effects, including the futures they return, have completed
LV_CONTRACT(dispatch_future)
{
    gloop l;
    Log log;
    auto m = any("m");
    with_gloop w{&l};
    auto inner     = promise::with_loop(w);
    unsigned kind  = pick("effect", 4);
    auto s = lager::make_store<W, lager::automatic_tag>(
        V{m}, with_gloop{&l},
        lager::with_reducer([&](V mm, W x) -> lager::result<V, W> {
            V r{uf("red", mm.id, x.id)};
            if (kind == 0) return r;
            if (kind == 1) return {r, [&](auto&&) { log.push(1); }};
            if (kind == 2) return {r, [&](auto&&) -> future { log.push(1); return {}; }};
            return {r, [&](auto&&) -> future { log.push(1); return std::move(inner.second); }};
        }),
        lager::with_futures);
    auto a     = any<W>("a");
    bool early = any_bool("early");
    future f   = s.dispatch(a);
    lv_assert(bool(f), "a real future");
    if (!early)
        l.drain();
    std::move(f).then([&] { log.push(2); lv_assert(s.get().id == uf("red", m.id, a.id), "published before"); });
    l.drain();
    if (kind == 0)
        lv_assert(log.n == 1 && log.is(0, 2), "completes once");
    else if (kind < 3)
        lv_assert(log.n == 2 && log.is(0, 1) && log.is(1, 2), "after the effect");
    else {
        lv_assert(log.n == 1, "not before the future of the effect");
        inner.first();
        l.drain();
        lv_assert(log.n == 2 && log.is(1, 2), "after the future of the effect");
    }
    l.drain();
    lv_assert(log.count(2) == 1, "exactly once");
}
LV_CONTRACT(dispatch_future_transactional)
{
    gloop l;
    Log log;
    auto m = any("m");
    auto s = lager::make_store<W, lager::transactional_tag>(
        V{m}, with_gloop{&l}, lager::with_reducer([&](V mm, W x) { log.push(1); return V{uf("red", mm.id, x.id)}; }),
        lager::with_futures);
    s.dispatch(any<W>("a")).then([&] { log.push(2); });
    l.drain();
    lv_assert(log.n == 2 && log.is(0, 1) && log.is(1, 2), "completes once reduced");
}
// without futures enabled dispatch gives an empty, complete one
LV_CONTRACT(dispatch_without_futures)
{
    gloop l;
    auto m = any("m");
    auto s = lager::make_store<W, lager::automatic_tag>(
        V{m}, with_gloop{&l}, lager::with_reducer([&](V mm, W x) { return V{uf("red", mm.id, x.id)}; }));
    future f = s.dispatch(any<W>("a"));
    lv_assert(!f, "an empty future");
}
// dispatching from an effect and returning its future
LV_CONTRACT(dispatch_future_from_effect)
{
    gloop l;
    Log log;
    auto m = any("m");
    auto a = any<W>("a"), b = any<W>("b");
    lv_assume(a != b);
    auto s = lager::make_store<W, lager::automatic_tag>(
        V{m}, with_gloop{&l},
        lager::with_reducer([&](V mm, W x) -> lager::result<V, W> {
            V r{uf("red", mm.id, x.id)};
            if (x == a)
                return {r, [&](auto&& ctx) -> future { log.push(1); return ctx.dispatch(b); }};
            return {r, [&](auto&&) { log.push(2); }};
        }),
        lager::with_futures);
    s.dispatch(a).then([&] { log.push(3); });
    l.drain();
    lv_assert(log.n == 3 && log.is(0, 1) && log.is(1, 2) && log.is(2, 3), "completes when the nested action and its effect have");
}

// a continuation that is given by name is copied
LV_CONTRACT(continuations_given_by_name)
{
    gloop l;
    with_gloop w{&l};
    unsigned n = 0;
    by_name f{&n};
    auto a     = promise::with_loop(w);
    auto b     = promise::with_loop(w);
    bool order = any_bool("promise first");
    if (order)
        a.first();
    std::move(a.second).then(f);
    std::move(b.second).then(f);
    if (!order)
        a.first();
    b.first();
    lv_assert(!f.gone, "not taken");
    l.drain();
    lv_assert(n == 2 && !f.gone, "called for both");
}

// handles are copied freely (effects are), and each one can be followed once:
// also after the promise was kept and the continuation of another one has run
LV_CONTRACT(copies_of_a_future)
{
    gloop l;
    with_gloop w{&l};
    auto pf   = promise::with_loop(w);
    auto f    = pf.second;
    auto q    = pf.first;
    unsigned a = 0, b = 0, c = 0;
    bool first = any_bool("followed before");
    if (first)
        std::move(f).then([&] { ++a; });
    pf.first();
    lv_assert(a == 0, "not synchronously");
    if (any_bool("drain"))
        l.drain();
    if (!first)
        std::move(f).then([&] { ++a; });
    auto g = pf.second;
    std::move(g).then([&] { ++b; });
    l.drain();
    lv_assert(a == 1 && b == 1, "each continuation exactly once");
    q();
    l.drain();
    lv_assert(a == 1 && b == 1, "keeping it through another handle changes nothing");
    std::move(pf.second).then([&] { ++c; });
    l.drain();
    lv_assert(a == 1 && b == 1 && c == 1, "still complete");
}

// ... and everything the same when it happens again
LV_CONTRACT(continuation_runs_once_in_loop_again)
{
    lvc_continuation_runs_once_in_loop();
    lvc_continuation_runs_once_in_loop();
}
LV_CONTRACT(promise_twice_throws_again)
{
    lvc_promise_twice_throws();
    lvc_promise_twice_throws();
}
LV_CONTRACT(empty_future_is_complete_again)
{
    lvc_empty_future_is_complete();
    lvc_empty_future_is_complete();
}
LV_CONTRACT(chain_again)
{
    lvc_chain();
    lvc_chain();
}
LV_CONTRACT(continuation_returning_future_again)
{
    lvc_continuation_returning_future();
    lvc_continuation_returning_future();
}
LV_CONTRACT(also_waits_for_both_again)
{
    lvc_also_waits_for_both();
    lvc_also_waits_for_both();
}
LV_CONTRACT(dispatch_future_transactional_again)
{
    lvc_dispatch_future_transactional();
    lvc_dispatch_future_transactional();
}
LV_CONTRACT(dispatch_without_futures_again)
{
    lvc_dispatch_without_futures();
    lvc_dispatch_without_futures();
}
LV_CONTRACT(dispatch_future_from_effect_again)
{
    lvc_dispatch_future_from_effect();
    lvc_dispatch_future_from_effect();
}
LV_CONTRACT(continuations_given_by_name_again)
{
    lvc_continuations_given_by_name();
    lvc_continuations_given_by_name();
}
LV_CONTRACT(copies_of_a_future_again)
{
    lvc_copies_of_a_future();
    lvc_copies_of_a_future();
}
