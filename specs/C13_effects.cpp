// Effects returned by reducers.
#include "gloop.h"
#include "nodes.h"
#include <lager/store.hpp>
using namespace lv;
using lager::commit;

namespace {
V red(const V& m, const W& a) { return V{uf("red", m.id, a.id)}; }
using eff_t = lager::effect<W>;
using res_t = lager::result<V, W>;
} // namespace

// an effect runs exactly once, with the model already updated (and published in
// an automatic store), after the reducer has returned
LV_CONTRACT(effect_runs_once_after_update_automatic)
{
    gloop l;
    Log log;
    auto m = any("m");
    auto a = any<W>("a"), b = any<W>("b");
    std::function<V()> look;
    bool reducing = false;
    auto s        = lager::make_store<W, lager::automatic_tag>(V{m}, with_gloop{&l}, lager::with_reducer([&](V mm, W x) -> res_t {
        reducing = true;
        V r      = red(mm, x);
        eff_t e  = [&, x](auto&&) {
            lv_assert(!reducing, "not from inside the reducer");
            log.push(1, x.id, look().id);
        };
        reducing = false;
        return {r, e};
    }));
    look = [&] { return s.get(); };
    unsigned n = 0;
    s.watch([&](const V& v) { log.push(2, v.id); ++n; });
    s.dispatch(a);
    lv_assert(log.n == 0, "not before the loop runs");
    l.drain();
    auto m1 = red(m, a);
    lv_assert(log.count(1) == 1, "exactly once");
    lv_assert(log.is(log.find(1), 1, a.id, m1.id), "sees the updated model");
    if (m1 != m)
        lv_assert(log.find(2) < log.find(1), "watchers first");
    log.clear();
    s.dispatch(b);
    l.drain();
    auto m2 = red(m1, b);
    lv_assert(log.count(1) == 1 && log.is(log.find(1), 1, b.id, m2.id), "once for the next action too");
    l.drain();
    lv_assert(log.count(1) == 1 && s.get() == m2, "and never again");
}
LV_CONTRACT(effect_runs_once_transactional)
{
    gloop l;
    Log log;
    auto m = any("m");
    auto a = any<W>("a");
    auto s = lager::make_store<W, lager::transactional_tag>(V{m}, with_gloop{&l}, lager::with_reducer([&](V mm, W x) -> res_t {
        return {red(mm, x), [&, x](auto&&) { log.push(1, x.id); }};
    }));
    unsigned n = 0;
    s.watch([&](auto&&) { ++n; });
    s.dispatch(a);
    l.drain();
    lv_assert(log.n == 1 && log.is(0, 1, a.id), "exactly once, without waiting for the commit");
    lv_assert(s.get() == m && n == 0, "the model still waits for the commit");
    commit(s);
    lv_assert(log.n == 1 && s.get() == red(m, a) && n == (red(m, a) != m), "committed once");
}
// effects of several actions run in the order of the actions
LV_CONTRACT(effects_in_order)
{
    gloop l;
    Log log;
    auto m = any("m");
    W a[3] = {any<W>("a"), any<W>("b"), any<W>("c")};
    bool eff[3];
    unsigned idx = 0;
    auto s       = lager::make_store<W, lager::automatic_tag>(V{m}, with_gloop{&l}, lager::with_reducer([&](V mm, W x) -> res_t {
        unsigned i = idx++;
        if (eff[i])
            return {red(mm, x), eff_t{[&, x, i](auto&&) { log.push(i, x.id); }}};
        return red(mm, x);
    }));
    unsigned e = 0;
    for (unsigned i = 0; i < 3; ++i) {
        eff[i] = any_bool("has effect");
        s.dispatch(a[i]);
        if (any_bool("run"))
            l.drain();
    }
    l.drain();
    for (unsigned i = 0; i < 3; ++i)
        if (eff[i]) {
            lv_assert(log.is(e, i, a[i].id), "in order, once each");
            ++e;
        }
    lv_assert(log.n == e, "no others");
    lv_assert(s.get() == red(red(red(m, a[0]), a[1]), a[2]), "the model is the fold");
}
// an effect that dispatches: its action is reduced after, exactly once, and its
// own effect runs as well
LV_CONTRACT(effect_dispatches)
{
    gloop l;
    Log log;
    auto m = any("m");
    auto a = any<W>("a"), b = any<W>("b"), c = any<W>("c");
    lv_assume(a != b && b != c && a != c);
    auto s = lager::make_store<W, lager::automatic_tag>(V{m}, with_gloop{&l}, lager::with_reducer([&](V mm, W x) -> res_t {
        log.push(1, mm.id, x.id);
        if (x == a)
            return {red(mm, x), [&](auto&& ctx) {
                log.push(2);
                ctx.dispatch(b);
                log.push(3);
            }};
        if (x == b)
            return {red(mm, x), [&](lager::context<W> ctx) { log.push(4); ctx.dispatch(c); }};
        return {red(mm, x), [&](auto&&) { log.push(5); }};
    }));
    s.dispatch(a);
    l.drain();
    auto m1 = red(m, a), m2 = red(m1, b), m3 = red(m2, c);
    lv_assert(log.n == 7 && log.is(0, 1, m.id, a.id) && log.is(1, 2) && log.is(2, 3) && log.is(3, 1, m1.id, b.id) &&
                  log.is(4, 4) && log.is(5, 1, m2.id, c.id) && log.is(6, 5),
              "each step once and in order");
    lv_assert(s.get() == m3, "the model is the fold");
}
// reducers returning no effect, a pair, a result, an empty effect, noop
LV_CONTRACT(effect_spellings)
{
    gloop l;
    unsigned n = 0;
    auto m = any("m");
    auto a = any<W>("a");
    unsigned k = pick("kind", 5);
    auto s     = lager::make_store<W, lager::automatic_tag>(V{m}, with_gloop{&l}, lager::with_reducer([&](V mm, W x) -> std::pair<V, eff_t> {
        V r = red(mm, x);
        switch (k) {
        case 0: return {r, lager::noop};
        case 1: return {r, eff_t{}};
        case 2: return {r, [&](auto&&) { ++n; }};
        case 3: return {r, [&](auto&&) -> lager::future { ++n; return {}; }};
        default: return res_t{r, lager::effect<W, lager::deps<>>{[&](auto&&) { ++n; }}};
        }
    }));
    s.dispatch(a);
    l.drain();
    lv_assert(n == (k >= 2), "the effect runs iff there is one");
    lv_assert(s.get() == red(m, a), "the model is updated in any case");
}

// invoke_reducer: the reducer once, exactly one of the handlers once, and the
// model that the reducer returned
LV_CONTRACT(invoke_reducer_with_effect)
{
    auto m = any("m");
    auto a = any<W>("a");
    unsigned k = pick("kind", 3), calls = 0, with = 0, without = 0, ran = 0;
    auto r = [&](V mm, W x) -> res_t {
        ++calls;
        if (k == 0)
            return red(mm, x);
        if (k == 1)
            return {red(mm, x), eff_t{}};
        return {red(mm, x), [&](auto&&) { ++ran; }};
    };
    gloop l;
    lager::context<W> ctx{[](auto&&) { return lager::future{}; }, *new with_gloop{&l}, lager::deps<>{}};
    auto x = lager::invoke_reducer(
        r, m, a, [&](auto&& e) { ++with; e(ctx); }, [&] { ++without; });
    lv_assert(x == red(m, a) && calls == 1, "the model");
    lv_assert(with + without == 1, "one handler, once");
    if (k == 1)
        lv_assert(without == 1, "an empty effect is no effect");
    lv_assert(k != 2 || (with == 1 && ran == 1), "the handler gets the effect");
}
LV_CONTRACT(invoke_reducer_without_effect)
{
    auto m = any("m");
    auto a = any<W>("a");
    unsigned calls = 0, with = 0, without = 0;
    auto r = [&](V mm, W x) { ++calls; return red(mm, x); };
    auto x = lager::invoke_reducer(
        r, V{m}, W{a}, [&](auto&&) { ++with; }, [&] { ++without; });
    lv_assert(x == red(m, a) && calls == 1 && with == 0 && without == 1, "plain reducers");
}

// sequence: first, then second, same context; empty ones are neutral
LV_CONTRACT(sequence_in_order)
{
    gloop l;
    Log log;
    with_gloop w{&l};
    lager::context<W> ctx{[&](W x) { log.push(9, x.id); return lager::future{}; }, w, lager::deps<>{}};
    auto a = any<W>("a"), b = any<W>("b"), c = any<W>("c");
    bool ha = any_bool("a"), hb = any_bool("b"), hc = any_bool("c");
    eff_t ea, eb, ec;
    if (ha) ea = eff_t{[&](auto&& x) { x.dispatch(a); }};
    if (hb) eb = eff_t{[&](auto&& x) { x.dispatch(b); }};
    if (hc) ec = eff_t{[&](auto&& x) { x.dispatch(c); }};
    auto s = lager::sequence(ea, eb, ec);
    lv_assert(log.n == 0, "nothing runs while building");
    unsigned k = 0;
    if (ha || hb || hc)
        s(ctx);
    l.drain();
    if (ha) { lv_assert(log.is(k, 9, a.id), "first"); ++k; }
    if (hb) { lv_assert(log.is(k, 9, b.id), "second"); ++k; }
    if (hc) { lv_assert(log.is(k, 9, c.id), "third"); ++k; }
    lv_assert(log.n == k, "each once");
}
// the second waits for the future of the first
LV_CONTRACT(sequence_waits_for_future)
{
    gloop l;
    Log log;
    with_gloop w{&l};
    lager::context<W> ctx{[&](W) { return lager::future{}; }, w, lager::deps<>{}};
    auto pf   = lager::promise::with_loop(w);
    auto p    = std::move(pf.first);
    auto f    = std::move(pf.second);
    eff_t ea  = [&](auto&&) -> lager::future { log.push(1); return std::move(f); };
    eff_t eb  = [&](auto&&) { log.push(2); };
    auto s    = lager::sequence(ea, eb);
    bool done = false;
    s(ctx).then([&] { done = true; });
    l.drain();
    lv_assert(log.n == 1 && log.is(0, 1) && !done, "only the first has run");
    p();
    l.drain();
    lv_assert(log.n == 2 && log.is(1, 2) && done, "the second runs when the first completes");
}

// a sequence of effects of a smaller set of actions and dependencies, when the first
// takes its time: the context that the second gets is as good as the one that the
// first got, which is gone by then
LV_CONTRACT(sequence_of_parts_waits)
{
    struct A1 { uint64_t id; };
    struct A2 { uint64_t id; };
    struct dep { uint64_t x; };
    using part = lager::effect<A2, lager::deps<dep>>;
    using full = lager::effect<std::variant<A1, A2>, lager::deps<dep, V>>;
    gloop l;
    Log log;
    with_gloop w{&l};
    dep d{lv_any("d")};
    lager::context<std::variant<A1, A2>, lager::deps<dep, V>> ctx{
        [&](std::variant<A1, A2> x) {
            log.push(3, x.index() == 1 ? std::get<A2>(x).id : 0);
            return lager::future{};
        },
        w, lager::deps<dep, V>::with(d, any("v"))};
    auto pf = lager::promise::with_loop(w);
    auto p  = std::move(pf.first);
    auto f  = std::move(pf.second);
    part ea = [&](auto&&) -> lager::future { log.push(1); return std::move(f); };
    part eb = [&](auto&& c) { c.dispatch(A2{lager::get<dep>(c).x}); };
    full e{lager::sequence(ea, eb)};
    bool done = false;
    e(ctx).then([&] { done = true; });
    l.drain();
    lv_assert(log.n == 1 && log.is(0, 1) && !done, "only the first has run");
    p();
    l.drain();
    lv_assert(log.n == 2 && log.is(1, 3, d.x) && done, "the second runs when the first completes");
}
// an empty effect stays empty when converted to another effect type
LV_CONTRACT(empty_effect_converted)
{
    struct A1 { uint64_t id; };
    using big = std::variant<A1, W>;
    gloop l;
    auto m = any("m");
    unsigned n = 0;
    bool empty = any_bool("empty");
    auto s = lager::make_store<big, lager::automatic_tag>(
        V{m}, with_gloop{&l}, lager::with_reducer([&](V mm, big) -> lager::result<V, big> {
            lager::effect<A1> e;
            if (!empty)
                e = [&](auto&&) { ++n; };
            return {V{uf("f", mm.id)}, e};
        }));
    s.dispatch(any<W>("a"));
    l.drain();
    lv_assert(n == !empty && s.get().id == uf("f", m.id), "runs iff there is one");
}
// effects written for a smaller set of actions and dependencies
LV_CONTRACT(effects_of_parts)
{
    struct A1 { uint64_t id; };
    struct A2 { uint64_t id; };
    using big = std::variant<A1, A2>;
    struct dep { uint64_t x; };
    gloop l;
    Log log;
    dep d{lv_any("d")};
    auto m  = any("m");
    auto id = any_id("id");
    using D = lager::deps<dep&>;
    auto s = lager::make_store<big, lager::automatic_tag>(
        V{m}, with_gloop{&l},
        lager::with_reducer([&](V mm, big x) -> lager::result<V, big, D> {
            if (auto* p = std::get_if<A1>(&x)) {
                log.push(1, p->id);
                lager::effect<A2> e = [&, i = p->id](auto&& ctx) { ctx.dispatch(A2{i}); };
                return {mm, e};
            }
            log.push(2, std::get<A2>(x).id);
            lager::effect<A1, D> e = [&](auto&& ctx) { log.push(3, lager::get<dep>(ctx).x); };
            return {V{uf("f", mm.id)}, e};
        }),
        lager::with_deps(std::ref(d)));
    s.dispatch(A1{id});
    d.x = lv_any("d2");
    l.drain();
    lv_assert(log.n == 3 && log.is(0, 1, id) && log.is(1, 2, id) && log.is(2, 3, d.x), "delivered through the conversion");
    lv_assert(s.get().id == uf("f", m.id), "model");
}

// effects that are given by name are copied
LV_CONTRACT(effects_given_by_name)
{
    gloop l;
    unsigned n = 0;
    by_name f{&n};
    auto m = any("m");
    auto a = any<W>("a");
    eff_t e{f};
    unsigned which = pick("which", 4);
    auto s = lager::make_store<W>(V{m}, with_gloop{&l}, lager::with_reducer([&](V mm, W x) -> res_t {
        switch (which) {
        case 0:
            return {red(mm, x), f};
        case 1:
            return {red(mm, x), e};
        case 2:
            return {red(mm, x), lager::sequence(e, e)};
        default:
            return {red(mm, x), lager::sequence(e, eff_t{f})};
        }
    }));
    for (unsigned i = 1; i < 3; ++i) {
        s.dispatch(a);
        l.drain();
        lv_assert(n == i * (which < 2 ? 1 : 2) && !f.gone, "each time");
    }
    lv_assert(!f.gone && e, "not taken");
}

// ... and everything the same when it happens again
LV_CONTRACT(effect_runs_once_after_update_automatic_again)
{
    lvc_effect_runs_once_after_update_automatic();
    lvc_effect_runs_once_after_update_automatic();
}
LV_CONTRACT(effect_runs_once_transactional_again)
{
    lvc_effect_runs_once_transactional();
    lvc_effect_runs_once_transactional();
}
LV_CONTRACT(effect_dispatches_again)
{
    lvc_effect_dispatches();
    lvc_effect_dispatches();
}
LV_CONTRACT(effect_spellings_again)
{
    lvc_effect_spellings();
    lvc_effect_spellings();
}
LV_CONTRACT(invoke_reducer_with_effect_again)
{
    lvc_invoke_reducer_with_effect();
    lvc_invoke_reducer_with_effect();
}
LV_CONTRACT(invoke_reducer_without_effect_again)
{
    lvc_invoke_reducer_without_effect();
    lvc_invoke_reducer_without_effect();
}
LV_CONTRACT(sequence_waits_for_future_again)
{
    lvc_sequence_waits_for_future();
    lvc_sequence_waits_for_future();
}
LV_CONTRACT(empty_effect_converted_again)
{
    lvc_empty_effect_converted();
    lvc_empty_effect_converted();
}
LV_CONTRACT(effects_of_parts_again)
{
    lvc_effects_of_parts();
    lvc_effects_of_parts();
}
LV_CONTRACT(effects_given_by_name_again)
{
    lvc_effects_given_by_name();
    lvc_effects_given_by_name();
}
