// Store enhancers and thunks.
#include "gloop.h"
#include "nodes.h"
#include <lager/store.hpp>
#include <lager/extra/thunk.hpp>
using namespace lv;
using lager::commit;

namespace {
V red(const V& m, const W& a) { return V{uf("red", m.id, a.id)}; }
struct A { uint64_t x; };
struct B { uint64_t x; };
uint64_t g_seen;
} // namespace
namespace adl {
struct model { uint64_t id; friend bool operator==(const model& a, const model& b) { return a.id == b.id; } };
struct action { uint64_t id; };
inline model update(model m, action a) { return model{uf("adl", m.id, a.id)}; }
} // namespace adl

// without a reducer, the function that belongs to the model is used
LV_CONTRACT(default_reducer)
{
    gloop l;
    auto m = any_id("m"), a = any_id("a");
    auto s = lager::make_store<adl::action, lager::automatic_tag>(adl::model{m}, with_gloop{&l});
    s.dispatch(adl::action{a});
    l.drain();
    lv_assert(s.get().id == uf("adl", m, a), "model");
}
// the store is automatic unless told otherwise
LV_CONTRACT(tags)
{
    gloop l;
    auto m = any_id("m"), a = any_id("a");
    lv_assume(uf("adl", m, a) != m);
    {
        auto s = lager::make_store<adl::action>(adl::model{m}, with_gloop{&l});
        s.dispatch(adl::action{a});
        l.drain();
        lv_assert(s.get().id == uf("adl", m, a), "automatic by default");
    }
    {
        auto s = lager::make_store<adl::action, lager::transactional_tag>(adl::model{m}, with_gloop{&l});
        s.dispatch(adl::action{a});
        l.drain();
        lv_assert(s.get().id == m, "transactional by tag");
        commit(s);
        lv_assert(s.get().id == uf("adl", m, a), "and committed");
    }
    {
        auto s = lager::make_store<adl::action>(adl::model{m}, with_gloop{&l}, lager::with_tags<lager::transactional_tag>);
        s.dispatch(adl::action{a});
        l.drain();
        lv_assert(s.get().id == m, "transactional by enhancer");
    }
    {
        auto s = lager::make_store<adl::action>(adl::model{m}, with_gloop{&l}, lager::with_futures);
        bool done = false;
        auto f = s.dispatch(adl::action{a});
        lv_assert(bool(f), "futures by enhancer");
        std::move(f).then([&] { done = true; });
        l.drain();
        lv_assert(done && s.get().id == uf("adl", m, a), "and still automatic");
    }
}
// tags given in several places are all in effect
namespace {
template <typename S>
void both_tags(gloop& l, S s, uint64_t m, uint64_t a, const char* how)
{
    bool done = false;
    auto f = s.dispatch(adl::action{a});
    lv_assert(bool(f), how);
    std::move(f).then([&] { done = true; });
    l.drain();
    lv_assert(done && s.get().id == m, how);
    commit(s);
    lv_assert(s.get().id == uf("adl", m, a), how);
}
} // namespace
LV_CONTRACT(tags_add_up)
{
    gloop l;
    auto m = any_id("m"), a = any_id("a");
    lv_assume(uf("adl", m, a) != m);
    auto deferred = lager::with_tags<lager::transactional_tag>;
    switch (lv_any("how") & 3) {
    case 0: both_tags(l, lager::make_store<adl::action, lager::transactional_tag>(adl::model{m}, with_gloop{&l}, lager::with_futures), m, a, "tag and enhancer"); break;
    case 1: both_tags(l, lager::make_store<adl::action>(adl::model{m}, with_gloop{&l}, deferred, lager::with_futures), m, a, "two enhancers"); break;
    case 2: both_tags(l, lager::make_store<adl::action>(adl::model{m}, with_gloop{&l}, lager::with_futures, deferred), m, a, "two enhancers the other way round"); break;
    case 3: both_tags(l, lager::make_store<adl::action>(adl::model{m}, with_gloop{&l}, lager::with_tags<lager::transactional_tag, lager::enable_futures_tag>), m, a, "one enhancer"); break;
    }
}
// an enhancer can wrap the reducer, the model and the action; several compose,
// the first one outermost
namespace {
struct hist
{
    V v;
    uint64_t n;
    friend bool operator==(const hist& a, const hist& b) { return a.v == b.v && a.n == b.n; }
};
auto with_hist = [](auto next) {
    return [=](auto action, auto&& model, auto&& reducer, auto&& loop, auto&& deps, auto&& tags) {
        return next(action, hist{LAGER_FWD(model), 0}, [reducer](hist h, W a) { return hist{reducer(h.v, a), h.n + 1}; }, LAGER_FWD(loop), LAGER_FWD(deps), LAGER_FWD(tags));
    };
};
auto with_twice = [](auto next) {
    return [=](auto action, auto&& model, auto&& reducer, auto&& loop, auto&& deps, auto&& tags) {
        return next(action, LAGER_FWD(model), [reducer](auto m, W a) { return reducer(reducer(m, a), a); }, LAGER_FWD(loop), LAGER_FWD(deps), LAGER_FWD(tags));
    };
};
} // namespace
LV_CONTRACT(enhancers_compose)
{
    gloop l;
    auto m = any("m");
    auto a = any<W>("a");
    auto r = lager::with_reducer([](V mm, W x) { return red(mm, x); });
    auto two = red(red(m, a), a);
    {
        auto s = lager::make_store<W>(V{m}, with_gloop{&l}, r, with_hist);
        s.dispatch(a);
        l.drain();
        lv_assert(s.get().v == red(m, a) && s.get().n == 1, "one");
    }
    {
        auto s = lager::make_store<W>(V{m}, with_gloop{&l}, r, with_twice, with_hist);
        s.dispatch(a);
        l.drain();
        lv_assert(s.get().v == two && s.get().n == 1, "the reducer is doubled, then counted");
    }
    {
        auto s = lager::make_store<W>(V{m}, with_gloop{&l}, r, with_hist, with_twice);
        s.dispatch(a);
        l.drain();
        lv_assert(s.get().v == two && s.get().n == 2, "the counting is doubled");
    }
}
// dependencies given to the store reach its context and every effect
LV_CONTRACT(deps_reach_effects)
{
    gloop l;
    A a{lv_any("a")};
    B b{lv_any("b")}, b2{lv_any("b2")};
    auto m = any("m");
    using D = lager::deps<A&, B>;
    uint64_t seen = 0;
    bool same = false, again = any_bool("given twice");
    auto r = lager::with_reducer([&](V mm, W x) -> lager::result<V, W, D> {
        return {red(mm, x), [&](auto&& ctx) { same = &lager::get<A>(ctx) == &a; seen = lager::get<B>(ctx).x; }};
    });
    auto x = any<W>("x");
    if (again) {
        auto s = lager::make_store<W>(V{m}, with_gloop{&l}, r, lager::with_deps(std::ref(a), b), lager::with_deps(b2));
        s.dispatch(x);
        l.drain();
        lv_assert(same && (seen == b.x || seen == b2.x), "both are there");
        lv_assert(seen == b2.x, "a later one replaces an earlier one");
        lager::context<W, D> c = s;
        lv_assert(&lager::get<A>(c) == &a && lager::get<B>(c).x == b2.x, "in the context of the store as well");
    } else {
        auto s = lager::make_store<W>(V{m}, with_gloop{&l}, r, lager::with_deps(std::ref(a)), lager::with_deps(b));
        s.dispatch(x);
        l.drain();
        lv_assert(same && seen == b.x, "merged");
    }
}
// thunks: actions behave as without them, thunks are effects without a model change
LV_CONTRACT(thunks)
{
    gloop l;
    Log log;
    auto m = any("m");
    auto a = any<W>("a"), b = any<W>("b");
    auto s = lager::make_store<W>(V{m}, with_gloop{&l}, lager::with_reducer([&](V mm, W x) -> lager::result<V, W> {
        log.push(1, mm.id, x.id);
        return {red(mm, x), [&, x](auto&&) { log.push(2, x.id); }};
    }), lager::with_thunk());
    unsigned n = 0;
    s.watch([&](auto&&) { ++n; });
    bool thunk_first = any_bool("thunk first");
    lager::effect<W> th = [&](lager::context<W> ctx) { log.push(3, s.get().id); ctx.dispatch(b); };
    if (thunk_first) {
        s.dispatch(th);
        l.drain();
        lv_assert(log.is(0, 3, m.id), "a thunk runs once, on the unchanged model");
        lv_assert(log.n == 3 && log.is(1, 1, m.id, b.id) && log.is(2, 2, b.id), "what it dispatches is reduced");
        lv_assert(s.get() == red(m, b), "model");
    } else {
        s.dispatch(a);
        s.dispatch(th);
        l.drain();
        auto m1 = red(m, a);
        lv_assert(log.count(3) == 1 && log.is(log.find(3), 3, m1.id), "after the actions before it");
        lv_assert(log.count(1) == 2 && log.count(2) == 2, "each action and effect once");
        lv_assert(s.get() == red(m1, b), "model");
    }
}
LV_CONTRACT(thunks_with_plain_reducer)
{
    gloop l;
    auto m = any("m");
    auto a = any<W>("a");
    unsigned n = 0, k = 0;
    auto s = lager::make_store<W, lager::transactional_tag>(V{m}, with_gloop{&l}, lager::with_reducer([&](V mm, W x) { ++k; return red(mm, x); }), lager::with_thunk());
    s.dispatch([&](lager::context<W>) { ++n; });
    l.drain();
    lv_assert(n == 1 && k == 0, "the reducer is not involved");
    commit(s);
    lv_assert(s.get() == m, "the model is unchanged");
    s.dispatch(a);
    l.drain();
    commit(s);
    lv_assert(n == 1 && k == 1 && s.get() == red(m, a), "actions as usual");
    s.dispatch(lager::effect<W>{});
    l.drain();
    lv_assert(n == 1 && k == 1 && s.get() == red(m, a), "an empty thunk does nothing");
}

// the future of a thunk is the one of what it started
LV_CONTRACT(thunks_with_futures)
{
    gloop l;
    Log log;
    auto m = any("m");
    auto b = any<W>("b");
    with_gloop w{&l};
    auto inner = lager::promise::with_loop(w);
    auto s     = lager::make_store<W, lager::automatic_tag>(
        V{m}, with_gloop{&l}, lager::with_reducer([&](V mm, W x) { return red(mm, x); }), lager::with_thunk(), lager::with_futures);
    unsigned kind       = pick("thunk", 3);
    lager::effect<W> th = [&](lager::context<W> ctx) -> lager::future {
        log.push(1);
        if (kind == 0)
            return {};
        if (kind == 1)
            return ctx.dispatch(b);
        return std::move(inner.second);
    };
    s.dispatch(th).then([&] { log.push(2, s.get().id); });
    l.drain();
    if (kind == 2) {
        lv_assert(log.n == 1 && log.is(0, 1), "not before the future of the thunk");
        inner.first();
        l.drain();
    }
    lv_assert(log.n == 2 && log.is(0, 1) && log.is(1, 2, kind == 1 ? red(m, b).id : m.id), "once, after the thunk and what it waits for");
}
// everything that is given by name to a store is copied, and can be used for another
LV_CONTRACT(enhancers_are_reusable)
{
    struct named
    {
        bool gone = false;
        named()   = default;
        named(const named&) = default;
        named(named&& o)
            : gone(o.gone)
        {
            o.gone = true;
        }
        lager::result<V, W, lager::deps<B>> operator()(V m, W a) const
        {
            lv_assert(!gone, "no reducer is used after it was moved from");
            return {red(m, a), [](auto&& ctx) { ctx.loop().post([x = lager::get<B>(ctx).x] { g_seen = x; }); }};
        }
    };
    gloop l;
    named f;
    auto m = any("m");
    auto a = any<W>("a");
    B b{lv_any("b")};
    auto loop     = with_gloop{&l};
    auto r        = lager::with_reducer(f);
    auto d        = lager::with_deps(b);
    auto both     = zug::comp(r, d);
    const auto m0 = m;
    for (int i = 0; i < 3; ++i) {
        g_seen = ~b.x;
        if (i < 2) {
            auto s = lager::make_store<W>(m, loop, r, d);
            s.dispatch(a);
            l.drain();
            lv_assert(s.get() == red(m, a), "the same for every store");
        } else {
            auto s = lager::make_store<W>(m, loop, both);
            s.dispatch(a);
            l.drain();
            lv_assert(s.get() == red(m, a), "the same for every store");
        }
        lv_assert(g_seen == b.x, "and its dependencies");
        lv_assert(!f.gone && m == m0, "what was given by name was not taken");
    }
}

// ... and everything the same when it happens again
LV_CONTRACT(default_reducer_again)
{
    lvc_default_reducer();
    lvc_default_reducer();
}
LV_CONTRACT(tags_again)
{
    lvc_tags();
    lvc_tags();
}
LV_CONTRACT(tags_add_up_again)
{
    lvc_tags_add_up();
    lvc_tags_add_up();
}
LV_CONTRACT(enhancers_compose_again)
{
    lvc_enhancers_compose();
    lvc_enhancers_compose();
}
LV_CONTRACT(deps_reach_effects_again)
{
    lvc_deps_reach_effects();
    lvc_deps_reach_effects();
}
LV_CONTRACT(thunks_again)
{
    lvc_thunks();
    lvc_thunks();
}
LV_CONTRACT(thunks_with_plain_reducer_again)
{
    lvc_thunks_with_plain_reducer();
    lvc_thunks_with_plain_reducer();
}
LV_CONTRACT(enhancers_are_reusable_again)
{
    lvc_enhancers_are_reusable();
    lvc_enhancers_are_reusable();
}
