// Any number of actions whose reducers give effects or not.
// LV_PROPS: C14
#include "gloop.h"
#include "nodes.h"
#include <lager/store.hpp>
using namespace lv;

namespace {
V red(const V& m, const W& a) { return V{uf("red", m.id, a.id)}; }
using eff_t = lager::effect<W>;
using res_t = lager::result<V, W>;

template <typename S>
struct program
{
    gloop l;
    uint64_t cur, vis; // ghost: the fold, what is visible
    unsigned kind = 0, reduced = 0, ran = 0, done = 0, calls = 0;
    uint64_t with = 0, model = 0;
    bool reducing = false;
    S s;

    template <typename Make>
    program(Make make, V m)
        : cur{m.id}
        , vis{m.id}
        , s{make(*this)}
    {
        s.watch([&](const V&) { calls++; lv_assert(!reducing && ran == 0, "watchers first"); });
    }
    res_t reduce(V m, W a)
    {
        reducing = true;
        ++reduced;
        V r = red(m, a);
        res_t x{r};
        if (kind == 1)
            x = res_t{r, eff_t{}};
        else if (kind == 2)
            x = res_t{r, [this, a](auto&&) { effect(a); }};
        else if (kind == 3)
            x = res_t{r, lager::sequence(eff_t{[this, a](auto&&) { effect(a); }},
                                         eff_t{[this](auto&&) { lv_assert(ran == 1, "in order"); ++ran; }})};
        reducing = false;
        return x;
    }
    void effect(W a)
    {
        lv_assert(!reducing && ran == 0, "once, not from inside of the reducer");
        ++ran;
        with  = a.id;
        model = s.get().id;
    }
    bool inv() const
    {
        auto& n = node_of(s);
        return (n.current().id == cur) & (n.last().id == vis) & (n.notified_.id == vis) &
               (n.needs_send_down_ | (cur == vis)) & (l.n == 0) & (l.i == 0) & !reducing & !l.inside;
    }
    static bool inv_of(void* d, uint64_t, uint64_t) { return ((program*) d)->inv(); }
    void start()
    {
        reduced = ran = done = calls = 0;
        kind = pick("kind", 4);
    }
    void check(W a, uint64_t seen)
    {
        l.n = l.i = 0;
        lv_assert(reduced == 1, "reduced once");
        lv_assert(ran == (kind < 2 ? 0 : kind - 1), "its effect runs once, if there is one");
        lv_assert(!ran || (with == a.id && model == seen), "its own, with the model updated");
        ran = 0;
        l.drain();
        lv_assert(!ran, "and never again");
        l.n = l.i = 0;
    }
    void action(bool automatic, bool futures)
    {
        start();
        auto a = any<W>("a");
        auto f = s.dispatch(a);
        lv_assert(!reduced && !ran, "not before the loop runs");
        cur = red(V{cur}, a).id;
        bool changed = automatic && cur != vis;
        if (automatic)
            vis = cur;
        if (futures) {
            lv_assert(bool(f), "a real future");
            bool late = any_bool("late");
            if (late) {
                l.drain();
                lv_assert(!done, "not yet");
            }
            unsigned expect = kind < 2 ? 0 : kind - 1;
            std::move(f).then([&, expect] { ++done; lv_assert(reduced == 1 && ran == expect, "after the effect"); });
            lv_assert(!done, "not from inside of then");
        }
        l.drain();
        lv_assert(done == futures, "the future completes once");
        lv_assert(calls == changed, "watchers run iff it changed");
        check(a, vis);
        lv_assert(s.get().id == vis, "the model");
    }
    void commit()
    {
        calls = ran = reduced = 0;
        lager::commit(s);
        lv_assert(calls == (cur != vis) && !reduced && !ran, "a commit only publishes");
        vis = cur;
        lv_assert(s.get().id == vis, "the model");
    }
};
template <typename Tag, typename P, typename... Enhancers>
auto store_of(V m, P* p, gloop* l, Enhancers... es)
{
    return lager::make_store<W, Tag>(std::move(m), with_gloop{l},
                                     lager::with_reducer([p](V mm, W x) -> res_t { return p->reduce(mm, x); }), es...);
}
struct nothing
{
    res_t reduce(V m, W) { return m; }
};
} // namespace

LV_CONTRACT(any_number_of_effects_automatic)
{
    using lager::automatic_tag;
    auto m    = any("m");
    auto make = [&](auto& p) { return store_of<automatic_tag>(m, &p, &p.l); };
    using S   = decltype(store_of<automatic_tag>(m, (nothing*) 0, (gloop*) 0));
    program<S> p{make, m};
    uint64_t n = lv_len("actions");
    lv_inv(program<S>::inv_of, &p, 0);
    for (uint64_t i = 0; i < n; ++i)
        p.action(true, false);
    lv_inv_pop();
    lv_cover("end");
}
LV_CONTRACT(any_number_of_futures)
{
    using lager::automatic_tag;
    auto m    = any("m");
    auto make = [&](auto& p) { return store_of<automatic_tag>(m, &p, &p.l, lager::with_futures); };
    using S   = decltype(store_of<automatic_tag>(m, (nothing*) 0, (gloop*) 0, lager::with_futures));
    program<S> p{make, m};
    uint64_t n = lv_len("actions");
    lv_inv(program<S>::inv_of, &p, 0);
    for (uint64_t i = 0; i < n; ++i)
        p.action(true, true);
    lv_inv_pop();
    lv_cover("end");
}
LV_CONTRACT(any_history_transactional)
{
    using lager::transactional_tag;
    auto m    = any("m");
    auto make = [&](auto& p) { return store_of<transactional_tag>(m, &p, &p.l); };
    using S   = decltype(store_of<transactional_tag>(m, (nothing*) 0, (gloop*) 0));
    program<S> p{make, m};
    uint64_t n = lv_len("operations");
    lv_inv(program<S>::inv_of, &p, 0);
    for (uint64_t i = 0; i < n; ++i)
        if (any_bool("commit"))
            p.commit();
        else
            p.action(false, false);
    lv_inv_pop();
    lv_cover("end");
}
