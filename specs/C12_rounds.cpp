// Any number of dispatches, steps of the loop and commits.
#include "gloop.h"
#include "nodes.h"
#include <lager/store.hpp>
using namespace lv;
using lager::detail::access;

namespace {
V red(const V& m, const W& a) { return V{uf("red", m.id, a.id)}; }
template <typename S>
struct program
{
    S s;
    gloop& l;
    lager::reader<W> r;
    // ghost: the fold, what is visible
    uint64_t cur, vis;
    unsigned reduced = 0, cs = 0, cr = 0;
    uint64_t action = 0, on = 0;

    template <typename Make>
    program(Make make, gloop& gl, V m)
        : s{make(*this)}
        , l{gl}
        , r{s.zoom(ulens())}
        , cur{m.id}
        , vis{m.id}
    {
        s.watch([&](const V& v) { ++cs; lv_assert(v.id == cur && r.get() == uget(v), "one consistent state"); });
        r.watch([&](const W& w) { ++cr; lv_assert(w == uget(V{cur}) && s.get().id == cur, "one consistent state"); });
    }
    bool inv() const
    {
        const auto& n = whole(*access::node(s));
        const auto& z = whole(*access::node(r));
        auto part     = uget(V{vis});
        bool ok       = (n.current().id == cur) & (n.last().id == vis) & (n.notified_.id == vis);
        ok &= (z.current().id == part.id) & (z.last().id == part.id) & (z.notified_.id == part.id);
        ok &= n.needs_send_down_ | (cur == vis);
        ok &= !z.needs_send_down_;
        return ok & (l.n == 0) & (l.i == 0);
    }
    static bool inv_of(void* d, uint64_t, uint64_t) { return ((program*) d)->inv(); }
    void reset()
    {
        l.n = l.i = 0;
        reduced = cs = cr = 0;
    }
    void one(bool automatic)
    {
        reset();
        auto a = any<W>("a");
        bool by_value = any_bool("rvalue");
        if (by_value)
            s.dispatch(W{a});
        else
            s.dispatch(a);
        lv_assert(reduced == 0 && s.get().id == vis, "nothing happens before the loop runs it");
        auto before = cur;
        V next      = red(V{cur}, a);
        cur         = next.id;
        l.drain();
        l.n = l.i = 0;
        lv_assert(reduced == 1 && on == before && action == a.id, "reduced once, on the latest model");
        if (!automatic)
            lv_assert(s.get().id == vis && cs + cr == 0, "invisible until the commit");
        else
            published();
    }
    void published()
    {
        lv_assert(s.get().id == cur && r.get() == uget(V{cur}), "published");
        lv_assert(cs == (cur != vis), "reported iff it changed");
        lv_assert(cr == (uget(V{cur}) != uget(V{vis})), "a part iff it changed");
        vis = cur;
        l.n = l.i = 0;
    }
    void two()
    {
        reset();
        auto a = any<W>("a"), b = any<W>("b");
        s.dispatch(a);
        s.dispatch(b);
        V m0 = V{cur};
        V m1 = red(m0, a);
        V m2 = red(m1, b);
        l.step();
        lv_assert(reduced == 1 && on == m0.id && action == a.id, "in order");
        cur = m1.id;
        l.step();
        lv_assert(reduced == 2 && on == m1.id && action == b.id, "each on the result of the previous one");
        cur = m2.id;
        l.drain();
        l.n = l.i = 0;
    }
};
struct reducer_t
{
    unsigned* n;
    uint64_t *on, *action;
    V operator()(V m, W a) const
    {
        ++*n;
        *on     = m.id;
        *action = a.id;
        return red(m, a);
    }
};
template <typename Tag>
auto store_of(V m, unsigned* n, uint64_t* on, uint64_t* action, gloop& l)
{
    return lager::make_store<W, Tag>(std::move(m), with_gloop{&l}, lager::with_reducer(reducer_t{n, on, action}));
}
} // namespace

LV_CONTRACT(any_number_of_actions_automatic)
{
    using lager::automatic_tag;
    gloop l;
    auto m = any("m");
    auto make = [&](auto& p) { return store_of<automatic_tag>(m, &p.reduced, &p.on, &p.action, l); };
    using S = decltype(store_of<automatic_tag>(m, nullptr, nullptr, nullptr, l));
    program<S> p{make, l, m};
    uint64_t n = lv_len("actions");
    lv_inv(program<S>::inv_of, &p, 0);
    for (uint64_t i = 0; i < n; ++i)
        p.one(true);
    lv_inv_pop();
    lv_cover("end");
}
LV_CONTRACT(any_history_transactional)
{
    using lager::transactional_tag;
    gloop l;
    auto m = any("m");
    auto make = [&](auto& p) { return store_of<transactional_tag>(m, &p.reduced, &p.on, &p.action, l); };
    using S = decltype(store_of<transactional_tag>(m, nullptr, nullptr, nullptr, l));
    program<S> p{make, l, m};
    uint64_t n = lv_len("operations");
    lv_inv(program<S>::inv_of, &p, 0);
    for (uint64_t i = 0; i < n; ++i)
        switch (pick("operation", 3)) {
        case 0: p.one(false); break;
        case 1: p.two(); break;
        default:
            p.reset();
            lager::commit(p.s);
            p.published();
        }
    lv_inv_pop();
    lv_cover("end");
}
