// The store: the model is the fold of the reducer over the dispatched actions.
#include "gloop.h"
#include "nodes.h"
#include <lager/store.hpp>
using namespace lv;
using lager::commit;

namespace {
V red(const V& m, const W& a) { return V{uf("red", m.id, a.id)}; }

struct probe
{
    Log log;
};
// an arbitrary reducer that records how it is called
struct reducer_t
{
    probe* p;
    V operator()(V m, W a) const
    {
        p->log.push(1, m.id, a.id);
        return red(m, a);
    }
};
template <typename Tag>
auto store_of(V m, probe& p, gloop& l)
{
    return lager::make_store<W, Tag>(std::move(m), with_gloop{&l}, lager::with_reducer(reducer_t{&p}));
}
} // namespace

// actions are reduced exactly once each, in order, each on the result of the
// previous one, whenever the loop gets to run them; nothing happens before
LV_CONTRACT(actions_are_folded_automatic)
{
    probe p;
    gloop l;
    auto m = any("m");
    auto s = store_of<lager::automatic_tag>(m, p, l);
    unsigned changes = 0, n = 0;
    bool good = true;
    V last    = m;
    s.watch([&](const V& v) { ++n; good = good && v == s.get(); last = v; });
    lv_assert(l.n == 0 && s.get() == m, "construction runs nothing");
    W a[3];
    V cur = m;
    for (unsigned i = 0; i < 3; ++i) {
        a[i] = any<W>("a");
        if (any_bool("rvalue"))
            s.dispatch(W{a[i]});
        else
            s.dispatch(a[i]);
        lv_assert(s.get() == last, "dispatch alone does not change anything");
        if (any_bool("run now"))
            l.drain();
    }
    l.drain();
    for (unsigned i = 0; i < 3; ++i) {
        lv_assert(p.log.is(i, 1, cur.id, a[i].id), "each action is reduced once, in order, on the latest model");
        cur = red(cur, a[i]);
    }
    lv_assert(p.log.n == 3, "no more calls of the reducer");
    lv_assert(s.get() == cur, "the model is the fold");
    lv_assert(good && last == cur, "watchers saw every published value");
}
LV_CONTRACT(each_action_notified_once_automatic)
{
    probe p;
    gloop l;
    auto m = any("m");
    auto s = store_of<lager::automatic_tag>(m, p, l);
    lager::reader<W> r = s.zoom(ulens());
    unsigned n = 0, nr = 0, e = 0, er = 0;
    s.watch([&](const V& v) { ++n; lv_assert(r.get() == uget(v) && s.get() == v, "one consistent state"); });
    r.watch([&](const W& w) { ++nr; lv_assert(uget(s.get()) == w, "one consistent state"); });
    V cur = m;
    for (unsigned i = 0; i < 2; ++i) {
        auto a = any<W>("a");
        s.dispatch(a);
        l.drain();
        auto nx = red(cur, a);
        e += nx != cur;
        er += uget(nx) != uget(cur);
        cur = nx;
        lv_assert(s.get() == cur && r.get() == uget(cur), "published");
        lv_assert(n == e && nr == er, "watchers run once per action that changed their value");
    }
}
LV_CONTRACT(transactional_store)
{
    probe p;
    gloop l;
    auto m = any("m");
    auto s = store_of<lager::transactional_tag>(m, p, l);
    lager::reader<W> r = s.zoom(ulens());
    unsigned n = 0, nr = 0, e = 0, er = 0;
    s.watch([&](auto&&) { ++n; });
    r.watch([&](auto&&) { ++nr; });
    V cur = m, vis = m;
    for (unsigned i = 0; i < 3; ++i) {
        auto a = any<W>("a");
        s.dispatch(a);
        l.drain();
        lv_assert(p.log.is(i, 1, cur.id, a.id), "reduced at once, on the latest model");
        cur = red(cur, a);
        lv_assert(s.get() == vis && r.get() == uget(vis) && n == e && nr == er, "invisible until the commit");
        if (any_bool("commit")) {
            commit(s);
            e += cur != vis;
            er += uget(cur) != uget(vis);
            vis = cur;
            lv_assert(s.get() == vis && r.get() == uget(vis), "visible after the commit");
            lv_assert(n == e && nr == er, "one notification per commit");
        }
    }
    lv_assert(p.log.n == 3, "no more calls of the reducer");
}
// actions dispatched by watchers come after the ones already dispatched
LV_CONTRACT(dispatch_from_watcher)
{
    probe p;
    gloop l;
    auto m = any("m");
    auto s = store_of<lager::automatic_tag>(m, p, l);
    auto a = any<W>("a"), b = any<W>("b"), c = any<W>("c");
    // both are reduced before the first notification
    lv_assume(red(m, a) != m && red(red(m, a), b) != m);
    bool once = false;
    s.watch([&](auto&&) {
        if (!once) {
            once = true;
            s.dispatch(c);
        }
    });
    s.dispatch(a);
    s.dispatch(b);
    l.drain();
    V cur = red(red(red(m, a), b), c);
    lv_assert(p.log.n == 3 && p.log.e[0].b == a.id && p.log.e[1].b == b.id && p.log.e[2].b == c.id,
              "in order of dispatch");
    lv_assert(s.get() == cur, "the model is the fold");
}
// dispatching from inside the reducer does not nest
LV_CONTRACT(dispatch_from_reducer)
{
    gloop l;
    auto m = any("m");
    auto a = any<W>("a"), b = any<W>("b");
    std::function<void(W)> disp;
    unsigned depth = 0, calls = 0;
    auto s = lager::make_store<W, lager::automatic_tag>(V{m}, with_gloop{&l}, lager::with_reducer([&](V mm, W x) {
        lv_assert(depth == 0, "reductions do not nest");
        ++depth;
        if (calls++ == 0)
            disp(b);
        --depth;
        return red(mm, x);
    }));
    disp   = [&](W x) { s.dispatch(std::move(x)); };
    s.dispatch(a);
    l.drain();
    lv_assert(calls == 2 && s.get() == red(red(m, a), b), "both are reduced, in order");
}
// a reducer that takes the model by reference or by value sees the whole of it,
// and the value it returns becomes the model
LV_CONTRACT(reducer_signatures)
{
    gloop l;
    auto m = any("m");
    auto a = any<W>("a"), b = any<W>("b"), c = any<W>("c");
    bool good = true;
    auto s = lager::make_store<W>(V{m}, with_gloop{&l}, lager::with_reducer([&](const V& mm, const W& x) { good = good && mm == m && x == a; return red(mm, x); }));
    s.dispatch(a);
    l.drain();
    lv_assert(good, "by reference");
    auto t = lager::make_store<W, lager::automatic_tag>(V{m}, with_gloop{&l}, lager::with_reducer([&](V mm, W x) { good = good && mm == m && x == b; V out = red(mm, x); V sink = std::move(mm); (void) sink; return out; }));
    t.dispatch(b);
    l.drain();
    lv_assert(good && t.get() == red(m, b), "by value");
    auto u = lager::make_store<W, lager::automatic_tag>(V{m}, with_gloop{&l}, lager::with_reducer([&](auto&& mm, auto&& x) { return red(mm, x); }));
    u.dispatch(c);
    l.drain();
    lv_assert(u.get() == red(m, c), "generic");
}
// moving the store, or converting it, keeps the same model and dispatches to it
LV_CONTRACT(store_moves)
{
    probe p;
    gloop l;
    auto m = any("m");
    auto s = store_of<lager::automatic_tag>(m, p, l);
    lager::reader<V> r = s;
    auto a = any<W>("a"), b = any<W>("b");
    s.dispatch(a);
    auto t = std::move(s);
    bool mid = any_bool("run in between");
    if (mid)
        l.drain();
    lager::context<W> ctx = t;
    ctx.dispatch(b);
    l.drain();
    lv_assert(t.get() == red(red(m, a), b) && r.get() == t.get(), "the model follows the store");
    lv_assert(p.log.n == 2, "each action once");
}
// readers taken from a store outlive it
LV_CONTRACT(reader_outlives_store)
{
    probe p;
    gloop l;
    auto m = any("m");
    auto a = any<W>("a");
    lager::reader<V> r;
    lager::reader<W> z;
    {
        auto s = store_of<lager::automatic_tag>(m, p, l);
        r      = s;
        z      = s.zoom(ulens());
        s.dispatch(a);
        l.drain();
    }
    lv_assert(r.get() == red(m, a) && z.get() == uget(red(m, a)), "last published value");
}

// ... and everything the same when it happens again
LV_CONTRACT(dispatch_from_watcher_again)
{
    lvc_dispatch_from_watcher();
    lvc_dispatch_from_watcher();
}
LV_CONTRACT(dispatch_from_reducer_again)
{
    lvc_dispatch_from_reducer();
    lvc_dispatch_from_reducer();
}
LV_CONTRACT(reducer_signatures_again)
{
    lvc_reducer_signatures();
    lvc_reducer_signatures();
}
LV_CONTRACT(store_moves_again)
{
    lvc_store_moves();
    lvc_store_moves();
}
LV_CONTRACT(reader_outlives_store_again)
{
    lvc_reader_outlives_store();
    lvc_reader_outlives_store();
}
