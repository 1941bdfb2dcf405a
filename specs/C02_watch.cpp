// Watchers through the public API.
#include "nodes.h"
using namespace lv;
using lager::commit;

// a committed write: every watcher of the root and of every derived reader
// whose value changed runs exactly once with the new value; unchanged ones and
// commits without a write are quiet
LV_CONTRACT(watch_exactly_once_iff_changed)
{
    auto a = any("a"), b = any("b");
    lager::state<V> s{a};
    lager::reader<W> r = s.zoom(ulens("g1", "p1"));
    lager::reader<W> q = r.zoom(ulens<W, W>("g2", "p2"));
    unsigned ns = 0, nr = 0, nq = 0;
    uint64_t vs = 0, vr = 0, vq = 0;
    s.watch([&](const V& v) { ++ns; vs = v.id; });
    r.watch([&](const W& v) { ++nr; vr = v.id; });
    q.watch([&](const W& v) { ++nq; vq = v.id; });
    bool wrote = any_bool("write");
    if (wrote)
        s.set(b);
    lv_assert(ns == 0 && nr == 0 && nq == 0, "no watcher runs before the commit");
    auto e = wrote ? b : a;
    auto g = [](uint64_t x) { return uf("g1", x); };
    auto h = [](uint64_t x) { return uf("g2", uf("g1", x)); };
    commit(s);
    lv_assert(ns == (e != a ? 1u : 0u), "root watcher once iff changed");
    lv_assert(nr == (g(e.id) != g(a.id) ? 1u : 0u), "derived watcher once iff its value changed");
    lv_assert(nq == (h(e.id) != h(a.id) ? 1u : 0u), "nested watcher once iff its value changed");
    lv_assert(!ns || vs == e.id, "root watcher gets the new value");
    lv_assert(!nr || vr == g(e.id), "derived watcher gets the new value");
    lv_assert(!nq || vq == h(e.id), "nested watcher gets the new value");
    unsigned ms = ns, mr = nr, mq = nq;
    commit(s);
    lv_assert(ns == ms && nr == mr && nq == mq, "a commit without a write is quiet");
}

// several rounds
LV_CONTRACT(watch_every_round)
{
    auto a = any("a");
    lager::state<V> s{a};
    lager::reader<W> r = s.zoom(ulens("g1", "p1"));
    unsigned ns = 0, nr = 0, es = 0, er = 0;
    s.watch([&](const V& v) { ++ns; lv_assert(v == s.get(), "root watcher gets the visible value"); });
    r.watch([&](const W& v) { ++nr; lv_assert(v == r.get(), "derived watcher gets the visible value"); });
    auto cur = a;
    for (unsigned i = 0; i < 3; ++i) {
        auto b = any("b");
        es += b != cur;
        er += uget(b, "g1") != uget(cur, "g1");
        cur = b;
        s.set(b);
        commit(s);
        lv_assert(ns == es, "one call per changing round (root)");
        lv_assert(nr == er, "one call per changing round (derived)");
    }
}

// many writes in one transaction give one notification
LV_CONTRACT(watch_once_per_transaction)
{
    auto a = any("a"), b = any("b"), c = any("c");
    lager::state<V> s{a};
    lager::cursor<W> k = s.zoom(ulens("g1", "p1"));
    lager::reader<W> r = s.zoom(ulens("g2", "p2"));
    unsigned ns = 0, nk = 0, nr = 0;
    s.watch([&](const V& v) { ++ns; lv_assert(v == s.get(), "visible value"); });
    k.watch([&](const W& v) { ++nk; lv_assert(v == k.get(), "visible value"); });
    r.watch([&](const W& v) { ++nr; lv_assert(v == r.get(), "visible value"); });
    auto w = any<W>("w"), x = any<W>("x");
    s.set(b);
    wr(k, w);
    s.set(c);
    wr(k, x);
    commit(s);
    lv_assert(ns <= 1 && nk <= 1 && nr <= 1, "at most one notification per transaction");
    auto e = uput(c, x, "p1");
    lv_assert(s.get() == e, "value");
    lv_assert(ns == (e == a ? 0u : 1u), "root watcher runs iff the value changed");
    lv_assert(nk == (uget(e, "g1") == uget(a, "g1") ? 0u : 1u), "cursor watcher runs iff its value changed");
    lv_assert(nr == (uget(e, "g2") == uget(a, "g2") ? 0u : 1u), "reader watcher runs iff its value changed");
}

// several callbacks of one handle and several handles of one node
LV_CONTRACT(all_callbacks_run)
{
    auto a = any("a"), b = any("b");
    lv_assume(a != b);
    lager::state<V> s{a};
    lager::reader<V> h1 = s, h2 = s;
    Log log;
    h1.watch([&](const V& v) { log.push(1, v.id); });
    h2.watch([&](const V& v) { log.push(2, v.id); });
    h1.watch([&](const V& v) { log.push(3, v.id); });
    lager::watch(h2, [&](const V& v) { log.push(4, v.id); });
    s.watch([&](const V& v) { log.push(5, v.id); });
    s.set(b);
    commit(s);
    lv_assert(log.n == 5, "every callback exactly once");
    for (unsigned k = 1; k <= 5; ++k)
        lv_assert(log.count(k) == 1, "each callback once");
    for (unsigned i = 0; i < 5; ++i)
        lv_assert(log.e[i].a == b.id, "with the committed value");
    lv_assert(log.find(1) < log.find(3) && log.find(2) < log.find(4), "callbacks of one handle run in registration order");
}

// a watcher that writes does not change what the other watchers of the same
// commit get: they get the committed value, which is still the visible one
LV_CONTRACT(all_callbacks_get_the_committed_value)
{
    auto a = any("a"), b = any("b"), c = any("c");
    lv_assume(a != b && b != c);
    lager::state<V> s{a};
    lager::cursor<W> k = s.zoom(ulens("g1", "p1"));
    lager::reader<V> h = s;
    unsigned writer = pick("writer", 3), n = 0, m = 0, nk = 0, round = 0;
    auto e = [&]() -> const V& { return round == 0 ? b : c; };
    auto w = [&](unsigned i, const V& v) {
        ++n;
        if (i == writer && round == 0)
            s.set(c);
        lv_assert(v == e() && s.get() == e(), "the committed value");
    };
    s.watch([&](const V& v) { w(0, v); });
    h.watch([&](const V& v) { w(1, v); });
    s.watch([&](const V& v) { w(2, v); });
    k.watch([&](const W& v) {
        ++nk;
        lv_assert(v == uget(e(), "g1") && k.get() == v, "the committed value of the cursor");
    });
    s.set(b);
    commit(s);
    lv_assert(n == 3, "each callback once");
    lv_assert(s.get() == b, "the write of the watcher is pending");
    unsigned mk = nk;
    lv_assert(nk <= 1, "at most once");
    round = 1;
    commit(s);
    lv_assert(s.get() == c && n == 6 && nk <= mk + 1, "and is published and notified by the next commit");
    lv_assert(k.get() == uget(c, "g1"), "everywhere");
}

// a value type without equality: every propagated write notifies
struct NoEq
{
    uint64_t id;
};
LV_CONTRACT(no_equality_means_always_changed)
{
    auto a = any_id("a"), b = any_id("b");
    lager::state<NoEq> s{NoEq{a}};
    unsigned n = 0;
    s.watch([&](const NoEq& v) { ++n; lv_assert(v.id == b, "value"); });
    s.set(NoEq{b});
    lv_assert(s.get().id == a, "isolated");
    commit(s);
    lv_assert(n == 1 && s.get().id == b, "notified");
}

// a watcher of a merge of two roots committed together runs once
LV_CONTRACT(merge_notified_once_per_commit)
{
    auto a1 = any("a1"), b1 = any("b1"), a2 = any("a2"), b2 = any("b2");
    lager::state<V> s{a1}, t{a2};
    auto m     = lager::with(s, t).make();
    unsigned n = 0;
    m.watch([&](const std::tuple<V, V>& v) {
        ++n;
        lv_assert(std::get<0>(v) == b1 && std::get<1>(v) == b2, "the merged watcher never sees a half updated pair");
    });
    s.set(b1);
    wr(t, b2);
    commit(s, t);
    lv_assert(n == ((a1 != b1 || a2 != b2) ? 1u : 0u), "once iff the pair changed");
    lv_assert(std::get<0>(m.get()) == b1 && std::get<1>(m.get()) == b2, "value");
}

// a diamond does not notify twice
LV_CONTRACT(diamond_notified_once)
{
    auto a = any("a"), b = any("b");
    lager::state<V> s{a};
    lager::reader<W> r1 = s.zoom(ulens("g1", "p1"));
    lager::reader<W> r2 = s.zoom(ulens("g2", "p2"));
    lager::reader<V> m  = lager::with(r1, r2).map([](W x, W y) { return V{uf("join", x.id, y.id)}; });
    unsigned n          = 0;
    auto join = [](V v) { return uf("join", uf("g1", v.id), uf("g2", v.id)); };
    m.watch([&](const V& v) {
        ++n;
        lv_assert(v.id == join(b), "the joined watcher sees both sides updated");
    });
    s.set(b);
    commit(s);
    lv_assert(n <= 1, "at most once");
    lv_assert(join(a) == join(b) || n == 1, "runs when the value changed");
    lv_assert(uget(a, "g1") != uget(b, "g1") || uget(a, "g2") != uget(b, "g2") || n == 0, "quiet when no input changed");
    lv_assert(m.get().id == join(b), "value");
}

// writes that leave the value as it was are a commit that changed nothing, for
// the state, and for everything derived from it, written through or not
LV_CONTRACT(writes_that_cancel_out)
{
    auto a = any("a"), b = any("b");
    lager::state<V> s{a};
    lager::cursor<W> k = s.zoom(ulens("g1", "p1"));
    lager::reader<W> r = s.zoom(ulens("g2", "p2"));
    lager::reader<W> j = lager::with(k, r).map([](W x, W y) { return W{uf("join", x.id, y.id)}; });
    unsigned n         = 0;
    auto count         = [&](auto&&) { ++n; };
    s.watch(count);
    k.watch(count);
    r.watch(count);
    j.watch(count);
    if (any_bool("through a cursor"))
        wr(k, any<W>("w"));
    wr(s, b);
    if (any_bool("cursors look at the pending value"))
        k.update([](W x) { return x; });
    wr(s, a);
    commit(s);
    lv_assert(s.get() == a && k.get() == uget(a, "g1") && r.get() == uget(a, "g2"), "value");
    lv_assert(n == 0, "no watcher runs");
}

// the same after a commit that did change them: a notification is not
// repeated later
LV_CONTRACT(cancelled_writes_after_a_change)
{
    auto a = any("a"), b = any("b"), c = any("c");
    lager::state<V> s{a};
    lager::cursor<W> k = s.zoom(ulens("g1", "p1"));
    unsigned n = 0, m = 0;
    s.watch([&](auto&&) { ++n; });
    k.watch([&](auto&&) { ++m; });
    wr(s, b);
    commit(s);
    lv_assert(n == (a != b ? 1u : 0u) && m == (uget(a, "g1") != uget(b, "g1") ? 1u : 0u), "notified of the change");
    n = m = 0;
    wr(s, c);
    wr(s, b);
    commit(s);
    lv_assert(s.get() == b, "value");
    lv_assert(n == 0 && m == 0, "a change is reported once, not again with a later commit that changed nothing");
}

// a watcher that writes and commits: whoever watches is told of each value that
// became visible for it once, and never of one that is over
LV_CONTRACT(commit_from_a_watcher)
{
    auto a = any("a"), b = any("b"), c = any("c");
    lager::state<V> s{a};
    lager::reader<W> r = s.zoom(ulens("g1", "p1"));
    lager::reader<W> q = r.map([](W w) { return W{uf("h", w.id)}; });
    unsigned ns = 0, nr = 0, nq = 0;
    bool nested = any_bool("from the root");
    bool armed  = true;
    auto act    = [&] {
        armed = false;
        wr(s, c);
        commit(s);
    };
    auto vs = a;
    auto vr = uget(a, "g1");
    s.watch([&](const V& v) {
        ++ns;
        lv_assert(v == s.get(), "root watcher gets the visible value");
        lv_assert(v != vs, "and only when it is another one");
        vs = v;
        if (nested && armed)
            act();
    });
    r.watch([&](const W& w) {
        ++nr;
        lv_assert(w == r.get(), "reader gets the visible value");
        lv_assert(w != vr, "and only when it is another one");
        vr = w;
        if (!nested && armed)
            act();
    });
    q.watch([&](const W& w) { ++nq; lv_assert(w == q.get(), "derived reader gets the visible value"); });
    wr(s, b);
    commit(s);
    auto done = armed ? b : c;
    lv_assert(s.get() == done && r.get() == uget(done, "g1"), "value");
    lv_assert(vs == done && vr == uget(done, "g1"), "everybody knows the last value");
    lv_assert(ns <= 2 && nr <= 2 && nq <= 2, "once per value");
    lv_assert(nested || armed || ns == (a != b ? 1u : 0u) + (b != c ? 1u : 0u), "root: every change");
    ns = nr = nq = 0;
    armed = false;
    commit(s);
    lv_assert(ns + nr + nq == 0, "nothing is left over");
}
