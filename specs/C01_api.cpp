// Public API contracts: two-phase commit over small cursor graphs with opaque
// values and arbitrary derivation functions.
#include "nodes.h"
using namespace lv;
using lager::commit;

namespace {
// a root that only records the phases it is asked to run
struct phase_log
{
    unsigned sd[4] = {0, 0, 0, 0}, nt[4] = {0, 0, 0, 0};
    bool late = false; // a propagation started after a notification
    bool early = false;
};
struct fake_node
{
    phase_log* log;
    unsigned i, n;
    void send_down()
    {
        log->sd[i]++;
        for (unsigned j = 0; j < n; ++j)
            if (log->nt[j])
                log->late = true;
    }
    void notify()
    {
        log->nt[i]++;
        for (unsigned j = 0; j < n; ++j)
            if (!log->sd[j])
                log->early = true;
    }
};
struct fake_root
{
    fake_node* n;
    fake_node* roots() const { return n; }
};
} // namespace

// commit of several roots: all are propagated before any is notified
LV_CONTRACT(commit_two_phases)
{
    phase_log log;
    unsigned k = pick("roots", 4) + 1;
    fake_node n[4];
    for (unsigned i = 0; i < 4; ++i)
        n[i] = {&log, i, k};
    fake_root r0{&n[0]}, r1{&n[1]}, r2{&n[2]}, r3{&n[3]};
    if (k == 1)
        commit(r0);
    else if (k == 2)
        commit(r0, r1);
    else if (k == 3)
        commit(r0, r1, r2);
    else
        commit(r0, r1, r2, r3);
    for (unsigned i = 0; i < k; ++i) {
        lv_assert(log.sd[i] == 1, "every root is propagated once");
        lv_assert(log.nt[i] == 1, "every root is notified once");
    }
    lv_assert(!log.late && !log.early, "all propagation happens before any notification");
}

// any sequence of uncommitted writes is invisible; commit publishes the last one
LV_CONTRACT(isolation_until_commit)
{
    auto a = any("a");
    lager::state<V> s{a};
    lager::reader<W> r = s.zoom(ulens());
    lager::cursor<W> c = s.zoom(ulens("get2", "put2"));
    auto last          = a;
    unsigned k         = pick("writes", 4);
    for (unsigned i = 0; i < k; ++i) {
        last = any("w");
        s.set(last);
        lv_assert(s.get() == a, "root keeps the committed value");
        lv_assert(r.get() == uget(a), "derived reader keeps the committed value");
        lv_assert(c.get() == uget(a, "get2"), "derived cursor keeps the committed value");
    }
    commit(s);
    lv_assert(s.get() == last, "commit publishes the last write");
    lv_assert(r.get() == uget(last), "derived reader shows the committed value");
    lv_assert(c.get() == uget(last, "get2"), "derived cursor shows the committed value");
    commit(s);
    lv_assert(s.get() == last && r.get() == uget(last), "committing again changes nothing");
}

// writes through a derived cursor are equally invisible
LV_CONTRACT(isolation_through_cursor)
{
    auto a = any("a");
    auto w = any<W>("w");
    lager::state<V> s{a};
    lager::cursor<W> c = s.zoom(ulens());
    lager::reader<W> r = s.zoom(ulens("get2", "put2"));
    wr(c, w);
    lv_assert(s.get() == a, "root keeps the committed value");
    lv_assert(c.get() == uget(a), "the written cursor keeps the committed value");
    lv_assert(r.get() == uget(a, "get2"), "sibling keeps the committed value");
    commit(s);
    auto b = uput(a, w);
    lv_assert(s.get() == b, "commit publishes the write");
    lv_assert(c.get() == uget(b), "cursor shows the committed value");
    lv_assert(r.get() == uget(b, "get2"), "sibling shows the committed value");
}

// a watcher anywhere in a diamond sees every reader at its new value
LV_CONTRACT(watchers_see_consistent_snapshot)
{
    auto a = any("a"), b = any("b");
    lager::state<V> s{a};
    lager::reader<W> r1 = s.zoom(ulens("g1", "p1"));
    lager::reader<W> r2 = s.zoom(ulens("g2", "p2"));
    auto m              = lager::with(r1, r2).make();
    lager::reader<W> r3 = r1.zoom(ulens<W, W>("g3", "p3"));
    auto consistent     = [&] {
        return s.get() == b && r1.get() == uget(b, "g1") && r2.get() == uget(b, "g2") &&
               std::get<0>(m.get()) == r1.get() && std::get<1>(m.get()) == r2.get() &&
               r3.get().id == uf("g3", r1.get().id);
    };
    lager::reader<V> rs = s;
    rs.watch([&](auto&&) { lv_assert(consistent(), "root watcher sees a consistent snapshot"); });
    r1.watch([&](auto&&) { lv_assert(consistent(), "first derived watcher sees a consistent snapshot"); });
    r2.watch([&](auto&&) { lv_assert(consistent(), "second derived watcher sees a consistent snapshot"); });
    m.watch([&](auto&&) { lv_assert(consistent(), "merged watcher sees a consistent snapshot"); });
    r3.watch([&](auto&&) { lv_assert(consistent(), "nested watcher sees a consistent snapshot"); });
    s.set(b);
    commit(s);
    lv_assert(consistent(), "snapshot after commit");
}

// several roots committed together: watchers of one see the new value of the other
LV_CONTRACT(several_roots_one_snapshot)
{
    auto a1 = any("a1"), b1 = any("b1"), a2 = any("a2"), b2 = any("b2");
    lager::state<V> s{a1}, t{a2};
    lager::reader<W> r = s.zoom(ulens("g1", "p1"));
    lager::reader<W> q = t.zoom(ulens("g2", "p2"));
    auto ok            = [&] {
        return s.get() == b1 && t.get() == b2 && r.get() == uget(b1, "g1") && q.get() == uget(b2, "g2");
    };
    s.watch([&](auto&&) { lv_assert(ok(), "first root"); });
    t.watch([&](auto&&) { lv_assert(ok(), "second root"); });
    r.watch([&](auto&&) { lv_assert(ok(), "reader of the first root"); });
    q.watch([&](auto&&) { lv_assert(ok(), "reader of the second root"); });
    s.set(b1);
    wr(t, b2);
    commit(s, t);
    lv_assert(ok(), "both published");
}

// a root that is not committed keeps its value
LV_CONTRACT(uncommitted_root_unaffected)
{
    auto a1 = any("a1"), b1 = any("b1"), a2 = any("a2"), b2 = any("b2");
    lager::state<V> s{a1}, t{a2};
    lager::reader<W> q = t.zoom(ulens("g2", "p2"));
    unsigned calls     = 0;
    q.watch([&](auto&&) { ++calls; });
    s.set(b1);
    wr(t, b2);
    commit(s);
    lv_assert(s.get() == b1, "committed root");
    lv_assert(t.get() == a2 && q.get() == uget(a2, "g2"), "other root is unaffected");
    lv_assert(calls == 0, "watchers of the other root stay quiet");
}

// a write made by a watcher is not visible until the next commit, and is not lost
LV_CONTRACT(write_from_watcher)
{
    auto a = any("a"), b = any("b"), c = any("c");
    lv_assume(a != b);
    lager::state<V> s{a};
    lager::reader<W> r = s.zoom(ulens());
    unsigned n         = 0;
    s.watch([&](auto&&) {
        if (n++ == 0)
            s.set(c);
        lv_assert(s.get() == (n == 1 ? b : c), "a write inside a watcher stays pending");
    });
    s.set(b);
    commit(s);
    lv_assert(n == 1 && s.get() == b && r.get() == uget(b), "pending after the commit that triggered it");
    commit(s);
    lv_assert(s.get() == c && r.get() == uget(c), "published by the next commit");
    lv_assert(n == (b == c ? 1u : 2u), "and notified");
}

// committing some of the states a combination derives from publishes nothing of
// the others (known finding: it does)
LV_CONTRACT(partial_commit_of_combination)
{
    auto a1 = any("a1"), b1 = any("b1"), a2 = any("a2"), b2 = any("b2");
    lager::state<V> s{a1}, t{a2};
    auto m = lager::with(s, t).make();
    s.set(b1);
    t.set(b2);
    commit(s);
    lv_assert(t.get() == a2, "the other state is not published");
    lv_assert(std::get<0>(m.get()) == b1, "the committed part is published");
    lv_assert(std::get<1>(m.get()) == a2, "the uncommitted part is not published");
}
