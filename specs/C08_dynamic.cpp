// The graph changes while it is being used: readers dropped at any point,
// created or destroyed by watchers.  (Any number of live/expired children:
// C01 node contracts; here small graphs with every combination.)
#include "nodes.h"
#include <optional>
using namespace lv;
using lager::commit;
using R = lager::reader<W>;

// every combination of dropped and kept readers, dropped before, between or
// after commits: kept ones behave as if nothing happened
LV_CONTRACT(dropped_readers_do_not_matter)
{
    auto a = any("a"), b = any("b"), c = any("c");
    lager::state<V> s{a};
    std::optional<R> r[3];
    const char* names[3] = {"g0", "g1", "g2"};
    unsigned n[3] = {0, 0, 0}, e[3] = {0, 0, 0};
    for (unsigned i = 0; i < 3; ++i) {
        r[i].emplace(s.zoom(ulens(names[i], "p")));
        r[i]->watch([&n, i](auto&&) { ++n[i]; });
    }
    unsigned d1 = lv::pick("dropped first", 4), d2 = lv::pick("dropped second", 4);
    if (d1 < 3)
        r[d1].reset();
    s.set(b);
    commit(s);
    for (unsigned i = 0; i < 3; ++i)
        if (i != d1) {
            e[i] += uget(a, names[i]) != uget(b, names[i]);
            lv_assert(r[i]->get() == uget(b, names[i]), "kept readers follow");
        }
    s.set(c);
    if (d2 < 3)
        r[d2].reset();
    commit(s);
    for (unsigned i = 0; i < 3; ++i) {
        if (i != d1 && i != d2) {
            e[i] += uget(b, names[i]) != uget(c, names[i]);
            lv_assert(r[i]->get() == uget(c, names[i]), "kept readers follow after another drop");
        }
        lv_assert(n[i] == e[i], "watchers of kept readers run as if nothing was dropped, of dropped ones never");
    }
}

// a watcher creates new readers of the node that is notifying
LV_CONTRACT(readers_created_by_watchers)
{
    auto a = any("a"), b = any("b"), c = any("c");
    lv_assume(a != b);
    lager::state<V> s{a};
    std::optional<R> made[3];
    unsigned k = pick("made", 4), before = 0, after = 0;
    R r1 = s.zoom(ulens("g1", "p1"));
    r1.watch([&](auto&&) { ++before; });
    bool once = false;
    s.watch([&](auto&&) {
        if (!once)
            for (unsigned i = 0; i < k; ++i)
                made[i].emplace(s.zoom(ulens("gm", "pm")));
        once = true;
    });
    R r2 = s.zoom(ulens("g2", "p2"));
    r2.watch([&](auto&&) { ++after; });
    s.set(b);
    commit(s);
    lv_assert(before == (uget(a, "g1") == uget(b, "g1") ? 0u : 1u), "existing readers are notified once");
    lv_assert(after == (uget(a, "g2") == uget(b, "g2") ? 0u : 1u), "all of them");
    for (unsigned i = 0; i < k; ++i)
        lv_assert(made[i]->get() == uget(b, "gm"), "new readers show the published value");
    s.set(c);
    commit(s);
    for (unsigned i = 0; i < k; ++i)
        lv_assert(made[i]->get() == uget(c, "gm"), "and follow from then on");
    lv_assert(r1.get() == uget(c, "g1") && r2.get() == uget(c, "g2"), "existing readers too");
}

// a watcher of a derived reader creates readers of its own node and of the root
LV_CONTRACT(readers_created_while_children_are_notified)
{
    auto a = any("a"), b = any("b"), c = any("c");
    lager::state<V> s{a};
    R r1 = s.zoom(ulens("g1", "p1"));
    lv_assume(uget(a, "g1") != uget(b, "g1") && uget(a, "g2") != uget(b, "g2"));
    std::optional<R> m1, m2, m3;
    unsigned after = 0;
    r1.watch([&](auto&&) {
        if (!m1) {
            m1.emplace(s.zoom(ulens("gm", "pm")));
            m2.emplace(r1.zoom(ulens<W, W>("gn", "pn")));
            m3.emplace(s.zoom(ulens("go", "po")));
        }
    });
    R r2 = s.zoom(ulens("g2", "p2"));
    r2.watch([&](auto&&) { ++after; });
    s.set(b);
    commit(s);
    lv_assert(after == 1, "the remaining readers are still notified once");
    lv_assert(m1->get() == uget(b, "gm") && m3->get() == uget(b, "go"), "new readers are up to date");
    s.set(c);
    commit(s);
    lv_assert(m1->get() == uget(c, "gm") && m2->get().id == uf("gn", uf("g1", c.id)) && m3->get() == uget(c, "go"), "and follow");
}

// a watcher destroys other readers
LV_CONTRACT(readers_destroyed_by_watchers)
{
    auto a = any("a"), b = any("b"), c = any("c");
    lager::state<V> s{a};
    std::optional<R> r[3];
    unsigned n[3]        = {0, 0, 0};
    const char* names[3] = {"g0", "g1", "g2"};
    unsigned killer = pick("killer", 3), victim = pick("victim", 3);
    lv_assume(killer != victim);
    for (unsigned i = 0; i < 3; ++i) {
        r[i].emplace(s.zoom(ulens(names[i], "p")));
        r[i]->watch([&, i](auto&&) {
            ++n[i];
            if (i == killer)
                r[victim].reset();
        });
        lv_assume(uget(a, names[i]) != uget(b, names[i]));
    }
    s.set(b);
    commit(s);
    for (unsigned i = 0; i < 3; ++i) {
        bool gone_first = i == victim && killer < victim;
        lv_assert(n[i] == (gone_first ? 0u : 1u), "everybody still there is notified once, nobody gone");
        if (i != victim)
            lv_assert(r[i]->get() == uget(b, names[i]), "survivors are up to date");
    }
    s.set(c);
    commit(s);
    for (unsigned i = 0; i < 3; ++i)
        if (i != victim) {
            lv_assert(r[i]->get() == uget(c, names[i]), "survivors follow");
            lv_assert(n[i] == 1u + (uget(b, names[i]) != uget(c, names[i])), "survivors are notified");
        }
}

// a watcher destroys a reader and creates others, whatever the room left in
// whatever bookkeeping there is
LV_CONTRACT(readers_replaced_by_watchers)
{
    auto a = any("a"), b = any("b"), c = any("c");
    lager::state<V> s{a};
    std::optional<R> r[4], made[2];
    unsigned n[4]        = {0, 0, 0, 0};
    const char* names[4] = {"g0", "g1", "g2", "g3"};
    unsigned k = any_bool("four") ? 4 : 2, killer = pick("killer", 4), victim = pick("victim", 4), m = pick("made", 3);
    lv_assume(killer < k && victim < k && killer != victim);
    bool first = any_bool("destroys first");
    auto make  = [&] {
        for (unsigned j = 0; j < m; ++j)
            made[j].emplace(s.zoom(ulens("gm", "pm")));
    };
    for (unsigned i = 0; i < k; ++i) {
        r[i].emplace(s.zoom(ulens(names[i], "p")));
        lv_assume(uget(a, names[i]) != uget(b, names[i]) && uget(b, names[i]) != uget(c, names[i]));
        r[i]->watch([&, i](auto&&) {
            ++n[i];
            if (i == killer && r[victim]) {
                if (!first)
                    make();
                r[victim].reset();
                if (first)
                    make();
            }
        });
    }
    s.set(b);
    commit(s);
    for (unsigned i = 0; i < k; ++i) {
        bool gone_first = i == victim && killer < victim;
        lv_assert(n[i] == (gone_first ? 0u : 1u), "everybody still there is notified once, nobody gone");
        if (i != victim)
            lv_assert(r[i]->get() == uget(b, names[i]), "survivors are up to date");
    }
    s.set(c);
    commit(s);
    for (unsigned i = 0; i < k; ++i)
        if (i != victim) {
            lv_assert(r[i]->get() == uget(c, names[i]), "survivors follow");
            lv_assert(n[i] == 2, "survivors are notified");
        }
    for (unsigned j = 0; j < m; ++j)
        lv_assert(made[j]->get() == uget(c, "gm"), "the new ones follow too");
}

// nested notifications (automatic source written from a watcher) while expired
// readers wait to be swept
LV_CONTRACT(nested_notification_with_expired_readers)
{
    auto a = any("a"), b = any("b"), c = any("c"), d = any("d");
    lv_assume(a != b && b != c && c != d);
    lager::state<V, lager::automatic_tag> s{a};
    std::optional<R> r[3];
    unsigned n[3]        = {0, 0, 0};
    const char* names[3] = {"g0", "g1", "g2"};
    unsigned writer = pick("writer", 3), dead = pick("dead", 4);
    lv_assume(writer != dead);
    for (unsigned i = 0; i < 3; ++i) {
        r[i].emplace(s.zoom(ulens(names[i], "p")));
        lv_assume(uget(a, names[i]) != uget(b, names[i]) && uget(b, names[i]) != uget(c, names[i]) &&
                  uget(c, names[i]) != uget(d, names[i]));
        r[i]->watch([&, i](auto&&) {
            ++n[i];
            if (i == writer && n[i] == 1)
                s.set(c);
        });
    }
    if (dead < 3)
        r[dead].reset();
    s.set(b);
    lv_assert(s.get() == c, "nested write published");
    for (unsigned i = 0; i < 3; ++i)
        if (i != dead) {
            lv_assert(r[i]->get() == uget(c, names[i]), "readers agree");
            lv_assert(n[i] <= 2, "each change notified at most once");
            lv_assert(n[i] >= 1 || uget(a, names[i]) == uget(c, names[i]), "and reported, if it is one");
        }
    unsigned m[3] = {n[0], n[1], n[2]};
    s.set(d);
    for (unsigned i = 0; i < 3; ++i) {
        if (i != dead)
            lv_assert(r[i]->get() == uget(d, names[i]), "readers follow afterwards");
        lv_assert(n[i] == m[i] + (i != dead ? 1 : 0), "and are notified once");
    }
}

// one watcher that writes twice while expired readers wait to be swept
LV_CONTRACT(several_nested_notifications_with_expired_readers)
{
    auto a = any("a"), b = any("b"), c = any("c"), d = any("d");
    lv_assume(a != b && b != c && c != d);
    lager::state<V, lager::automatic_tag> s{a};
    std::optional<R> r[3];
    unsigned n[3]        = {0, 0, 0};
    const char* names[3] = {"g0", "g1", "g2"};
    unsigned writer = pick("writer", 3), dead = pick("dead", 3);
    lv_assume(writer != dead);
    for (unsigned i = 0; i < 3; ++i) {
        r[i].emplace(s.zoom(ulens(names[i], "p")));
        lv_assume(uget(a, names[i]) != uget(b, names[i]) && uget(b, names[i]) != uget(c, names[i]) &&
                  uget(c, names[i]) != uget(d, names[i]));
        r[i]->watch([&, i](auto&&) {
            ++n[i];
            if (i == writer && n[i] == 1) {
                s.set(c);
                lv_assert(s.get() == c, "published before the write returns");
                s.set(d);
            }
        });
    }
    r[dead].reset();
    s.set(b);
    lv_assert(s.get() == d, "nested writes published");
    for (unsigned i = 0; i < 3; ++i)
        if (i != dead) {
            lv_assert(r[i]->get() == uget(d, names[i]), "readers agree");
            lv_assert(n[i] <= 3, "each change notified at most once");
            lv_assert(n[i] >= 1 || uget(a, names[i]) == uget(d, names[i]), "and reported, if it is one");
        } else
            lv_assert(n[i] == 0, "never the dropped one");
}

// many short lived readers do not accumulate: after a commit only live ones are kept
LV_CONTRACT(expired_are_swept)
{
    auto a = any("a"), b = any("b"), c = any("c");
    lv_assume(a != b && b != c);
    lager::state<V> s{a};
    R keep1 = s.zoom(ulens("g1", "p"));
    {
        R t1 = s.zoom(ulens("g2", "p"));
        R t2 = s.zoom(ulens("g2", "p"));
    }
    R keep2 = s.zoom(ulens("g3", "p"));
    {
        R t1 = s.zoom(ulens("g2", "p"));
    }
    s.set(b);
    commit(s);
    auto node = lager::detail::access::node(lager::reader<V>(s));
    unsigned live = 0, expired = 0;
    for (auto& w : node->children())
        (w.expired() ? expired : live)++;
    lv_assert(expired == 0, "expired readers are swept by a commit");
    lv_assert(live == 2, "live ones are kept");
    s.set(c);
    commit(s);
    lv_assert(keep1.get() == uget(c, "g1") && keep2.get() == uget(c, "g3"), "and work");
}
