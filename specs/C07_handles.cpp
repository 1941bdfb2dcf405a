// Lifecycle of watching handles (readers, cursors, states).
#include "nodes.h"
using namespace lv;
using lager::commit;

namespace {
void round(lager::state<V>& s, const V& v)
{
    s.set(v);
    commit(s);
}
} // namespace

// a callback lives exactly as long as the handle it was registered on
LV_CONTRACT(handle_destroyed_stops)
{
    auto a = any("a"), b = any("b"), c = any("c");
    lv_assume(a != b && b != c);
    lager::state<V> s{a};
    unsigned n = 0, m = 0;
    lager::reader<V> keep = s;
    keep.watch([&](auto&&) { ++m; });
    {
        lager::reader<V> r = s;
        r.watch([&](auto&&) { ++n; });
        round(s, b);
        lv_assert(n == 1 && m == 1, "runs while alive");
    }
    round(s, c);
    lv_assert(n == 1, "does not run after the handle is gone");
    lv_assert(m == 2, "other handles are unaffected");
}

// unbind drops all callbacks of this handle and of no other
LV_CONTRACT(unbind_drops_only_own)
{
    auto a = any("a"), b = any("b"), c = any("c");
    lv_assume(a != b && b != c);
    lager::state<V> s{a};
    unsigned n = 0, m = 0, k = 0;
    lager::reader<V> r = s, q = s;
    r.watch([&](auto&&) { ++n; });
    r.watch([&](auto&&) { ++n; });
    q.watch([&](auto&&) { ++m; });
    r.unbind();
    round(s, b);
    lv_assert(n == 0 && m == 1, "unbound callbacks are gone, the others remain");
    lv_assert(r.get() == b, "the handle still reads");
    r.watch([&](auto&&) { ++k; });
    round(s, c);
    lv_assert(n == 0 && k == 1 && m == 2, "the handle can be watched again");
}

// copying a handle does not duplicate nor steal callbacks
LV_CONTRACT(copy_does_not_duplicate)
{
    auto a = any("a"), b = any("b"), c = any("c");
    lv_assume(a != b && b != c);
    lager::state<V> s{a};
    unsigned n = 0;
    lager::reader<V> r = s;
    r.watch([&](auto&&) { ++n; });
    {
        lager::reader<V> copy = r;
        round(s, b);
        lv_assert(n == 1, "once with the copy alive");
        lv_assert(copy.get() == b, "the copy reads");
    }
    round(s, c);
    lv_assert(n == 2, "and after the copy is gone");
}

// assigning a handle moves its callbacks to the new source
LV_CONTRACT(assignment_rebinds)
{
    auto a = any("a"), b = any("b"), x = any("x"), y = any("y");
    lv_assume(a != b && x != y);
    lager::state<V> s{a}, t{x};
    unsigned n = 0, other = 0;
    uint64_t seen         = 0;
    lager::reader<V> r    = s;
    lager::reader<V> keep = s;
    keep.watch([&](auto&&) { ++other; });
    bool watched = any_bool("watched before");
    if (watched)
        r.watch([&](const V& v) { ++n; seen = v.id; });
    lager::reader<V> src = t;
    if (any_bool("move"))
        r = std::move(src);
    else
        r = src;
    lv_assert(r.get() == x, "reads the new source");
    round(s, b);
    lv_assert(n == 0, "old source no longer notifies");
    lv_assert(other == 1, "other handles of the old source still do");
    round(t, y);
    lv_assert(n == (watched ? 1u : 0u), "new source does, once");
    lv_assert(!watched || seen == y.id, "with its value");
    lv_assert(r.get() == y, "reads the new value");
}

// a default constructed handle: callbacks registered before it gets a source
LV_CONTRACT(late_source)
{
    auto a = any("a"), b = any("b");
    lv_assume(a != b);
    lager::state<V> s{a};
    unsigned n = 0;
    lager::reader<V> r;
    r.watch([&](const V& v) { ++n; lv_assert(v == b, "value"); });
    r = s;
    lv_assert(n == 0, "assigning does not notify");
    round(s, b);
    lv_assert(n == 1, "notified by the source assigned later");
}

// reassigning to an empty handle detaches
LV_CONTRACT(assign_empty_detaches)
{
    auto a = any("a"), b = any("b");
    lv_assume(a != b);
    lager::state<V> s{a};
    unsigned n = 0;
    lager::reader<V> r = s;
    r.watch([&](auto&&) { ++n; });
    lager::reader<V> none;
    if (any_bool("copy"))
        r = none;
    else
        r = lager::reader<V>{};
    round(s, b);
    lv_assert(n == 0, "detached");
    // and one that has nothing to call
    lager::reader<V> q = s;
    if (any_bool("copy"))
        q = none;
    else
        q = lager::reader<V>{};
    round(s, a);
    lv_assert(n == 0, "detached");
    // it can be attached again
    r = s;
    round(s, b);
    lv_assert(n == 1 && r.get() == b, "attached again");
}
// assigning a handle to itself, or to another one of the same source, changes nothing
LV_CONTRACT(assign_the_same)
{
    auto a = any("a"), b = any("b");
    lv_assume(a != b);
    lager::state<V> s{a};
    unsigned n = 0, m = 0;
    lager::reader<V> r = s;
    r.watch([&](auto&&) { ++n; });
    lager::reader<V> other = s;
    other.watch([&](auto&&) { ++m; });
    auto& self = r;
    switch (pick("how", 3)) {
    case 0: r = self; break;
    case 1: r = other; break;
    default: r = lager::reader<V>(other);
    }
    round(s, b);
    lv_assert(n == 1 && m == 1, "each is called once");
    lv_assert(r.get() == b && other.get() == b, "both read the value");
}

// a derived handle keeps its chain of sources alive
LV_CONTRACT(derived_handle_keeps_chain)
{
    auto a = any("a"), b = any("b");
    lager::state<V> s{a};
    unsigned n = 0;
    lager::reader<W> q;
    {
        lager::reader<W> r = s.zoom(ulens("g1", "p1"));
        q                  = r.zoom(ulens<W, W>("g2", "p2"));
    }
    q.watch([&](auto&&) { ++n; });
    round(s, b);
    auto h = [](V v) { return uf("g2", uf("g1", v.id)); };
    lv_assert(q.get().id == h(b), "value flows through the dropped intermediate");
    lv_assert(n == (h(a) == h(b) ? 0u : 1u), "and so do notifications");
}

// a reader outlives the state it was made from
LV_CONTRACT(reader_outlives_root)
{
    auto a = any("a"), b = any("b");
    lager::reader<V> r;
    unsigned n = 0;
    {
        lager::state<V> s{a};
        r = s;
        r.watch([&](auto&&) { ++n; });
        round(s, b);
    }
    lv_assert(r.get() == b, "still readable");
    lv_assert(n == (a == b ? 0u : 1u), "notified while the root was there");
}

// bind: immediate call with the visible value, then as watch; nudge: one call
// of every callback of this handle with the visible value
LV_CONTRACT(bind_and_nudge)
{
    auto a = any("a"), b = any("b"), c = any("c");
    lv_assume(b != c);
    lager::state<V> s{a};
    round(s, b);
    s.set(c);
    unsigned n = 0, m = 0, o = 0;
    uint64_t seen      = 0;
    lager::reader<V> r = s, q = s;
    q.watch([&](auto&&) { ++o; });
    r.bind([&](const V& v) { ++n; seen = v.id; });
    lv_assert(n == 1 && seen == b.id, "bind calls at once with the visible value");
    r.watch([&](auto&&) { ++m; });
    r.nudge();
    lv_assert(n == 2 && m == 1 && seen == b.id, "nudge calls every callback of the handle once");
    lv_assert(o == 0, "and none of other handles");
    commit(s);
    lv_assert(n == 3 && m == 2 && o == 1 && seen == c.id, "and all are watching");
    unsigned k = 0;
    r.bind([&](const V& v) { ++k; lv_assert(v == c, "the visible value"); });
    lv_assert(k == 1 && n == 3 && m == 2 && o == 1, "only what is bound is called at once");
}

// state handles can be moved: value, pending writes and derived readers follow
LV_CONTRACT(state_moves)
{
    auto a = any("a"), b = any("b");
    lager::state<V> s{a};
    lager::reader<V> r = s;
    s.set(b);
    lager::state<V> t = std::move(s);
    lv_assert(t.get() == a && r.get() == a, "pending write stays pending");
    commit(t);
    lv_assert(t.get() == b && r.get() == b, "and is published through the new handle");
}

// callbacks that are given by name are copied, and can be used again
LV_CONTRACT(callbacks_given_by_name)
{
    auto a = any("a"), b = any("b");
    unsigned n = 0;
    by_name f{&n};
    lager::state<V> s{a};
    lager::reader<W> r = s.zoom(ulens("g", "p"));
    s.watch(f);
    s.watch(f);
    lager::watch(s, f);
    lv_assert(n == 0 && !f.gone, "not called, nor taken");
    r.bind(f);
    lv_assert(n == 1 && !f.gone, "called at once");
    n = 0;
    s.set(b);
    commit(s);
    lv_assert(n == (a == b ? 0u : 3u) + (uget(a, "g") == uget(b, "g") ? 0u : 1u), "all of them are called");
    lv_assert(!f.gone, "not taken");
}

// ... and everything the same when it happens again
LV_CONTRACT(handle_destroyed_stops_again)
{
    lvc_handle_destroyed_stops();
    lvc_handle_destroyed_stops();
}
LV_CONTRACT(unbind_drops_only_own_again)
{
    lvc_unbind_drops_only_own();
    lvc_unbind_drops_only_own();
}
LV_CONTRACT(copy_does_not_duplicate_again)
{
    lvc_copy_does_not_duplicate();
    lvc_copy_does_not_duplicate();
}
LV_CONTRACT(assignment_rebinds_again)
{
    lvc_assignment_rebinds();
    lvc_assignment_rebinds();
}
LV_CONTRACT(late_source_again)
{
    lvc_late_source();
    lvc_late_source();
}
LV_CONTRACT(assign_empty_detaches_again)
{
    lvc_assign_empty_detaches();
    lvc_assign_empty_detaches();
}
LV_CONTRACT(assign_the_same_again)
{
    lvc_assign_the_same();
    lvc_assign_the_same();
}
LV_CONTRACT(derived_handle_keeps_chain_again)
{
    lvc_derived_handle_keeps_chain();
    lvc_derived_handle_keeps_chain();
}
LV_CONTRACT(reader_outlives_root_again)
{
    lvc_reader_outlives_root();
    lvc_reader_outlives_root();
}
LV_CONTRACT(bind_and_nudge_again)
{
    lvc_bind_and_nudge();
    lvc_bind_and_nudge();
}
LV_CONTRACT(state_moves_again)
{
    lvc_state_moves();
    lvc_state_moves();
}
LV_CONTRACT(callbacks_given_by_name_again)
{
    lvc_callbacks_given_by_name();
    lvc_callbacks_given_by_name();
}
