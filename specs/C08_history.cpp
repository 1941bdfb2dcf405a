// Any number of readers that come and go.
#include "nodes.h"
#include <lager/with.hpp>
#include <optional>
using namespace lv;

namespace {
struct program
{
    lager::state<V> s;
    lager::reader<W> stays;
    uint64_t vis;
    unsigned cs = 0, cr = 0, ct = 0;
    std::optional<lager::reader<W>> guest;
    std::optional<lager::reader<std::tuple<V, W>>> pair;
    bool drop_inside = false;

    program(V a)
        : s{a}
        , stays{s.zoom(ulens())}
        , vis{a.id}
    {
        s.watch([&](const V& x) {
            cs++;
            lv_assert(x.id == vis && stays.get() == uget(x), "one consistent state");
            if (drop_inside) {
                guest.reset();
                pair.reset();
            }
        });
        stays.watch([&](const W& x) { cr++; lv_assert(x == uget(V{vis}), "value"); });
    }
    bool inv() const
    {
        auto& kids = access::node(s)->children();
        return settled(node_of(s), vis, id_of{}) & settled(node_of(stays), uget(V{vis}).id, id_of{}) &
               !node_of(s).needs_send_down_ & !node_of(stays).needs_send_down_ &
               !node_of(s).needs_notify_ & !node_of(stays).needs_notify_ &
               (kids.size() == 1) & (access::node(stays)->children().size() == 0);
    }
    using access = lager::detail::access;
    void commit(uint64_t x, bool here)
    {
        cs = cr     = 0;
        auto before = vis;
        s.set(V{x});
        vis = x;
        lager::commit(s);
        lv_assert(s.get().id == vis && stays.get() == uget(V{vis}), "the others show the new value");
        lv_assert(cs == 1 && cr == (uget(V{vis}) != uget(V{before})), "and are reported");
        if (here && guest)
            lv_assert(guest->get() == uget(V{vis}), "so does the new one");
    }
    void step()
    {
        auto x = any_id("x"), y = any_id("y");
        lv_assume(x != vis && y != x && y != vis);
        ct = 0;
        auto before = vis;
        guest.emplace(s.zoom(ulens()));
        bool watched = any_bool("watched");
        if (watched)
            guest->watch([&](const W& w) { ct++; lv_assert(w == uget(V{vis}), "value"); });
        lv_assert(guest->get() == uget(V{vis}), "starts with the visible value");
        if (any_bool("before")) {
            guest.reset();
        } else {
            drop_inside = any_bool("inside");
            commit(x, true);
            lv_assert(guest.has_value() == !drop_inside, "still there");
            lv_assert(ct == (watched && !drop_inside && uget(V{x}) != uget(V{before})), "reported, unless it was dropped");
            drop_inside = false;
            guest.reset();
            ct = 0;
        }
        commit(y, false);
        lv_assert(ct == 0, "not afterwards");
    }
    void start()
    {
        // (the list of children gets its capacity)
        for (unsigned i = 0; i < 1; ++i) {
            guest.emplace(s.zoom(ulens()));
            pair.emplace(lager::with(s, stays));
            guest.reset();
            pair.reset();
            auto x = any_id("x0");
            lv_assume(x != vis && uget(V{x}) != uget(V{vis}));
            commit(x, false);
        }
    }
};
} // namespace

LV_CONTRACT(any_number_of_guests)
{
    program p{any("a")};
    p.start();
    lv_assert(p.inv(), "nothing of them remains");
    uint64_t n = lv_len("rounds");
    lv_inv([](void* d, uint64_t, uint64_t) { return ((program*) d)->inv(); }, &p, 0);
    for (uint64_t i = 0; i < n; ++i)
        p.step();
    lv_inv_pop();
    lv_cover("end");
}
// many readers of one state, some of which are dropped
LV_BOUNDED(many_readers)
{
    constexpr unsigned N = 100;
    auto a = any("a"), b = any("b"), c = any("c");
    lv_assume(a != b && b != c && uget(a) != uget(b) && uget(b) != uget(c));
    lager::state<V, lager::automatic_tag> s{a};
    static std::optional<lager::reader<W>> r[N];
    static unsigned n[N];
    for (unsigned i = 0; i < N; ++i) {
        n[i] = 0;
        r[i].emplace(s.zoom(ulens()));
        r[i]->watch([i](auto&&) { ++n[i]; });
    }
    for (unsigned i = 0; i < N; i += 3)
        r[i].reset();
    s.set(b);
    for (unsigned i = 0; i < N; ++i)
        lv_assert(n[i] == (i % 3 ? 1u : 0u), "the live ones are notified once");
    lv_assert(lager::detail::access::node(s)->children().size() == N - (N + 2) / 3, "the others are swept");
    s.set(c);
    for (unsigned i = 0; i < N; ++i) {
        lv_assert(n[i] == (i % 3 ? 2u : 0u), "once more");
        if (i % 3)
            lv_assert(r[i]->get() == uget(c), "and show the value");
        r[i].reset();
    }
}
