// Any number of handles that come and go, and any number of reassignments.
#include "nodes.h"
#include <optional>
using namespace lv;

namespace {
using R = lager::reader<V>;
struct program
{
    lager::state<V, lager::automatic_tag> s, t;
    R stays, moves;
    uint64_t vs, vt;
    bool at_s = true;
    unsigned cs = 0, cm = 0, cg = 0;
    uint64_t seen = 0;

    program(V a, V b)
        : s{a}
        , t{b}
        , stays{s}
        , moves{s}
        , vs{a.id}
        , vt{b.id}
    {
        stays.watch([&](const V& x) { cs++; lv_assert(x.id == vs, "value"); });
        moves.watch([&](const V& x) { cm++; seen = x.id; });
    }
    bool inv() const
    {
        return settled(node_of(s), vs, id_of{}) & settled(node_of(t), vt, id_of{}) & (node_of(s).children().size() == 0) &
               (node_of(t).children().size() == 0) & !node_of(s).needs_send_down_ & !node_of(t).needs_send_down_;
    }
    void write()
    {
        cs = cm = 0;
        auto x = any_id("x");
        if (any_bool("which")) {
            bool changed = x != vs;
            vs = x;
            s.set(V{x});
            lv_assert(cs == changed, "its watcher is called iff it changed");
            lv_assert(cm == 1u * (changed && at_s) && (!cm || seen == vs), "and that of the other one while it is attached");
        } else {
            bool changed = x != vt;
            vt = x;
            t.set(V{x});
            lv_assert(cs == 0, "not called for another source");
            lv_assert(cm == 1u * (changed && !at_s) && (!cm || seen == vt), "called while it is attached");
        }
        lv_assert(stays.get().id == vs && moves.get().id == (at_s ? vs : vt), "reads its source");
    }
};
// handles that live for a while
struct guests : program
{
    using program::program;
    void step()
    {
        cg = 0;
        auto before = vs;
        {
            R g = stays;
            bool watched = any_bool("watched");
            if (watched) {
                g.watch([&](const V& x) { cg++; lv_assert(x.id == vs, "value"); });
                g.watch([&](const V& x) { cg++; lv_assert(x.id == vs, "value"); });
            }
            R moved;
            switch (pick("then", 4)) {
            case 0: moved = std::move(g); break; // (callbacks stay with the handle)
            case 1: { R copy = g; } break;
            case 2: g.unbind(); watched = false; break;
            default: break;
            }
            bool gone = !access::node(g);
            write();
            if (!gone)
                lv_assert(cg == (watched && vs != before ? 2u : 0u), "each of its callbacks once, iff it changed");
        }
        cg = 0;
        write();
        lv_assert(cg == 0, "not after it is gone");
    }
    using access = lager::detail::access;
};
struct reassigned : program
{
    using program::program;
    void assign(R x, bool to_s)
    {
        cs = cm = 0;
        if (any_bool("move"))
            moves = std::move(x);
        else
            moves = x;
        at_s = to_s;
        lv_assert(cs + cm == 0, "assigning calls nothing");
        write();
    }
    void step()
    {
        switch (pick("how", 3)) {
        case 0: assign(t, false); break;
        case 1: assign(s, true); break;
        default:
            cs = cm = 0;
            moves   = R{};
            auto x  = any_id("x");
            bool changed = x != vs;
            vs      = x;
            s.set(V{x});
            lv_assert(cs == changed && cm == 0, "not called while it has no source");
        }
        assign(s, true);
    }
};
} // namespace

LV_CONTRACT(any_number_of_guests)
{
    guests p{any("a"), any("b")};
    uint64_t n = lv_len("rounds");
    lv_inv([](void* d, uint64_t, uint64_t) { return ((guests*) d)->inv(); }, &p, 0);
    for (uint64_t i = 0; i < n; ++i)
        p.step();
    lv_inv_pop();
    lv_cover("end");
}
LV_CONTRACT(any_number_of_reassignments)
{
    reassigned p{any("a"), any("b")};
    uint64_t n = lv_len("rounds");
    lv_inv([](void* d, uint64_t, uint64_t) { return ((reassigned*) d)->inv(); }, &p, 0);
    for (uint64_t i = 0; i < n; ++i)
        p.step();
    lv_inv_pop();
    lv_cover("end");
}
// many callbacks on one handle
LV_BOUNDED(many_callbacks)
{
    constexpr unsigned N = 200;
    static unsigned n[N];
    auto a = any("a"), b = any("b");
    lv_assume(a != b);
    lager::state<V, lager::automatic_tag> s{a};
    R r = s;
    for (unsigned i = 0; i < N; ++i) {
        n[i] = 0;
        r.watch([i](auto&&) { ++n[i]; });
    }
    s.set(b);
    for (unsigned i = 0; i < N; ++i)
        lv_assert(n[i] == 1, "each is called once");
    r.unbind();
    s.set(a);
    for (unsigned i = 0; i < N; ++i)
        lv_assert(n[i] == 1, "none afterwards");
}
