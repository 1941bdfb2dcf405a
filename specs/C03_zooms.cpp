// Any history of writes through cursors derived with arbitrary lenses.
#include "nodes.h"
using namespace lv;

namespace {
template <typename Tag>
struct program
{
    static constexpr bool automatic = std::is_same_v<Tag, lager::automatic_tag>;
    lager::state<V, Tag> s;
    lager::cursor<W> c1, c2, c3;
    uint64_t pend, vis; // ghost
    unsigned n = 0;

    program(V a)
        : s{a}
        , c1{s.zoom(ulens("g1", "p1"))}
        , c2{s.zoom(ulens("g2", "p2"))}
        , c3{c1.zoom(ulens<W, W>("g3", "p3"))}
        , pend{a.id}
        , vis{a.id}
    {
    }
    bool inv() const
    {
        auto& ns = node_of(s);
        auto& n1 = node_of(c1);
        auto& n2 = node_of(c2);
        auto& n3 = node_of(c3);
        auto v1  = lv_uf1("g1", vis);
        bool ok  = consistent(ns, vis, id_of{}) & (ns.current().id == pend);
        ok &= consistent(n1, v1, id_of{}) & consistent(n2, lv_uf1("g2", vis), id_of{}) &
              consistent(n3, lv_uf1("g3", v1), id_of{});
        ok &= ns.needs_send_down_ | (!n1.needs_send_down_ & !n2.needs_send_down_);
        ok &= n1.needs_send_down_ | !n3.needs_send_down_;
        if (automatic)
            ok &= (pend == vis) & !ns.needs_send_down_;
        return ok;
    }
    static bool inv_of(void* d, uint64_t, uint64_t) { return ((program*) d)->inv(); }
    bool shows(uint64_t v) const
    {
        return s.get().id == v && c1.get().id == uf("g1", v) && c2.get().id == uf("g2", v) && c3.get().id == uf("g3", uf("g1", v));
    }
    template <typename C>
    void write(C& c, uint64_t x, uint64_t was, bool update)
    {
        if (update)
            c.update([&](W w) {
                lv_assert(w.id == was, "an update sees what is pending");
                return W{x};
            });
        else
            c.set(W{x});
    }
    void step()
    {
        auto x      = any_id("x");
        auto before = pend;
        bool update = any_bool("update");
        switch (pick("operation", automatic ? 4 : 5)) {
        case 0:
            pend = x;
            s.set(V{x});
            break;
        case 1:
            pend = uf("p1", before, x);
            write(c1, x, uf("g1", before), update);
            break;
        case 2:
            pend = uf("p2", before, x);
            write(c2, x, uf("g2", before), update);
            break;
        case 3:
            pend = uf("p1", before, uf("p3", uf("g1", before), x));
            write(c3, x, uf("g3", uf("g1", before)), update);
            break;
        default:
            lager::commit(s);
            vis = pend;
        }
        if (automatic)
            vis = pend;
        lv_assert(shows(vis), "everything shows the accumulated value, once committed");
        lv_assert(node_of(s).current().id == pend, "writes accumulate");
    }
};
template <typename Tag>
void history()
{
    program<Tag> p{any("a")};
    uint64_t n = lv_len("operations");
    lv_inv(program<Tag>::inv_of, &p, 0);
    for (uint64_t i = 0; i < n; ++i)
        p.step();
    lv_inv_pop();
    lv_cover("end");
}
} // namespace

LV_CONTRACT(any_history_transactional) { history<lager::transactional_tag>(); }
LV_CONTRACT(any_history_automatic) { history<lager::automatic_tag>(); }
