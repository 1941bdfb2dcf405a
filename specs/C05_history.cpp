// Any history of writes, also through transformed cursors, and commits.
#include "nodes.h"
#include <zug/transducer/filter.hpp>
#include <zug/transducer/map.hpp>
using namespace lv;

namespace {
W f(const V& v) { return W{uf("f", v.id)}; }
V g(const W& w) { return V{uf("g", w.id)}; }
bool pass(const V& v) { return lv_uf1("pass", v.id) & 1; }

struct program
{
    lager::state<V> s;
    lager::reader<W> m;
    lager::reader<V> fl;
    lager::cursor<W> w;
    uint64_t pend, vis, kept; // ghost: pending, visible, and the last visible that passed
    unsigned cm = 0, cf = 0, cw = 0;
    uint64_t sm = 0, sf = 0, sw = 0;

    program(V a)
        : s{a}
        , m{s.map([](const V& v) { return f(v); })}
        , fl{s.filter([](const V& v) { return pass(v); })}
        , w{s.xform(zug::map([](const V& v) { return f(v); }), zug::map([](const W& x) { return g(x); }))}
        , pend{a.id}
        , vis{a.id}
        , kept{pass(a) ? a.id : V{}.id}
    {
        m.watch([&](const W& x) { cm++; sm = x.id; });
        fl.watch([&](const V& x) { cf++; sf = x.id; });
        w.watch([&](const W& x) { cw++; sw = x.id; });
    }
    bool inv() const
    {
        auto& ns = node_of(s);
        auto& nw = node_of(w);
        auto fv  = lv_uf1("f", vis);
        bool ok  = consistent(ns, vis, id_of{}) & (ns.current().id == pend);
        ok &= settled(node_of(m), fv, id_of{});
        ok &= settled(node_of(fl), kept, id_of{});
        ok &= consistent(nw, fv, id_of{});
        ok &= ns.needs_send_down_ | !nw.needs_send_down_;
        ok &= !node_of(m).needs_send_down_ & !node_of(fl).needs_send_down_;
        ok &= !(lv_uf1("pass", vis) & 1) | (kept == vis);
        return ok;
    }
    static bool inv_of(void* d, uint64_t, uint64_t) { return ((program*) d)->inv(); }
    bool shows(uint64_t v, uint64_t k) const
    {
        return s.get().id == v && m.get().id == uf("f", v) && w.get().id == uf("f", v) && fl.get().id == k;
    }
    void step()
    {
        cm = cf = cw = 0;
        auto x = any_id("x");
        switch (pick("operation", 5)) {
        case 0: {
            bool dm = uf("f", pend) != uf("f", vis);
            lager::commit(s);
            vis     = pend;
            auto k  = pass(V{vis}) ? vis : kept;
            bool df = k != kept;
            kept    = k;
            lv_assert(shows(vis, kept), "each shows the transformation of the committed value");
            lv_assert(cm == dm && cw == dm && cf == df, "each is reported iff it changed");
            lv_assert((!cm || sm == uf("f", vis)) && (!cw || sw == uf("f", vis)) && (!cf || sf == kept), "with its value");
            return;
        }
        case 1:
            s.set(V{x});
            pend = x;
            break;
        case 2:
            s.update([&](V y) {
                lv_assert(y.id == pend, "an update sees what is pending");
                return V{uf("h", y.id, x)};
            });
            pend = uf("h", pend, x);
            break;
        case 3:
            w.set(W{x});
            pend = uf("g", x);
            break;
        default:
            w.update([&](W y) {
                lv_assert(y.id == uf("f", pend), "an update sees what is pending, transformed");
                return W{uf("i", y.id, x)};
            });
            pend = uf("g", uf("i", uf("f", pend), x));
        }
        lv_assert(shows(vis, kept) && cm + cf + cw == 0, "invisible until the commit");
    }
};
} // namespace

LV_CONTRACT(any_history)
{
    program p{any("a")};
    uint64_t n = lv_len("operations");
    lv_inv(program::inv_of, &p, 0);
    for (uint64_t i = 0; i < n; ++i)
        p.step();
    lv_inv_pop();
    lv_cover("end");
}
