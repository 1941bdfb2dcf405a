// What derives from a document along several paths: any history of commits.
#include "nodes.h"
#include <zug/transducer/filter.hpp>
#include <zug/transducer/map.hpp>
using namespace lv;

namespace {
struct doc
{
    V p, q;
    friend bool operator==(const doc& a, const doc& b) { return a.p == b.p && a.q == b.q; }
    friend bool operator!=(const doc& a, const doc& b) { return !(a == b); }
};
uint64_t h(uint64_t x, uint64_t y) { return uf("h", x, y); }
uint64_t h_(uint64_t x, uint64_t y) { return lv_uf2("h", x, y); }
struct program
{
    lager::state<doc> s;
    lager::cursor<V> p, q;
    lager::reader<V> m;  // h(p, q)
    lager::reader<W> mm; // g(h(p, q))
    uint64_t pp, pq, vp, vq;
    unsigned cm = 0, cmm = 0;

    program(doc d)
        : s{d}
        , p{s[&doc::p]}
        , q{s[&doc::q]}
        , m{lager::with(p, q).map([](const V& x, const V& y) { return V{h(x.id, y.id)}; })}
        , mm{m.zoom(ulens())}
        , pp{d.p.id}
        , pq{d.q.id}
        , vp{pp}
        , vq{pq}
    {
        m.watch([&](const V& x) { cm++; lv_assert(x.id == h(pp, pq) && mm.get() == uget(x), "with the value"); });
        mm.watch([&](const W& x) { cmm++; lv_assert(x == uget(V{h(pp, pq)}), "with the value"); });
    }
    bool inv() const
    {
        auto& ns = node_of(s);
        auto& np = node_of(p);
        auto& nq = node_of(q);
        bool ok  = (ns.current().p.id == pp) & (ns.current().q.id == pq) & (ns.last().p.id == vp) & (ns.last().q.id == vq);
        ok &= (ns.notified_.p.id == vp) & (ns.notified_.q.id == vq);
        ok &= ns.needs_send_down_ | ((pp == vp) & (pq == vq));
        ok &= consistent(np, vp, id_of{}) & consistent(nq, vq, id_of{});
        ok &= ns.needs_send_down_ | (!np.needs_send_down_ & !nq.needs_send_down_);
        ok &= settled(node_of(m), h_(vp, vq), id_of{}) & !node_of(m).needs_send_down_;
        ok &= settled(node_of(mm), lv_uf1("get", h_(vp, vq)), id_of{}) & !node_of(mm).needs_send_down_;
        return ok;
    }
    static bool inv_of(void* d, uint64_t, uint64_t) { return ((program*) d)->inv(); }
    void step()
    {
        cm = cmm = 0;
        auto x = any_id("x");
        switch (pick("operation", 4)) {
        case 0: {
            auto a = h(vp, vq), b = h(pp, pq);
            bool dm = a != b, dmm = uget(V{a}) != uget(V{b});
            lager::commit(s);
            vp = pp;
            vq = pq;
            lv_assert(cm == dm, "called once per commit that changed the value, and only then");
            lv_assert(cmm == dmm, "and what derives from it");
            lv_assert(m.get().id == h(vp, vq) && mm.get() == uget(V{h(vp, vq)}), "values");
            return;
        }
        case 1:
            p.set(V{x});
            pp = x;
            break;
        case 2:
            q.update([&](V y) { return V{uf("g", y.id, x)}; });
            pq = uf("g", pq, x);
            break;
        default:
            pp = x;
            pq = any_id("y");
            s.set(doc{V{pp}, V{pq}});
        }
        lv_assert(cm + cmm == 0, "not before the commit");
    }
};
} // namespace

LV_CONTRACT(any_history_of_a_diamond)
{
    program p{doc{any("p"), any("q")}};
    uint64_t n = lv_len("operations");
    lv_inv(program::inv_of, &p, 0);
    for (uint64_t i = 0; i < n; ++i)
        p.step();
    lv_inv_pop();
    lv_cover("end");
}
// two documents, committed together or not
namespace {
struct two
{
    lager::state<V> s, t;
    lager::reader<V> m;
    uint64_t ps, pt, vs, vt;
    unsigned cm = 0;
    two(V a, V b)
        : s{a}
        , t{b}
        , m{lager::with(s, t).map([](const V& x, const V& y) { return V{h(x.id, y.id)}; })}
        , ps{a.id}
        , pt{b.id}
        , vs{ps}
        , vt{pt}
    {
        m.watch([&](const V& x) { cm++; lv_assert(x.id == h(ps, pt), "with the value"); });
    }
    bool inv() const
    {
        auto& ns = node_of(s);
        auto& nt = node_of(t);
        return consistent(ns, vs, id_of{}) & consistent(nt, vt, id_of{}) & (ns.current().id == ps) & (nt.current().id == pt) &
               settled(node_of(m), h_(vs, vt), id_of{}) & !node_of(m).needs_send_down_;
    }
    static bool inv_of(void* d, uint64_t, uint64_t) { return ((two*) d)->inv(); }
    void step()
    {
        cm     = 0;
        auto x = any_id("x");
        switch (pick("operation", 3)) {
        case 0: {
            bool dm = h(vs, vt) != h(ps, pt);
            if (any_bool("other order"))
                lager::commit(t, s);
            else
                lager::commit(s, t);
            vs = ps;
            vt = pt;
            lv_assert(cm == dm, "called once per commit that changed the value, and only then");
            lv_assert(m.get().id == h(vs, vt) && s.get().id == vs && t.get().id == vt, "values");
            return;
        }
        case 1:
            s.set(V{x});
            ps = x;
            break;
        default:
            t.set(V{x});
            pt = x;
        }
        lv_assert(cm == 0 && m.get().id == h(vs, vt), "not before the commit");
    }
};
} // namespace
LV_CONTRACT(any_history_of_two_documents)
{
    two p{any("a"), any("b")};
    uint64_t n = lv_len("operations");
    lv_inv(two::inv_of, &p, 0);
    for (uint64_t i = 0; i < n; ++i)
        p.step();
    lv_inv_pop();
    lv_cover("end");
}
