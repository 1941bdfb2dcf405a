// Histories of any length: operations chosen arbitrarily, one after the other, with
// an invariant over everything that is kept from one to the next.  The invariant is
// about the nodes and uses names that are private to them.
#pragma once
#include "nodes.h"
#include <lager/lenses/attr.hpp>
#include <lager/lenses/tuple.hpp>

namespace lv {
using lager::detail::access;

// a node that is not in the middle of anything: what was written and is not
// published is marked as such
template <typename N, typename Id>
bool rested(const N& n, Id id)
{
    return n.needs_send_down_ | (id(n.current()) == id(n.last()));
}
// what the watchers of a node were told
template <typename T>
const auto& told(const lager::detail::observable_reader_node<T>& n)
{
    return static_cast<const lager::detail::reader_node<T>&>(n).notified_;
}
enum
{
    values = 1, // what the readers show, when
    calls  = 2, // which watchers run, how often
    writes = 4, // what is published
    combined = 8, // with writes through the combination
};
struct doc
{
    V p, q;
    friend bool operator==(const doc& a, const doc& b) { return a.p == b.p && a.q == b.q; }
    friend bool operator!=(const doc& a, const doc& b) { return !(a == b); }
};
// a document, cursors to its parts, what derives from one of them and from both
struct document
{
    lager::state<doc> s;
    lager::cursor<V> p, q;
    lager::reader<V> m;
    lager::cursor<std::tuple<V, V>> t;
    // ghost: what is pending, and what is visible
    uint64_t pp, pq, vp, vq;
    unsigned cs = 0, cp = 0, cq = 0, cm = 0, ct = 0;
    unsigned what;

    document(doc d, unsigned w)
        : s{d}
        , p{s[&doc::p]}
        , q{s[&doc::q]}
        , m{p.map([](const V& x) { return V{uf("f", x.id)}; })}
        , t{lager::with(p, q)}
        , pp{d.p.id}
        , pq{d.q.id}
        , vp{d.p.id}
        , vq{d.q.id}
        , what{w}
    {
        // (the values are those that are to be published by the commit)
        s.watch([&](const doc& x) { cs++; seen(x.p.id == pp && x.q.id == pq); });
        p.watch([&](const V& x) { cp++; seen(x.id == pp); });
        q.watch([&](const V& x) { cq++; seen(x.id == pq); });
        m.watch([&](const V& x) { cm++; seen(x.id == uf("f", pp)); });
        t.watch([&](const std::tuple<V, V>& x) {
            ct++;
            seen(std::get<0>(x).id == pp && std::get<1>(x).id == pq);
        });
    }
    bool shows(uint64_t x, uint64_t y) const
    {
        return s.get().p.id == x && s.get().q.id == y && p.get().id == x && q.get().id == y &&
               m.get().id == uf("f", x) && std::get<0>(t.get()).id == x && std::get<1>(t.get()).id == y;
    }
    void seen(bool value)
    {
        if (what & values) {
            lv_assert(value, "watchers get the committed value");
            lv_assert(shows(pp, pq), "and see all readers at it");
        }
    }
    bool inv() const
    {
        const auto& ns = *access::node(s);
        const auto& np = *access::node(p);
        const auto& nq = *access::node(q);
        const auto& nm = *access::node(m);
        const auto& nt = *access::node(t);
        auto eq        = [](const V& a, const V& b) { return a.id == b.id; };
        bool ok        = (ns.current().p.id == pp) & (ns.current().q.id == pq);
        ok &= (ns.last().p.id == vp) & (ns.last().q.id == vq);
        ok &= (np.last().id == vp) & (nq.last().id == vq);
        ok &= nm.last().id == lv_uf1("f", vp);
        ok &= eq(nm.last(), nm.current());
        ok &= (std::get<0>(nt.last()).id == vp) & (std::get<1>(nt.last()).id == vq);
        ok &= nt.needs_send_down_ | (eq(std::get<0>(nt.last()), std::get<0>(nt.current())) &
                                     eq(std::get<1>(nt.last()), std::get<1>(nt.current())));
        ok &= ns.needs_send_down_ | ((pp == vp) & (pq == vq));
        ok &= np.needs_send_down_ | eq(np.current(), np.last());
        ok &= nq.needs_send_down_ | eq(nq.current(), nq.last());
        // watchers know what is shown
        ok &= (told(ns).p.id == vp) & (told(ns).q.id == vq);
        ok &= eq(told(np), np.last()) & eq(told(nq), nq.last()) & eq(told(nm), nm.last());
        ok &= (std::get<0>(told(nt)).id == vp) & (std::get<1>(told(nt)).id == vq);
        // who has something to tell is told by whom it comes from
        ok &= ns.needs_send_down_ | (!np.needs_send_down_ & !nq.needs_send_down_ & !nt.needs_send_down_);
        ok &= np.needs_send_down_ | nq.needs_send_down_ | !nt.needs_send_down_;
        return ok;
    }
    static bool inv_of(void* d, uint64_t, uint64_t) { return ((document*) d)->inv(); }

    // one operation
    void step()
    {
        cs = cp = cq = cm = ct = 0;
        uint64_t x = any_id("x");
        switch (pick("operation", what & combined ? 7 : 5)) {
        case 1:
            p.set(V{x});
            pp = x;
            break;
        case 2: {
            V y{x};
            q.set(y);
            pq = x;
            break;
        }
        case 3:
            p.update([&](V y) { return V{uf("g", y.id, x)}; });
            pp = uf("g", pp, x);
            break;
        case 4:
            pq = any_id("y");
            pp = x;
            s.set(doc{V{pp}, V{pq}});
            break;
        case 5:
            pq = any_id("y");
            pp = x;
            t.set(std::tuple<V, V>{V{pp}, V{pq}});
            break;
        case 6:
            t.update([&](std::tuple<V, V> y) {
                lv_assert(std::get<0>(y).id == pp && std::get<1>(y).id == pq, "an update sees what is pending");
                return std::tuple<V, V>{V{x}, std::get<1>(y)};
            });
            pp = x;
            break;
        case 0:
            bool dp = pp != vp, dq = pq != vq, dm = uf("f", pp) != uf("f", vp);
            lager::commit(s);
            vp = pp;
            vq = pq;
            if (what & writes)
                lv_assert(s.get().p.id == vp && s.get().q.id == vq && p.get().id == vp && q.get().id == vq,
                          "what was written is published, and nothing else");
            if (what & values)
                lv_assert(shows(vp, vq), "everything shows it");
            if (what & calls) {
                lv_assert(cs == (dp || dq), "the document is reported iff it changed");
                lv_assert(cp == dp && cq == dq, "a part iff it changed");
                lv_assert(cm == dm, "what derives from it iff that changed");
                lv_assert(ct == (dp || dq), "what derives from both once");
            }
            return;
        }
        if (what & values)
            lv_assert(shows(vp, vq), "invisible until the commit");
        if (what & calls)
            lv_assert(cs + cp + cq + cm + ct == 0, "nothing is reported before the commit");
    }
    void history()
    {
        uint64_t n = lv_len("operations");
        lv_inv(inv_of, this, 0);
        for (uint64_t i = 0; i < n; ++i)
            step();
        lv_inv_pop();
    }
};
} // namespace lv
