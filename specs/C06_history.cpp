// Any history of each kind of source.
#include "nodes.h"
#include <lager/constant.hpp>
#include <lager/sensor.hpp>
#include <lager/setter.hpp>
using namespace lv;

namespace {
template <typename P>
void history(P& p)
{
    uint64_t n = lv_len("operations");
    lv_inv([](void* d, uint64_t, uint64_t) { return ((P*) d)->inv(); }, &p, 0);
    for (uint64_t i = 0; i < n; ++i)
        p.step();
    lv_inv_pop();
    lv_cover("end");
}
struct automatic
{
    lager::state<V, lager::automatic_tag> s;
    lager::reader<W> r;
    uint64_t vis;
    unsigned cs = 0, cr = 0;
    automatic(V a)
        : s{a}
        , r{s.zoom(ulens())}
        , vis{a.id}
    {
        s.watch([&](const V& x) { cs++; lv_assert(x.id == vis && r.get() == uget(x), "one consistent state"); });
        r.watch([&](const W& x) { cr++; lv_assert(s.get().id == vis && x == uget(s.get()), "one consistent state"); });
    }
    bool inv() const
    {
        return settled(node_of(s), vis, id_of{}) & settled(node_of(r), uget(V{vis}).id, id_of{}) &
               !node_of(s).needs_send_down_ & !node_of(r).needs_send_down_;
    }
    void step()
    {
        cs = cr = 0;
        auto x = any_id("x");
        auto before = vis;
        bool update = any_bool("update"), rvalue = any_bool("rvalue");
        if (update) {
            vis = uf("f", before, x);
            s.update([&](V v) { lv_assert(v.id == before, "an update sees the value"); return V{uf("f", v.id, x)}; });
        } else {
            vis = x;
            V v{x};
            if (rvalue)
                s.set(std::move(v));
            else
                s.set(v);
        }
        lv_assert(s.get().id == vis && r.get() == uget(V{vis}), "visible at once");
        lv_assert(cs == (vis != before) && cr == (uget(V{vis}) != uget(V{before})), "each is reported iff it changed");
    }
};
struct sampled
{
    V now;
    unsigned samples = 0;
    decltype(lager::make_sensor(std::declval<std::function<V()>>())) x;
    lager::reader<W> r;
    uint64_t vis;
    unsigned cx = 0, cr = 0;
    sampled(V a)
        : now{a}
        , x{lager::make_sensor(std::function<V()>{[this] { ++samples; return now; }})}
        , r{x.zoom(ulens())}
        , vis{a.id}
    {
        x.watch([&](const V& v) { cx++; lv_assert(v.id == vis && r.get() == uget(v), "one consistent state"); });
        r.watch([&](const W& v) { cr++; lv_assert(x.get().id == vis && v == uget(x.get()), "one consistent state"); });
    }
    bool inv() const
    {
        return settled(node_of(x), vis, id_of{}) & settled(node_of(r), uget(V{vis}).id, id_of{}) &
               !node_of(x).needs_send_down_ & !node_of(r).needs_send_down_;
    }
    void step()
    {
        cx = cr = samples = 0;
        auto before = vis;
        now         = any("now");
        lv_assert(x.get().id == vis && r.get() == uget(V{vis}) && !samples, "reading does not sample");
        vis = now.id;
        lager::commit(x);
        lv_assert(samples == 1, "one sample per commit");
        lv_assert(x.get().id == vis && r.get() == uget(V{vis}), "the sample is visible");
        lv_assert(cx == (vis != before) && cr == (uget(V{vis}) != uget(V{before})), "each is reported iff it changed");
    }
};
struct with_setter
{
    lager::state<V> s;
    unsigned calls = 0;
    uint64_t given = 0;
    lager::cursor<V> k;
    uint64_t pend, vis, own; // ghost: pending and visible in the source; pending in the cursor
    unsigned cs = 0, ck = 0;
    with_setter(V a)
        : s{a}
        , k{lager::reader<V>(s).setter([this](const V& v) { ++calls; given = v.id; s.set(v); })}
        , pend{a.id}
        , vis{a.id}
        , own{a.id}
    {
        s.watch([&](const V& x) { cs++; lv_assert(x.id == pend && k.get() == x, "one consistent state"); });
        k.watch([&](const V& x) { ck++; lv_assert(x.id == pend && s.get() == x, "one consistent state"); });
    }
    bool inv() const
    {
        auto& ns = node_of(s);
        auto& nk = node_of(k);
        return consistent(ns, vis, id_of{}) & (ns.current().id == pend) & consistent(nk, vis, id_of{}) & (nk.current().id == own) &
               (ns.needs_send_down_ | !nk.needs_send_down_);
    }
    void step()
    {
        cs = ck = calls = 0;
        auto x = any_id("x");
        switch (pick("operation", 4)) {
        case 0: {
            bool changed = pend != vis;
            lager::commit(s);
            vis = own = pend;
            lv_assert(s.get().id == vis && k.get().id == vis && !calls, "follows its source, without calling the function");
            lv_assert(cs == changed && ck == changed, "reported iff it changed");
            return;
        }
        case 1:
            s.set(V{x});
            pend = x;
            lv_assert(!calls, "only writes through it call the function");
            break;
        case 2:
            k.set(V{x});
            pend = own = x;
            lv_assert(calls == 1 && given == x, "called once, with the value");
            break;
        default:
            k.update([&](V y) {
                lv_assert(y.id == own, "an update sees what is pending in the cursor");
                return V{uf("f", y.id, x)};
            });
            pend = own = uf("f", own, x);
            lv_assert(calls == 1 && given == pend, "called once, with the value");
        }
        lv_assert(s.get().id == vis && k.get().id == vis && cs + ck == 0, "invisible until the commit");
    }
};
} // namespace

LV_CONTRACT(any_history_automatic)
{
    automatic p{any("a")};
    history(p);
}
LV_CONTRACT(any_history_sensor)
{
    sampled p{any("a")};
    history(p);
}
LV_CONTRACT(any_history_setter)
{
    with_setter p{any("a")};
    history(p);
}
