// Combining several sources.
#include "nodes.h"
using namespace lv;
using lager::commit;

// reading a combination gives the tuple of the parts, before and after commits
LV_CONTRACT(combined_reads_parts)
{
    auto a = any("a"), b = any("b");
    auto x = any<W>("x"), y = any<W>("y");
    lager::state<V> s{a};
    lager::state<W> t{x};
    auto m     = lager::with(s, t).make();
    unsigned n = 0;
    m.watch([&](auto&&) { ++n; });
    lv_assert(std::get<0>(m.get()) == a && std::get<1>(m.get()) == x, "initially");
    s.set(b);
    wr(t, y);
    lv_assert(std::get<0>(m.get()) == a && std::get<1>(m.get()) == x, "isolated");
    commit(s, t);
    lv_assert(std::get<0>(m.get()) == b && std::get<1>(m.get()) == y, "after commit");
    lv_assert(n == ((a != b || x != y) ? 1u : 0u), "notified once iff some part changed");
}

// writing a combination writes every part, and nothing else
LV_CONTRACT(combined_writes_parts)
{
    auto a = any("a"), b = any("b");
    auto x = any<W>("x"), y = any<W>("y");
    lager::state<V> s{a};
    lager::state<W> t{x};
    lager::cursor<std::tuple<V, W>> m = lager::with(s, t);
    // other writes may be pending in the parts
    auto pa = any("pa");
    auto px = any<W>("px");
    if (any_bool("dirty first"))
        s.set(pa);
    if (any_bool("dirty second"))
        t.set(px);
    if (any_bool("rvalue"))
        m.set(std::make_tuple(b, y));
    else {
        auto v = std::make_tuple(b, y);
        wr(m, v);
        lv_assert(std::get<0>(v) == b && std::get<1>(v) == y, "the argument is not modified");
    }
    lv_assert(s.get() == a && t.get() == x, "isolated");
    commit(s, t);
    lv_assert(s.get() == b && t.get() == y, "each part gets its component");
    lv_assert(std::get<0>(m.get()) == b && std::get<1>(m.get()) == y, "the combination agrees");
}

// three parts
LV_CONTRACT(combined_three)
{
    using T = std::tuple<V, W, Val<2>>;
    auto a  = any("a");
    auto b  = any<W>("b");
    auto c  = any<Val<2>>("c");
    auto x  = any("x");
    auto y  = any<W>("y");
    auto z  = any<Val<2>>("z");
    lager::state<V> s{a};
    lager::state<W> t{b};
    lager::state<Val<2>> u{c};
    lager::cursor<T> m = lager::with(s, t, u);
    lv_assert(m.get() == std::make_tuple(a, b, c), "reads all parts in order");
    wr(m, T{x, y, z});
    commit(s, t, u);
    lv_assert(s.get() == x && t.get() == y && u.get() == z, "writes all parts in order");
    lv_assert(m.get() == std::make_tuple(x, y, z), "agrees");
}

// parts of one root: no part's write is lost
namespace {
struct P
{
    V x, y, z;
    friend bool operator==(const P& a, const P& b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
};
} // namespace
LV_CONTRACT(combined_parts_of_one_root)
{
    P p{any("x"), any("y"), any("z")};
    auto nx = any("nx"), ny = any("ny"), nz = any("nz");
    lager::state<P> s{p};
    lager::cursor<V> cx = s[&P::x];
    lager::cursor<V> cy = s[&P::y];
    lager::cursor<V> cz = s[&P::z];
    lager::cursor<std::tuple<V, V>> m = lager::with(cx, cy);
    bool pz = any_bool("z pending");
    if (pz)
        wr(cz, nz);
    wr(m, std::make_tuple(nx, ny));
    commit(s);
    lv_assert(s.get().x == nx && s.get().y == ny, "both parts are written");
    lv_assert(s.get().z == (pz ? nz : p.z), "the rest keeps its pending value");
    lv_assert(m.get() == std::make_tuple(nx, ny), "the combination agrees");
    lv_assert(cx.get() == nx && cy.get() == ny, "the parts agree");
}

// zooming into a combination with an arbitrary lens on the tuple
LV_CONTRACT(zoom_into_combination)
{
    auto a = any("a");
    auto x = any<W>("x");
    Val<2> w{any_id("w")};
    lager::state<V> s{a};
    lager::state<W> t{x};
    using T   = std::tuple<V, W>;
    auto lens = lager::lenses::getset(
        [](const T& p) { return Val<2>{uf("g", std::get<0>(p).id, std::get<1>(p).id)}; },
        [](const T& p, Val<2> w) {
            return T{V{uf("p1", std::get<0>(p).id, std::get<1>(p).id, w.id)},
                     W{uf("p2", std::get<0>(p).id, std::get<1>(p).id, w.id)}};
        });
    lager::cursor<Val<2>> c = lager::with(s, t).zoom(lens);
    lv_assert(c.get().id == uf("g", a.id, x.id), "reads through the lens");
    auto pa = a;
    if (any_bool("dirty")) {
        pa = any("pa");
        s.set(pa);
    }
    wr(c, w);
    commit(s, t);
    lv_assert(s.get().id == uf("p1", pa.id, x.id, w.id), "first source gets its component of the update");
    lv_assert(t.get().id == uf("p2", pa.id, x.id, w.id), "second source gets its component of the update");
    lv_assert(c.get().id == uf("g", s.get().id, t.get().id), "agrees");
}

// a lens into one component leaves the other alone
LV_CONTRACT(component_of_combination)
{
    auto a = any("a"), b = any("b");
    auto x = any<W>("x"), y = any<W>("y");
    lager::state<V> s{a};
    lager::state<W> t{x};
    lager::cursor<V> c0 = lager::with(s, t).zoom(lager::lenses::first);
    lager::cursor<W> c1 = lager::with(s, t).zoom(lager::lenses::second);
    bool w0 = any_bool("w0"), w1 = any_bool("w1");
    if (w0)
        wr(c0, b);
    if (w1)
        wr(c1, y);
    commit(s, t);
    lv_assert(s.get() == (w0 ? b : a) && t.get() == (w1 ? y : x), "exactly the written components change");
    lv_assert(c0.get() == s.get() && c1.get() == t.get(), "agree");
}

// a lens on a combination of derived cursors, with other writes pending
LV_CONTRACT(zoom_into_combination_of_derived)
{
    auto a = any("a");
    auto w = any<W>("w");
    Val<2> x{any_id("x")};
    using T = std::tuple<W, W>;
    lager::state<V> s{a};
    lager::cursor<W> c1 = s.zoom(ulens("g1", "p1"));
    lager::cursor<W> c2 = s.zoom(ulens("g2", "p2"));
    lager::cursor<W> c3 = s.zoom(ulens("g3", "p3"));
    auto lens           = lager::lenses::getset(
        [](const T& p) { return Val<2>{uf("g", std::get<0>(p).id, std::get<1>(p).id)}; },
        [](const T& p, Val<2> w) {
            return T{W{uf("q1", std::get<0>(p).id, std::get<1>(p).id, w.id)},
                     W{uf("q2", std::get<0>(p).id, std::get<1>(p).id, w.id)}};
        });
    lager::cursor<T> m      = lager::with(c1, c2);
    lager::cursor<Val<2>> c = m.zoom(lens);
    auto p                  = a;
    if (any_bool("dirty")) {
        c3.set(w);
        p = uput(a, w, "p3");
    }
    auto v1 = uget(p, "g1").id, v2 = uget(p, "g2").id;
    wr(c, x);
    commit(s);
    auto q = uput(uput(p, W{uf("q1", v1, v2, x.id)}, "p1"), W{uf("q2", v1, v2, x.id)}, "p2");
    lv_assert(s.get() == q, "the parts of the pending source are updated, one after the other");
    lv_assert(m.get() == std::make_tuple(uget(q, "g1"), uget(q, "g2")), "the combination agrees");
    lv_assert(c.get().id == uf("g", uget(q, "g1").id, uget(q, "g2").id), "agrees");
}

// combining readers only
LV_CONTRACT(combined_readers_derive)
{
    auto a = any("a"), b = any("b");
    auto x = any<W>("x"), y = any<W>("y");
    lager::state<V> s{a};
    lager::state<W> t{x};
    lager::reader<V> rs = s;
    lager::reader<W> rt = t;
    lager::reader<Val<2>> m = lager::with(rs, rt).map([](V p, W q) { return Val<2>{uf("f", p.id, q.id)}; });
    lv_assert(m.get().id == uf("f", a.id, x.id), "initially");
    s.set(b);
    wr(t, y);
    bool both = any_bool("both");
    if (both)
        commit(s, t);
    else
        commit(s);
    lv_assert(!both || m.get().id == uf("f", b.id, y.id), "function of both current values");
    commit(t);
    lv_assert(m.get().id == uf("f", b.id, y.id), "function of both current values after both commits");
}

// ... and everything the same when it happens again
LV_CONTRACT(combined_reads_parts_again)
{
    lvc_combined_reads_parts();
    lvc_combined_reads_parts();
}
LV_CONTRACT(combined_three_again)
{
    lvc_combined_three();
    lvc_combined_three();
}
LV_CONTRACT(combined_readers_derive_again)
{
    lvc_combined_readers_derive();
    lvc_combined_readers_derive();
}
