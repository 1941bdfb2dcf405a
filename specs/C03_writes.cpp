// Writing through zoomed cursors.
#include "nodes.h"
using namespace lv;
using lager::commit;

// a write through a zoomed cursor stores the lens update of the pending root
LV_CONTRACT(write_is_lens_update_of_pending)
{
    auto a = any("a");
    auto w = any<W>("w");
    lager::state<V> s{a};
    lager::cursor<W> c = s.zoom(ulens());
    auto p             = a;
    if (any_bool("dirty")) {
        p = any("b");
        s.set(p);
    }
    if (any_bool("rvalue"))
        c.set(W{w});
    else
        c.set(w);
    commit(s);
    lv_assert(s.get() == uput(p, w), "root is put(pending root, value)");
    lv_assert(c.get() == uget(uput(p, w)), "cursor shows get of the new root");
}

// three levels
LV_CONTRACT(nested_write)
{
    using L1 = V; using L2 = W; using L3 = Val<2>;
    auto a = any("a"), p = any("p");
    L3 x{any_id("x")};
    lager::state<V> s{a};
    lager::cursor<L2> c  = s.zoom(ulens<L2, L1>("g1", "p1"));
    lager::cursor<L3> cc = c.zoom(ulens<L3, L2>("g2", "p2"));
    s.set(p);
    wr(cc, x);
    commit(s);
    auto inner = uf("p2", uf("g1", p.id), x.id);
    lv_assert(s.get().id == uf("p1", p.id, inner), "nested update of the pending root");
    lv_assert(c.get().id == uf("g1", s.get().id) && cc.get().id == uf("g2", c.get().id), "all levels agree");
}

// pending writes through several cursors accumulate, in order
LV_CONTRACT(writes_accumulate)
{
    auto a = any("a");
    lager::state<V> s{a};
    lager::cursor<W> c1 = s.zoom(ulens("g1", "p1"));
    lager::cursor<W> c2 = s.zoom(ulens("g2", "p2"));
    lager::cursor<W> c3 = c1.zoom(ulens<W, W>("g3", "p3"));
    auto m              = a;
    bool rv             = any_bool("rvalue");
    // (two writes: the first makes the pending root and the cached values of
    // the cursors arbitrary, the second is the inductive step)
    for (unsigned i = 0; i < 2; ++i) {
        auto w = any<W>("w");
        switch (pick("which", 4)) {
        case 0:
            wr(c1, w, rv);
            m = uput(m, w, "p1");
            break;
        case 1:
            wr(c2, w, rv);
            m = uput(m, w, "p2");
            break;
        case 2:
            wr(c3, w, rv);
            m = uput(m, W{uf("p3", uf("g1", m.id), w.id)}, "p1");
            break;
        default:
            m = V{w.id};
            s.set(m);
        }
        if (i == 0 && any_bool("commit"))
            commit(s);
    }
    commit(s);
    lv_assert(s.get() == m, "no write is lost");
    lv_assert(c1.get() == uget(m, "g1") && c2.get() == uget(m, "g2"), "cursors agree with the root");
    lv_assert(c3.get().id == uf("g3", uf("g1", m.id)), "nested cursor agrees with the root");
}

// update applies the function to the pending value of the cursor
LV_CONTRACT(update_uses_pending_value)
{
    auto a = any("a"), b = any("b");
    lager::state<V> s{a};
    lager::cursor<W> c  = s.zoom(ulens("g1", "p1"));
    lager::cursor<W> c2 = s.zoom(ulens("g2", "p2"));
    auto f              = [](W x) { return W{uf("f", x.id)}; };
    auto m              = a;
    if (any_bool("root dirty")) {
        s.set(b);
        m = b;
    }
    if (any_bool("sibling dirty")) {
        auto w = any<W>("w");
        wr(c2, w);
        m = uput(m, w, "p2");
    }
    unsigned k = pick("updates", 3);
    for (unsigned i = 0; i < k; ++i) {
        c.update(f);
        m = uput(m, f(uget(m, "g1")), "p1");
    }
    commit(s);
    lv_assert(s.get() == m, "each update sees the previous writes of the transaction");
}
LV_CONTRACT(update_of_root)
{
    auto a = any("a");
    lager::state<V> s{a};
    auto f = [](V x) { return V{uf("f", x.id)}; };
    s.update(f);
    lv_assert(s.get() == a, "isolated");
    s.update(f);
    commit(s);
    lv_assert(s.get().id == uf("f", uf("f", a.id)), "updates compose");
}

// members: writing one leaves the others alone
namespace {
struct P
{
    V x, y;
    W z;
    friend bool operator==(const P& a, const P& b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
};
} // namespace
LV_CONTRACT(member_writes_are_independent)
{
    P p{any("x"), any("y"), any<W>("z")};
    lager::state<P> s{p};
    lager::cursor<V> cx = s[&P::x];
    lager::cursor<V> cy = s[&P::y];
    lager::cursor<W> cz = s[&P::z];
    auto q              = p;
    if (any_bool("x")) {
        q.x = any("nx");
        wr(cx, q.x);
    }
    if (any_bool("y")) {
        q.y = any("ny");
        wr(cy, V{q.y});
    }
    if (any_bool("z")) {
        q.z = any<W>("nz");
        wr(cz, q.z);
    }
    unsigned nx = 0, ny = 0, nz = 0;
    cx.watch([&](auto&&) { ++nx; });
    cy.watch([&](auto&&) { ++ny; });
    cz.watch([&](auto&&) { ++nz; });
    commit(s);
    lv_assert(s.get() == q, "exactly the written members changed");
    lv_assert(cx.get() == q.x && cy.get() == q.y && cz.get() == q.z, "cursors agree");
    lv_assert(p.x != q.x || nx == 0, "unwritten member x not notified");
    lv_assert(p.y != q.y || ny == 0, "unwritten member y not notified");
    lv_assert(p.z != q.z || nz == 0, "unwritten member z not notified");
    lv_assert((p.x == q.x || nx == 1) && (p.y == q.y || ny == 1) && (p.z == q.z || nz == 1), "changed members notified once");
}

// writer-only view
LV_CONTRACT(writer_writes)
{
    auto a = any("a");
    auto w = any<W>("w");
    lager::state<V> s{a};
    lager::cursor<W> c = s.zoom(ulens());
    lager::writer<W> o = c;
    wr(o, w);
    lv_assert(c.get() == uget(a), "isolated");
    commit(s);
    lv_assert(s.get() == uput(a, w), "written through the writer");
    lager::writer<V> r = s;
    auto b             = any("b");
    wr(r, b);
    commit(s);
    lv_assert(s.get() == b && c.get() == uget(b), "root writer");
}

// writers directly from what describes them
LV_CONTRACT(writers_of_expressions)
{
    auto b = any("b");
    auto w = any<W>("w");
    lager::state<V> s{b};
    lager::cursor<W> c = s.zoom(ulens());
    lager::writer<W> z = s.zoom(ulens("g2", "p2"));
    lager::writer<W> y = c;
    z.set(w);
    y.set(w);
    commit(s);
    lv_assert(s.get() == uput(uput(b, w, "p2"), w), "both write into the same source");
}

// automatic roots: the same, but published immediately
LV_CONTRACT(automatic_cursor_writes)
{
    auto a = any("a");
    auto w = any<W>("w");
    auto f = [](W x) { return W{uf("f", x.id)}; };
    lager::state<V, lager::automatic_tag> s{a};
    lager::cursor<W> c = s.zoom(ulens());
    auto m             = a;
    if (any_bool("set")) {
        wr(c, w);
        m = uput(m, w);
    }
    lv_assert(s.get() == m && c.get() == uget(m), "published at once");
    c.update(f);
    m = uput(m, f(uget(m)));
    lv_assert(s.get() == m && c.get() == uget(m), "update published at once");
}

// ... and everything the same when it happens again
LV_CONTRACT(write_is_lens_update_of_pending_again)
{
    lvc_write_is_lens_update_of_pending();
    lvc_write_is_lens_update_of_pending();
}
LV_CONTRACT(update_of_root_again)
{
    lvc_update_of_root();
    lvc_update_of_root();
}
LV_CONTRACT(automatic_cursor_writes_again)
{
    lvc_automatic_cursor_writes();
    lvc_automatic_cursor_writes();
}
