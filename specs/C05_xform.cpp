// Transformed readers and cursors.
#include "nodes.h"
#include <zug/transducer/filter.hpp>
#include <zug/transducer/map.hpp>
using namespace lv;
using lager::commit;

namespace {
W f(const V& v) { return W{uf("f", v.id)}; }
V g(const W& w) { return V{uf("g", w.id)}; }
bool pass(const V& v) { return lv_uf1("pass", v.id) & 1; }
} // namespace

// map: always the function of the source
LV_CONTRACT(map_is_function_of_source)
{
    auto a = any("a");
    lager::state<V> s{a};
    lager::reader<W> r = s.map([](V v) { return f(v); });
    lv_assert(r.get() == f(a), "initially");
    unsigned n = 0, e = 0;
    r.watch([&](const W& w) { ++n; lv_assert(w == r.get(), "watcher value"); });
    auto cur = a;
    for (unsigned i = 0; i < 2; ++i) {
        auto b = any("b");
        e += f(b) != f(cur);
        cur = b;
        s.set(b);
        commit(s);
        lv_assert(r.get() == f(b), "after each commit");
        lv_assert(n == e, "notified iff the result changed");
    }
}

// a transducer that counts is stepped once for every change of its source, and
// not by what does not change it
LV_CONTRACT(transducers_step_once_per_change)
{
    auto a = any("a");
    lager::state<V> s{a}, t{a};
    unsigned n = 0;
    lager::reader<W> r = s.xform([&n](auto&& step) {
        return [&n, step](auto st, auto&& v) mutable {
            ++n;
            return step(st, f(v));
        };
    });
    lager::reader<W> q = r;
    auto cur = a;
    for (unsigned i = 0; i < 2; ++i) {
        auto b = any("b"), c = any("c");
        n = 0;
        s.set(c);
        s.set(b);
        t.set(c);
        lv_assert(n == 0, "not before the commit");
        commit(s, t);
        // writes of something else count as a change, even when undone
        lv_assert(n == (c != cur || b != c ? 1u : 0u), "once per commit that changed the source");
        lv_assert(r.get() == f(b) && q.get() == f(b), "value");
        n   = 0;
        cur = b;
        commit(s, t);
        lv_assert(n == 0 && r.get() == f(b), "an empty commit does nothing");
    }
}

// filter: the last value that passed; initially a default value when none did
LV_CONTRACT(filter_keeps_last_passing)
{
    auto a = any("a");
    lager::state<V> s{a};
    lager::reader<V> r = s.filter([](V v) { return pass(v); });
    auto m             = pass(a) ? a : V{};
    lv_assert(r.get() == m, "initially the source if it passes, else a default value");
    unsigned n = 0, e = 0;
    r.watch([&](const V& w) { ++n; lv_assert(w == r.get(), "watcher value"); });
    for (unsigned i = 0; i < 2; ++i) {
        auto b = any("b");
        s.set(b);
        commit(s);
        if (pass(b)) {
            e += b != m;
            m = b;
        }
        lv_assert(r.get() == m, "the last passing value");
        lv_assert(n == e, "notified iff it changed");
    }
}

// the same over a combination
LV_CONTRACT(filter_of_a_combination)
{
    auto a = any("a"), b = any("b");
    lager::state<V> s{a}, t{b};
    auto ok = [](V x, V y) { return bool(lv_uf2("pass2", x.id, y.id) & 1); };
    lager::reader<std::tuple<V, V>> r = lager::with(s, t).filter(ok);
    lager::reader<W> q                = lager::with(s, t).filter(ok).map([](auto x, auto y) { return W{uf("f", x.id, y.id)}; });
    auto fq = [](V x, V y) { return W{uf("f", x.id, y.id)}; };
    auto m  = ok(a, b) ? std::make_tuple(a, b) : std::tuple<V, V>{};
    auto mq = ok(a, b) ? fq(a, b) : W{};
    lv_assert(r.get() == m && q.get() == mq, "initially");
    for (unsigned i = 0; i < 2; ++i) {
        auto c = any("c"), d = any("d");
        s.set(c);
        t.set(d);
        commit(s, t);
        if (ok(c, d)) {
            m  = {c, d};
            mq = fq(c, d);
        }
        lv_assert(r.get() == m && q.get() == mq, "what passed last");
    }
}

namespace {
struct NoDefault
{
    uint64_t id;
    explicit NoDefault(uint64_t i) : id(i) {}
    NoDefault() = delete;
    friend bool operator==(const NoDefault& a, const NoDefault& b) { return a.id == b.id; }
};
} // namespace
// filter without a default value: construction fails loudly instead of inventing one
LV_CONTRACT(filter_without_default_throws)
{
    auto a = any_id("a");
    lager::state<NoDefault> s{NoDefault{a}};
    auto ok    = [](const NoDefault& v) { return bool(lv_uf1("pass", v.id) & 1); };
    bool threw = false;
    try {
        lager::reader<NoDefault> r = s.filter(ok);
        lv_assert(r.get().id == a, "value");
    } catch (const lager::no_value_error&) {
        threw = true;
    }
    lv_assert(threw == !(lv_uf1("pass", a) & 1), "throws iff nothing passes");
}

// two way transformation: writing w writes g(w) to the source
LV_CONTRACT(two_way_write)
{
    auto a = any("a");
    auto w = any<W>("w");
    lager::state<V> s{a};
    lager::cursor<W> c = s.xform(zug::map([](V v) { return f(v); }), zug::map([](W x) { return g(x); }));
    lv_assert(c.get() == f(a), "reads");
    if (any_bool("dirty"))
        s.set(any("b"));
    if (any_bool("rvalue"))
        c.set(W{w});
    else
        c.set(w);
    lv_assert(s.get() == a && c.get() == f(a), "isolated");
    commit(s);
    lv_assert(s.get() == g(w), "source gets the backward image");
    lv_assert(c.get() == f(g(w)), "cursor shows the forward image of it");
}

// the same through the map() shorthand and through zoom on top of it
LV_CONTRACT(two_way_then_zoom)
{
    auto a = any("a");
    Val<2> x{any_id("x")};
    lager::state<V> s{a};
    lager::cursor<Val<2>> c = s.map([](V v) { return f(v); }, [](W w) { return g(w); }).zoom(ulens<Val<2>, W>("lg", "lp"));
    auto p                  = a;
    if (any_bool("dirty")) {
        p = any("b");
        s.set(p);
    }
    wr(c, x);
    commit(s);
    lv_assert(s.get() == g(W{uf("lp", f(p).id, x.id)}), "source gets the backward image of the updated forward image");
    lv_assert(c.get().id == uf("lg", f(s.get()).id), "agrees");
}

// composition of transformations
LV_CONTRACT(composed_maps)
{
    auto a = any("a"), b = any("b");
    lager::state<V> s{a};
    lager::reader<V> r = s.map([](V v) { return f(v); }).map([](W w) { return g(w); }).make();
    lager::reader<V> q = s.map([](V v) { return f(v); }).make().map([](W w) { return g(w); });
    lager::reader<V> t = s.xform(zug::map([](V v) { return f(v); })).xform(zug::map([](W w) { return g(w); }));
    s.set(b);
    commit(s);
    lv_assert(r.get() == g(f(b)) && q.get() == g(f(b)) && t.get() == g(f(b)), "all spellings agree");
}

// update transducer: the source becomes u(pending source, w)
LV_CONTRACT(update_transducer)
{
    auto a = any("a");
    auto w = any<W>("w");
    lager::state<V> s{a};
    lager::cursor<W> c = s.xform(zug::map([](V v) { return f(v); }),
                                 lager::update([](V v, W x) { return V{uf("u", v.id, x.id)}; }));
    auto p = a;
    if (any_bool("dirty")) {
        p = any("b");
        s.set(p);
    }
    wr(c, w);
    commit(s);
    lv_assert(s.get().id == uf("u", p.id, w.id), "source is u(pending source, value)");
    lv_assert(c.get() == f(s.get()), "agrees");
}

// also when the source is itself derived and something else is pending
LV_CONTRACT(update_transducer_of_derived)
{
    auto a = any("a");
    Val<2> x{any_id("x")};
    auto w = any<W>("w");
    lager::state<V> s{a};
    lager::cursor<W> c1 = s.zoom(ulens("g1", "p1"));
    lager::cursor<W> c2 = s.zoom(ulens("g2", "p2"));
    auto h              = [](W v) { return Val<2>{uf("h", v.id)}; };
    auto u              = [](W v, Val<2> x) { return W{uf("u", v.id, x.id)}; };
    lager::cursor<Val<2>> c = c1.xform(zug::map(h), lager::update(u));
    auto p                  = a;
    if (any_bool("dirty")) {
        wr(c2, w);
        p = uput(a, w, "p2");
    }
    wr(c, x);
    commit(s);
    lv_assert(s.get() == uput(p, u(uget(p, "g1"), x), "p1"), "source is u(pending source, value)");
    lv_assert(c.get() == h(uget(s.get(), "g1")), "agrees");
}
// and of a combination
LV_CONTRACT(update_transducer_of_combination)
{
    auto a = any("a"), b = any("b");
    auto y = any<W>("y"), z = any<W>("z");
    Val<2> x{any_id("x")};
    lager::state<V> s{a};
    lager::state<W> t{y};
    auto u = [](std::tuple<V, W> p, Val<2> x) {
        return std::make_tuple(V{uf("u1", std::get<0>(p).id, x.id)}, W{uf("u2", std::get<1>(p).id, x.id)});
    };
    lager::cursor<Val<2>> c = lager::with(s, t).xform(
        zug::map([](V v, W w) { return Val<2>{uf("h", v.id, w.id)}; }), lager::update(u));
    lv_assert(c.get().id == uf("h", a.id, y.id), "reads");
    if (any_bool("dirty")) {
        wr(s, b);
        a = b;
    }
    if (any_bool("other dirty")) {
        wr(t, z);
        y = z;
    }
    wr(c, x);
    commit(s, t);
    lv_assert(s.get().id == uf("u1", a.id, x.id) && t.get().id == uf("u2", y.id, x.id), "each source gets its component");
    lv_assert(c.get().id == uf("h", s.get().id, t.get().id), "agrees");
}

// a filtered write is dropped and leaves the source alone
LV_CONTRACT(filtered_write)
{
    auto a = any("a"), w = any("w");
    lager::state<V> s{a};
    lager::cursor<V> c = s.xform(zug::identity, zug::filter([](V v) { return pass(v); }));
    unsigned n         = 0;
    s.watch([&](auto&&) { ++n; });
    wr(c, w);
    commit(s);
    lv_assert(s.get() == (pass(w) ? w : a), "only passing values are written");
    lv_assert(n == (s.get() != a ? 1u : 0u), "and notified");
    lv_assert(c.get() == s.get(), "agrees");
}

// filter then map
LV_CONTRACT(filter_then_map)
{
    auto a = any("a"), b = any("b");
    lager::state<V> s{a};
    lager::reader<W> r = s.filter([](V v) { return pass(v); }).map([](V v) { return f(v); });
    auto m             = pass(a) ? f(a) : W{};
    lv_assert(r.get() == m, "initially");
    s.set(b);
    commit(s);
    lv_assert(r.get() == (pass(b) ? f(b) : m), "maps the last passing value");
}

// zoom on a transformed reader
LV_CONTRACT(xform_then_zoom_reader)
{
    auto a = any("a"), b = any("b");
    lager::state<V> s{a};
    lager::reader<Val<2>> r = s.map([](V v) { return f(v); }).zoom(ulens<Val<2>, W>("lg", "lp"));
    lv_assert(r.get().id == uf("lg", f(a).id), "initially");
    s.set(b);
    commit(s);
    lv_assert(r.get().id == uf("lg", f(b).id), "after commit");
}
// zoom, then transform
LV_CONTRACT(zoom_then_xform)
{
    auto a = any("a");
    Val<2> x{any_id("x")};
    lager::state<V> s{a};
    auto h = [](W w) { return Val<2>{uf("h", w.id)}; };
    auto k = [](Val<2> w) { return W{uf("k", w.id)}; };
    lager::cursor<Val<2>> c = s.zoom(ulens("lg", "lp")).xform(zug::map(h), zug::map(k));
    lager::reader<Val<2>> r = s.zoom(ulens("lg", "lp")).map(h);
    lv_assert(c.get().id == uf("h", uf("lg", a.id)) && r.get().id == c.get().id, "reads");
    auto p = a;
    if (any_bool("dirty")) {
        p = any("b");
        s.set(p);
    }
    wr(c, x);
    commit(s);
    lv_assert(s.get().id == uf("lp", p.id, uf("k", x.id)), "writes through both layers");
    lv_assert(c.get().id == uf("h", uf("lg", s.get().id)) && r.get() == c.get(), "agrees");
}
// two two-way transformations compose in the right order
LV_CONTRACT(two_way_composition)
{
    auto a = any("a");
    Val<2> x{any_id("x")};
    lager::state<V> s{a};
    auto h = [](W w) { return Val<2>{uf("h", w.id)}; };
    auto k = [](Val<2> w) { return W{uf("k", w.id)}; };
    lager::cursor<Val<2>> c = lager::with(s).xform(zug::map([](V v) { return f(v); }), zug::map([](W w) { return g(w); }))
                                  .xform(zug::map(h), zug::map(k));
    lv_assert(c.get() == h(f(a)), "reads inner then outer");
    wr(c, x);
    commit(s);
    lv_assert(s.get() == g(k(x)), "writes outer then inner");
    lv_assert(c.get() == h(f(s.get())), "agrees");
}

namespace {
// a function that notices when it is used after it was moved from
template <typename F>
struct kept
{
    F fn;
    bool gone = false;
    kept(F f)
        : fn(f)
    {}
    kept(const kept& o)
        : fn(o.fn)
        , gone(o.gone)
    {}
    kept(kept&& o)
        : fn(o.fn)
        , gone(o.gone)
    {
        o.gone = true;
    }
    template <typename... Ts>
    auto operator()(Ts&&... xs) const
    {
        lv_assert(!gone, "no function is used after it was moved from");
        return fn(static_cast<Ts&&>(xs)...);
    }
};
auto hook(const char* h, const char* k)
{
    auto down = [h](W w) { return W{uf(h, w.id)}; };
    auto up   = [k](W w) { return W{uf(k, w.id)}; };
    return std::make_pair(kept<decltype(down)>{down}, kept<decltype(up)>{up});
}
auto klens(const char* g, const char* p)
{
    auto get = [g](W w) { return W{uf(g, w.id)}; };
    auto put = [p](W w, W x) { return W{uf(p, w.id, x.id)}; };
    return lager::lenses::getset(kept<decltype(get)>{get}, kept<decltype(put)>{put});
}
} // namespace

// functions, transducers and lenses that are given by name are copied: they
// still work afterwards, however they were used
LV_CONTRACT(given_functions_stay_usable)
{
    auto a = any<W>("a"), x = any<W>("x");
    lager::state<W> s{a};
    auto [d, u]       = hook("d", "u");
    const auto down   = zug::map(d);
    auto xdown        = zug::map(d);
    auto xup          = zug::map(u);
    auto both         = [&] {
        lager::cursor<W> c = s.xform(xdown, xup);
        lager::cursor<W> e = lager::with(s).xform(xdown, xup);
        lager::reader<W> r = s.map(d);
        lager::reader<W> q = lager::with(s).map(d);
        lager::reader<W> t = s.xform(down);
        lv_assert(c.get().id == uf("d", a.id) && e.get() == c.get() && r.get() == c.get() && q.get() == c.get() &&
                      t.get() == c.get(),
                  "reads through it");
        return std::make_pair(c, e);
    };
    auto [c, e] = both();
    both();
    bool which = any_bool("which");
    wr(which ? c : e, x);
    commit(s);
    lv_assert(s.get().id == uf("u", x.id), "writes through it");
    lv_assert(c.get().id == uf("d", uf("u", x.id)) && e.get() == c.get(), "agrees");
    lv_assert(!d.gone && !u.gone, "what was given by name was not taken");
}
LV_CONTRACT(given_lenses_stay_usable)
{
    auto a = any<W>("a"), x = any<W>("x");
    lager::state<W> s{a};
    auto l    = klens("g", "p");
    auto both = [&] {
        lager::cursor<W> c = s.zoom(l);
        lager::cursor<W> e = lager::with(s).zoom(l);
        lager::cursor<W> f = lager::with(s).zoom(l).zoom(l);
        lager::cursor<W> h = s.zoom(l).zoom(l);
        lager::reader<W> r = lager::with(lager::reader<W>{s}).zoom(l);
        lv_assert(c.get().id == uf("g", a.id) && e.get() == c.get() && r.get() == c.get(), "reads through it");
        lv_assert(f.get().id == uf("g", uf("g", a.id)) && h.get() == f.get(), "reads through it twice");
        return std::make_pair(c, e);
    };
    auto [c, e] = both();
    both();
    bool which = any_bool("which");
    wr(which ? c : e, x);
    commit(s);
    lv_assert(s.get().id == uf("p", a.id, x.id), "writes through it");
    lv_assert(c.get().id == uf("g", s.get().id) && e.get() == c.get(), "agrees");
    lv_assert(lager::view(l, a).id == uf("g", a.id) && lager::set(l, a, x).id == uf("p", a.id, x.id), "it works as before");
}
LV_CONTRACT(given_functions_stay_usable_composed)
{
    auto a = any<W>("a"), x = any<W>("x");
    lager::state<W> s{a};
    auto [d, u] = hook("d", "u");
    auto l      = klens("g", "p");
    auto xdown  = zug::map(d);
    auto xup    = zug::map(u);
    for (int i = 0; i < 2; ++i) {
        lager::reader<W> r = lager::with(s).map(d).map(d);
        lager::reader<W> q = lager::with(s).map(d).zoom(l);
        lager::reader<W> t = lager::with(s).zoom(l).map(d);
        lv_assert(r.get().id == uf("d", uf("d", s.get().id)), "map, map");
        lv_assert(q.get().id == uf("g", uf("d", s.get().id)), "map, zoom");
        lv_assert(t.get().id == uf("d", uf("g", s.get().id)), "zoom, map");
        lager::cursor<W> c = lager::with(s).xform(xdown, xup).xform(xdown, xup);
        lager::cursor<W> e = lager::with(s).xform(xdown, xup).zoom(l);
        lager::cursor<W> f = lager::with(s).zoom(l).xform(xdown, xup);
        lv_assert(c.get().id == uf("d", uf("d", s.get().id)), "transformed twice");
        lv_assert(e.get().id == uf("g", uf("d", s.get().id)), "transformed, zoomed");
        lv_assert(f.get().id == uf("d", uf("g", s.get().id)), "zoomed, transformed");
    }
    lv_assert(!d.gone && !u.gone, "what was given by name was not taken");
    lv_assert(lager::view(l, a).id == uf("g", a.id) && lager::set(l, a, x).id == uf("p", a.id, x.id), "it works as before");
}

// the order in which transformations and lenses are composed, also when the types
// would allow for another one
namespace {
auto fun(const char* n)
{
    return [n](V v) { return V{uf(n, v.id)}; };
}
auto endo(const char* g, const char* p) { return ulens<V, V>(g, p); }
} // namespace
LV_CONTRACT(order_of_composed_readers)
{
    auto a = any("a"), b = any("b");
    lager::state<V> s{a};
    auto p = fun("p"), q = fun("q"), o = fun("o");
    lager::reader<V> r1 = lager::with(s).xform(zug::map(p)).xform(zug::map(q));
    lager::reader<V> r2 = lager::with(s).zoom(endo("p", "x")).xform(zug::map(q));
    lager::reader<V> r3 = lager::with(s).xform(zug::map(p)).zoom(endo("q", "x"));
    lager::reader<V> r4 = lager::with(s).xform(zug::map(p), zug::map(o)).xform(zug::map(q));
    lager::reader<V> r5 = lager::with(s).zoom(endo("p", "x")).zoom(endo("q", "y"));
    lager::reader<V> r6 = lager::with(s).map(p).map(q).make();
    auto check = [&](V v) {
        auto e = q(p(v));
        lv_assert(r1.get() == e && r6.get() == e, "transformations");
        lv_assert(r2.get() == e && r3.get() == e, "lenses and transformations");
        lv_assert(r4.get() == e, "after a two way transformation");
        lv_assert(r5.get() == e, "lenses");
    };
    check(a);
    s.set(b);
    commit(s);
    check(b);
}
LV_CONTRACT(order_of_composed_cursors)
{
    auto a = any("a"), x = any("x");
    lager::state<V> s{a}, t{a}, u{a}, v{a};
    auto p = fun("p"), q = fun("q"), b = fun("b"), c = fun("c");
    lager::cursor<V> c1 = lager::with(s).xform(zug::map(p), zug::map(b)).xform(zug::map(q), zug::map(c));
    lager::cursor<V> c2 = lager::with(t).zoom(endo("p", "b")).zoom(endo("q", "c"));
    lager::cursor<V> c3 = lager::with(u).zoom(endo("p", "b")).xform(zug::map(q), zug::map(c));
    lager::cursor<V> c4 = lager::with(v).xform(zug::map(p), zug::map(b)).zoom(endo("q", "c"));
    lv_assert(c1.get() == q(p(a)) && c2.get() == q(p(a)) && c3.get() == q(p(a)) && c4.get() == q(p(a)), "reads");
    c1.set(x);
    c2.set(x);
    c3.set(x);
    c4.set(x);
    commit(s, t, u, v);
    lv_assert(s.get() == b(c(x)), "transformations, backwards");
    lv_assert(t.get().id == uf("b", a.id, uf("c", uf("p", a.id), x.id)), "lenses, inside out");
    lv_assert(u.get().id == uf("b", a.id, uf("c", x.id)), "a transformation of a member");
    lv_assert(v.get().id == uf("b", uf("c", uf("p", a.id), x.id)), "a member of a transformation");
    lv_assert(c1.get() == q(p(s.get())) && c2.get() == q(p(t.get())) && c3.get() == q(p(u.get())) && c4.get() == q(p(v.get())), "agrees");
}

// ... and everything the same when it happens again
LV_CONTRACT(filter_without_default_throws_again)
{
    lvc_filter_without_default_throws();
    lvc_filter_without_default_throws();
}
LV_CONTRACT(map_is_function_of_source_again)
{
    lvc_map_is_function_of_source();
    lvc_map_is_function_of_source();
}
LV_CONTRACT(filter_keeps_last_passing_again)
{
    lvc_filter_keeps_last_passing();
    lvc_filter_keeps_last_passing();
}
LV_CONTRACT(two_way_write_again)
{
    lvc_two_way_write();
    lvc_two_way_write();
}
LV_CONTRACT(composed_maps_again)
{
    lvc_composed_maps();
    lvc_composed_maps();
}
LV_CONTRACT(update_transducer_again)
{
    lvc_update_transducer();
    lvc_update_transducer();
}
LV_CONTRACT(filtered_write_again)
{
    lvc_filtered_write();
    lvc_filtered_write();
}
LV_CONTRACT(filter_then_map_again)
{
    lvc_filter_then_map();
    lvc_filter_then_map();
}
LV_CONTRACT(xform_then_zoom_reader_again)
{
    lvc_xform_then_zoom_reader();
    lvc_xform_then_zoom_reader();
}
LV_CONTRACT(two_way_composition_again)
{
    lvc_two_way_composition();
    lvc_two_way_composition();
}
LV_CONTRACT(given_functions_stay_usable_composed_again)
{
    lvc_given_functions_stay_usable_composed();
    lvc_given_functions_stay_usable_composed();
}
