// Composition, products and type erasure of lenses.
#include "lens_laws.h"
using namespace lv;
using namespace lager::lenses;

namespace {
// an arbitrary lens, about which nothing is assumed
template <typename P, typename Wh>
auto ul(const char* g, const char* s)
{
    return getset([g](const Wh& w) { return P{uf(g, w.id)}; },
                  [s](const Wh& w, const P& p) { return Wh{uf(s, w.id, p.id)}; });
}
} // namespace

// composition: view inner of outer, set through both
LV_CONTRACT(composition)
{
    auto w  = any("w");
    auto o  = ul<W, V>("g1", "s1");
    auto i  = ul<V2, W>("g2", "s2");
    V2 p{any_id("p")};
    auto l = o | i;
    lv_assert(do_view<V2>(l, w).id == uf("g2", uf("g1", w.id)), "view goes through both, outer first");
    lv_assert(do_set(l, w, p).id == uf("s1", w.id, uf("s2", uf("g1", w.id), p.id)), "set rebuilds from the inside");
    auto l2 = zug::comp(o, i);
    lv_assert(do_view<V2>(l2, w) == do_view<V2>(l, w) && do_set(l2, w, p) == do_set(l, w, p), "both spellings agree");
}
// three levels, both groupings
LV_CONTRACT(composition_associates)
{
    auto w = any("w");
    V3 p{any_id("p")};
    auto a = ul<W, V>("g1", "s1");
    auto b = ul<V2, W>("g2", "s2");
    auto c = ul<V3, V2>("g3", "s3");
    auto l = (a | b) | c;
    auto r = a | (b | c);
    lv_assert(do_view<V3>(l, w) == do_view<V3>(r, w), "view");
    lv_assert(do_set(l, w, p) == do_set(r, w, p), "set");
    lv_assert(do_view<V3>(l, w).id == uf("g3", uf("g2", uf("g1", w.id))), "value");
}
LV_CONTRACT(composition_laws)
{
    auto w = any_T("w");
    auto l = attr(&T::s) | attr(&S::y);
    laws<W>(l, w, any<W>("p"), any<W>("q"));
    auto p = any<W>("r");
    auto r = do_set(l, w, p);
    auto e = w;
    e.s.y  = p;
    lv_assert(r == e, "exactly the nested member changes");
    over_law<W>(l, w, [](W v) { return W{uf("f", v.id)}; });
}
// the identity function is the identity lens (alone, as inner lens, and in products)
LV_CONTRACT(composition_identity)
{
    auto w = any("w");
    W p{any_id("p")};
    auto a = ul<W, V>("g1", "s1");
    auto v = any("v");
    lv_assert(do_view<V>(zug::identity, w) == w && do_set(zug::identity, w, v) == v, "alone");
    lv_assert(do_view<W>(a | zug::identity, w) == do_view<W>(a, w), "view");
    lv_assert(do_set(a | zug::identity, w, p) == do_set(a, w, p), "set");
}

// zip: component wise
LV_CONTRACT(zip_is_componentwise)
{
    using Wh = std::tuple<V, W>;
    using P  = std::tuple<V2, V3>;
    Wh w{any("a"), any<W>("b")};
    P p{any<V2>("p"), any<V3>("q")};
    auto l = zip(ul<V2, V>("g1", "s1"), ul<V3, W>("g2", "s2"));
    P v    = do_view<P>(l, w);
    lv_assert(std::get<0>(v).id == uf("g1", std::get<0>(w).id) && std::get<1>(v).id == uf("g2", std::get<1>(w).id), "view");
    Wh r = do_set(l, w, p);
    lv_assert(std::get<0>(r).id == uf("s1", std::get<0>(w).id, std::get<0>(p).id) &&
                  std::get<1>(r).id == uf("s2", std::get<1>(w).id, std::get<1>(p).id),
              "set");
}
LV_CONTRACT(zip_laws)
{
    using Wh = std::tuple<S, T>;
    using P  = std::tuple<V, W>;
    Wh w{any_S("a"), any_T("b")};
    auto l = zip(attr(&S::x), attr(&T::a));
    P p{any("p"), any<W>("q")};
    laws<P>(l, w, p, P{any("r"), any<W>("t")});
    Wh r = do_set(l, w, p);
    Wh e = w;
    std::get<0>(e).x = std::get<0>(p);
    std::get<1>(e).a = std::get<1>(p);
    lv_assert(r == e, "exactly the parts change");
}
// zip of partial lenses: absent parts keep their component
LV_CONTRACT(zip_partial)
{
    using OS = std::optional<S>;
    using OW = std::optional<W>;
    using Wh = std::tuple<OS, OS>;
    using P  = std::tuple<OW, OW>;
    Wh w{any_opt<S>("a", [] { return any_S("a"); }), any_opt<S>("b", [] { return any_S("b"); })};
    P p{any_opt<W>("p", [] { return any<W>("p"); }), any_opt<W>("q", [] { return any<W>("q"); })};
    auto l = zip(with_opt(attr(&S::y)), with_opt(attr(&S::y)));
    Wh r   = do_set(l, w, p);
    Wh e   = w;
    if (std::get<0>(e) && std::get<0>(p))
        std::get<0>(e)->y = *std::get<0>(p);
    if (std::get<1>(e) && std::get<1>(p))
        std::get<1>(e)->y = *std::get<1>(p);
    lv_assert(r == e, "present parts are set, absent ones keep their component");
}

// fan: several views of one whole, non overlapping
LV_CONTRACT(fan_views_each)
{
    using P = std::tuple<W, V2>;
    auto w  = any("w");
    auto l  = fan(ul<W, V>("g1", "s1"), ul<V2, V>("g2", "s2"));
    P v     = do_view<P>(l, w);
    lv_assert(std::get<0>(v).id == uf("g1", w.id) && std::get<1>(v).id == uf("g2", w.id), "views each part");
}
LV_CONTRACT(fan_laws)
{
    using P = std::tuple<V, W, V>;
    auto w  = any_S("w");
    P p{any("p"), any<W>("q"), any("r")}, q{any("p2"), any<W>("q2"), any("r2")};
    laws<P>(fan(attr(&S::x), attr(&S::y), attr(&S::z)), w, p, q);
}
LV_CONTRACT(multi_attr_laws)
{
    using P = std::tuple<V2, W>;
    auto w  = any_T("w");
    P p{any<V2>("p"), any<W>("q")};
    auto l = attr(&T::b, &T::a);
    laws<P>(l, w, p, P{any<V2>("p2"), any<W>("q2")});
    auto r = do_set(l, w, p);
    lv_assert(r.b == std::get<0>(p) && r.a == std::get<1>(p) && r.s == w.s, "exactly the named members change");
}
LV_CONTRACT(fan_composed)
{
    using P = std::tuple<V, V2>;
    auto w  = any_T("w");
    P p{any("p"), any<V2>("q")};
    auto l = fan(attr(&T::s) | attr(&S::z), attr(&T::b));
    auto r = do_set(l, w, p);
    auto e = w;
    e.s.z  = std::get<0>(p);
    e.b    = std::get<1>(p);
    lv_assert(r == e, "exactly the parts change");
    laws<P>(l, w, p, P{any("p2"), any<V2>("q2")});
}

// type erasure behaves as the erased lens
LV_CONTRACT(type_erased_is_transparent)
{
    auto w = any("w");
    W p{any_id("p")};
    auto l = ul<W, V>("g1", "s1");
    lager::lens<V, W> e = l;
    lv_assert(do_view<W>(e, w).id == uf("g1", w.id), "view");
    lv_assert(do_set(e, w, p).id == uf("s1", w.id, p.id), "set");
    auto f = [](W v) { return W{uf("f", v.id)}; };
    lv_assert(V(lager::over(e, w, f)).id == uf("s1", w.id, uf("f", uf("g1", w.id))), "over");
    lager::lens<V, W> copy = e;
    e                      = ul<W, V>("g2", "s2");
    lv_assert(do_view<W>(copy, w).id == uf("g1", w.id), "copies are independent");
    lv_assert(do_view<W>(e, w).id == uf("g2", w.id) && do_set(e, w, p).id == uf("s2", w.id, p.id), "can be reassigned");
}
// whatever the type of the part is, and whatever the setter does with a part
// that is already there
LV_CONTRACT(type_erased_of_scalars)
{
    auto w = any("w");
    auto l = getset([](const V& w) { return uf("g", w.id); }, [](const V& w, uint64_t p) { return V{uf("s", w.id, p)}; });
    lager::lens<V, uint64_t> e = l;
    uint64_t p = any_bool("same") ? uf("g", w.id) : lv_any("p");
    lv_assert(do_view<uint64_t>(e, w) == uf("g", w.id), "view");
    lv_assert(do_set(e, w, p).id == uf("s", w.id, p), "set");
    lv_assert(V(lager::over(e, w, [](uint64_t x) { return uf("f", x); })).id == uf("s", w.id, uf("f", uf("g", w.id))), "over");
    uint64_t n = lv_any("n");
    lager::lens<uint64_t, W> f = getset([](uint64_t w) { return W{uf("g", w)}; }, [](uint64_t w, const W& p) { return uf("s", w, p.id); });
    W q{any_id("q")};
    lv_assert(do_view<W>(f, n).id == uf("g", n) && do_set(f, n, q) == uf("s", n, q.id), "of a scalar");
}
LV_CONTRACT(type_erased_partial)
{
    using O = std::optional<uint64_t>;
    O o     = any_opt<uint64_t>("o", [] { return uint64_t(lv_any("o")); });
    auto d = lv_any("default"), p = lv_any("p");
    lager::lens<O, uint64_t> e = value_or(d);
    lv_assert(do_view<uint64_t>(e, o) == (o ? *o : d), "view");
    lv_assert(do_set(e, o, p) == O{p}, "set, even to the default");
    using OS = std::optional<S>;
    using OV = std::optional<V>;
    OS s = any_opt<S>("s", [] { return any_S("s"); });
    OV v = any_opt<V>("v", [] { return any("v"); });
    lager::lens<OS, OV> g = with_opt(attr(&S::x));
    OS x = s;
    if (x && v)
        x->x = *v;
    lv_assert(do_view<OV>(g, s) == (s ? OV{s->x} : OV{}) && do_set(g, s, v) == x, "optional");
}
LV_CONTRACT(type_erased_composes)
{
    auto w = any("w");
    V2 p{any_id("p")};
    lager::lens<V, W> a  = ul<W, V>("g1", "s1");
    lager::lens<W, V2> b = ul<V2, W>("g2", "s2");
    lager::lens<V, V2> l = zug::comp(a, b);
    lv_assert(do_view<V2>(l, w).id == uf("g2", uf("g1", w.id)), "view");
    lv_assert(do_set(l, w, p).id == uf("s1", w.id, uf("s2", uf("g1", w.id), p.id)), "set");
}
LV_CONTRACT(type_erased_attr)
{
    auto w = any_T("w");
    lager::lens<T, W> l = attr(&T::s) | attr(&S::y);
    laws<W>(l, w, any<W>("p"), any<W>("q"));
}
// lenses are values without memory
LV_CONTRACT(compositions_keep_nothing)
{
    auto a = any_T("a"), b = any_T("b");
    independent<W>(attr(&T::s) | attr(&S::y), a, b, any<W>("p"));
    using P2 = std::tuple<V2, W>;
    independent<P2>(attr(&T::b, &T::a), a, b, P2{any<V2>("p"), any<W>("q")});
    using Wh = std::tuple<S, T>;
    using P  = std::tuple<V, W>;
    independent<P>(zip(attr(&S::x), attr(&T::a)), Wh{a.s, a}, Wh{b.s, b}, P{any("p"), any<W>("q")});
}
LV_CONTRACT(type_erased_keeps_nothing)
{
    auto a = any_T("a"), b = any_T("b");
    lager::lens<T, W> l = attr(&T::s) | attr(&S::y);
    independent<W>(l, a, b, any<W>("p"));
}
LV_CONTRACT(type_erased_partial_keeps_nothing)
{
    auto o = any_opt<S>("o", [] { return any_S("o"); }), q = any_opt<S>("q", [] { return any_S("q"); });
    using OS = std::optional<S>;
    using OW = std::optional<W>;
    lager::lens<OS, OW> e = with_opt(attr(&S::y));
    independent<OW>(e, o, q, any_opt<W>("p", [] { return any<W>("p"); }));
}
LV_CONTRACT(type_erased_objects_are_their_own)
{
    lager::lens<V, W> x = ul<W, V>("g1", "s1"), y = ul<W, V>("g2", "s2");
    V w1 = any("w1"), w2 = any("w2");
    W p{any_id("p")};
    lv_assert(do_view<W>(x, w1).id == uf("g1", w1.id) && do_view<W>(y, w1).id == uf("g2", w1.id), "views");
    lv_assert(do_set(x, w1, p).id == uf("s1", w1.id, p.id) && do_set(y, w2, p).id == uf("s2", w2.id, p.id), "sets");
    lv_assert(do_view<W>(x, w2).id == uf("g1", w2.id), "of others");
}

// lenses that are given by name are copied, and still work
namespace {
template <typename F>
struct kept
{
    F fn;
    bool gone = false;
    explicit kept(F f)
        : fn(f)
    {}
    kept(const kept&) = default;
    kept(kept&& o)
        : fn(o.fn)
        , gone(o.gone)
    {
        o.gone = true;
    }
    template <typename... Ts>
    auto operator()(Ts&&... xs) const
    {
        lv_assert(!gone, "no function is used after it was moved from");
        return fn(static_cast<Ts&&>(xs)...);
    }
};
} // namespace
LV_CONTRACT(given_lenses_stay_usable)
{
    auto gw = [](const W& w) { return W{uf("g", w.id)}; };
    auto sw = [](const W& w, const W& p) { return W{uf("s", w.id, p.id)}; };
    auto l  = getset(kept<decltype(gw)>{gw}, kept<decltype(sw)>{sw});
    auto w  = any<W>("w");
    auto p  = any<W>("p");
    for (int i = 0; i < 2; ++i) {
        auto c = l | l;
        auto d = zug::comp(l, l);
        lv_assert(lager::view(c, w).id == uf("g", uf("g", w.id)) && lager::view(d, w) == lager::view(c, w), "composed");
        using T = std::tuple<W, W>;
        auto z  = zip(l, l);
        lv_assert(T(lager::view(z, T{w, p})) == (T{W{uf("g", w.id)}, W{uf("g", p.id)}}), "zipped");
        auto f = fan(l, l);
        lv_assert(T(lager::view(f, w)) == (T{W{uf("g", w.id)}, W{uf("g", w.id)}}), "fanned");
        lager::lens<W, W> e{l};
        auto e2 = e;
        auto ce = e | l;
        lv_assert(lager::view(e, w).id == uf("g", w.id) && lager::view(e2, w).id == uf("g", w.id), "erased");
        lv_assert(lager::view(ce, w).id == uf("g", uf("g", w.id)), "erased and composed");
        auto o  = with_opt(l);
        auto o2 = map_opt(l);
        std::optional<W> ow{w};
        lv_assert(lager::view(o, ow)->id == uf("g", w.id) && lager::view(o2, ow)->id == uf("g", w.id), "of optionals");
        lv_assert(lager::view(l, w).id == uf("g", w.id), "view");
        lv_assert(W(lager::set(l, w, p)).id == uf("s", w.id, p.id), "set");
    }
}

// ... and everything the same when it happens again
LV_CONTRACT(zip_is_componentwise_again)
{
    lvc_zip_is_componentwise();
    lvc_zip_is_componentwise();
}
LV_CONTRACT(fan_views_each_again)
{
    lvc_fan_views_each();
    lvc_fan_views_each();
}
LV_CONTRACT(type_erased_composes_again)
{
    lvc_type_erased_composes();
    lvc_type_erased_composes();
}
LV_CONTRACT(type_erased_keeps_nothing_again)
{
    lvc_type_erased_keeps_nothing();
    lvc_type_erased_keeps_nothing();
}
LV_CONTRACT(given_lenses_stay_usable_again)
{
    lvc_given_lenses_stay_usable();
    lvc_given_lenses_stay_usable();
}
LV_CONTRACT(fan_laws_again)
{
    lvc_fan_laws();
    lvc_fan_laws();
}
LV_CONTRACT(type_erased_partial_keeps_nothing_again)
{
    lvc_type_erased_partial_keeps_nothing();
    lvc_type_erased_partial_keeps_nothing();
}
