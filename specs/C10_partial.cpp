// Laws of the partial lenses: optional lifting, variants, keyed access.
#include "at_laws.h"
#include "rb_tree.h"
#include <map>
#include <unordered_map>
#include <vector>


LV_CONTRACT(with_opt_total_lens)
{
    auto w = any_os("w");
    partial_laws<W>(with_opt(attr(&S::y)), w, any_ow("p"), w.has_value());
    OW v = lager::view(with_opt(attr(&S::y)), w);
    lv_assert(!w || *v == w->y, "views the member");
}
LV_CONTRACT(map_opt_total_lens)
{
    auto w = any_os("w");
    partial_laws<V>(map_opt(attr(&S::z)), w, any_ov("p"), w.has_value());
}
namespace {
struct Q
{
    OV o;
    W y;
    friend bool operator==(const Q& a, const Q& b) { return a.o == b.o && a.y == b.y; }
};
using OQ = std::optional<Q>;
OQ any_oq(const char* n)
{
    return any_opt<Q>(n, [] { return Q{any_ov("inner"), any<W>("y")}; });
}
// absent inner value: attr onto an optional member is total, so setting a value
// into a present whole stores it
template <typename L>
void bind_laws(const L& l)
{
    auto w = any_oq("w");
    auto p = any_ov("p");
    OV v   = do_view<OV>(l, w);
    lv_assert(v == (w ? w->o : OV{}), "views the member, or nothing");
    OQ r = do_set(l, w, p);
    OQ e = w;
    if (w && p)
        e->o = p;
    lv_assert(r == e, "stores a value into a present whole, otherwise changes nothing");
}
} // namespace
LV_CONTRACT(with_opt_optional_lens) { bind_laws(with_opt(attr(&Q::o))); }
LV_CONTRACT(bind_opt_optional_lens) { bind_laws(bind_opt(attr(&Q::o))); }
LV_CONTRACT(map_opt_optional_lens)
{
    // map_opt adds a level: the part is an optional of the optional member
    auto w = any_oq("w");
    using OOV = std::optional<OV>;
    auto l    = map_opt(attr(&Q::o));
    OOV v     = do_view<OOV>(l, w);
    lv_assert(v.has_value() == w.has_value() && (!w || *v == w->o), "nested optional");
    OOV p;
    if (any_bool("outer"))
        p.emplace(any_ov("p"));
    OQ r = do_set(l, w, p);
    OQ e = w;
    if (w && p)
        e->o = *p;
    lv_assert(r == e, "stores the inner optional");
}

// a part of the same type as the whole is still a part of it
LV_CONTRACT(bind_opt_of_the_same_type)
{
    auto opt = [](uint64_t id, const char* h, const char* v) { return uf(h, id) & 1 ? OV{V{uf(v, id)}} : OV{}; };
    auto in  = getset([=](const V& x) { return opt(x.id, "has next", "next"); },
                     [](const V& x, const OV& n) { return V{uf("relinked", x.id, n ? n->id : 0, !!n)}; });
    auto w   = any_ov("w"), p = any_ov("p");
    auto check = [&](auto&& l) {
        lv_assert(do_view<OV>(l, w) == (w ? opt(w->id, "has next", "next") : OV{}), "the part of what is there");
        OV e = w;
        if (w && p)
            e = V{uf("relinked", w->id, p->id, 1)};
        lv_assert(do_set(l, w, p) == e, "set in what is there, and else nothing");
    };
    if (any_bool("with"))
        check(with_opt(in));
    else
        check(bind_opt(in));
}
LV_CONTRACT(value_or_laws)
{
    auto w = any_ov("w");
    auto d = any("d"), p = any("p");
    auto l = value_or(d);
    lv_assert(do_view<V>(l, w) == (w ? *w : d), "value or the given default");
    lv_assert(do_set(l, w, p) == OV{p}, "set stores the value");
    lv_assert(do_view<V>(l, do_set(l, w, p)) == p, "set then get");
    lv_assert(!w || do_set(l, w, *w) == w, "get then set");
}
LV_CONTRACT(or_default_laws)
{
    auto w = any_ov("w");
    auto p = any("p");
    lv_assert(do_view<V>(or_default, w) == (w ? *w : V{}), "value or a default constructed one");
    lv_assert(do_set(or_default, w, p) == OV{p}, "set stores the value");
}
LV_CONTRACT(force_opt_laws)
{
    auto w = any("w");
    auto p = any_ov("p");
    lv_assert(do_view<OV>(force_opt, w) == OV{w}, "always present");
    lv_assert(do_set(force_opt, w, p) == (p ? *p : w), "setting nothing keeps the value");
    auto q = any("q");
    lv_assert(do_set(force_opt, w, q) == q, "a plain value can be set");
    V k = lager::over(force_opt, V{w}, [](OV o) { return OV{}; });
    lv_assert(k == w, "over with nothing keeps the value");
}
LV_CONTRACT(force_opt_composed)
{
    auto w = any_S("w");
    auto p = any_ow("p");
    auto l = force_opt | with_opt(attr(&S::y));
    lv_assert(do_view<OW>(l, w) == OW{w.y}, "views the member");
    auto e = w;
    if (p)
        e.y = *p;
    lv_assert(do_set(l, w, p) == e, "sets a present part, keeps everything otherwise");
}

// variants
namespace {
using Va = std::variant<V, W, S>;
Va any_va(const char* n)
{
    switch (pick(n, 3)) {
    case 0: return any("v0");
    case 1: return any<W>("v1");
    default: return any_S("v2");
    }
}
} // namespace
LV_CONTRACT(alternative_laws)
{
    auto w = any_va("w");
    partial_laws<W>(alternative<W>, w, any_ow("p"), std::holds_alternative<W>(w));
}
LV_CONTRACT(alternative_struct)
{
    auto w = any_va("w");
    partial_laws<S>(alternative<S>, w, any_os("p"), std::holds_alternative<S>(w));
}
LV_CONTRACT(alternative_then_member)
{
    auto w = any_va("w");
    partial_laws<V>(alternative<S> | with_opt(attr(&S::z)), w, any_ov("p"), std::holds_alternative<S>(w));
}
LV_CONTRACT(optional_inside_rvalue_member)
{
    // a total lens in front: parts are reached through an rvalue
    struct
    {
    } dummy;
    (void) dummy;
    std::tuple<OS, V> w{any_os("o"), any("v")};
    auto p = any_ow("p");
    auto l = first | with_opt(attr(&S::y));
    auto r = do_set(l, w, p);
    auto e = w;
    if (std::get<0>(e) && p)
        std::get<0>(e)->y = *p;
    lv_assert(r == e, "exactly the member changes, and only if both are present");
}

LV_CONTRACT(at_mutable_container) { at_laws(any_map2()); }
LV_CONTRACT(at_persistent_container) { at_laws(pmap2{any_map2()}); }
LV_CONTRACT(at_table_container) { table_laws(table2{any_map2()}); }
LV_CONTRACT(at_or_mutable_container) { at_or_laws(any_map2()); }
LV_CONTRACT(at_or_persistent_container) { at_or_laws(pmap2{any_map2()}); }

// lenses are values without memory
LV_CONTRACT(partial_lenses_keep_nothing)
{
    auto a = any_os("a"), b = any_os("b");
    auto p = any_ow("p");
    if (any_bool("with_opt"))
        independent<OW>(with_opt(attr(&S::y)), a, b, p);
    else
        independent<OW>(map_opt(attr(&S::y)), a, b, p);
}
LV_CONTRACT(bind_opt_keeps_nothing)
{
    OQ c = any_oq("c"), d = any_oq("d");
    independent<OV>(bind_opt(attr(&Q::o)), c, d, any_ov("p"));
}
LV_CONTRACT(defaulting_lenses_keep_nothing)
{
    auto a = any_ov("a"), b = any_ov("b");
    auto l = value_or(any("d"));
    V v1 = lager::view(l, a), v2 = lager::view(l, b);
    OV r = lager::set(l, a, any("p"));
    lv_assert(V(lager::view(l, a)) == v1 && V(lager::view(l, b)) == v2, "views are repeatable");
    V o1 = lager::view(or_default, OV{a}), o2 = lager::view(or_default, b);
    lv_assert(o1 == (a ? *a : V{}) && o2 == (b ? *b : V{}), "of rvalues too");
    independent<OV>(force_opt, any("a"), any("b"), any_ov("p"));
}
LV_CONTRACT(alternative_keeps_nothing)
{
    independent<OW>(alternative<W>, any_va("a"), any_va("b"), any_ow("p"));
}
LV_CONTRACT(at_keeps_nothing)
{
    auto a = any_map2(), b = any_map2();
    independent<OV>(at(lv_any("k")), a, b, any_ov("p"));
}
LV_CONTRACT(at_or_keeps_nothing)
{
    auto a = any_map2();
    auto d = any("d");
    auto k = lv_any("k");
    auto l = at_or(k, d);
    V e = a.contains(k) ? a.at(k) : d;
    lv_assert(V(lager::view(l, a)) == e && V(lager::view(l, a)) == e && do_view<V>(l, a) == e, "views are repeatable");
    map2 r = do_set(l, a, any("p"));
    lv_assert(do_view<V>(l, a) == e, "also after a set");
    auto l2 = at_or(k);
    e       = a.contains(k) ? a.at(k) : V{};
    lv_assert(V(lager::view(l2, a)) == e && do_view<V>(l2, a) == e, "without a default, too");
}

// real containers, sizes up to 3
LV_BOUNDED(at_std_vector) { vector_laws<std::vector<V>>(3); }
LV_BOUNDED(at_std_map)
{
    std::map<uint64_t, V> w;
    unsigned n = pick("size", 3);
    for (unsigned i = 0; i < n; ++i)
        w.emplace(lv_any("key"), any("elem"));
    auto k = lv_any("k");
    partial_laws<V>(at(k), w, any_ov("p"), w.count(k) > 0);
}

// ... and everything the same when it happens again
LV_CONTRACT(or_default_laws_again)
{
    lvc_or_default_laws();
    lvc_or_default_laws();
}
LV_CONTRACT(force_opt_composed_again)
{
    lvc_force_opt_composed();
    lvc_force_opt_composed();
}
LV_CONTRACT(optional_inside_rvalue_member_again)
{
    lvc_optional_inside_rvalue_member();
    lvc_optional_inside_rvalue_member();
}
LV_CONTRACT(defaulting_lenses_keep_nothing_again)
{
    lvc_defaulting_lenses_keep_nothing();
    lvc_defaulting_lenses_keep_nothing();
}
LV_CONTRACT(with_opt_optional_lens_again)
{
    lvc_with_opt_optional_lens();
    lvc_with_opt_optional_lens();
}
LV_CONTRACT(bind_opt_optional_lens_again)
{
    lvc_bind_opt_optional_lens();
    lvc_bind_opt_optional_lens();
}
LV_CONTRACT(map_opt_optional_lens_again)
{
    lvc_map_opt_optional_lens();
    lvc_map_opt_optional_lens();
}
LV_CONTRACT(force_opt_laws_again)
{
    lvc_force_opt_laws();
    lvc_force_opt_laws();
}
