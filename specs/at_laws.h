// Laws of lenses on optional parts, and of keyed access.
#pragma once
#include "lens_laws.h"
using namespace lv;
using namespace lager::lenses;

namespace {
using OV = std::optional<V>;
using OW = std::optional<W>;
using OS = std::optional<S>;
OV any_ov(const char* n) { return any_opt<V>(n, [] { return any("val"); }); }
OW any_ow(const char* n) { return any_opt<W>(n, [] { return any<W>("val"); }); }
OS any_os(const char* n) { return any_opt<S>(n, [] { return any_S("val"); }); }

// laws of a lens onto an optional part: setting an absent part never destroys
// anything, setting into an absent whole does nothing
template <typename P, typename L, typename Wh>
void partial_laws(const L& l, const Wh& w, const std::optional<P>& p, bool present)
{
    using O = std::optional<P>;
    O v     = do_view<O>(l, w);
    lv_assert(v.has_value() == present, "present iff there");
    Wh r = do_set(l, w, p);
    if (!present || !p) {
        lv_assert(r == w, "setting nothing, or into nothing, changes nothing");
    } else {
        lv_assert(do_view<O>(l, r) == p, "set then get gives the part set");
        Wh rr = lager::set(l, r, v);
        lv_assert(rr == w, "setting back what was there restores the whole");
    }
    lv_assert(do_set(l, w, v) == w, "setting what is there changes nothing");
}
} // namespace

// keyed access.  A finite map with two representative keys: the one the lens
// touches may or may not be one of them.
namespace {
struct map2
{
    uint64_t k[2];
    V v[2];
    bool has[2];
    V& at(uint64_t key)
    {
        if (has[0] && k[0] == key)
            return v[0];
        if (has[1] && k[1] == key)
            return v[1];
#ifdef LAGER_NO_EXCEPTIONS
        lv_assert(false, "without exceptions, absent keys are not asked for");
#endif
        throw std::out_of_range("at");
    }
    const V& at(uint64_t key) const { return const_cast<map2*>(this)->at(key); }
    std::size_t count(uint64_t key) const { return contains(key); }
    bool contains(uint64_t key) const { return (has[0] && k[0] == key) || (has[1] && k[1] == key); }
    friend bool operator==(const map2& a, const map2& b)
    {
        for (int i = 0; i < 2; ++i)
            if (a.has[i] != b.has[i] || a.k[i] != b.k[i] || !(a.v[i] == b.v[i]))
                return false;
        return true;
    }
};
map2 any_map2()
{
    map2 m;
    for (int i = 0; i < 2; ++i) {
        m.k[i]   = lv_any("key");
        m.v[i]   = any("elem");
        m.has[i] = any_bool("has");
    }
    lv_assume(m.k[0] != m.k[1]);
    return m;
}
// the same with persistent updates (the immer interface)
struct pmap2 : map2
{
    pmap2(const map2& m)
        : map2(m)
    {}
    const V& at(uint64_t key) const { return map2::at(key); }
    pmap2 set(uint64_t key, V x) const
    {
        auto r = *this;
        if (r.contains(key))
            r.map2::at(key) = x;
        else
            lv_assert(false, "set is only used on present keys");
        return r;
    }
};
template <typename Wh>
void at_laws(const Wh& w)
{
    auto k = lv_any("k");
    auto p = any_ov("p");
    partial_laws<V>(at(k), w, p, w.contains(k));
    OV v = lager::view(at(k), w);
    lv_assert(!v || *v == w.at(k), "views the element");
    Wh r = do_set(at(k), w, p);
    Wh e = w;
    for (int i = 0; i < 2; ++i)
        if (e.has[i] && e.k[i] == k && p)
            e.v[i] = *p;
    lv_assert(r == e, "exactly that element changes");
    if (p) {
        Wh r2 = do_set(at(k), w, *p); // a plain value also converts
        lv_assert(r2 == e, "a plain value can be set");
    }
}
template <typename Wh>
void at_or_laws(const Wh& w)
{
    auto k = lv_any("k");
    auto p = any("p"), d = any("d");
    auto l = at_or(k, d);
    V v    = do_view<V>(l, w);
    lv_assert(v == (w.contains(k) ? w.at(k) : d), "the element, or the default");
    Wh r = do_set(l, w, p);
    Wh e = w;
    for (int i = 0; i < 2; ++i)
        if (e.has[i] && e.k[i] == k)
            e.v[i] = p;
    lv_assert(r == e, "exactly that element changes, absent keys are not added");
    V v2 = do_view<V>(at_or(k), w);
    lv_assert(v2 == (w.contains(k) ? w.at(k) : V{}), "the element, or a default constructed value");
    lv_assert(do_set(at_or(k), w, p) == e, "exactly that element changes (no default)");
}
// a container whose elements carry their key (the interface of immer::table)
struct table2 : map2
{
    table2(const map2& m)
        : map2(m)
    {}
    const V& at(uint64_t key) const { return map2::at(key); }
    table2 insert(V x) const
    {
        auto r = *this;
        auto k = uf("key of", x.id);
        for (int i = 0; i < 2; ++i)
            if (r.has[i] && r.k[i] == k) {
                r.v[i] = x;
                return r;
            }
        for (int i = 0; i < 2; ++i)
            if (!r.has[i]) {
                r.has[i] = true;
                r.k[i]   = k;
                r.v[i]   = x;
                return r;
            }
        lv_assume(false);
        return r;
    }
};
inline void table_laws(const table2& w)
{
    auto k = lv_any("k");
    auto p = any_ov("p");
    OV v   = do_view<OV>(at(k), w);
    lv_assert(v.has_value() == w.contains(k) && (!v || *v == w.at(k)), "the element, if it is there");
    table2 e = p ? w.insert(*p) : w;
    table2 r = do_set(at(k), w, p);
    lv_assert(r == e, "an element is put where it belongs, nothing else changes");
}
template <typename Wh>
void vector_laws(unsigned most)
{
    Wh w;
    unsigned n = pick("size", most + 1);
    for (unsigned i = 0; i < n; ++i)
        w.push_back(any("elem"));
    unsigned k = pick("k", most + 2);
    partial_laws<V>(at(k), w, any_ov("p"), k < n);
    auto d = any("d");
    V v    = do_view<V>(at_or(k, d), w);
    lv_assert(v == (k < n ? w[k] : d), "element or default");
    auto p = any("q");
    auto r = do_set(at_or(k, d), w, p);
    auto e = w;
    if (k < n)
        e[k] = p;
    lv_assert(r == e, "exactly that element changes");
}
} // namespace
