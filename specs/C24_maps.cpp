// Maps and sets through an archive.
// LV_FLAGS: -include lv_inline_std.h
#include "cereal_ghost.h"
#include <lager/extra/cereal/immer_map.hpp>
#include <lager/extra/cereal/immer_set.hpp>
#include <lager/extra/cereal/optional_nvp.hpp>
using namespace lv;

namespace {
// keys that are all in different places of the table, or all in the same one
struct spread
{
    size_t operator()(const V& v) const { return v.id; }
};
struct collide
{
    size_t operator()(const V&) const { return 7; }
};
struct with_id
{
    V id;
    W val;
    friend bool operator==(const with_id& a, const with_id& b) { return a.id == b.id && a.val == b.val; }
    friend bool operator!=(const with_id& a, const with_id& b) { return !(a == b); }
    template <typename Ar>
    void serialize(Ar& ar)
    {
        ar(id, val);
    }
};
template <typename Hash>
V any_key(const char* n)
{
    if constexpr (std::is_same_v<Hash, spread>) {
        static constexpr uint64_t ks[] = {0, 1, 33, 1ull << 40};
        return V{ks[pick(n, 4)]};
    } else
        return any(n);
}
struct plain_traits
{
    template <typename H>
    using map = immer::map<V, W, H>;
    template <typename M>
    static M add(M m, const V& k, const W& w)
    {
        return m.set(k, w);
    }
    static W val(const W& w) { return w; }
};
struct id_traits
{
    template <typename H>
    using map = immer::map<V, with_id, H>;
    template <typename M>
    static M add(M m, const V& k, const W& w)
    {
        return m.set(k, with_id{k, w});
    }
    static W val(const with_id& w) { return w.val; }
};
template <typename Tr, typename H>
void map_trip(unsigned nx, unsigned ny)
{
    using M = typename Tr::template map<H>;
    M x, y;
    V k[3];
    W w[3];
    unsigned n = pick("nx", nx), m = pick("ny", ny);
    for (unsigned i = 0; i < n; ++i) {
        k[i] = any_key<H>("k");
        w[i] = any<W>("w");
        x    = Tr::add(x, k[i], w[i]);
    }
    for (unsigned i = 0; i < m; ++i)
        y = Tr::add(y, any_key<H>("k"), any<W>("w"));
    M z    = y;
    auto s = z.size();
    tape t;
    {
        gout o{t};
        o(x);
    }
    gin i{t};
    i(y);
    lv_assert(i.done(), "all of it is read");
    lv_assert(y.size() == x.size(), "as many associations");
    for (unsigned j = 0; j < n; ++j) {
        auto p = y.find(k[j]), q = x.find(k[j]);
        lv_assert(p && q && *p == *q, "every association");
    }
    lv_assert(z.size() == s, "a snapshot of the target does not change");
    lv_cover("end");
}
template <typename M, typename... Ts>
bool load_throws(M& m, uint64_t n, const Ts&... xs)
{
    tape t;
    {
        gout o{t};
        o(cereal::make_size_tag(n), xs...);
    }
    gin i{t};
    try {
        i(m);
    } catch (const archive_mismatch&) {
        lv_assert(false, "reads what is there");
    } catch (const std::exception&) {
        return true;
    }
    return false;
}
} // namespace

LV_BOUNDED(maps_spread) { map_trip<plain_traits, spread>(4, 2); }
LV_BOUNDED(maps_collide) { map_trip<plain_traits, collide>(4, 2); }
LV_BOUNDED(auto_id_maps_spread) { map_trip<id_traits, spread>(4, 2); }
LV_BOUNDED(auto_id_maps_collide) { map_trip<id_traits, collide>(4, 2); }

namespace {
template <typename H>
void set_trip()
{
    immer::set<V, H> x, y;
    V k[3];
    unsigned n = pick("nx", 4), m = pick("ny", 2);
    for (unsigned i = 0; i < n; ++i) {
        k[i] = any_key<H>("k");
        x    = x.insert(k[i]);
    }
    for (unsigned i = 0; i < m; ++i)
        y = y.insert(any_key<H>("k"));
    tape t;
    {
        gout o{t};
        o(x);
    }
    gin i{t};
    i(y);
    lv_assert(i.done() && y.size() == x.size(), "as many elements");
    for (unsigned j = 0; j < n; ++j)
        lv_assert(y.count(k[j]) == 1, "every element");
    lv_cover("end");
}
} // namespace
LV_BOUNDED(sets_spread) { set_trip<spread>(); }
LV_BOUNDED(sets_collide) { set_trip<collide>(); }

// loading something that has a key twice fails loudly
LV_CONTRACT(duplicates)
{
    V a = any("a"), b = any("b");
    W w = any<W>("w"), u = any<W>("u");
    bool dup = a == b;
    immer::set<V, collide> s;
    lv_assert(load_throws(s, 2, a, b) == dup, "set");
    immer::map<V, W, collide> m;
    lv_assert(load_throws(m, 2, cereal::make_map_item(a, w), cereal::make_map_item(b, u)) == dup, "map");
    immer::map<V, with_id, collide> mi;
    lv_assert(load_throws(mi, 2, with_id{a, w}, with_id{b, u}) == dup, "map of things with id");
    if (!dup) {
        lv_assert(m.size() == 2 && m[a] == w && m[b] == u, "both associations");
        lv_assert(mi.size() == 2 && mi[a].val == w && mi[b].val == u, "both things");
        lv_assert(s.size() == 2 && s.count(a) && s.count(b), "both elements");
    }
    lv_cover("end");
}

// an element of which a member is absent is the one it was made as, not what was
// read before it
namespace {
struct made
{
    V id  = V{100};
    W val = W{101};
    template <typename Ar>
    void serialize(Ar& ar)
    {
        ar(cereal::make_nvp("id", id));
        cereal::serialize_optional_nvp(ar, "val", val);
    }
};
template <typename M, typename Write>
void absent_in_values(Write write)
{
    tape t;
    gout s{t};
    V k[2];
    W w[2];
    bool h[2];
    s(cereal::make_size_tag(cereal::size_type{2}));
    for (int i = 0; i < 2; ++i) {
        k[i] = any_key<collide>("k");
        w[i] = any<W>("w");
        h[i] = any_bool("has");
        write(s, k[i], w[i], h[i]);
    }
    lv_assume(k[0] != k[1]);
    M m = M{}.set(any_key<collide>("k"), made{V{5}, any<W>("w")});
    gin i{t};
    i(m);
    lv_assert(i.done() && m.size() == 2, "both are read");
    for (int j = 0; j < 2; ++j) {
        auto e = m.find(k[j]);
        lv_assert(e, "under its key");
        if (e)
            lv_assert(e->val == (h[j] ? w[j] : W{101}), "its own value, or the one it was made with");
    }
    lv_cover("end");
}
} // namespace
LV_BOUNDED(absent_in_values_by_id)
{
    absent_in_values<immer::map<V, made, collide>>([](gout& s, V k, W w, bool has) {
        s(cereal::make_nvp("id", k));
        if (has)
            s(cereal::make_nvp("val", w));
    });
}
struct no_id
{
    V key = V{100};
    W val = W{101};
    no_id() = default;
    no_id(const made& m)
        : val(m.val)
    {}
    template <typename Ar>
    void serialize(Ar& ar)
    {
        cereal::serialize_optional_nvp(ar, "val", val);
    }
};
LV_BOUNDED(absent_in_values_by_key)
{
    absent_in_values<immer::map<V, no_id, collide>>([](gout& s, V k, W w, bool has) {
        s(cereal::make_nvp("key", k));
        if (has)
            s(cereal::make_nvp("val", w));
    });
}
