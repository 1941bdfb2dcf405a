// Containers of any size: every element is written, in order, and all of them
// are read back.
// LV_STUBS: immer_any
#include "cereal_ghost.h"
#include <lager/extra/cereal/immer_array.hpp>
#include <lager/extra/cereal/immer_box.hpp>
#include <lager/extra/cereal/immer_flex_vector.hpp>
#include <lager/extra/cereal/immer_map.hpp>
#include <lager/extra/cereal/immer_set.hpp>
#include <lager/extra/cereal/immer_vector.hpp>
using namespace lv;

namespace {
struct item
{
    V id;
    W w;
    bool operator==(const item& o) const { return id == o.id && w == o.w; }
};
template <typename Ar>
void serialize(Ar& ar, item& x)
{
    ar(x.id, x.w);
}
V key(uint64_t i) { return V{lv_uf1("key", i)}; }
W val(uint64_t i) { return W{lv_uf1("value", i)}; }
} // namespace
namespace lv {
#ifndef LV_VERIFY
template <typename T>
struct elem_of;
#endif
template <>
struct elem_of<V>
{
    static V make(uint64_t i) { return key(i); }
    static bool is(const V& x, uint64_t i) { return x == key(i); }
};
template <>
struct elem_of<immer::box<V>>
{
    static immer::box<V> make(uint64_t i) { return immer::box<V>{key(i)}; }
    static bool is(const immer::box<V>& x, uint64_t i) { return *x == key(i); }
};
template <>
struct elem_of<std::pair<V, W>>
{
    static std::pair<V, W> make(uint64_t i) { return {key(i), val(i)}; }
    static bool is(const std::pair<V, W>& x, uint64_t i) { return (unsigned(x.first == key(i)) & unsigned(x.second == val(i))) != 0; }
};
template <>
struct elem_of<std::pair<V, item>>
{
    static std::pair<V, item> make(uint64_t i) { return {key(i), item{key(i), val(i)}}; }
    static bool is(const std::pair<V, item>& x, uint64_t i)
    {
        return (unsigned(x.first == key(i)) & unsigned(x.second.id == key(i)) & unsigned(x.second.w == val(i))) != 0;
    }
};

#ifdef LV_VERIFY
// what has been written so far: the size n, and then this many keys and values
// of the unknown sequence, in turns (or only keys), or something else
struct any_tape
{
    uint64_t sizes = 0, n = 0, keys = 0, vals = 0;
    bool ok = true;
    void and_(bool b) { ok = (unsigned(ok) & unsigned(b)) != 0; }
    bool complete(uint64_t size, bool values) const
    {
        return ok && sizes == 1 && n == size && keys == size && vals == (values ? size : 0);
    }
};
struct aout : cereal::OutputArchive<aout>
{
    any_tape t;
    aout()
        : cereal::OutputArchive<aout>(this)
    {
    }
};
// reads a tape that holds the first n elements
struct ain : cereal::InputArchive<ain>
{
    any_tape t;
    uint64_t n;
    ain(uint64_t n_)
        : cereal::InputArchive<ain>(this)
        , n(n_)
    {
    }
};
inline void CEREAL_SAVE_FUNCTION_NAME(aout& ar, const V& x)
{
    ar.t.and_(x == key(ar.t.keys));
    ar.t.and_(ar.t.sizes == 1);
    ar.t.keys++;
}
inline void CEREAL_SAVE_FUNCTION_NAME(aout& ar, const W& x)
{
    ar.t.and_(x == val(ar.t.vals));
    ar.t.and_(ar.t.vals + 1 == ar.t.keys);
    ar.t.vals++;
}
inline void CEREAL_LOAD_FUNCTION_NAME(ain& ar, V& x)
{
    ar.t.and_(ar.t.sizes == 1);
    x = key(ar.t.keys++);
}
inline void CEREAL_LOAD_FUNCTION_NAME(ain& ar, W& x)
{
    ar.t.and_(ar.t.vals + 1 == ar.t.keys);
    x = val(ar.t.vals++);
}
#endif
} // namespace lv
#ifdef LV_VERIFY
namespace cereal {
template <typename T>
void CEREAL_SAVE_FUNCTION_NAME(lv::aout& ar, const SizeTag<T>& v)
{
    ar.t.sizes++;
    ar.t.n = v.size;
}
template <typename T>
void CEREAL_LOAD_FUNCTION_NAME(lv::ain& ar, SizeTag<T>& v)
{
    ar.t.sizes++;
    v.size = ar.t.n = ar.n;
}
template <typename T>
void CEREAL_SAVE_FUNCTION_NAME(lv::aout& ar, const NameValuePair<T>& v)
{
    ar(v.value);
}
template <typename T>
void CEREAL_LOAD_FUNCTION_NAME(lv::ain& ar, NameValuePair<T>& v)
{
    ar(v.value);
}
} // namespace cereal
CEREAL_SETUP_ARCHIVE_TRAITS(lv::ain, lv::aout)
#endif

namespace {
template <typename C, typename Add>
void any_trip(bool values, Add add)
{
    uint64_t n = lv_len("elements"), m = lv_len("elements before");
#ifdef LV_VERIFY
    C x, y;
    x.g_.n  = n;
    y.g_.n  = m;
    y.g_.ok = any_bool("other elements");
    aout o;
    o(x);
    lv_assert(o.t.complete(n, values), "all elements are written, in order");
    ain i{n};
    i(y);
    lv_assert(i.t.complete(n, values), "exactly what was written is read");
    lv_assert(y.g_.n == n && y.g_.ok, "these are its elements then");
#else
    C x, y;
    for (uint64_t i = 0; i < n % 120; ++i)
        x = add(x, i);
    for (uint64_t i = 0; i < m % 7; ++i)
        y = add(y, 1000 + i);
    tape t; 
    gout o{t};
    o(x);
    gin i{t};
    i(y);
    lv_assert(i.done() && x == y, "these are its elements then");
#endif
}
template <typename S>
void any_sequence_trip()
{
    any_trip<S>(false, [](auto&& s, uint64_t i) { return s.push_back(elem_of<typename S::value_type>::make(i)); });
}
struct hash
{
    std::size_t operator()(const V& v) const { return v.id; }
};
} // namespace
LV_CONTRACT(any_vector) { any_sequence_trip<immer::vector<V>>(); }
LV_CONTRACT(any_flex_vector) { any_sequence_trip<immer::flex_vector<V>>(); }
LV_CONTRACT(any_array) { any_sequence_trip<immer::array<V>>(); }
LV_CONTRACT(any_boxed_vector) { any_sequence_trip<immer::vector<immer::box<V>>>(); }
LV_CONTRACT(any_boxed_flex_vector) { any_sequence_trip<immer::flex_vector<immer::box<V>>>(); }
LV_CONTRACT(any_set)
{
    using M = immer::set<V, hash>;
    any_trip<M>(false, [](auto&& s, uint64_t i) { return s.insert(key(i)); });
}
LV_CONTRACT(any_map)
{
    using M = immer::map<V, W, hash>;
    any_trip<M>(true, [](auto&& s, uint64_t i) { return s.set(key(i), val(i)); });
}
LV_CONTRACT(any_map_by_id)
{
    using M = immer::map<V, item, hash>;
    any_trip<M>(true, [](auto&& s, uint64_t i) { return s.set(key(i), item{key(i), val(i)}); });
}
