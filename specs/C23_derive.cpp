// Derived equality, hashing and reflection; enumerations by name.
// LV_FLAGS: -include lv_inline_std.h
#include "lv.h"
#include <lager/extra/derive.hpp>
#include <lager/extra/derive/eq.hpp>
#include <lager/extra/derive/hana.hpp>
#include <lager/extra/derive/hash.hpp>
#include <lager/extra/enum.hpp>
#include <lager/extra/struct.hpp>
#include <boost/hana/at_key.hpp>
#include <boost/hana/for_each.hpp>
#include <boost/hana/keys.hpp>
#include <cstring>
#include <string>
using namespace lv;

namespace std {
template <int T>
struct hash<lv::Val<T>>
{
    size_t operator()(const lv::Val<T>& v) const { return lv_uf1("hash", v.id); }
};
} // namespace std

namespace ns {
struct three
{
    V a;
    W b;
    V c;
};
struct one
{
    V a;
};
struct none
{};
template <typename A, typename B>
struct tpl
{
    A a;
    B b;
};
template <typename A>
struct outer
{
    struct inner
    {
        A x;
        V y;
        LAGER_STRUCT_NESTED(inner, x, y);
    };
};
struct deep
{
    three t;
    W w;
};
struct viastruct
{
    V first;
    V second;
};
enum class color
{
    red,
    green,
    blue = 40
};
enum class flat
{
    one = 7
};
} // namespace ns
LAGER_DERIVE((EQ, HANA, HASH), ns, three, a, b, c);
LAGER_DERIVE((EQ, HANA, HASH), ns, one, a);
LAGER_DERIVE((EQ, HANA), ns, none);
LAGER_DERIVE_TEMPLATE((EQ, HANA, HASH), ns, (class A, class B), (tpl<A, B>), a, b);
LAGER_DERIVE((EQ, HASH), ns, deep, t, w);
LAGER_STRUCT(ns, viastruct, first, second);
LAGER_ENUM(ns, color, red, green, blue);
LAGER_ENUM(ns, flat, one);

namespace {
ns::three any_three() { return {any("a"), any<W>("b"), any("c")}; }
template <typename T>
void check_eq(const T& x, const T& y, bool want)
{
    lv_assert((x == y) == want, "equal exactly when all members are equal");
    lv_assert((x != y) == !want, "different exactly when some member is different");
    lv_assert(x == x && !(x != x), "equal to itself");
}
} // namespace

LV_CONTRACT(derived_equality)
{
    auto x = any_three(), y = any_three();
    bool e3 = x.a == y.a && x.b == y.b && x.c == y.c;
    check_eq(x, y, e3);
    check_eq(ns::one{x.a}, ns::one{y.a}, x.a == y.a);
    check_eq(ns::none{}, ns::none{}, true);
    check_eq(ns::tpl<V, W>{x.a, x.b}, ns::tpl<V, W>{y.a, y.b}, x.a == y.a && x.b == y.b);
    check_eq(ns::outer<W>::inner{x.b, x.c}, ns::outer<W>::inner{y.b, y.c}, x.b == y.b && x.c == y.c);
    check_eq(ns::viastruct{x.a, x.c}, ns::viastruct{y.a, y.c}, x.a == y.a && x.c == y.c);
    auto u = any<W>("u"), v = any<W>("v");
    check_eq(ns::deep{x, u}, ns::deep{y, v}, e3 && u == v);
}

LV_CONTRACT(derived_hash)
{
    auto x = any_three(), y = any_three();
    if (x == y) {
        lv_assert(std::hash<ns::three>{}(x) == std::hash<ns::three>{}(y), "equal values have equal hashes");
        ns::tpl<V, W> p{x.a, x.b}, q{y.a, y.b};
        using H = std::hash<ns::tpl<V, W>>;
        lv_assert(H{}(p) == H{}(q), "equal template values have equal hashes");
        auto u = any<W>("u");
        lv_assert(std::hash<ns::deep>{}({x, u}) == std::hash<ns::deep>{}({y, u}), "equal nested values have equal hashes");
    }
    lv_assert(std::hash<ns::one>{}({x.a}) == std::hash<ns::one>{}({x.a}), "the hash is a function of the value");
}
// every member takes part in the hash: values that differ in the hash of one
// member only have different hashes
LV_CONTRACT(derived_hash_uses_every_member)
{
    auto x   = any_three();
    auto y   = x;
    auto v   = any("v");
    auto w   = any<W>("w");
    auto h   = [](auto z) { return lv_uf1("hash", z.id); };
    bool dif = false;
    // (only the last member: for the others the mixing is not injective)
    y.c = v;
    dif = h(v) != h(x.c);
    if (dif)
        lv_assert(std::hash<ns::three>{}(x) != std::hash<ns::three>{}(y), "the last member takes part");
    lv_assert(std::hash<ns::one>{}({x.a}) != std::hash<ns::one>{}({v}) || h(v) == h(x.a), "a single member takes part");
    (void) w;
}

// ... and each of the members takes part (a mixing that ignores one of them for
// all of these numbers is no hash of it)
namespace ns {
struct number
{
    uint64_t v;
};
struct numbers
{
    number a, b, c;
};
template <typename A>
struct tnumbers
{
    A a, b;
};
} // namespace ns
namespace std {
template <>
struct hash<ns::number>
{
    size_t operator()(ns::number n) const { return n.v; }
};
} // namespace std
LAGER_DERIVE((HASH), ns, numbers, a, b, c);
LAGER_DERIVE_TEMPLATE((HASH), ns, (class A), (tnumbers<A>), a, b);
LV_CONTRACT(derived_hash_depends_on_every_member)
{
    bool dep[5] = {};
    const uint64_t some[] = {1, 2, 77, 0x123456789, 0xfedcba9876543210};
    ns::numbers z{{5}, {6}, {7}};
    ns::tnumbers<ns::number> t{{5}, {6}};
    auto h  = std::hash<ns::numbers>{}(z);
    auto ht = std::hash<ns::tnumbers<ns::number>>{}(t);
    for (auto x : some) {
        auto p = z, q = z, r = z;
        p.a.v += x;
        q.b.v += x;
        r.c.v += x;
        dep[0] = dep[0] || std::hash<ns::numbers>{}(p) != h;
        dep[1] = dep[1] || std::hash<ns::numbers>{}(q) != h;
        dep[2] = dep[2] || std::hash<ns::numbers>{}(r) != h;
        auto u = t, v = t;
        u.a.v += x;
        v.b.v += x;
        dep[3] = dep[3] || std::hash<ns::tnumbers<ns::number>>{}(u) != ht;
        dep[4] = dep[4] || std::hash<ns::tnumbers<ns::number>>{}(v) != ht;
    }
    lv_assert(dep[0] && dep[1] && dep[2], "all three of a struct");
    lv_assert(dep[3] && dep[4], "both of a template");
}
LV_CONTRACT(derived_reflection)
{
    auto x     = any_three();
    unsigned n = 0;
    bool ok    = true;
    boost::hana::for_each(boost::hana::keys(x), [&](auto k) {
        const char* want[] = {"a", "b", "c"};
        ok                 = ok && n < 3 && std::strcmp(k.c_str(), want[n]) == 0;
        auto& m            = boost::hana::at_key(x, k);
        const void* at[]   = {&x.a, &x.b, &x.c};
        ok                 = ok && (const void*) &m == at[n];
        ++n;
    });
    lv_assert(n == 3 && ok, "the members, by name, in order");
    ns::outer<W>::inner i{x.b, x.c};
    n = 0;
    boost::hana::for_each(boost::hana::keys(i), [&](auto k) {
        const char* want[] = {"x", "y"};
        ok                 = ok && n < 2 && std::strcmp(k.c_str(), want[n]) == 0;
        const void* at[]   = {&i.x, &i.y};
        ok                 = ok && (const void*) &boost::hana::at_key(i, k) == at[n];
        ++n;
    });
    lv_assert(n == 2 && ok, "also of nested ones");
    n = 0;
    boost::hana::for_each(boost::hana::keys(ns::none{}), [&](auto) { ++n; });
    lv_assert(n == 0, "and of empty ones");
}

// names of enumerators
LV_CONTRACT(enum_names)
{
    using ns::color;
    auto c = (color) (int) lv_any("color");
    bool thrown = false;
    std::string s;
    try {
        s = lager::to_string(c);
    } catch (const std::runtime_error&) {
        thrown = true;
    }
    bool named = c == color::red || c == color::green || c == color::blue;
    lv_assert(thrown == !named, "a value without a name fails loudly");
    if (named) {
        lv_assert(s == (c == color::red ? "red" : c == color::green ? "green" : "blue"), "its name");
        lv_assert(lager::to_enum<color>(s) == c, "and back");
    }
    lv_assert(std::strcmp(lager::to_string(ns::flat::one), "one") == 0 && lager::to_enum<ns::flat>("one") == ns::flat::one, "one enumerator");
}
// any string of up to six characters
LV_BOUNDED(enum_of_any_name)
{
    using ns::color;
    unsigned n = pick("length", 7);
    std::string s;
    for (unsigned i = 0; i < n; ++i)
        s.push_back((char) lv_any("char"));
    bool thrown = false;
    color c{};
    try {
        c = lager::to_enum<color>(s);
    } catch (const std::runtime_error&) {
        thrown = true;
    }
    bool r = s == "red", g = s == "green", b = s == "blue";
    lv_assert(thrown == !(r || g || b), "an unknown name fails loudly");
    lv_assert(thrown || c == (r ? color::red : g ? color::green : color::blue), "the enumerator of that name");
}

// ... and everything the same when it happens again
LV_CONTRACT(derived_equality_again)
{
    lvc_derived_equality();
    lvc_derived_equality();
}
LV_CONTRACT(derived_hash_again)
{
    lvc_derived_hash();
    lvc_derived_hash();
}
LV_CONTRACT(derived_hash_uses_every_member_again)
{
    lvc_derived_hash_uses_every_member();
    lvc_derived_hash_uses_every_member();
}
LV_CONTRACT(derived_reflection_again)
{
    lvc_derived_reflection();
    lvc_derived_reflection();
}
LV_CONTRACT(enum_names_again)
{
    lvc_enum_names();
    lvc_enum_names();
}
