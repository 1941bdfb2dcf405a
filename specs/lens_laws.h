#pragma once
#include "lv.h"
#include <lager/lens.hpp>
#include <lager/lenses.hpp>
#include <lager/lenses/at.hpp>
#include <lager/lenses/at_or.hpp>
#include <lager/lenses/attr.hpp>
#include <lager/lenses/optional.hpp>
#include <lager/lenses/tuple.hpp>
#include <lager/lenses/unbox.hpp>
#include <lager/lenses/variant.hpp>
#include <optional>
#include <stdexcept>
#include <tuple>
#include <variant>

namespace lv {

using V2 = Val<2>;
using V3 = Val<3>;

struct S // a struct with members of several types, two of the same
{
    V x;
    W y;
    V z;
    friend bool operator==(const S& a, const S& b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
};
struct T // a struct containing a struct
{
    W a;
    S s;
    V2 b;
    friend bool operator==(const T& p, const T& q) { return p.a == q.a && p.s == q.s && p.b == q.b; }
};
inline S any_S(const char* n) { return S{V{any_id(n)}, W{any_id(n)}, V{any_id(n)}}; }
inline T any_T(const char* n) { return T{W{any_id(n)}, any_S(n), V2{any_id(n)}}; }
template <typename X, typename F>
std::optional<X> any_opt(const char* n, F&& f)
{
    if (any_bool(n))
        return std::optional<X>(f());
    return std::nullopt;
}

// set through l with an lvalue or an rvalue whole and part
template <typename L, typename Wh, typename P>
Wh do_set(const L& l, const Wh& w, const P& p)
{
    unsigned k = pick("value category", 3);
    Wh w2      = w;
    P p2       = p;
    if (k == 0) {
        Wh r = lager::set(l, w2, p2);
        lv_assert(w2 == w && p2 == p, "set does not modify its arguments");
        return r;
    }
    if (k == 1) {
        Wh r = lager::set(l, std::move(w2), p2);
        lv_assert(p2 == p, "set does not modify the part");
        return r;
    }
    const Wh& cw = w2;
    return lager::set(l, cw, std::move(p2));
}
template <typename P, typename L, typename Wh>
P do_view(const L& l, const Wh& w)
{
    Wh w2 = w;
    if (any_bool("view rvalue")) {
        P p = lager::view(l, std::move(w2));
        return p;
    }
    P p = lager::view(l, w2);
    lv_assert(w2 == w, "view does not modify its argument");
    return p;
}

// the three lens laws, and over
template <typename P, typename L, typename Wh>
void laws(const L& l, const Wh& w, const P& p, const P& q)
{
    auto r = do_set(l, w, p);
    lv_assert(do_view<P>(l, r) == p, "set then get gives the part set");
    P v = lager::view(l, w);
    lv_assert(do_view<P>(l, w) == v, "view of lvalues and rvalues agree");
    lv_assert(do_set(l, w, v) == w, "setting what is there changes nothing");
    Wh rr = lager::set(l, r, q);
    Wh rq = lager::set(l, w, q);
    lv_assert(rr == rq, "the last set wins");
}
template <typename P, typename L, typename Wh, typename F>
void over_law(const L& l, const Wh& w, F&& f)
{
    Wh w2 = w;
    P v   = lager::view(l, w);
    Wh e  = lager::set(l, w, f(v));
    if (any_bool("over rvalue")) {
        Wh r = lager::over(l, std::move(w2), f);
        lv_assert(r == e, "over is set of the function of the view");
    } else {
        Wh r = lager::over(l, w2, f);
        lv_assert(r == e, "over is set of the function of the view");
        lv_assert(w2 == w, "over does not modify its argument");
    }
}
// a lens keeps nothing from one use to the next: using it on one whole does not
// change what it does to another, or to the same one again
template <typename P, typename L, typename Wh>
void independent(const L& l, const Wh& w1, const Wh& w2, const P& p)
{
    // every step through the same code, whatever the value category
    bool rv   = any_bool("rvalues");
    auto view = [&](const Wh& w) -> P {
        if (rv)
            return lager::view(l, Wh{w});
        return lager::view(l, w);
    };
    auto set = [&](const Wh& w, const P& x) -> Wh {
        if (rv)
            return lager::set(l, Wh{w}, P{x});
        return lager::set(l, w, x);
    };
    P v1  = view(w1);
    Wh r1 = set(w1, p);
    P v2  = view(w2);
    Wh r2 = set(w2, v2);
    lv_assert(r2 == w2, "another whole is not affected");
    Wh m1 = w1;
    Wh o1 = lager::over(l, m1, [&](const P&) { return p; });
    lv_assert(o1 == r1, "over does the same as set");
    auto keep = [&](const Wh& w) -> Wh {
        if (rv)
            return lager::over(l, Wh{w}, [](P x) { return x; });
        Wh m = w;
        return lager::over(l, m, [](P x) { return x; });
    };
    Wh k1 = keep(w1), k2 = keep(w2);
    lv_assert(k1 == w1 && k2 == w2, "over with the identity");
    P u2 = view(w2);
    P u1 = view(w1);
    lv_assert(v1 == u1 && v2 == u2, "views are repeatable");
    Wh s1 = set(w1, p);
    lv_assert(s1 == r1, "sets are repeatable");
}
} // namespace lv
