// Indexing a handle with a member, a key or a lens.
// LV_FLAGS: -include lv_inline_std.h
#include "nodes.h"
#include <array>
#include <immer/vector.hpp>
#include <lager/cursor.hpp>
#include <lager/lenses/at.hpp>
#include <lager/lenses/attr.hpp>
#include <lager/lenses/optional.hpp>
#include <lager/lenses/tuple.hpp>
#include <lager/reader.hpp>
#include <lager/state.hpp>
using namespace lv;
using lager::commit;

namespace {
struct inner
{
    V p;
    W q;
    friend bool operator==(const inner& a, const inner& b) { return a.p == b.p && a.q == b.q; }
    friend bool operator!=(const inner& a, const inner& b) { return !(a == b); }
};
struct outer
{
    inner in;
    V other;
    std::array<V, 3> arr;
    friend bool operator==(const outer& a, const outer& b)
    {
        return a.in == b.in && a.other == b.other && a.arr[0] == b.arr[0] && a.arr[1] == b.arr[1] && a.arr[2] == b.arr[2];
    }
    friend bool operator!=(const outer& a, const outer& b) { return !(a == b); }
};
inner any_inner() { return {any("p"), any<W>("q")}; }
outer any_outer() { return {any_inner(), any("o"), {any("0"), any("1"), any("2")}}; }
using opt  = std::optional<V>;
using oin  = std::optional<inner>;
using oout = std::optional<outer>;
oin any_oin() { return any_bool("has") ? oin{any_inner()} : oin{}; }
opt any_opt() { return any_bool("hasv") ? opt{any("v")} : opt{}; }
oout any_oout() { return any_bool("haso") ? oout{any_outer()} : oout{}; }
} // namespace

// by member: the same as zooming with attr, through a state, a cursor and a reader
LV_CONTRACT(by_member)
{
    outer x = any_outer();
    auto s  = lager::make_state(x);
    lager::cursor<outer> c = s;
    lager::reader<outer> r = s;
    lager::cursor<inner> ci = c[&outer::in];
    lager::cursor<V> cp     = s[&outer::in][&inner::p];
    lager::cursor<W> cq     = ci[&inner::q];
    lager::reader<V> rp     = r[&outer::in][&inner::p];
    lager::reader<V> ro     = r[&outer::other];
    lv_assert(*ci == x.in && *cp == x.in.p && *cq == x.in.q && *rp == x.in.p && *ro == x.other, "the member");
    outer y = x;
    for (int i = 0; i < 2; ++i)
        switch (pick("w", 4)) {
        case 0: {
            inner v = any_inner();
            ci.set(v);
            y.in = v;
            break;
        }
        case 1: {
            V v = any("v");
            cp.set(v);
            y.in.p = v;
            break;
        }
        case 2: {
            W v = any<W>("v");
            cq.set(v);
            y.in.q = v;
            break;
        }
        default: {
            V v = any("v");
            c[&outer::other].make().set(v);
            y.other = v;
        }
        }
    commit(s);
    lv_assert(s.get() == y && c.get() == y && r.get() == y, "exactly what was written");
    lv_assert(*ci == y.in && *cp == y.in.p && *cq == y.in.q && *rp == y.in.p && *ro == y.other, "the member afterwards");
    lv_cover("end");
}
// by key: an optional element; writes of an absent key or an absent value change nothing
LV_CONTRACT(by_key)
{
    outer x = any_outer();
    auto s  = lager::make_state(x);
    size_t k = pick("k", 5);
    lager::cursor<opt> c = s[&outer::arr][k];
    lager::reader<opt> r = lager::reader<outer>{s}[&outer::arr][k];
    lv_assert(*c == (k < 3 ? opt{x.arr[k]} : opt{}) && *r == *c, "the element, if there is one");
    opt v = any_opt();
    c.set(v);
    commit(s);
    outer y = x;
    if (k < 3 && v)
        y.arr[k] = *v;
    lv_assert(s.get() == y, "exactly what was written");
    lv_assert(*c == (k < 3 ? opt{y.arr[k]} : opt{}) && *r == *c, "the element afterwards");
    lv_cover("end");
}
LV_BOUNDED(by_key_of_vector)
{
    immer::vector<V> x;
    unsigned n = pick("n", 4);
    for (unsigned i = 0; i < n; ++i)
        x = x.push_back(any("e"));
    auto s   = lager::make_state(x);
    size_t k = pick("k", 5);
    lager::cursor<opt> c = s[k];
    lv_assert(*c == (k < n ? opt{x[k]} : opt{}), "the element, if there is one");
    opt v = any_opt();
    c.set(v);
    commit(s);
    auto y = x;
    if (k < n && v)
        y = y.set(k, *v);
    lv_assert(s.get() == y, "exactly what was written");
    lv_assert(*c == (k < n ? opt{y[k]} : opt{}), "the element afterwards");
    lv_cover("end");
}
// by lens
LV_CONTRACT(by_lens)
{
    inner x = any_inner();
    auto s  = lager::make_state(x);
    auto l  = lager::lenses::getset([](const inner& w) { return V{uf("get", w.p.id, w.q.id)}; },
                                   [](inner w, V v) {
                                       w.p.id = uf("set", w.p.id, v.id);
                                       return w;
                                   });
    lager::cursor<V> c = s[l];
    lager::reader<V> r = lager::reader<inner>{s}[l];
    lv_assert(c.get().id == uf("get", x.p.id, x.q.id) && r.get() == c.get(), "the view");
    V v = any("v");
    c.set(v);
    commit(s);
    lv_assert(s.get().p.id == uf("set", x.p.id, v.id) && s.get().q == x.q, "what the lens sets");
    lv_assert(c.get().id == uf("get", s.get().p.id, x.q.id) && r.get() == c.get(), "the view afterwards");
}
// what an optional contains can be indexed: the part is optional too
LV_CONTRACT(optional_by_member)
{
    oin x = any_oin();
    auto s = lager::make_state(x);
    lager::cursor<opt> c = s[&inner::p];
    lager::reader<opt> r = lager::reader<oin>{s}[&inner::p];
    lv_assert(*c == (x ? opt{x->p} : opt{}) && *r == *c, "the member, if there is one");
    opt v = any_opt();
    c.set(v);
    commit(s);
    oin y = x;
    if (x && v)
        y->p = *v;
    lv_assert(s.get() == y, "exactly what was written");
    lv_assert(*c == (y ? opt{y->p} : opt{}) && *r == *c, "the member afterwards");
    lv_cover("end");
}
LV_CONTRACT(optional_nested)
{
    oout x  = any_oout();
    auto s  = lager::make_state(x);
    size_t k = pick("k", 4);
    lager::cursor<opt> cp = s[&outer::in][&inner::p];
    lager::cursor<opt> ck = s[&outer::arr][k];
    lv_assert(*cp == (x ? opt{x->in.p} : opt{}), "member of member");
    lv_assert(*ck == (x && k < 3 ? opt{x->arr[k]} : opt{}), "element of member");
    opt v = any_opt(), w = any_opt();
    cp.set(v);
    ck.set(w);
    commit(s);
    oout y = x;
    if (y && v)
        y->in.p = *v;
    if (y && w && k < 3)
        y->arr[k] = *w;
    lv_assert(s.get() == y, "exactly what was written");
    lv_assert(*cp == (y ? opt{y->in.p} : opt{}) && *ck == (y && k < 3 ? opt{y->arr[k]} : opt{}), "both afterwards");
    lv_cover("end");
}
// a lens that is about the optional itself is used as it is
LV_CONTRACT(optional_by_its_own_lens)
{
    opt x = any_opt();
    V d = any("d"), v = any("v");
    auto s = lager::make_state(x);
    lager::cursor<V> c = s[lager::lenses::value_or(d)];
    lv_assert(*c == (x ? *x : d), "the view");
    c.set(v);
    commit(s);
    lv_assert(s.get() == opt{v} && *c == v, "what the lens sets");
    lv_cover("end");
}

// ... and everything the same when it happens again
LV_CONTRACT(by_lens_again)
{
    lvc_by_lens();
    lvc_by_lens();
}
LV_CONTRACT(optional_by_member_again)
{
    lvc_optional_by_member();
    lvc_optional_by_member();
}
LV_CONTRACT(optional_by_its_own_lens_again)
{
    lvc_optional_by_its_own_lens();
    lvc_optional_by_its_own_lens();
}
LV_CONTRACT(by_key_again)
{
    lvc_by_key();
    lvc_by_key();
}
