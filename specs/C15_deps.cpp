// Dependency sets and contexts.
#include "gloop.h"
#include <lager/context.hpp>
#include <lager/deps.hpp>
using namespace lv;
namespace dep = lager::dep;

namespace {
struct A { uint64_t x; };
struct B { uint64_t x; };
struct C { uint64_t x; };
struct K1 {};
struct K2 {};
A anyA(const char* n) { return A{lv_any(n)}; }
B anyB(const char* n) { return B{lv_any(n)}; }
C anyC(const char* n) { return C{lv_any(n)}; }
} // namespace

// what was put in under a key comes out under that key, by value or by reference
LV_CONTRACT(values_and_references)
{
    A a  = anyA("a");
    B b  = anyB("b");
    C c  = anyC("c");
    auto a0 = a.x, b0 = b.x;
    auto d = lager::deps<A&, B, C&>::with(a, b, c);
    lv_assert(&d.get<A>() == &a && &lager::get<C>(d) == &c, "references are the very objects");
    lv_assert(d.get<B>().x == b0, "values are copies");
    a.x = lv_any("a2");
    b.x = lv_any("b2");
    lv_assert(d.get<A>().x == a.x && d.get<B>().x == b0, "references follow, values do not");
    lv_assert(d.has<A>() && d.has<B>() && lager::has<C>(d), "all provided");
    auto e = d;
    lv_assert(&e.get<A>() == &a && e.get<B>().x == b0 && &e.get<C>() == &c, "copies provide the same");
    d.get<A>().x = a0;
    lv_assert(a.x == a0, "writable through the reference");
    auto m = lager::make_deps(std::ref(a), b, std::ref(c));
    lv_assert(&m.get<A>() == &a && m.get<B>().x == b.x && &m.get<C>() == &c, "deduced");
}
// picking a subset, in any order
LV_CONTRACT(subset_in_any_order)
{
    A a = anyA("a");
    B b = anyB("b");
    C c = anyC("c");
    auto d = lager::deps<A&, B, C>::with(a, b, c);
    lager::deps<C, A&> s = d;
    lv_assert(&s.get<A>() == &a && s.get<C>().x == c.x, "subset");
    lager::deps<B> t{d};
    lv_assert(t.get<B>().x == b.x, "single");
    lager::deps<> none = d;
    (void) none;
    lager::deps<C> u{std::move(s)};
    lv_assert(u.get<C>().x == c.x, "of a subset");
}
// keys tell dependencies of one type apart
LV_CONTRACT(keys)
{
    A a1 = anyA("a1"), a2 = anyA("a2"), a3 = anyA("a3");
    auto d = lager::deps<dep::key<K1, A>, dep::key<K2, A&>, A>::with(a1, a2, a3);
    lv_assert(d.get<K1>().x == a1.x && &d.get<K2>() == &a2 && d.get<A>().x == a3.x, "by key");
    lager::deps<dep::key<K2, A&>, dep::key<K1, A>> s = d;
    lv_assert(s.get<K1>().x == a1.x && &s.get<K2>() == &a2, "by key, after conversion");
}
// optional dependencies
LV_CONTRACT(optionals)
{
    A a = anyA("a");
    B b = anyB("b");
    auto d = lager::deps<A&, B>::with(a, b);
    lager::deps<dep::opt<A&>, dep::opt<C>, dep::opt<B>> o = d;
    lv_assert(o.has<A>() && o.has<B>() && !o.has<C>(), "has tells what is provided");
    lv_assert(&o.get<A>() == &a && o.get<B>().x == b.x, "provided ones");
    bool thrown = false;
    try {
        (void) o.get<C>().x;
    } catch (const lager::missing_dependency_error&) {
        thrown = true;
    }
    lv_assert(thrown, "a missing one is an error");
    lager::deps<dep::opt<C>, dep::opt<A&>> p = o;
    lv_assert(&p.get<A>() == &a && !p.has<C>(), "optional from optional");
    lager::deps<dep::opt<dep::key<K1, A>>> k = d;
    lv_assert(!k.has<K1>(), "keys matter");
}
// every conversion is of its own argument, whatever was converted before
LV_CONTRACT(conversions_are_independent)
{
    A a1 = anyA("a1"), a2 = anyA("a2");
    B b1 = anyB("b1"), b2 = anyB("b2");
    using full = lager::deps<A&, B, C>;
    full d1 = full::with(a1, b1, anyC("c1")), d2 = full::with(a2, b2, anyC("c2"));
    using some = lager::deps<B, A&>;
    using opts = lager::deps<dep::opt<B>, dep::opt<A&>>;
    some s1 = d1, s2 = d2;
    lv_assert(&s1.get<A>() == &a1 && s1.get<B>().x == b1.x && &s2.get<A>() == &a2 && s2.get<B>().x == b2.x, "required");
    opts o1 = d1, o2 = d2, o3 = lager::deps<>{}, o4 = s2;
    lv_assert(&o1.get<A>() == &a1 && o1.get<B>().x == b1.x && &o2.get<A>() == &a2 && o2.get<B>().x == b2.x, "optional");
    lv_assert(!o3.has<A>() && !o3.has<B>(), "missing");
    lv_assert(&o4.get<A>() == &a2 && o4.get<B>().x == b2.x, "optional from a subset");
    auto m1 = s1.merge(lager::deps<B>::with(b2)), m2 = s1.merge(lager::deps<B>::with(b1));
    lv_assert(m1.get<B>().x == b2.x && m2.get<B>().x == b1.x && &m1.get<A>() == &a1, "merged");
    s1 = s2;
    lv_assert(&s1.get<A>() == &a2 && s1.get<B>().x == b2.x && &m1.get<A>() == &a1, "assigned");
    auto k1 = lager::make_deps(a1, std::ref(b1)), k2 = lager::make_deps(a2, std::ref(b2));
    lv_assert(k1.get<A>().x == a1.x && &k1.get<B>() == &b1 && k2.get<A>().x == a2.x && &k2.get<B>() == &b2, "made");
}
// dependencies provided by functions are asked every time
LV_CONTRACT(functions)
{
    A a = anyA("a");
    uint64_t x = lv_any("x"), y = lv_any("y"), cur = x;
    unsigned calls = 0;
    auto d = lager::deps<dep::fn<B>, dep::fn<A&>>::with([&] { ++calls; return B{cur}; }, [&]() -> A& { ++calls; return a; });
    lv_assert(calls == 0, "lazily");
    lv_assert(&d.get<A>() == &a && calls == 1, "a reference");
    lager::deps<A&> r = d;
    lv_assert(&r.get<A>() == &a, "as a plain dependency");
    auto n0 = calls;
    lv_assert(d.get<B>().x == x && calls == n0 + 1, "the current value");
    cur = y;
    lv_assert(d.get<B>().x == y && calls == n0 + 2, "asked again");
}
// merging: everything of both, the second one wins
LV_CONTRACT(merge)
{
    A a1 = anyA("a1"), a2 = anyA("a2");
    B b = anyB("b");
    C c = anyC("c");
    auto d1 = lager::deps<A, B>::with(a1, b);
    auto d2 = lager::deps<C, A>::with(c, a2);
    auto m  = d1.merge(d2);
    lv_assert(m.get<A>().x == a2.x && m.get<B>().x == b.x && m.get<C>().x == c.x, "the second wins");
    auto n = d2.merge(d1);
    lv_assert(n.get<A>().x == a1.x && n.get<B>().x == b.x && n.get<C>().x == c.x, "in the other order too");
    lager::deps<A, B, C> p{d1, d2};
    lv_assert(p.get<A>().x == a2.x && p.get<B>().x == b.x && p.get<C>().x == c.x, "picked from two sets");
    lv_assert(d1.get<A>().x == a1.x && d2.get<A>().x == a2.x, "the merged ones are not modified");
    auto r = d1.merge(lager::deps<A&>::with(a2));
    lv_assert(&r.get<A>() == &a2 && r.get<B>().x == b.x, "type and value of the second");
    auto e = d1.merge(lager::deps<>{});
    lv_assert(e.get<A>().x == a1.x && e.get<B>().x == b.x, "empty is neutral");
    auto f = lager::deps<>{}.merge(d1);
    lv_assert(f.get<A>().x == a1.x && f.get<B>().x == b.x, "on both sides");
}

// a context delivers actions to the dispatcher it was made with, once each and
// converted when asked to, and carries the dependencies
LV_CONTRACT(context_dispatches)
{
    gloop gl;
    with_gloop l{&gl};
    A a = anyA("a");
    Log log;
    using D = lager::deps<A&>;
    lager::context<W, D> c{[&](W x) { log.push(1, x.id); return lager::future{}; }, l, D::with(a)};
    auto x = any<W>("x");
    c.dispatch(x);
    lv_assert(log.n == 1 && log.is(0, 1, x.id), "once");
    auto c2 = c;
    c2.dispatch(W{x});
    lv_assert(log.n == 2 && log.is(1, 1, x.id) && &lager::get<A>(c2) == &a, "copies");
    lager::context<W> small = c;
    small.dispatch(x);
    lv_assert(log.n == 3, "with fewer dependencies");
    lager::context<V, D> conv{c, [](V v) { return W{uf("conv", v.id)}; }};
    auto v = any("v");
    conv.dispatch(v);
    lv_assert(log.n == 4 && log.is(3, 1, uf("conv", v.id)) && &lager::get<A>(conv) == &a, "through a converter");
    lager::context<> nothing = c;
    (void) nothing;
}
LV_CONTRACT(context_of_several_actions)
{
    gloop gl;
    with_gloop l{&gl};
    Log log;
    struct X { uint64_t id; };
    struct Y { uint64_t id; };
    struct Z { uint64_t id; };
    using var = std::variant<X, Y, Z>;
    lager::context<var> c{[&](var v) {
        log.push(v.index(), std::visit([](auto& e) { return e.id; }, v));
        return lager::future{};
    }, l, lager::deps<>{}};
    auto i = lv_any("i"), j = lv_any("j");
    lager::context<lager::actions<Y, Z>> yz = c;
    yz.dispatch(Z{i});
    yz.dispatch(Y{j});
    lv_assert(log.n == 2 && log.is(0, 2, i) && log.is(1, 1, j), "each to its alternative");
    lager::context<Z> z = yz;
    z.dispatch(Z{j});
    lv_assert(log.n == 3 && log.is(2, 2, j), "through two conversions");
    c.dispatch(X{i});
    lv_assert(log.n == 4 && log.is(3, 0, i), "converted on dispatch");
}
// the loop of a context is the loop it was made with
LV_CONTRACT(context_loop)
{
    gloop gl;
    with_gloop l{&gl};
    lager::context<W> c{[&](W) { return lager::future{}; }, l, lager::deps<>{}};
    lager::context<> d = c;
    unsigned n = 0;
    c.loop().post([&] { ++n; });
    d.loop().post([&] { n += 10; });
    lv_assert(n == 0 && gl.n == 2, "posted, not run");
    gl.drain();
    lv_assert(n == 11, "each once");
    c.loop().async([&] { ++n; });
    lv_assert(gl.asyncs == 1 && n == 12, "async");
    c.loop().pause();
    d.loop().resume();
    d.loop().finish();
    lv_assert(gl.pauses == 1 && gl.resumes == 1 && gl.finishes == 1 && gl.n == 2, "control");
}
// and so is the loop of every context that is made out of another
LV_CONTRACT(loop_of_converted_contexts)
{
    gloop gl;
    with_gloop l{&gl};
    Log log;
    A a = anyA("a");
    using D = lager::deps<A&>;
    struct Y { uint64_t id; };
    struct Z { uint64_t id; };
    lager::context<W, D> c{[&](W x) { log.push(1, x.id); return lager::future{}; }, l, D::with(a)};
    lager::context<V, D> conv{c, [](V v) { return W{uf("conv", v.id)}; }};
    lager::context<lager::actions<Y, Z>> two{c, [](auto y) { return W{uf(std::is_same_v<decltype(y), Y> ? "y" : "z", y.id)}; }};
    lager::context<Z> z = two;
    lager::context<> none{conv};
    lager::context<V> less = conv;
    auto i = lv_any("i");
    two.dispatch(Y{i});
    z.dispatch(Z{i});
    lv_assert(log.n == 2 && log.is(0, 1, uf("y", i)) && log.is(1, 1, uf("z", i)), "each through the converter");
    unsigned n = 0;
    conv.loop().post([&] { n += 1; });
    two.loop().post([&] { n += 10; });
    z.loop().post([&] { n += 100; });
    none.loop().post([&] { n += 1000; });
    less.loop().post([&] { n += 10000; });
    lv_assert(n == 0 && gl.n == 5, "posted to the same loop");
    gl.drain();
    lv_assert(n == 11111, "each once");
    conv.loop().pause();
    z.loop().resume();
    less.loop().finish();
    two.loop().async([&] { ++n; });
    lv_assert(gl.pauses == 1 && gl.resumes == 1 && gl.finishes == 1 && gl.asyncs == 1 && n == 11112, "control");
}
// dispatching gives the future of the dispatcher, through every conversion
LV_CONTRACT(context_futures)
{
    gloop gl;
    with_gloop l{&gl};
    auto [p, f] = lager::promise::with_loop(l);
    lager::future fut = std::move(f);
    lager::context<W> c{[&](W) { return std::move(fut); }, l, lager::deps<>{}};
    lager::context<V> conv{c, [](V v) { return W{uf("conv", v.id)}; }};
    lager::context<V> d = conv;
    bool through = any_bool("through the copy");
    auto v = any("v");
    unsigned n = 0;
    (through ? d.dispatch(v) : conv.dispatch(v)).then([&] { ++n; });
    gl.drain();
    lv_assert(n == 0, "not before the promise is kept");
    p();
    gl.drain();
    lv_assert(n == 1, "but then");
}

// ... and everything the same when it happens again
LV_CONTRACT(values_and_references_again)
{
    lvc_values_and_references();
    lvc_values_and_references();
}
LV_CONTRACT(subset_in_any_order_again)
{
    lvc_subset_in_any_order();
    lvc_subset_in_any_order();
}
LV_CONTRACT(keys_again)
{
    lvc_keys();
    lvc_keys();
}
LV_CONTRACT(conversions_are_independent_again)
{
    lvc_conversions_are_independent();
    lvc_conversions_are_independent();
}
LV_CONTRACT(functions_again)
{
    lvc_functions();
    lvc_functions();
}
LV_CONTRACT(merge_again)
{
    lvc_merge();
    lvc_merge();
}
LV_CONTRACT(context_dispatches_again)
{
    lvc_context_dispatches();
    lvc_context_dispatches();
}
LV_CONTRACT(context_of_several_actions_again)
{
    lvc_context_of_several_actions();
    lvc_context_of_several_actions();
}
LV_CONTRACT(context_loop_again)
{
    lvc_context_loop();
    lvc_context_loop();
}
LV_CONTRACT(loop_of_converted_contexts_again)
{
    lvc_loop_of_converted_contexts();
    lvc_loop_of_converted_contexts();
}
LV_CONTRACT(context_futures_again)
{
    lvc_context_futures();
    lvc_context_futures();
}
