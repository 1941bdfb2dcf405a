// Laws of the total lenses.
#include "lens_laws.h"
#include <array>
using namespace lv;
using namespace lager::lenses;

LV_CONTRACT(attr_laws)
{
    auto w = any_S("w");
    auto p = any("p"), q = any("q");
    laws<V>(attr(&S::x), w, p, q);
}
LV_CONTRACT(attr_touches_only_member)
{
    auto w = any_S("w");
    auto r = do_set(attr(&S::z), w, any("p"));
    lv_assert(r.x == w.x && r.y == w.y, "other members are kept");
    auto y  = any<W>("y");
    auto r2 = do_set(attr(&S::y), w, y);
    lv_assert(r2 == (S{w.x, y, w.z}), "exactly the member changes");
    V x = do_view<V>(attr(&S::x), w);
    lv_assert(x == w.x, "views the member");
}
LV_CONTRACT(attr_over)
{
    auto w = any_S("w");
    over_law<V>(attr(&S::x), w, [](V v) { return V{uf("f", v.id)}; });
}
LV_CONTRACT(attr_update_in_place_mutable)
{
    // a view of an lvalue member refers to it
    auto w = any_S("w");
    auto p = any("p");
    lager::view(attr(&S::x), w) = p;
    lv_assert(w.x == p, "view of an lvalue is the member itself");
}
LV_CONTRACT(element_laws)
{
    using Tp = std::tuple<V, W, V2>;
    Tp w{any("a"), any<W>("b"), any<V2>("c")};
    laws<V>(element<0>, w, any("p"), any("q"));
    laws<W>(element<1>, w, any<W>("p"), any<W>("q"));
    auto r = do_set(element<1>, w, any<W>("r"));
    lv_assert(std::get<0>(r) == std::get<0>(w) && std::get<2>(r) == std::get<2>(w), "other elements are kept");
}
LV_CONTRACT(element_of_pair_and_array)
{
    std::pair<V, W> w{any("a"), any<W>("b")};
    laws<V>(first, w, any("p"), any("q"));
    laws<W>(second, w, any<W>("p"), any<W>("q"));
}
LV_CONTRACT(element_of_array)
{
    std::array<V, 3> w{any("a"), any("b"), any("c")};
    laws<V>(element<2>, w, any("p"), any("q"));
    auto r = do_set(element<1>, w, any("r"));
    lv_assert(r[0] == w[0] && r[2] == w[2], "other elements are kept");
}
LV_CONTRACT(element_over)
{
    std::pair<V, W> w{any("a"), any<W>("b")};
    over_law<W>(second, w, [](W v) { return W{uf("f", v.id)}; });
}

// getset is exactly its getter and setter
LV_CONTRACT(getset_is_getter_and_setter)
{
    auto l = getset([](const V& w) { return W{uf("g", w.id)}; },
                    [](const V& w, const W& p) { return V{uf("s", w.id, p.id)}; });
    auto w = any("w");
    auto p = any<W>("p");
    lv_assert(do_view<W>(l, w).id == uf("g", w.id), "view is the getter");
    lv_assert(do_set(l, w, p).id == uf("s", w.id, p.id), "set is the setter");
    auto f = [](W x) { return W{uf("f", x.id)}; };
    lv_assert(V(lager::over(l, w, f)).id == uf("s", w.id, uf("f", uf("g", w.id))), "over is set of f of view");
}

// also for functions that take, and may keep, what they are given
LV_CONTRACT(getset_of_functions_by_value)
{
    auto l = getset([](V w) { return W{uf("g", w.id)}; }, [](V w, W p) { return V{uf("s", w.id, p.id)}; });
    auto w = any("w");
    auto p = any<W>("p");
    lv_assert(do_view<W>(l, w).id == uf("g", w.id), "view is the getter");
    lv_assert(do_set(l, w, p).id == uf("s", w.id, p.id), "set is the setter");
    lv_assert(V(lager::set(l, V{w}, W{p})).id == uf("s", w.id, p.id), "the setter gets the whole as it was");
    auto f = [](W x) { return W{uf("f", x.id)}; };
    lv_assert(V(lager::over(l, w, f)).id == uf("s", w.id, uf("f", uf("g", w.id))), "over is set of f of view");
    lv_assert(V(lager::over(l, V{w}, f)).id == uf("s", w.id, uf("f", uf("g", w.id))), "also of a temporary");
}
LV_CONTRACT(getset_of_functions_by_value_inside)
{
    auto l = first | getset([](V w) { return W{uf("g", w.id)}; }, [](V w, W p) { return V{uf("s", w.id, p.id)}; });
    std::pair<V, W> w{any("a"), any<W>("b")};
    auto p        = any<W>("p");
    using T       = std::pair<V, W>;
    auto expected = T{V{uf("s", w.first.id, p.id)}, w.second};
    lv_assert(do_view<W>(l, w).id == uf("g", w.first.id), "view");
    lv_assert(do_set(l, w, p) == expected, "set");
    lv_assert(T(lager::set(l, T{w}, W{p})) == expected, "set of a temporary");
}
LV_CONTRACT(getset_of_forwarding_functions)
{
    using T = std::pair<V, W>;
    auto l  = getset([](auto&& w) -> decltype(auto) { return (LAGER_FWD(w).first); },
                    [](auto&& w, auto&& p) {
                        T r     = LAGER_FWD(w);
                        r.first = LAGER_FWD(p);
                        return r;
                    });
    T w{any("a"), any<W>("b")};
    auto p = any("p");
    lv_assert(do_view<V>(l, w) == w.first, "view");
    lv_assert(do_set(l, w, p) == (T{p, w.second}), "set");
    auto f = [](V x) { return V{uf("f", x.id)}; };
    lv_assert(T(lager::over(l, w, f)) == (T{f(w.first), w.second}), "over");
    lv_assert(T(lager::over(l, T{w}, f)) == (T{f(w.first), w.second}), "over a temporary");
    auto x = lager::view(l, T{w});
    lv_assert(x == w.first, "view of a temporary");
}
LV_CONTRACT(zip_of_functions_by_value)
{
    auto l1 = getset([](V w) { return W{uf("g1", w.id)}; }, [](V w, W p) { return V{uf("s1", w.id, p.id)}; });
    auto l2 = getset([](W w) { return V{uf("g2", w.id)}; }, [](W w, V p) { return W{uf("s2", w.id, p.id)}; });
    using T = std::pair<V, W>;
    using U = std::pair<W, V>;
    T w{any("a"), any<W>("b")};
    U p{any<W>("p"), any("q")};
    auto l        = zip(l1, l2);
    auto expected = T{V{uf("s1", w.first.id, p.first.id)}, W{uf("s2", w.second.id, p.second.id)}};
    lv_assert(U(lager::view(l, w)) == (U{W{uf("g1", w.first.id)}, V{uf("g2", w.second.id)}}), "view");
    lv_assert(U(lager::view(l, T{w})) == (U{W{uf("g1", w.first.id)}, V{uf("g2", w.second.id)}}), "view of a temporary");
    lv_assert(T(lager::set(l, w, p)) == expected, "set");
    lv_assert(T(lager::set(l, T{w}, U{p})) == expected, "set of a temporary");
}

// box-like wholes
namespace {
struct box // the immer::box interface
{
    std::shared_ptr<const S> p;
    box() = default;
    box(S s)
        : p(std::make_shared<const S>(std::move(s)))
    {}
    const S& get() const { return *p; }
    friend bool operator==(const box& a, const box& b) { return *a.p == *b.p; }
};
} // namespace
LV_CONTRACT(unbox_laws)
{
    box w{any_S("w")};
    auto p = any_S("p");
    laws<S>(unbox, w, p, any_S("q"));
    lv_assert(do_view<S>(unbox, w) == w.get(), "views the content");
    box r = do_set(unbox, w, p);
    lv_assert(r.get() == p, "replaces the content");
}
LV_CONTRACT(unbox_attr)
{
    box w{any_S("w")};
    auto l = unbox | attr(&S::y);
    laws<W>(l, w, any<W>("p"), any<W>("q"));
    auto q = any<W>("r");
    box r  = do_set(l, w, q);
    lv_assert(r.get() == (S{w.get().x, q, w.get().z}), "updates the member inside");
}
// identity
LV_CONTRACT(identity_lens)
{
    auto w = any("w");
    laws<V>(zug::identity, w, any("p"), any("q"));
    auto p = any("r");
    lv_assert(do_view<V>(zug::identity, w) == w && do_set(zug::identity, w, p) == p, "whole is part");
}
// lenses are values without memory
LV_CONTRACT(total_lenses_keep_nothing)
{
    using Tp = std::tuple<V, W, V2>;
    auto a = any_S("a"), b = any_S("b");
    independent<V>(attr(&S::x), a, b, any("p"));
    independent<W>(attr(&S::y), a, b, any<W>("p"));
    independent<V>(element<0>, Tp{any("a"), any<W>("b"), any<V2>("c")}, Tp{any("d"), any<W>("e"), any<V2>("f")}, any("p"));
    independent<W>(second, std::pair<V, W>{any("a"), any<W>("b")}, std::pair<V, W>{any("c"), any<W>("d")}, any<W>("p"));
    independent<V>(zug::identity, any("a"), any("b"), any("p"));
    independent<S>(unbox, box{a}, box{b}, any_S("p"));
    independent<W>(unbox | attr(&S::y), box{a}, box{b}, any<W>("p"));
}

// ... and everything the same when it happens again
LV_CONTRACT(attr_laws_again)
{
    lvc_attr_laws();
    lvc_attr_laws();
}
LV_CONTRACT(attr_touches_only_member_again)
{
    lvc_attr_touches_only_member();
    lvc_attr_touches_only_member();
}
LV_CONTRACT(attr_over_again)
{
    lvc_attr_over();
    lvc_attr_over();
}
LV_CONTRACT(attr_update_in_place_mutable_again)
{
    lvc_attr_update_in_place_mutable();
    lvc_attr_update_in_place_mutable();
}
LV_CONTRACT(element_over_again)
{
    lvc_element_over();
    lvc_element_over();
}
LV_CONTRACT(getset_is_getter_and_setter_again)
{
    lvc_getset_is_getter_and_setter();
    lvc_getset_is_getter_and_setter();
}
LV_CONTRACT(getset_of_functions_by_value_again)
{
    lvc_getset_of_functions_by_value();
    lvc_getset_of_functions_by_value();
}
LV_CONTRACT(getset_of_functions_by_value_inside_again)
{
    lvc_getset_of_functions_by_value_inside();
    lvc_getset_of_functions_by_value_inside();
}
LV_CONTRACT(getset_of_forwarding_functions_again)
{
    lvc_getset_of_forwarding_functions();
    lvc_getset_of_forwarding_functions();
}
LV_CONTRACT(zip_of_functions_by_value_again)
{
    lvc_zip_of_functions_by_value();
    lvc_zip_of_functions_by_value();
}
