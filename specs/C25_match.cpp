// Variant matching.
// LV_MUST_COMPILE: handlers are called with the alternative as a reference of the kind of the variant
#include "lv.h"
#include <lager/util.hpp>
using namespace lv;

namespace {
template <int T> struct E { uint64_t id; };
using var = std::variant<E<0>, E<1>, E<2>>;
struct derived : var { using var::var; };
template <typename T = var>
T any_var(const char* n)
{
    unsigned k = pick(n, 3);
    uint64_t i = lv_any(n);
    return k == 0 ? T{E<0>{i}} : k == 1 ? T{E<1>{i}} : T{E<2>{i}};
}
template <typename T>
uint64_t id(const T& v) { return std::visit([](auto& e) { return e.id; }, static_cast<const var&>(v)); }
} // namespace

LV_CONTRACT(match_selects_alternative)
{
    var v = any_var("v");
    unsigned n = 0;
    uint64_t r = lager::match(v)([&](E<0>& e) { ++n; return e.id * 3; }, [&](E<1>& e) { ++n; return e.id * 3 + 1; }, [&](E<2>& e) { ++n; return e.id * 3 + 2; });
    lv_assert(n == 1 && r == id(v) * 3 + v.index(), "the handler of the alternative, once, with its value");
    const var c = v;
    uint64_t q = lager::match(c)([&](const E<1>& e) { return e.id; }, [&](auto&& e) { return e.id + 7; });
    lv_assert(q == (c.index() == 1 ? id(c) : id(c) + 7), "specific handlers are preferred to generic ones");
}
LV_CONTRACT(match_reference_and_value)
{
    var v = any_var("v");
    var o = v;
    uint64_t x = lv_any("x");
    lager::match(v)([&](auto& e) { e.id = x; });
    lv_assert(id(v) == x && v.index() == o.index(), "modifies in place");
    struct mo { std::unique_ptr<uint64_t> p; };
    std::variant<mo, uint64_t> m{mo{std::make_unique<uint64_t>(x)}};
    auto t = lager::match(std::move(m))([](mo&& p) { return std::move(p.p); }, [](uint64_t) { return std::unique_ptr<uint64_t>{}; });
    lv_assert(t && *t == x, "moves out of an expiring variant");
}
LV_CONTRACT(match_derived_and_two)
{
    derived d = any_var<derived>("d");
    uint64_t r = lager::match(d)([](E<0> e) { return e.id * 3; }, [](E<1> e) { return e.id * 3 + 1; }, [](E<2> e) { return e.id * 3 + 2; });
    lv_assert(r == id(d) * 3 + d.index(), "types derived from a variant");
    var v = any_var("v");
    unsigned n = 0;
    uint64_t q = lager::match(v, d)([&](E<0> a, E<1> b) { ++n; return a.id ^ b.id ^ 5; }, [&](auto a, auto b) { ++n; return a.id ^ b.id; });
    lv_assert(n == 1 && q == (id(v) ^ id(d) ^ (v.index() == 0 && d.index() == 1 ? 5 : 0)), "two at once");
    lager::visitor vis{[](E<0> e) { return e.id; }, [](E<1> e) { return e.id + 1; }, [](E<2> e) { return e.id + 2; }};
    lv_assert(std::visit(vis, v) == id(v) + v.index(), "with std::visit");
}
// handlers given by reference are used as they are and stay as they were
LV_CONTRACT(handlers_are_reusable)
{
    struct H
    {
        V own;
        uint64_t operator()(const E<0>& e) const { return uf("h0", own.id, e.id); }
        uint64_t operator()(const E<1>& e) const { return uf("h1", own.id, e.id); }
    };
    struct G
    {
        V own;
        uint64_t operator()(const E<2>& e) const { return uf("g2", own.id, e.id); }
    };
    H h{any("h")};
    const G g{any("g")};
    auto hid = h.own.id, gid = g.own.id;
    for (unsigned i = 0; i < 2; ++i) {
        var v = any_var("v");
        auto x = id(v);
        auto k = v.index();
        auto r = lager::match(v)(h, g);
        lv_assert(r == (k == 0 ? uf("h0", hid, x) : k == 1 ? uf("h1", hid, x) : uf("g2", gid, x)), "the handler, with its own state");
        lv_assert(h.own.id == hid && g.own.id == gid, "which it still has");
        auto q = lager::match(var{v})(H{V{hid}}, g);
        lv_assert(q == r, "handlers given as values");
    }
}
LV_CONTRACT(noop_and_identity)
{
    auto v = any("v");
    lager::noop(v, 1, "x");
    lv_assert(&lager::identity(v) == &v, "identity gives the same object");
    auto w = lager::identity(V{v});
    lv_assert(w == v && lager::unwrap(v) == v, "or value");
}

// ... and everything the same when it happens again
LV_CONTRACT(match_selects_alternative_again)
{
    lvc_match_selects_alternative();
    lvc_match_selects_alternative();
}
LV_CONTRACT(match_reference_and_value_again)
{
    lvc_match_reference_and_value();
    lvc_match_reference_and_value();
}
LV_CONTRACT(match_derived_and_two_again)
{
    lvc_match_derived_and_two();
    lvc_match_derived_and_two();
}
LV_CONTRACT(handlers_are_reusable_again)
{
    lvc_handlers_are_reusable();
    lvc_handlers_are_reusable();
}
LV_CONTRACT(noop_and_identity_again)
{
    lvc_noop_and_identity();
    lvc_noop_and_identity();
}
