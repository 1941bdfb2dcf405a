// What is saved through an archive is what is loaded from it again, whatever the
// target held before.
// LV_FLAGS: -include lv_inline_std.h
#include "cereal_ghost.h"
#include <lager/extra/derive.hpp>
#include <lager/extra/derive/cereal.hpp>
#include <lager/extra/derive/eq.hpp>
#include <lager/extra/enum.hpp>
#include <lager/extra/struct.hpp>
#include <lager/extra/cereal/enum.hpp>
#include <lager/extra/cereal/immer_array.hpp>
#include <lager/extra/cereal/immer_box.hpp>
#include <lager/extra/cereal/immer_flex_vector.hpp>
#include <lager/extra/cereal/immer_vector.hpp>
#include <lager/extra/cereal/inline.hpp>
#include <lager/extra/cereal/struct.hpp>
#include <lager/extra/cereal/tuple.hpp>
#include <lager/extra/cereal/variant_with_name.hpp>
using namespace lv;

namespace ns {
struct three
{
    V a;
    W b;
    V c;
};
template <typename A>
struct tpl
{
    A p;
    W q;
};
struct none
{};
} // namespace ns
LAGER_DERIVE((EQ, CEREAL), ns, three, a, b, c);
namespace ns {
struct nested
{
    three t;
    V last;
    LAGER_DERIVE_NESTED((EQ, CEREAL), nested, t, last);
};
struct st
{
    V one;
    W two;
    V three;
};
enum class color
{
    red,
    green,
    blue = 40
};
} // namespace ns
LAGER_DERIVE_TEMPLATE((EQ, CEREAL), ns, (class A), (tpl<A>), p, q);
LAGER_DERIVE((EQ, CEREAL), ns, none);
LAGER_STRUCT(ns, st, one, two, three);
LAGER_ENUM(ns, color, red, green, blue);

namespace {
ns::three any_three() { return {any("a"), any<W>("b"), any("c")}; }
const char* color_name(ns::color c)
{
    return c == ns::color::red ? "red" : c == ns::color::green ? "green" : "blue";
}
} // namespace

LV_CONTRACT(derived_structs)
{
    ns::three x = any_three(), y = any_three();
    round_trip(x, y);
    ns::tpl<ns::three> a{any_three(), any<W>("q")}, b{any_three(), any<W>("q")};
    round_trip(a, b);
    ns::nested n{any_three(), any("l")}, m{any_three(), any("l")};
    round_trip(n, m);
    ns::none e, f;
    round_trip(e, f);
    lv_cover("end");
}
// each member is stored under its own name
LV_CONTRACT(derived_names)
{
    tape t;
    gout o{t};
    ns::three x = any_three();
    o(x);
    lv_assert(t.n == 3 && same_text(t.e[0].name, "a") && same_text(t.e[1].name, "b") && same_text(t.e[2].name, "c"),
              "by name");
    lv_assert(t.e[0].val == x.a.id && t.e[1].val == x.b.id && t.e[2].val == x.c.id, "its value");
}
LV_CONTRACT(reflected_structs)
{
    ns::st x{any("a"), any<W>("b"), any("c")}, y{any("a"), any<W>("b"), any("c")};
    round_trip(x, y);
    tape t;
    gout o{t};
    o(x);
    lv_assert(t.n == 3 && same_text(t.e[0].name, "one") && same_text(t.e[1].name, "two") &&
                  same_text(t.e[2].name, "three"),
              "by name");
    lv_assert(t.e[0].val == x.one.id && t.e[1].val == x.two.id && t.e[2].val == x.three.id, "its value");
}
// a member that is not in the archive keeps its value
LV_CONTRACT(absent_members)
{
    ns::st x{any("a"), any<W>("b"), any("c")}, y{any("a"), any<W>("b"), any("c")};
    ns::st z = y;
    tape t, u;
    gout o{t};
    o(x);
    bool h[3];
    for (int k = 0; k < 3; ++k) {
        h[k] = any_bool("has");
        if (h[k])
            u.e[u.n++] = t.e[k];
    }
    gin i{u};
    i(y);
    lv_assert(y.one == (h[0] ? x.one : z.one), "first");
    lv_assert(y.two == (h[1] ? x.two : z.two), "second");
    lv_assert(y.three == (h[2] ? x.three : z.three), "third");
    lv_assert(i.done(), "all of it is read");
    lv_cover("end");
}
// reading or writing one such member tells whether it was there
LV_CONTRACT(optional_member)
{
    V x = any("a"), y = any("b"), z = y;
    tape t;
    gout o{t};
    lv_assert(cereal::serialize_optional_nvp(o, "name", x), "writing always does");
    lv_assert(t.n == 1 && same_text(t.e[0].name, "name") && t.e[0].val == x.id, "by name");
    tape u;
    bool has = any_bool("has");
    if (has)
        u.e[u.n++] = t.e[0];
    gin i{u};
    lv_assert(cereal::serialize_optional_nvp(i, "name", y) == has, "whether it was there");
    lv_assert(y == (has ? x : z), "and else it keeps its value");
    lv_assert(i.done(), "all of it is read");
    lv_cover("end");
}
LV_CONTRACT(tuples)
{
    std::tuple<V, W, ns::three> x{any("a"), any<W>("b"), any_three()}, y{any("a"), any<W>("b"), any_three()};
    round_trip(x, y);
    std::tuple<> e, f;
    round_trip(e, f);
    std::tuple<V> g{any("a")}, h{any("a")};
    round_trip(g, h);
}
LV_CONTRACT(boxes)
{
    immer::box<ns::three> x{any_three()}, y{any_three()};
    auto z = y, w = x;
    round_trip(x, y);
    y = immer::box<ns::three>{any_three()};
    lv_assert(x == w, "the original does not change");
    lv_cover("end");
}
LV_CONTRACT(variants)
{
    using var = std::variant<V, std::monostate, W, ns::three>;
    auto mk   = [] {
        switch (pick("alt", 4)) {
        case 0:
            return var{any("a")};
        case 1:
            return var{};
        case 2:
            return var{any<W>("b")};
        default:
            return var{any_three()};
        }
    };
    auto mk2 = [&] {
        auto v = mk();
        if (v.index() == 0 && any_bool("mono"))
            v = std::monostate{};
        return v;
    };
    var x = mk2(), y = mk2();
    round_trip(x, y);
    lv_cover("end");
}
LV_CONTRACT(variant_unknown_name)
{
    using var = std::variant<V, std::monostate, W>;
    tape t;
    gout o{t};
    o(std::variant<V, ns::three>{any_three()});
    var x{any("a")}, y{x};
    gin i{t};
    bool thrown = false;
    try {
        i(x);
    } catch (const std::exception&) {
        thrown = true;
    }
    lv_assert(thrown, "fails loudly");
    lv_assert(x == y, "and changes nothing");
}
LV_CONTRACT(enums)
{
    ns::color cs[] = {ns::color::red, ns::color::green, ns::color::blue};
    ns::color x = cs[pick("x", 3)], y = cs[pick("y", 3)];
    round_trip(x, y);
    tape t;
    gout o{t};
    o(x);
    lv_assert(t.n == 1 && t.e[0].kind == 3, "as text");
    if (x == ns::color::red)
        lv_assert(same_text(t.e[0].text, "red"), "its name");
    else if (x == ns::color::green)
        lv_assert(same_text(t.e[0].text, "green"), "its name");
    else
        lv_assert(same_text(t.e[0].text, "blue"), "its name");
    lv_cover("end");
}
LV_CONTRACT(enum_unknown_name)
{
    tape t;
    gout o{t};
    o(std::string{"redd"});
    ns::color x = ns::color::green;
    gin i{t};
    bool thrown = false;
    try {
        i(x);
    } catch (const std::exception&) {
        thrown = true;
    }
    lv_assert(thrown && x == ns::color::green, "fails loudly and changes nothing");
}

namespace {
template <typename Seq>
Seq any_seq(const char* n)
{
    Seq s;
    unsigned k = pick(n, 4);
    for (unsigned i = 0; i < k; ++i)
        s = std::move(s).push_back(typename Seq::value_type(any("e")));
    return s;
}
template <typename Seq>
void seq_trip()
{
    Seq x = any_seq<Seq>("nx"), y = any_seq<Seq>("ny");
    Seq z = y, w = y;
    round_trip(x, y);
    lv_assert(z == w, "a snapshot of the target does not change");
    lv_cover("end");
}
} // namespace
// an element of which members are absent is the one it was made as, not what was read before it
namespace ns {
struct made
{
    V one   = V{101};
    W two   = W{102};
    V three = V{103};
};
} // namespace ns
LAGER_STRUCT(ns, made, one, two, three);
namespace {
template <typename Seq>
void absent_in_elements()
{
    ns::made x[2] = {{any("a"), any<W>("b"), any("c")}, {any("a"), any<W>("b"), any("c")}};
    tape t, u;
    gout o{t};
    o(x[0]);
    o(x[1]);
    gout s{u};
    s(cereal::make_size_tag(cereal::size_type{2}));
    bool h[2][3];
    for (int i = 0; i < 2; ++i)
        for (int k = 0; k < 3; ++k) {
            h[i][k] = k == 1 || any_bool("has");
            if (h[i][k])
                u.e[u.n++] = t.e[3 * i + k];
        }
    gin i{u};
    Seq y = Seq{}.push_back(typename Seq::value_type(ns::made{any("y"), any<W>("y"), any("y")}));
    i(y);
    lv_assert(y.size() == 2 && i.done(), "both are read");
    for (int k = 0; k < 2; ++k) {
        const ns::made& e = y[k];
        lv_assert(e.one == (h[k][0] ? x[k].one : V{101}), "first member");
        lv_assert(e.two == x[k].two, "second member");
        lv_assert(e.three == (h[k][2] ? x[k].three : V{103}), "third member");
    }
    lv_cover("end");
}
} // namespace
LV_BOUNDED(absent_in_elements_of_vector) { absent_in_elements<immer::vector<ns::made>>(); }
LV_BOUNDED(absent_in_elements_of_flex_vector) { absent_in_elements<immer::flex_vector<ns::made>>(); }
LV_BOUNDED(absent_in_elements_of_array) { absent_in_elements<immer::array<ns::made>>(); }
LV_BOUNDED(absent_in_elements_of_boxed_vector) { absent_in_elements<immer::vector<immer::box<ns::made>>>(); }
LV_BOUNDED(vectors) { seq_trip<immer::vector<V>>(); }
LV_BOUNDED(flex_vectors) { seq_trip<immer::flex_vector<V>>(); }
LV_BOUNDED(arrays) { seq_trip<immer::array<V>>(); }
LV_BOUNDED(boxed_vectors) { seq_trip<immer::vector<immer::box<V>>>(); }
namespace {
template <typename Seq>
void long_seq(unsigned n)
{
    Seq x, y;
    for (unsigned i = 0; i < n; ++i)
        x = std::move(x).push_back(typename Seq::value_type(V{7 + i}));
    for (unsigned i = 0; i < 3; ++i)
        y = std::move(y).push_back(typename Seq::value_type(V{1 + i}));
    round_trip(x, y);
}
} // namespace
LV_BOUNDED(long_vectors) { long_seq<immer::vector<V>>(130); }
LV_BOUNDED(long_flex_vectors) { long_seq<immer::flex_vector<V>>(130); }
LV_BOUNDED(long_arrays) { long_seq<immer::array<V>>(70); }
LV_BOUNDED(nested_vectors)
{
    using in = immer::vector<V>;
    using T  = immer::vector<in>;
    T x, y{any_seq<in>("y")};
    unsigned k = pick("k", 3);
    for (unsigned i = 0; i < k; ++i)
        x = std::move(x).push_back(any_seq<in>("in"));
    round_trip(x, y);
    lv_cover("end");
}

// a value can be put directly in an archive, whichever way it is serialized
namespace ns {
struct member_one
{
    V a;
    W b;
    template <typename A>
    void serialize(A& ar)
    {
        ar(CEREAL_NVP(a), CEREAL_NVP(b));
    }
};
struct member_two
{
    V a;
    W b;
    template <typename A>
    void save(A& ar) const
    {
        ar(CEREAL_NVP(a), CEREAL_NVP(b));
    }
    template <typename A>
    void load(A& ar)
    {
        ar(CEREAL_NVP(a), CEREAL_NVP(b));
    }
};
struct free_one
{
    V a;
    W b;
};
template <typename A>
void serialize(A& ar, free_one& x)
{
    ar(cereal::make_nvp("a", x.a), cereal::make_nvp("b", x.b));
}
struct free_two
{
    V a;
    W b;
};
template <typename A>
void save(A& ar, const free_two& x)
{
    ar(cereal::make_nvp("a", x.a), cereal::make_nvp("b", x.b));
}
template <typename A>
void load(A& ar, free_two& x)
{
    ar(cereal::make_nvp("a", x.a), cereal::make_nvp("b", x.b));
}
} // namespace ns
namespace {
template <typename T>
void inline_round_trip()
{
    T x{any("a"), any<W>("b")}, y{any("c"), any<W>("d")}, z{x};
    tape t;
    gout o{t};
    cereal::save_inline(o, x);
    lv_assert(x.a == z.a && x.b == z.b, "what is saved is left as it is");
    lv_assert(t.n == 2 && same_text(t.e[0].name, "a") && same_text(t.e[1].name, "b"), "exactly its parts are in the archive");
    gin i{t};
    cereal::load_inline(i, y);
    lv_assert(i.done() && y.a == x.a && y.b == x.b, "and what is loaded is the same");
}
} // namespace
LV_CONTRACT(inline_values)
{
    inline_round_trip<ns::member_one>();
    inline_round_trip<ns::member_two>();
    inline_round_trip<ns::free_one>();
    inline_round_trip<ns::free_two>();
}

// ... and everything the same when it happens again
LV_CONTRACT(derived_structs_again)
{
    lvc_derived_structs();
    lvc_derived_structs();
}
LV_CONTRACT(derived_names_again)
{
    lvc_derived_names();
    lvc_derived_names();
}
LV_CONTRACT(reflected_structs_again)
{
    lvc_reflected_structs();
    lvc_reflected_structs();
}
LV_CONTRACT(absent_members_again)
{
    lvc_absent_members();
    lvc_absent_members();
}
LV_CONTRACT(optional_member_again)
{
    lvc_optional_member();
    lvc_optional_member();
}
LV_CONTRACT(tuples_again)
{
    lvc_tuples();
    lvc_tuples();
}
LV_CONTRACT(boxes_again)
{
    lvc_boxes();
    lvc_boxes();
}
LV_CONTRACT(variant_unknown_name_again)
{
    lvc_variant_unknown_name();
    lvc_variant_unknown_name();
}
LV_CONTRACT(enums_again)
{
    lvc_enums();
    lvc_enums();
}
LV_CONTRACT(enum_unknown_name_again)
{
    lvc_enum_unknown_name();
    lvc_enum_unknown_name();
}
LV_CONTRACT(inline_values_again)
{
    lvc_inline_values();
    lvc_inline_values();
}
