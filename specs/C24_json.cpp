// to_json and from_json.  The JSON archives and string streams are replaced by
// their contract, see stubs/json.
// LV_FLAGS: -include lv_inline_std.h -I{VERIF}/stubs/json
#include "cereal_ghost.h"
#include <lager/extra/cereal/json.hpp>
#include <lager/extra/cereal/struct.hpp>
#include <lager/extra/derive.hpp>
#include <lager/extra/struct.hpp>
using namespace lv;

namespace ns {
struct member_two
{
    V a;
    W b;
    template <typename A>
    void save(A& ar) const
    {
        ar(CEREAL_NVP(a), CEREAL_NVP(b));
    }
    template <typename A>
    void load(A& ar)
    {
        ar(CEREAL_NVP(a), CEREAL_NVP(b));
    }
};
struct free_two
{
    V a;
    W b;
};
template <typename A>
void save(A& ar, const free_two& x)
{
    ar(cereal::make_nvp("a", x.a), cereal::make_nvp("b", x.b));
}
template <typename A>
void load(A& ar, free_two& x)
{
    ar(cereal::make_nvp("a", x.a), cereal::make_nvp("b", x.b));
}
struct st
{
    V a;
    W b;
};
} // namespace ns
LAGER_STRUCT(ns, st, a, b);

namespace {
template <typename T>
void through_json()
{
    lv::documents docs;
    lv::g_docs = &docs;
    const T x{any("a"), any<W>("b")}, z{any("c"), any<W>("d")}, w{x};
    auto j = lager::to_json(x);
    auto k = lager::to_json(z);
    lv_assert(x.a == w.a && x.b == w.b, "what is saved is left as it is");
    lv_assert(docs.n == 2 && j != k, "each is a document of its own");
    lv_assert(docs.t[0].n == 2 && same_text(docs.t[0].e[0].name, "a") && same_text(docs.t[0].e[1].name, "b"), "exactly its parts are in the document");
    auto y = lager::from_json<T>(j);
    auto u = lager::from_json<T>(k);
    lv_assert(y.a == x.a && y.b == x.b && u.a == z.a && u.b == z.b, "what is read is what was written");
    bool thrown = false;
    try {
        lager::from_json<T>("{");
    } catch (const std::exception&) {
        thrown = true;
    }
    lv_assert(thrown, "what is no document fails loudly");
    lv::g_docs = nullptr;
    lv_cover("end");
}
} // namespace
LV_CONTRACT(json_of_members)
{
    through_json<ns::member_two>();
}
LV_CONTRACT(json_of_functions)
{
    through_json<ns::free_two>();
}
LV_CONTRACT(json_of_structs)
{
    through_json<ns::st>();
}
