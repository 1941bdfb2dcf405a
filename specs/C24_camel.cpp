// Structs that ask for camel-cased names.
// LV_FLAGS: -include lv_inline_std.h
// LV_MUST_COMPILE: a struct with camel-cased names can be serialised
#include "cereal_ghost.h"
#include <lager/extra/struct.hpp>
#include <lager/extra/cereal/struct.hpp>
using namespace lv;

namespace ns {
struct camel
{
    static constexpr auto serialize_camel_case = true;
    V snake_cased_name;
    W b;
};
} // namespace ns
LAGER_STRUCT(ns, camel, snake_cased_name, b);

LV_CONTRACT(camel_case_structs)
{
    ns::camel x{any("a"), any<W>("b")}, y{any("a"), any<W>("b")};
    round_trip(x, y);
    tape t;
    gout o{t};
    o(x);
    lv_assert(t.n == 2 && same_text(t.e[0].name, "snakeCasedName") && same_text(t.e[1].name, "b"), "by name");
}
// names of any shape (words of letters and digits, separated by anything else)
LV_BOUNDED(camel_case)
{
    auto letter = [](char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); };
    auto upper  = [](char c) { return c >= 'a' && c <= 'z' ? char(c - 32) : c; };
    auto lower  = [](char c) { return c >= 'A' && c <= 'Z' ? char(c + 32) : c; };
    static const char cs[] = {'a', 'Z', '7', '_', '-'};
    unsigned n = pick("n", 5);
    std::string in, out;
    bool start = false;
    for (unsigned i = 0; i < n; ++i) {
        char c = cs[pick("c", 5)];
        in += c;
        if (letter(c)) {
            out += start ? upper(c) : lower(c);
            start = false;
        } else if (c == '7')
            out += c;
        else
            start = true;
    }
    lv_assert(lager::detail::to_camel_case(in) == out, "words joined, each but the first one capitalised");
    lv_cover("end");
}

