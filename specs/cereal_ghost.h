// A pair of ghost archives: what is written is recorded, entry by entry, together
// with the names of the named values; reading must ask for the same entries, by the
// same names.  The input archive is a text archive that can be asked for names.
#pragma once
#include "lv.h"
#include <cereal/cereal.hpp>
#include <string>

namespace lv {
struct entry
{
    unsigned kind;   // 1: value, 2: size, 3: text
    char name[24];   // of a named value, or empty
    char text[24];
    uint64_t val;
};
inline void copy_text(char* to, const char* from)
{
    unsigned i = 0;
    for (; from[i]; ++i) {
        lv_assert(i < 23, "ghost-limit-archive-text");
        to[i] = from[i];
    }
    to[i] = 0;
}
inline bool same_text(const char* a, const char* b)
{
    unsigned i = 0;
    for (; a[i] && a[i] == b[i]; ++i)
        ;
    return a[i] == b[i];
}
struct tape
{
    entry e[400];
    unsigned n = 0;
};
struct archive_mismatch : std::runtime_error
{
    using std::runtime_error::runtime_error;
};

struct gout : cereal::OutputArchive<gout>, cereal::traits::TextArchive
{
    tape& t;
    char next[24];
    gout(tape& t_)
        : cereal::OutputArchive<gout>(this)
        , t(t_)
    {
        next[0] = 0;
    }
    entry& put(unsigned kind)
    {
        lv_assert(t.n < 400, "ghost-archive-capacity");
        entry& x = t.e[t.n++];
        x.kind   = kind;
        x.val    = 0;
        copy_text(x.name, next);
        x.text[0] = 0;
        next[0]   = 0;
        return x;
    }
};

struct gin : cereal::InputArchive<gin>, cereal::traits::TextArchive
{
    tape& t;
    unsigned i = 0;
    char next[24];
    gin(tape& t_)
        : cereal::InputArchive<gin>(this)
        , t(t_)
    {
        next[0] = 0;
    }
    bool hasName(const char* n) const { return i < t.n && same_text(t.e[i].name, n); }
    entry& take(unsigned kind)
    {
        if (i >= t.n)
            throw archive_mismatch{"past the end"};
        entry& x = t.e[i++];
        if (x.kind != kind || !same_text(x.name, next))
            throw archive_mismatch{"other entry"};
        next[0] = 0;
        return x;
    }
    bool done() const { return i == t.n; }
};

template <int T>
void CEREAL_SAVE_FUNCTION_NAME(gout& ar, const Val<T>& v)
{
    lv_assert(v.id != LV_MOVED, "what is saved is not moved from");
    ar.put(10 + T).val = v.id;
}
template <int T>
void CEREAL_LOAD_FUNCTION_NAME(gin& ar, Val<T>& v)
{
    v.id = ar.take(10 + T).val;
}
} // namespace lv

namespace cereal {
template <typename T, traits::EnableIf<std::is_arithmetic<T>::value> = traits::sfinae>
void CEREAL_SAVE_FUNCTION_NAME(lv::gout& ar, const T& v)
{
    ar.put(1).val = (uint64_t) v;
}
template <typename T, traits::EnableIf<std::is_arithmetic<T>::value> = traits::sfinae>
void CEREAL_LOAD_FUNCTION_NAME(lv::gin& ar, T& v)
{
    v = (T) ar.take(1).val;
}
template <typename T>
void CEREAL_SAVE_FUNCTION_NAME(lv::gout& ar, const SizeTag<T>& v)
{
    ar.put(2).val = v.size;
}
template <typename T>
void CEREAL_LOAD_FUNCTION_NAME(lv::gin& ar, SizeTag<T>& v)
{
    v.size = ar.take(2).val;
}
inline void CEREAL_SAVE_FUNCTION_NAME(lv::gout& ar, const std::string& v)
{
    lv::copy_text(ar.put(3).text, v.c_str());
}
inline void CEREAL_LOAD_FUNCTION_NAME(lv::gin& ar, std::string& v)
{
    v = ar.take(3).text;
}
template <typename T>
void CEREAL_SAVE_FUNCTION_NAME(lv::gout& ar, const NameValuePair<T>& v)
{
    lv::copy_text(ar.next, v.name);
    ar(v.value);
}
template <typename T>
void CEREAL_LOAD_FUNCTION_NAME(lv::gin& ar, NameValuePair<T>& v)
{
    lv::copy_text(ar.next, v.name);
    ar(v.value);
}
} // namespace cereal
CEREAL_SETUP_ARCHIVE_TRAITS(lv::gin, lv::gout)

namespace lv {
template <typename T>
void round_trip(const T& x, T& y)
{
    tape t;
    const T before = x;
    {
        gout o{t};
        o(x);
    }
    lv_assert(x == before, "saving does not modify");
    gin i{t};
    i(y);
    lv_assert(y == x, "what was saved is loaded");
    lv_assert(i.done(), "all of it is read");
    tape t2;
    gout o2{t2};
    o2(y);
    bool same = t2.n == t.n;
    for (unsigned k = 0; same && k < t.n; ++k)
        same = t.e[k].val == t2.e[k].val && t.e[k].kind == t2.e[k].kind;
    lv_assert(same, "saved again it is the same");
}
} // namespace lv
