// The contract of cereal's JSON archives and of string streams, as far as
// lager::to_json and from_json use them.  Used by the verifier and by native builds.
// Assumed: a document is complete when its archive is destroyed; a complete document
// read again gives what was written, an incomplete one or another text does not.
#pragma once
#include <cereal_ghost.h>
#include <istream>
#include <ostream>
#include <sstream>

namespace std {
struct lv_stringstream
{
    std::string text;
    lv_stringstream() = default;
    explicit lv_stringstream(std::string s)
        : text{std::move(s)}
    {}
    template <typename Mode>
    lv_stringstream(std::string s, Mode)
        : text{std::move(s)}
    {}
    std::string str() const { return text; }
    void str(std::string s) { text = std::move(s); }
};
} // namespace std
namespace lv {
struct documents
{
    tape t[4];
    unsigned n = 0;
};
inline documents* g_docs = nullptr;
} // namespace lv
namespace cereal {
struct JSONOutputArchive : OutputArchive<JSONOutputArchive>, traits::TextArchive
{
    std::lv_stringstream& s;
    unsigned doc;
    lv::gout o;
    explicit JSONOutputArchive(std::lv_stringstream& s_)
        : OutputArchive<JSONOutputArchive>(this)
        , s{s_}
        , doc{lv::g_docs->n++}
        , o{lv::g_docs->t[doc]}
    {
        lv_assert(doc < 4, "ghost-limit-json-documents");
        s.text += '{';
    }
    ~JSONOutputArchive() noexcept
    {
        s.text += char('a' + doc);
        s.text += '}';
    }
};
struct JSONInputArchive : InputArchive<JSONInputArchive>, traits::TextArchive
{
    static lv::tape& find(const std::string& s)
    {
        if (s.size() != 3 || s[0] != '{' || s[2] != '}' || s[1] < 'a' || unsigned(s[1] - 'a') >= lv::g_docs->n)
            throw std::runtime_error{"not a document"};
        return lv::g_docs->t[s[1] - 'a'];
    }
    lv::gin i;
    explicit JSONInputArchive(std::lv_stringstream& s)
        : InputArchive<JSONInputArchive>(this)
        , i{find(s.text)}
    {}
    bool hasName(const char* n) const { return i.hasName(n); }
};
template <typename T>
void CEREAL_SAVE_FUNCTION_NAME(JSONOutputArchive& ar, const NameValuePair<T>& v)
{
    ar.o(v);
}
template <typename T>
void CEREAL_LOAD_FUNCTION_NAME(JSONInputArchive& ar, NameValuePair<T>& v)
{
    ar.i(v);
}
template <typename T>
void CEREAL_SAVE_FUNCTION_NAME(JSONOutputArchive& ar, const SizeTag<T>& v)
{
    ar.o(v);
}
template <typename T>
void CEREAL_LOAD_FUNCTION_NAME(JSONInputArchive& ar, SizeTag<T>& v)
{
    ar.i(v);
}
} // namespace cereal
namespace lv {
template <int T>
void CEREAL_SAVE_FUNCTION_NAME(cereal::JSONOutputArchive& ar, const Val<T>& v)
{
    ar.o(v);
}
template <int T>
void CEREAL_LOAD_FUNCTION_NAME(cereal::JSONInputArchive& ar, Val<T>& v)
{
    ar.i(v);
}
} // namespace lv
CEREAL_SETUP_ARCHIVE_TRAITS(cereal::JSONInputArchive, cereal::JSONOutputArchive)
#define ostringstream lv_stringstream
#define istringstream lv_stringstream
#define stringstream lv_stringstream
