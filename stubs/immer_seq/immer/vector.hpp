// The contract of immer::vector as a mathematical sequence of arbitrary length:
// a prefix of unknown elements (functions of the index) and a tail of known
// ones.  Nothing else of the dependency is assumed.  Used by the verifier only:
// native builds (replay, bounded search) have the real immer (see specs/seq.h).
#pragma once
#include <lv.h>
#include <cstddef>
#include <cstdint>
#include <immer/memory_policy.hpp>
#include <iterator>
#include <utility>

namespace lv {
// the i-th element of the unknown sequence `id`
template <typename T>
struct elem_of
{
    static T make(uint64_t, uint64_t)
    {
        lv_assert(false, "ghost-limit-sequence-has-no-unknown-elements");
        __builtin_unreachable();
    }
};
} // namespace lv
namespace immer {
template <typename T, typename MP, std::uint32_t B, std::uint32_t BL>
class vector_transient;

template <typename T, typename MP = default_memory_policy, std::uint32_t B = 5, std::uint32_t BL = 1>
class vector
{
public:
    enum { cap = 6 };
    struct rep
    {
        uint64_t id = 0, base = 0; // base elements of the unknown sequence id
        T* tail[cap] = {};         // owned by nobody: sequences are persistent
        unsigned n = 0;
        bool over  = false; // one element of the prefix replaced by a known one
        uint64_t at = 0;
        T* ov       = nullptr;
    } r_;

    using value_type     = T;
    using size_type      = std::size_t;
    using const_reference = const T&;
    using memory_policy  = MP;

    vector() = default;
    vector(std::initializer_list<T> l)
    {
        for (auto& x : l)
            *this = push_back(x);
    }
    size_type size() const { return r_.base + r_.n; }
    bool empty() const { return size() == 0; }
    const T& operator[](size_type i) const
    {
        lv_assert(i < size(), "element access within bounds");
        if (r_.over && i == r_.at)
            return *r_.ov;
        if (i < r_.base)
            return *new T(lv::elem_of<T>::make(r_.id, i));
        for (unsigned k = 0; k < r_.n; ++k)
            if (i - r_.base == k)
                return *r_.tail[k];
        __builtin_unreachable();
    }
    const T& at(size_type i) const
    {
        if (i >= size())
            throw std::out_of_range("index");
        return (*this)[i];
    }
    const T& front() const { return (*this)[0]; }
    const T& back() const { return (*this)[size() - 1]; }
    vector push_back(T v) const
    {
        lv_assert(r_.n < cap, "ghost-limit-sequence-capacity");
        vector o         = *this;
        o.r_.tail[o.r_.n] = new T(std::move(v));
        o.r_.n++;
        return o;
    }
    vector take(size_type k) const
    {
        if (k >= size())
            return *this;
        vector o = *this;
        if (k <= r_.base) {
            o.r_.base = k;
            o.r_.n    = 0;
            o.r_.over = o.r_.over && o.r_.at < k;
            return o;
        }
        for (unsigned j = 0; j < r_.n; ++j)
            if (k - r_.base == j) {
                o.r_.n = j;
                break;
            }
        return o;
    }
    vector set(size_type i, T v) const
    {
        lv_assert(i < size(), "element access within bounds");
        vector o = *this;
        for (unsigned k = 0; k < r_.n; ++k)
            if (i == r_.base + k) {
                o.r_.tail[k] = new T(std::move(v));
                return o;
            }
        lv_assert(!r_.over || r_.at == i, "ghost-limit-sequence-capacity");
        o.r_.over = true;
        o.r_.at   = i;
        o.r_.ov   = new T(std::move(v));
        return o;
    }
    template <typename Fn>
    vector update(size_type i, Fn&& fn) const
    {
        return set(i, fn((*this)[i]));
    }
    struct iterator
    {
        const vector* v;
        size_type i;
        using value_type        = T;
        using reference         = const T&;
        using pointer           = const T*;
        using difference_type   = std::ptrdiff_t;
        using iterator_category = std::forward_iterator_tag;
        const T& operator*() const { return (*v)[i]; }
        iterator& operator++()
        {
            ++i;
            return *this;
        }
        friend bool operator==(iterator a, iterator b) { return a.i == b.i; }
        friend bool operator!=(iterator a, iterator b) { return a.i != b.i; }
    };
    using const_iterator = iterator;
    iterator begin() const { return {this, 0}; }
    iterator end() const { return {this, size()}; }

    struct impl_t
    {
        const vector* v;
        template <typename Fn>
        void for_each_chunk(Fn&& fn) const
        {
            lv_assert(v->r_.base == 0 && !v->r_.over, "ghost-limit-sequence-iteration-is-bounded");
            for (unsigned k = 0; k < v->r_.n; ++k)
                fn((const T*) v->r_.tail[k], (const T*) v->r_.tail[k] + 1);
        }
    };
    impl_t impl() const { return {this}; }
    using transient_type = vector_transient<T, MP, B, BL>;
    transient_type transient() const { return transient_type{*this}; }
    friend bool operator==(const vector& a, const vector& b)
    {
        if (a.size() != b.size())
            return false;
        lv_assert(a.r_.id == b.r_.id && a.r_.base == b.r_.base, "ghost-limit-sequence-comparison-of-unknown-prefixes");
        for (unsigned k = 0; k < a.r_.n; ++k)
            if (!(*a.r_.tail[k] == *b.r_.tail[k]))
                return false;
        return true;
    }
    friend bool operator!=(const vector& a, const vector& b) { return !(a == b); }
};

template <typename T, typename MP = default_memory_policy, std::uint32_t B = 5, std::uint32_t BL = 1>
class vector_transient
{
public:
    vector<T, MP, B, BL> v;
    vector_transient() = default;
    explicit vector_transient(vector<T, MP, B, BL> x)
        : v(std::move(x))
    {}
    void push_back(T x) { v = v.push_back(std::move(x)); }
    std::size_t size() const { return v.size(); }
    vector<T, MP, B, BL> persistent() const { return v; }
};
} // namespace immer
