// The contract of the immer containers as sequences of arbitrary length whose
// elements are functions of the position (lv::elem_of, keys pairwise different):
// iterating visits each once in order, adding the element that comes next gives
// the sequence that is one longer.  Used by the verifier only: native builds
// have the real immer.
#pragma once
#include <lv.h>
#include <cstddef>
#include <cstdint>
#include <immer/memory_policy.hpp>
#include <utility>
namespace lv {
template <typename T>
struct elem_of; // make(i), is(x, i)
// "the first n elements", or something else
struct ghost_any
{
    uint64_t n = 0;
    bool ok    = true;
};
template <typename T>
struct ghost_iterator
{
    uint64_t i;
    T operator*() const { return elem_of<T>::make(i); }
    ghost_iterator& operator++() { ++i; return *this; }
    bool operator!=(const ghost_iterator& o) const { return i != o.i; }
    bool operator==(const ghost_iterator& o) const { return i == o.i; }
};
template <typename T>
struct ghost_container
{
    ghost_any g_;
    using value_type     = T;
    using size_type      = std::size_t;
    using const_iterator = ghost_iterator<T>;
    using iterator       = const_iterator;
    size_type size() const { return g_.n; }
    bool empty() const { return g_.n == 0; }
    iterator begin() const { return {0}; }
    iterator end() const { return {g_.n}; }
    T operator[](size_type i) const
    {
        lv_assert(i < g_.n, "element access within bounds");
        return elem_of<T>::make(i);
    }
    void add_(const T& x)
    {
        g_.ok = (unsigned(g_.ok) & unsigned(elem_of<T>::is(x, g_.n))) != 0;
        ++g_.n;
    }
};
template <typename T, typename P>
struct ghost_transient : ghost_container<T>
{
    void push_back(T x) { this->add_(x); }
    P persistent() const
    {
        P p;
        p.g_ = this->g_;
        return p;
    }
};
template <typename T, typename P>
struct ghost_sequence : ghost_container<T>
{
    using transient_type = ghost_transient<T, P>;
    transient_type transient() const
    {
        transient_type t;
        t.g_ = this->g_;
        return t;
    }
    P push_back(T x) const
    {
        P p;
        p.g_ = this->g_;
        p.add_(x);
        return p;
    }
};
} // namespace lv
