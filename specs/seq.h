// Sequences of arbitrary length with unknown elements.  elem_of<T> says what the
// i-th element of the unknown sequence `id` is.
#pragma once
#include "lv.h"
#include <immer/vector.hpp>

namespace lv {
#ifndef LV_VERIFY
template <typename T>
struct elem_of;
inline int g_nesting = 0;
#endif
template <typename T>
immer::vector<T> sequence_of(uint64_t id, uint64_t n)
{
    immer::vector<T> v;
#ifdef LV_VERIFY
    v.r_.id   = id;
    v.r_.base = n;
#else
    // (native runs explore small sequences of limited nesting)
    if (g_nesting > 3)
        return v;
    if (n > 8)
        n = n % 3 + 1;
    ++g_nesting;
    for (uint64_t i = 0; i < n; ++i)
        v = std::move(v).push_back(elem_of<T>::make(id, i));
    --g_nesting;
#endif
    return v;
}
template <typename T>
immer::vector<T> any_sequence(const char* name, uint64_t id)
{
    return sequence_of<T>(id, lv_len(name));
}
} // namespace lv
