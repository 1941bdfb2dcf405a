#pragma once
#include "ghost_any.hpp"
namespace immer {
template <typename T, typename MP = default_memory_policy>
class array : public lv::ghost_sequence<T, array<T, MP>>
{
public:
    using memory_policy = MP;
};
} // namespace immer
