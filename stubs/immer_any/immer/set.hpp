#pragma once
#include "ghost_any.hpp"
#include <functional>
namespace immer {
template <typename T, typename H = std::hash<T>, typename E = std::equal_to<T>, typename MP = default_memory_policy, std::uint32_t B = 5>
class set : public lv::ghost_container<T>
{
public:
    set insert(T x) const
    {
        set s = *this;
        s.add_(x);
        return s;
    }
};
} // namespace immer
