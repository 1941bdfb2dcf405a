#pragma once
#include "ghost_any.hpp"
#include <functional>
namespace immer {
template <typename K, typename T, typename H = std::hash<K>, typename E = std::equal_to<K>, typename MP = default_memory_policy, std::uint32_t B = 5>
class map : public lv::ghost_container<std::pair<K, T>>
{
public:
    using key_type    = K;
    using mapped_type = T;
    map set(K k, T x) const
    {
        map s = *this;
        s.add_({std::move(k), std::move(x)});
        return s;
    }
    map insert(std::pair<K, T> x) const
    {
        map s = *this;
        s.add_(x);
        return s;
    }
};
} // namespace immer
