#pragma once
#include "ghost_any.hpp"
namespace immer {
template <typename T, typename MP = default_memory_policy, std::uint32_t B = 5, std::uint32_t BL = 1>
class vector : public lv::ghost_sequence<T, vector<T, MP, B, BL>>
{
public:
    using memory_policy = MP;
};
} // namespace immer
