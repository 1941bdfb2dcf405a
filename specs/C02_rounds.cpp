// Any number of rounds: nothing is remembered from one to the next but the value.
#include "nodes.h"
#include <lager/commit.hpp>
#include <lager/state.hpp>
#include <lager/watch.hpp>
#include <lager/with.hpp>
using namespace lv;

namespace {
uint64_t g_val;
template <typename Node>
bool settled(const Node& n)
{
    auto& told = static_cast<const lager::detail::reader_node<V>&>(n).notified_;
    return (n.last().id == n.current().id) & (told.id == n.last().id);
}
template <typename S>
bool inv(void* s, uint64_t, uint64_t)
{
    auto& n = *lager::detail::access::node(*(const S*) s);
    return settled(n);
}
} // namespace
LV_CONTRACT(any_number_of_commits)
{
    auto s = lager::make_state(any("init"), lager::transactional_tag{});
    lager::reader<V> r = s;
    uint64_t calls = 0, seen = 0;
    r.watch([&](V v) {
        calls++;
        seen = v.id;
    });
    uint64_t n = lv_len("rounds");
    lv_inv(inv<decltype(s)>, &s, 0);
    for (uint64_t i = 0; i < n; ++i) {
        auto before = s.get();
        auto v = any("v");
        calls = 0;
        s.set(v);
        lv_assert(s.get() == before, "not yet");
        lager::commit(s);
        lv_assert(s.get() == v && r.get() == v, "then");
        lv_assert(calls == (v == before ? 0 : 1), "once iff changed");
        lv_assert(!calls || seen == v.id, "with the value");
    }
    lv_inv_pop();
}
