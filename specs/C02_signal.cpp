// The observer list of a node, for an arbitrary number of observers.
#include "nodes.h"
using namespace lv;

namespace {
uint64_t *g_calls, *g_pos, g_total, g_n, g_arg;
bool g_badarg;
struct fn
{
    uint64_t idx;
    void operator()(const V& v)
    {
        g_calls[idx]++;
        g_pos[idx] = g_total;
        g_total++;
        if (v.id != g_arg)
            g_badarg = true;
    }
};
bool inv(void*, uint64_t k, uint64_t j)
{
    return g_total == k && !g_badarg &&
           (j >= g_n || (j < k ? g_calls[j] == 1 && g_pos[j] == j : g_calls[j] == 0));
}
using sig_t = lager::detail::signal<const V&>;
} // namespace

// each of n observers is called exactly once, in registration order, with the value
LV_CONTRACT(signal_calls_each_once_in_order)
{
    uint64_t n = lv_len("observers");
    g_n        = n;
    g_calls    = (uint64_t*) lv_region(8, n, "calls");
    g_pos      = (uint64_t*) lv_region(8, n, "pos");
    lv_region_fill(g_calls, 0, 8, 0, 0);
    lv_region_fill(g_pos, 0, 8, 0, 0);
    g_total  = 0;
    g_badarg = false;
    auto v   = any("v");
    g_arg    = v.id;
    uint64_t J = lv_any("J");
    lv_assume(J < n);
    sig_t sig;
#ifdef LV_VERIFY
    auto c      = sig.connect(fn{0});
    char* slot  = (char*) c.slot_.get();
    char* hook  = *(char**) &sig; // the list head's next pointer: the slot's hook
    // the functor is the only datum of the slot besides vptr and hook
    uint64_t* idx = nullptr;
    for (unsigned o = 8; o + 8 <= sizeof(sig_t::slot<fn>); o += 8)
        if (o != (unsigned) (hook - slot) && o != (unsigned) (hook - slot) + 8)
            idx = (uint64_t*) (slot + o);
    void* all = lv_replicate(slot, 0, n);
    lv_rep_index(idx, 0, 1);
    lv_region_list(all, hook - slot, n, &sig, 0, 8);
    lv_inv(inv, nullptr, J);
    sig(v);
    lv_inv_pop();
#else
    std::vector<sig_t::connection> cs;
    for (uint64_t i = 0; i < n; ++i)
        cs.push_back(sig.connect(fn{i}));
    sig(v);
#endif
    lv_assert(g_total == n, "as many calls as observers");
    lv_assert(!g_badarg, "with the emitted value");
    lv_assert(g_calls[J] == 1, "each observer exactly once");
    lv_assert(g_pos[J] == J, "in the order of registration");

}
