// Lock discipline and interference of the thread-safe queue loop, for any number
// of queued tasks.  (Uses the names of the internal queues.)
#include "lv.h"
#include <lager/event_loop/safe_queue.hpp>
using namespace lv;
using lager::safe_queue_event_loop;

namespace {
char g_owner; // pseudo lock: held while the owner thread executes
void guard_all(safe_queue_event_loop& l)
{
    lv_guard(&l.shared_queue_, sizeof l.shared_queue_, &l.mutex_);
    lv_guard(&l.local_queue_, sizeof l.local_queue_, &g_owner);
    lv_hold(&g_owner, true);
}
template <typename Fn>
void elsewhere(Fn f)
{
    lv_hold(&g_owner, false);
    in_thread(1, f);
    lv_hold(&g_owner, true);
}
} // namespace

// other threads only touch the shared queue, and only under the lock; the owner
// touches it only under the lock
LV_CONTRACT(lock_discipline)
{
    safe_queue_event_loop l;
    guard_all(l);
    unsigned n = 0, posted = 0;
    for (unsigned i = 0; i < 3; ++i) {
        unsigned what = pick("what", 3);
        auto task     = [&] { ++n; };
        posted += what < 2;
        if (what == 0)
            l.post(task);
        else if (what == 1)
            elsewhere([&] { l.post(task); });
        else
            l.step();
    }
    l.step();
    lv_assert(n == posted, "nothing is lost");
    lv_unguard(&l);
}
// another thread posts at the moment at which step() is about to take the lock
namespace {
struct world
{
    safe_queue_event_loop l;
    unsigned n = 0, m = 0, posted = 0, when = 0;
    static void interfere(void* c)
    {
        auto& x = *static_cast<world*>(c);
        if (x.when == 0) {
            ++x.posted;
            elsewhere([&] { x.l.post([&x] { ++x.n; }); });
        } else {
            --x.when;
            x.arm();
        }
    }
    void arm()
    {
        lv_before_lock(&l.mutex_, &world::interfere, this);
    }
};
} // namespace
LV_CONTRACT(post_during_step)
{
    world x;
    guard_all(x.l);
    if (any_bool("local first"))
        x.l.post([&] { ++x.m; });
    x.when = pick("before acquisition", 3);
    bool w = x.when == 0;
    x.arm();
    x.l.step();
    if (w)
        lv_assert(x.n == 1, "posted before the queues are exchanged: runs in this step");
    x.l.step();
    x.when = 9;
    x.l.step();
    lv_assert(x.n == x.posted, "exactly once, as soon as there is a step");
    lv_unguard(&x.l);
}

// any number of queued tasks, local and shared
namespace {
uint64_t *g_calls, *g_pos, g_total, g_n;
struct task
{
    uint64_t idx;
    void operator()()
    {
        g_calls[idx]++;
        g_pos[idx] = g_total;
        g_total++;
    }
};
bool inv(void*, uint64_t k, uint64_t j)
{
    return g_total == k && (j >= g_n || (j < k ? g_calls[j] == 1 && g_pos[j] == j : g_calls[j] == 0));
}
} // namespace
LV_CONTRACT(step_runs_any_number)
{
    uint64_t n = lv_len("tasks");
    g_n        = n;
    g_calls    = (uint64_t*) lv_region(8, n, "calls");
    g_pos      = (uint64_t*) lv_region(8, n, "pos");
    lv_region_fill(g_calls, 0, 8, 0, 0);
    lv_region_fill(g_pos, 0, 8, 0, 0);
    g_total    = 0;
    uint64_t J = lv_any("J");
    lv_assume(J < n);
    bool shared = any_bool("posted by other threads");
    safe_queue_event_loop l;
#ifdef LV_VERIFY
    std::function<void()> f = task{0};
    void* all               = lv_replicate(&f, sizeof f, n);
    lv_rep_index(&f, 0, 1);
    if (shared)
        lv_set_vector(&l.shared_queue_, all, n, sizeof f);
    else
        lv_set_vector(&l.local_queue_, all, n, sizeof f);
    lv_inv(inv, nullptr, J);
    l.step();
    lv_inv_pop();
#else
    for (uint64_t i = 0; i < n; ++i)
        if (shared)
            in_thread(1, [&] { l.post(task{i}); });
        else
            l.post(task{i});
    l.step();
#endif
    lv_assert(g_total == n, "as many calls as tasks");
    lv_assert(g_calls[J] == 1, "each task exactly once");
    lv_assert(g_pos[J] == J, "in the order of posting");
}
