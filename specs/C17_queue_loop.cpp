// The explicit queue event loop.
#include "lv.h"
#include <lager/event_loop/queue.hpp>
#include <vector>
using namespace lv;
using lager::queue_event_loop;

namespace {
uint64_t *g_calls, *g_pos, g_total, g_n;
struct task
{
    uint64_t idx;
    void operator()()
    {
        g_calls[idx]++;
        g_pos[idx] = g_total;
        g_total++;
    }
};
bool inv(void*, uint64_t k, uint64_t j)
{
    return g_total == k && (j >= g_n || (j < k ? g_calls[j] == 1 && g_pos[j] == j : g_calls[j] == 0));
}
} // namespace

// any number of posted tasks: each runs exactly once, in the order of posting
LV_CONTRACT(step_runs_each_once_in_order)
{
    uint64_t n = lv_len("tasks");
    g_n        = n;
    g_calls    = (uint64_t*) lv_region(8, n, "calls");
    g_pos      = (uint64_t*) lv_region(8, n, "pos");
    lv_region_fill(g_calls, 0, 8, 0, 0);
    lv_region_fill(g_pos, 0, 8, 0, 0);
    g_total    = 0;
    uint64_t J = lv_any("J");
    lv_assume(J < n);
    queue_event_loop l;
#ifdef LV_VERIFY
    static_assert(sizeof(queue_event_loop) == sizeof(std::vector<std::function<void()>>), "one queue");
    std::function<void()> f = task{0};
    void* all               = lv_replicate(&f, sizeof f, n);
    lv_rep_index(&f, 0, 1);
    lv_set_vector(&l, all, n, sizeof f);
    lv_inv(inv, nullptr, J);
    l.step();
    lv_inv_pop();
#else
    for (uint64_t i = 0; i < n; ++i)
        l.post(task{i});
    l.step();
#endif
    lv_assert(g_total == n, "as many calls as tasks");
    lv_assert(g_calls[J] == 1, "each task exactly once");
    lv_assert(g_pos[J] == J, "in the order of posting");
    l.step();
    lv_assert(g_total == n, "a second step runs nothing");
}

namespace {
struct oops {};
// tasks that log, post further tasks, and throw, in every combination
template <typename Loop>
struct scenario
{
    Loop& l;
    Log log;
    unsigned posted = 0; // ids are given in order of posting
    unsigned budget;
    bool throws[6];
    unsigned posts[6];
    unsigned done = 0;
    unsigned thrown = 0;
    explicit scenario(Loop& l_, unsigned b)
        : l(l_)
        , budget(b)
    {}
    void post_one()
    {
        if (posted == budget)
            return;
        unsigned id = posted++;
        throws[id]  = any_bool("throws");
        posts[id]   = pick("posts", 3);
        l.post([this, id] {
            lv_assert(id == done, "in order of posting, once each");
            ++done;
            for (unsigned i = 0; i < posts[id]; ++i)
                post_one();
            if (throws[id]) {
                ++thrown;
                throw oops{};
            }
        });
    }
};
} // namespace

// tasks that post and throw: what is posted during a step runs in that step; after
// an exception the rest is kept, in order, for the next step
LV_BOUNDED(reentrancy_and_exceptions)
{
    queue_event_loop l;
    scenario<queue_event_loop> s{l, 4};
    unsigned k = 1 + pick("initially", 3);
    for (unsigned i = 0; i < k; ++i)
        s.post_one();
    lv_assert(s.done == 0, "posting runs nothing");
    for (unsigned i = 0; i < 5 && s.done < s.posted; ++i) {
        unsigned d0 = s.done;
        bool t = false;
        try {
            l.step();
        } catch (const oops&) {
            t = true;
        }
        lv_assert(t ? s.throws[s.done - 1] && s.done > d0 : s.done == s.posted, "stops only at an exception");
    }
    lv_assert(s.done == s.posted, "all tasks are run in the end");
    l.step();
    lv_assert(s.done == s.posted, "never again");
}
// through the handle that is given to stores
LV_CONTRACT(handle_posts_to_loop)
{
    queue_event_loop l;
    lager::with_queue_event_loop w{l};
    Log log;
    auto a = any_id("a"), b = any_id("b");
    w.post([&] { log.push(1, a); w.post([&] { log.push(3); }); });
    l.post([&] { log.push(2, b); });
    lv_assert(log.n == 0, "posting runs nothing");
    l.step();
    lv_assert(log.n == 3 && log.is(0, 1, a) && log.is(1, 2, b) && log.is(2, 3), "one queue");
}
// a task owns what it captured until it has run, and not longer than the step
LV_CONTRACT(task_lifetime)
{
    queue_event_loop l;
    auto p = std::make_shared<uint64_t>(lv_any("x"));
    std::weak_ptr<uint64_t> w = p;
    uint64_t seen = 0, x = *p;
    l.post([&seen, p = std::move(p)] { seen = *p; });
    lv_assert(!w.expired(), "kept until the step");
    l.step();
    lv_assert(seen == x && w.expired(), "released by the step");
}

// a task that is posted by name is copied, and can be posted again
LV_CONTRACT(tasks_given_by_name)
{
    queue_event_loop l;
    lager::with_queue_event_loop w{l};
    unsigned n = 0;
    by_name t{&n};
    l.post(t);
    w.post(t);
    lv_assert(n == 0 && !t.gone, "not run at once, nor taken");
    w.post(t);
    l.step();
    lv_assert(n == 3, "once for each time it was posted");
}

// ... and everything the same when it happens again
LV_CONTRACT(step_runs_each_once_in_order_again)
{
    lvc_step_runs_each_once_in_order();
    lvc_step_runs_each_once_in_order();
}
LV_CONTRACT(handle_posts_to_loop_again)
{
    lvc_handle_posts_to_loop();
    lvc_handle_posts_to_loop();
}
LV_CONTRACT(task_lifetime_again)
{
    lvc_task_lifetime();
    lvc_task_lifetime();
}
LV_CONTRACT(tasks_given_by_name_again)
{
    lvc_tasks_given_by_name();
    lvc_tasks_given_by_name();
}
