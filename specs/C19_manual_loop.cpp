// The manual event loop: runs at once, but never nests.
#include "lv.h"
#include <lager/event_loop/manual.hpp>
using namespace lv;
using lager::with_manual_event_loop;

namespace {
struct oops {};
struct scenario
{
    with_manual_event_loop l;
    unsigned posted = 0, done = 0, depth = 0, budget, thrown = 0;
    bool throws[6];
    unsigned posts[6];
    explicit scenario(unsigned b)
        : budget(b)
    {}
    void post_one()
    {
        if (posted == budget)
            return;
        unsigned id = posted++;
        throws[id]  = any_bool("throws");
        posts[id]   = pick("posts", 3);
        l.post([this, id] {
            lv_assert(depth == 0, "tasks do not nest");
            lv_assert(id == done, "in order of posting, once each");
            ++depth;
            ++done;
            for (unsigned i = 0; i < posts[id]; ++i)
                post_one();
            --depth;
            if (throws[id]) {
                ++thrown;
                throw oops{};
            }
        });
    }
};
} // namespace

// a task runs before post() returns, unless it is posted by a task: then it runs
// after that one and everything posted before it; after an exception the rest is
// kept for the next post
LV_BOUNDED(posts_run_in_order_without_nesting)
{
    scenario s{4};
    for (unsigned i = 0; i < 4 && s.posted < 4; ++i) {
        unsigned t0 = s.thrown, p0 = s.posted;
        bool t = false;
        (void) p0;
        try {
            s.post_one();
        } catch (const oops&) {
            t = true;
        }
        lv_assert(t == (s.thrown != t0) && s.thrown <= t0 + 1, "an exception reaches the outermost post at once");
        if (t)
            lv_assert(s.throws[s.done - 1], "nothing runs after the exception");
        else
            lv_assert(s.done == s.posted, "everything posted has run");
    }
}
// a task that posts any number of others: each of them runs exactly once, in the
// order of posting, after the one that posted them
namespace {
uint64_t *g_calls, *g_pos, g_total, g_n;
struct task
{
    uint64_t idx;
    void operator()()
    {
        g_calls[idx]++;
        g_pos[idx] = g_total;
        g_total++;
    }
};
bool inv(void*, uint64_t k, uint64_t j)
{
    return g_total == k && k <= g_n && (j >= g_n || (j < k ? g_calls[j] == 1 && g_pos[j] == j : g_calls[j] == 0));
}
} // namespace
LV_CONTRACT(runs_any_number_once_in_order)
{
    uint64_t all_n = lv_len("tasks"); // (the first posts the others)
    lv_assume(all_n > 0);
    uint64_t n = all_n - 1;
    g_n        = n;
    g_calls    = (uint64_t*) lv_region(8, n, "calls");
    g_pos      = (uint64_t*) lv_region(8, n, "pos");
    lv_region_fill(g_calls, 0, 8, 0, 0);
    lv_region_fill(g_pos, 0, 8, 0, 0);
    g_total    = 0;
    uint64_t J = lv_any("J");
    lv_assume(J < n);
    with_manual_event_loop l;
#ifdef LV_VERIFY
    static_assert(sizeof(with_manual_event_loop) == sizeof(std::vector<std::function<void()>>) + sizeof(std::size_t),
                  "one queue and a position");
    // (the task that is running is the first of the queue, the others
    // are put there at once)
    std::function<void()> f = task{0};
    void* all               = lv_replicate(&f, sizeof f, all_n);
    lv_rep_index(&f, uint64_t(-1), 1);
    l.post([&] {
        lv_set_vector(&l, all, all_n, sizeof f);
        for (unsigned i = 0; i < sizeof f / 8; ++i)
            ((uint64_t*) all)[i] = 0; // (it was moved from)
        lv_inv(inv, nullptr, J);
    });
    lv_inv_pop();
#else
    l.post([&] {
        for (uint64_t i = 0; i < n; ++i)
            l.post(task{i});
    });
#endif
    lv_assert(g_total == n, "as many calls as tasks");
    lv_assert(g_calls[J] == 1, "each task exactly once");
    lv_assert(g_pos[J] == J, "in the order of posting");
    bool ran = false;
    l.post([&] { ran = true; });
    lv_assert(ran && g_total == n, "and the loop is ready again");
}
// one level of nesting, arbitrary data
LV_CONTRACT(nested_posts_are_queued)
{
    with_manual_event_loop l;
    Log log;
    auto a = any_id("a"), b = any_id("b");
    l.post([&] {
        log.push(1, a);
        l.post([&] { log.push(3, b); l.post([&] { log.push(5); }); });
        l.post([&] { log.push(4, a); });
        log.push(2, b);
    });
    lv_assert(log.n == 5 && log.is(0, 1, a) && log.is(1, 2, b) && log.is(2, 3, b) && log.is(3, 4, a) && log.is(4, 5),
              "queued in order");
    l.post([&] { log.push(6); });
    lv_assert(log.n == 6 && log.is(5, 6), "the loop is ready again");
}
// a task is released once it has run
LV_CONTRACT(task_lifetime)
{
    with_manual_event_loop l;
    auto p                    = std::make_shared<uint64_t>(lv_any("x"));
    std::weak_ptr<uint64_t> w = p;
    uint64_t seen = 0, x = *p;
    bool in = any_bool("nested"), alive = true;
    if (in)
        l.post([&] { l.post([&seen, p = std::move(p)] { seen = *p; }); alive = !w.expired(); });
    else
        l.post([&seen, p = std::move(p)] { seen = *p; });
    lv_assert(alive && seen == x && w.expired(), "kept until it has run");
}
// asynchronous work is refused loudly
LV_CONTRACT(async_is_refused)
{
    with_manual_event_loop l;
    bool ran = false, thrown = false;
    try {
        l.async([&] { ran = true; });
    } catch (const std::logic_error&) {
        thrown = true;
    }
    lv_assert(thrown && !ran, "logic error");
}

// a task that is posted by name is copied, and can be posted again
LV_CONTRACT(tasks_given_by_name)
{
    with_manual_event_loop l;
    unsigned n = 0;
    by_name t{&n};
    l.post(t);
    lv_assert(n == 1 && !t.gone, "run at once, not taken");
    l.post(t);
    lv_assert(n == 2, "and again");
    l.post([&] {
        l.post(t);
        l.post(t);
    });
    lv_assert(n == 4 && !t.gone, "also from another task");
}

// ... and everything the same when it happens again
LV_CONTRACT(nested_posts_are_queued_again)
{
    lvc_nested_posts_are_queued();
    lvc_nested_posts_are_queued();
}
LV_CONTRACT(task_lifetime_again)
{
    lvc_task_lifetime();
    lvc_task_lifetime();
}
LV_CONTRACT(async_is_refused_again)
{
    lvc_async_is_refused();
    lvc_async_is_refused();
}
LV_CONTRACT(tasks_given_by_name_again)
{
    lvc_tasks_given_by_name();
    lvc_tasks_given_by_name();
}
