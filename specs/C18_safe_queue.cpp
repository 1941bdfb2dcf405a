// The thread-safe queue loop: tasks may be posted from any thread, they run in
// the thread that steps.
#include "lv.h"
#include <lager/event_loop/safe_queue.hpp>
using namespace lv;
using lager::safe_queue_event_loop;

// posts from several threads, in any interleaving with steps: every task runs
// exactly once, in step(), and tasks of one thread run in their order
LV_CONTRACT(every_post_runs_once_in_thread_order)
{
    safe_queue_event_loop l;
    Log log;
    unsigned posted[3] = {0, 0, 0};
    bool stepping      = false;
    auto post          = [&](unsigned t) {
        unsigned i = posted[t]++;
        auto task  = [&, t, i] { lv_assert(stepping, "only inside step"); log.push(t, i); };
        if (t == 0)
            l.post(task);
        else
            in_thread(t, [&] { l.post(task); });
    };
    for (unsigned k = 0; k < 4; ++k) {
        unsigned what = pick("what", 4);
        if (what < 3)
            post(what);
        else {
            stepping = true;
            l.step();
            stepping = false;
            lv_assert(log.n == posted[0] + posted[1] + posted[2], "all that was posted before has run");
        }
    }
    stepping = true;
    l.step();
    unsigned seen[3] = {0, 0, 0};
    for (unsigned i = 0; i < log.n; ++i) {
        lv_assert(log.e[i].a == seen[log.e[i].kind], "in the order of each thread, once");
        seen[log.e[i].kind]++;
    }
    lv_assert(seen[0] == posted[0] && seen[1] == posted[1] && seen[2] == posted[2], "all run");
    l.step();
    lv_assert(log.n == posted[0] + posted[1] + posted[2], "never again");
}
// tasks posted by tasks, locally or from elsewhere
LV_CONTRACT(posts_from_tasks)
{
    safe_queue_event_loop l;
    Log log;
    bool outer = any_bool("from another thread"), inner = any_bool("nested from another thread");
    auto nested = [&] { log.push(2); };
    auto task   = [&] {
        log.push(1);
        if (inner)
            in_thread(2, [&] { l.post(nested); });
        else
            l.post(nested);
        log.push(3);
    };
    if (outer)
        in_thread(1, [&] { l.post(task); });
    else
        l.post(task);
    lv_assert(log.n == 0, "posting runs nothing");
    l.step();
    lv_assert(log.is(0, 1) && log.is(1, 3), "nothing nests");
    if (!inner)
        lv_assert(log.n == 3, "local posts run in the same step");
    l.step();
    lv_assert(log.n == 3 && log.is(2, 2), "every post runs in the end, once");
}
// exceptions: what follows is kept for the next step
LV_CONTRACT(exceptions_keep_the_rest)
{
    struct oops {};
    safe_queue_event_loop l;
    Log log;
    unsigned bad = pick("throws", 5);
    bool other[4];
    unsigned k[2] = {0, 0};
    for (unsigned i = 0; i < 4; ++i) {
        other[i]  = any_bool("other thread");
        auto task = [&, i] {
            log.push(other[i], i);
            if (i == bad)
                throw oops{};
        };
        if (other[i])
            in_thread(1, [&] { l.post(task); });
        else
            l.post(task);
    }
    bool thrown = false;
    try {
        l.step();
    } catch (const oops&) {
        thrown = true;
    }
    lv_assert(thrown == (bad < 4), "the exception is passed on");
    if (thrown)
        lv_assert(log.e[log.n - 1].a == bad, "nothing runs after it in this step");
    l.step();
    lv_assert(log.n == 4, "all run, once");
    for (unsigned i = 1; i < log.n; ++i)
        for (unsigned j = 0; j < i; ++j)
            lv_assert(log.e[i].kind != log.e[j].kind || log.e[j].a < log.e[i].a, "in the order of each thread");
}
// the loop follows the thread that adopts it
LV_CONTRACT(adopt_changes_owner)
{
    safe_queue_event_loop l;
    Log log;
    in_thread(1, [&] { l.post([&] { log.push(1); }); });
    in_thread(2, [&] {
        l.adopt();
        l.post([&] { log.push(2); });
        l.step();
    });
    lv_assert(log.n == 2 && log.count(1) == 1 && log.count(2) == 1, "runs everything in the new owner");
    l.post([&] { log.push(3); });
    lv_assert(log.n == 2, "posting from the old owner only queues");
    in_thread(2, [&] { l.step(); });
    lv_assert(log.n == 3 && log.is(2, 3), "and runs later");
}

// a task that is posted by name is copied, and can be posted again
LV_CONTRACT(tasks_given_by_name)
{
    safe_queue_event_loop l;
    lager::with_safe_queue_event_loop w{l};
    unsigned n = 0;
    by_name t{&n};
    bool mine = any_bool("mine");
    auto post = [&] {
        l.post(t);
        w.post(t);
        w.post(t);
    };
    if (mine)
        post();
    else
        in_thread(1, post);
    lv_assert(n == 0 && !t.gone, "not run at once, nor taken");
    l.step();
    lv_assert(n == 3, "once for each time it was posted");
}

// ... and everything the same when it happens again
LV_CONTRACT(posts_from_tasks_again)
{
    lvc_posts_from_tasks();
    lvc_posts_from_tasks();
}
LV_CONTRACT(tasks_given_by_name_again)
{
    lvc_tasks_given_by_name();
    lvc_tasks_given_by_name();
}
