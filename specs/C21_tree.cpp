// The tree debugger: every step that was ever made stays where it is, and every
// new one is what is shown after making it.
// LV_STUBS: immer_seq
#include "gloop.h"
#include "nodes.h"
#include "seq.h"
#include <lager/store.hpp>
#include <lager/debug/tree_debugger.hpp>
using namespace lv;

namespace {
using D = lager::tree_debugger<W, V, lager::deps<>>;
using H = D::history;
V red(const V& m, const W& a) { return V{uf("red", m.id, a.id)}; }
Log g_log;
enum { REDUCED = 1, EFFECT = 2 };
uint64_t len(const char* f, uint64_t id, uint64_t i) { return lv_uf2(f, id, i) & 0xffffffff; }
} // namespace
namespace lv {
// an unknown sequence of branches / steps: everything about them is arbitrary
template <>
struct elem_of<immer::box<D::step>>
{
    static immer::box<D::step> make(uint64_t id, uint64_t i);
};
template <>
struct elem_of<H>
{
    static H make(uint64_t id, uint64_t i)
    {
        // histories are never empty
        auto n = len("steps", id, i);
        lv_assume(n > 0);
        return sequence_of<immer::box<D::step>>(lv_uf2("history", id, i), n);
    }
};
inline immer::box<D::step> elem_of<immer::box<D::step>>::make(uint64_t id, uint64_t i)
{
    return D::step{W{uf("step action", id, i)}, V{uf("step model", id, i)}, sequence_of<H>(lv_uf2("branches", id, i), len("branch count", id, i))};
}
template <>
struct elem_of<W>
{
    static W make(uint64_t id, uint64_t i) { return W{uf("pending", id, i)}; }
};
} // namespace lv

namespace {
struct eff_reducer
{
    std::pair<V, lager::effect<W>> operator()(const V& m, const W& a) const
    {
        g_log.push(REDUCED, m.id, a.id);
        auto id = a.id;
        if (uf("has effect", m.id, a.id) & 1)
            return {red(m, a), [id](auto&&) { g_log.push(EFFECT, id); }};
        return {red(m, a), lager::noop};
    }
};
V shown(const D::model& m) { return static_cast<const V&>(m); }
// an arbitrary cursor of at most `depth` positions
D::cursor_t arbitrary_cursor(const char* name, unsigned depth)
{
    D::cursor_t c;
    unsigned k = pick(name, depth + 1);
    for (unsigned i = 0; i < k; ++i) {
        auto b = lv_any("branch");
        auto s = lv_any("step");
        c      = c.push_back(D::pos_t{b, s});
    }
    return c;
}
// an arbitrary state: any number of branches and steps at every level
D::model arbitrary_model(unsigned depth)
{
    D::model m{any("init")};
    m.branches = any_sequence<H>("branches", lv_any("tree"));
    m.pending  = any_sequence<W>("pending length", lv_any("pending"));
    m.paused   = any_bool("paused");
    m.cursor   = arbitrary_cursor("cursor depth", depth);
    lv_assume(m.check(m.cursor));
    return m;
}
template <typename Eff>
void run(Eff& e, gloop& l)
{
    using act = D::action;
    auto loop = with_gloop{&l};
    auto ctx  = lager::context<act>{[](act) -> lager::future { return {}; }, loop, lager::deps<>{}};
    if (e)
        e(ctx);
}
bool same_cursor(const D::cursor_t& a, const D::cursor_t& b)
{
    if (a.size() != b.size())
        return false;
    for (unsigned i = 0; i < a.size(); ++i)
        if (a[i].branch != b[i].branch || a[i].step != b[i].step)
            return false;
    return true;
}
// what is found at the cursor is the same in both
void assert_same_at(const D::model& a, const D::model& b, const D::cursor_t& c, const char* what)
{
    lv_assert(b.check(c), what);
    auto x = a.lookup(c);
    auto y = b.lookup(c);
    lv_assert(bool(x.first) == bool(y.first) && (!x.first || *x.first == *y.first) && x.second == y.second, what);
}
} // namespace

LV_CONTRACT(tree_action_while_running)
{
    auto m = arbitrary_model(3);
    lv_assume(!m.paused);
    auto a   = any<W>("a");
    auto old = m;
    auto s   = shown(m);
    g_log.clear();
    auto r  = D::update(eff_reducer{}, m, D::action{a});
    auto& n = r.first;
    lv_assert(g_log.n == 1 && g_log.is(0, REDUCED, s.id, a.id), "reduced exactly once, on the shown model");
    lv_assert(n.check(n.cursor) && shown(n) == red(s, a), "shows what the reducer returned");
    auto at = n.lookup(n.cursor);
    lv_assert(at.first && *at.first == a, "the step is recorded with its action");
    lv_assert(!old.check(n.cursor), "at a position where there was nothing");
    lv_assert(!n.paused && n.init == old.init, "the rest is kept");
    gloop l;
    run(r.second, l);
    bool has = uf("has effect", s.id, a.id) & 1;
    lv_assert(g_log.n == (has ? 2u : 1u) && (!has || g_log.is(1, EFFECT, a.id)), "its effect, and only that, is returned");
    lv_assert(l.pauses == 0 && l.resumes == 0, "the loop is left alone");
    // and undoing it goes back
    auto u = D::update(eff_reducer{}, n, D::action{D::undo_action{}}).first;
    lv_assert(same_cursor(u.cursor, old.cursor) && shown(u) == s, "undoing it goes back to where it came from");
}

// every step made before is still where it was
LV_CONTRACT(tree_steps_are_kept)
{
    auto m = arbitrary_model(3);
    lv_assume(!m.paused);
    auto c = arbitrary_cursor("other depth", 3);
    lv_assume(m.check(c));
    g_log.clear();
    auto r = D::update(eff_reducer{}, m, D::action{any<W>("a")});
    assert_same_at(m, r.first, c, "every step made before is still where it was");
}

LV_CONTRACT(tree_action_while_paused)
{
    auto m = arbitrary_model(3);
    lv_assume(m.paused);
    auto a   = any<W>("a");
    auto old = m;
    g_log.clear();
    auto r  = D::update(eff_reducer{}, m, D::action{a});
    auto& n = r.first;
    gloop l;
    run(r.second, l);
    lv_assert(g_log.n == 0, "nothing is reduced and no effect runs");
    lv_assert(n.paused && same_cursor(n.cursor, old.cursor) && shown(n) == shown(old), "what is shown does not change");
    lv_assert(n.pending.size() == old.pending.size() + 1 && n.pending[old.pending.size()] == a, "one more pending action, the last");
    auto K = lv_any("K");
    lv_assert(K >= old.pending.size() || n.pending[K] == old.pending[K], "the previous ones are kept");
}

LV_CONTRACT(tree_travelling)
{
    auto m   = arbitrary_model(3);
    auto c   = arbitrary_cursor("target depth", 3);
    auto old = m;
    g_log.clear();
    if (any_bool("goto")) {
        bool ok = m.check(c);
        auto r  = D::update(eff_reducer{}, m, D::action{D::goto_action{c}});
        auto& n = r.first;
        lv_assert(same_cursor(n.cursor, ok ? c : old.cursor), "moves to the requested position, or stays when there is none");
        lv_assert(shown(n) == (ok ? old.lookup(c).second : shown(old)), "shows the model of that step");
        lv_assert(n.paused == old.paused, "stays paused or running");
    } else {
        auto r  = D::update(eff_reducer{}, m, D::action{D::undo_action{}});
        auto& n = r.first;
        lv_assert(n.check(n.cursor), "undo arrives at a step");
        auto k = old.cursor.size();
        if (k == 0)
            lv_assert(n.cursor.size() == 0 && shown(n) == old.init, "there is nothing before the beginning");
        else if (old.cursor[k - 1].step > 0)
            lv_assert(n.cursor.size() == k && n.cursor[k - 1].branch == old.cursor[k - 1].branch && n.cursor[k - 1].step == old.cursor[k - 1].step - 1,
                      "undo goes to the step before in the same branch");
        else
            lv_assert(n.cursor.size() == k - 1, "undo of the first step of a branch leaves the branch");
        for (unsigned i = 0; i + 1 < k; ++i)
            lv_assert(n.cursor[i].branch == old.cursor[i].branch && n.cursor[i].step == old.cursor[i].step, "the outer positions stay");
        lv_assert(n.paused == old.paused, "stays paused or running");
    }
    lv_assert(g_log.n == 0, "nothing is reduced");
}

LV_CONTRACT(tree_pausing)
{
    auto m   = arbitrary_model(3);
    auto old = m;
    g_log.clear();
    auto r  = D::update(eff_reducer{}, m, D::action{D::pause_action{}});
    auto& n = r.first;
    lv_assert(n.paused && same_cursor(n.cursor, old.cursor) && shown(n) == shown(old), "paused where it was");
    gloop l;
    run(r.second, l);
    lv_assert(l.pauses == 1 && l.resumes == 0 && g_log.n == 0, "the loop is paused once");
}

LV_CONTRACT(tree_resuming)
{
    auto m     = arbitrary_model(1);
    m.pending  = {};
    unsigned k = pick("pending", 3);
    W p[2];
    for (unsigned i = 0; i < k; ++i) {
        p[i]      = any<W>("p");
        m.pending = m.pending.push_back(p[i]);
    }
    auto old = m;
    g_log.clear();
    auto r  = D::update(eff_reducer{}, m, D::action{D::resume_action{}});
    auto& n = r.first;
    lv_assert(!n.paused && n.pending.empty(), "running, with nothing pending");
    lv_assert(g_log.n == k, "every pending action is reduced once");
    V cur = shown(old);
    V before[2];
    for (unsigned i = 0; i < k; ++i) {
        lv_assert(g_log.is(i, REDUCED, cur.id, p[i].id), "in the order in which they came");
        before[i] = cur;
        cur       = red(cur, p[i]);
    }
    lv_assert(shown(n) == cur, "shows the result of the last one");
    if (k == 0)
        lv_assert(same_cursor(n.cursor, old.cursor), "stays when there is none");
    gloop l;
    unsigned at = g_log.n;
    run(r.second, l);
    l.drain();
    lv_assert(l.resumes == 1 && l.pauses == 0, "the loop is resumed once");
    for (unsigned i = 0; i < k; ++i)
        if (uf("has effect", before[i].id, p[i].id) & 1) {
            lv_assert(g_log.is(at, EFFECT, p[i].id), "the effects run in order");
            ++at;
        }
    lv_assert(g_log.n == at, "each exactly once");
}

// histories of several operations: steps stay reachable, undo returns to the
// step an action was made from, and the summary counts every step
namespace {
std::size_t total(const D::summary_t& s)
{
    std::size_t n = 0;
    for (auto&& h : s)
        for (auto&& e : h)
            n += e->steps + (e->branches.empty() ? 0 : 1) + total(e->branches);
    return n;
}
} // namespace
LV_BOUNDED(tree_histories)
{
    D::model m{any("init")};
    g_log.clear();
    struct rec
    {
        D::cursor_t c;
        W a;
        V m;
        int parent;
    } s[6];
    int n = 0, at = -1;
    for (unsigned i = 0; i < 5; ++i) {
        unsigned op = pick("operation", 3);
        if (op == 0) {
            auto a = any<W>("a");
            auto v = at < 0 ? m.init : s[at].m;
            m      = D::update(eff_reducer{}, m, D::action{a}).first;
            s[n]   = {m.cursor, a, red(v, a), at};
            at     = n++;
        } else if (op == 1) {
            m  = D::update(eff_reducer{}, m, D::action{D::undo_action{}}).first;
            at = at < 0 ? -1 : s[at].parent;
        } else {
            unsigned k = pick("target", 5);
            if ((int) k >= n)
                lv_skip();
            m  = D::update(eff_reducer{}, m, D::action{D::goto_action{s[k].c}}).first;
            at = k;
        }
        lv_assert(shown(m) == (at < 0 ? m.init : s[at].m), "shows the current step");
    }
    for (int i = 0; i < n; ++i) {
        auto x = m.lookup(s[i].c);
        lv_assert(x.first && *x.first == s[i].a && x.second == s[i].m, "every step made is still where it was");
    }
    lv_assert(total(m.summary()) == (std::size_t) n, "the summary counts every step");
}

// ... and everything the same when it happens again
LV_CONTRACT(tree_action_while_running_again)
{
    lvc_tree_action_while_running();
    lvc_tree_action_while_running();
}
LV_CONTRACT(tree_action_while_paused_again)
{
    lvc_tree_action_while_paused();
    lvc_tree_action_while_paused();
}
LV_CONTRACT(tree_pausing_again)
{
    lvc_tree_pausing();
    lvc_tree_pausing();
}
LV_CONTRACT(tree_resuming_again)
{
    lvc_tree_resuming();
    lvc_tree_resuming();
}
