// The time travelling debugger: what it shows is what the reducer computed, and
// moving through the history computes nothing.
// LV_STUBS: immer_seq
#include "gloop.h"
#include "nodes.h"
#include "seq.h"
#include <lager/debug/debugger.hpp>
#include <lager/store.hpp>
using namespace lv;

namespace {
using D = lager::debugger<W, V, lager::deps<>>;
V red(const V& m, const W& a) { return V{uf("red", m.id, a.id)}; }
Log g_log;
enum { REDUCED = 1, EFFECT = 2 };
} // namespace
namespace lv {
template <>
struct elem_of<D::step>
{
    static D::step make(uint64_t id, uint64_t i) { return {W{uf("step action", id, i)}, V{uf("step model", id, i)}}; }
};
template <>
struct elem_of<W>
{
    static W make(uint64_t id, uint64_t i) { return W{uf("pending", id, i)}; }
};
} // namespace lv

namespace {
// an arbitrary reducer, which may or may not return an effect
struct eff_reducer
{
    std::pair<V, lager::effect<W>> operator()(const V& m, const W& a) const
    {
        g_log.push(REDUCED, m.id, a.id);
        auto id = a.id;
        if (uf("has effect", m.id, a.id) & 1)
            return {red(m, a), [id](auto&&) { g_log.push(EFFECT, id); }};
        return {red(m, a), lager::noop};
    }
};
struct plain_reducer
{
    V operator()(V m, W a) const
    {
        g_log.push(REDUCED, m.id, a.id);
        return red(m, a);
    }
};
// an arbitrary state of the debugger
D::model arbitrary_model()
{
    D::model m{any("init")};
    m.history = any_sequence<D::step>("history length", lv_any("history"));
    m.pending = any_sequence<W>("pending length", lv_any("pending"));
    m.paused  = any_bool("paused");
    m.cursor  = lv_any("cursor");
    lv_assume(m.cursor <= m.history.size());
    return m;
}
V shown(const D::model& m) { return static_cast<const V&>(m); }
// element j of both is the same
bool same_at(const D::model& a, const D::model& b, uint64_t j)
{
    return !(j < a.history.size()) || (a.history[j].action == b.history[j].action && a.history[j].model == b.history[j].model);
}
bool same_pending_at(const D::model& a, const D::model& b, uint64_t j)
{
    return !(j < a.pending.size()) || a.pending[j] == b.pending[j];
}
void assert_history_kept(const D::model& a, const D::model& b)
{
    lv_assert(a.history.size() == b.history.size(), "the history keeps its length");
    lv_assert(same_at(a, b, lv_any("J")), "the history is not rewritten");
    lv_assert(a.pending.size() == b.pending.size() && same_pending_at(a, b, lv_any("K")), "nothing becomes or ceases to be pending");
    lv_assert(a.init == b.init, "the initial model stays");
}
struct run_ctx
{
    gloop l;
};
template <typename Eff>
void run(Eff& e, gloop& l)
{
    using act = D::action;
    auto loop = with_gloop{&l};
    auto ctx  = lager::context<act>{[](act) -> lager::future { return {}; }, loop, lager::deps<>{}};
    if (e)
        e(ctx);
}
} // namespace

// what is shown at any cursor
LV_CONTRACT(lookup)
{
    auto m = arbitrary_model();
    auto c = lv_any("c");
    if (c > m.history.size()) {
        bool thrown = false;
        try {
            m.lookup(c);
        } catch (const std::runtime_error&) {
            thrown = true;
        }
        lv_assert(thrown, "a cursor beyond the history fails loudly");
    } else {
        auto r = m.lookup(c);
        if (c == 0)
            lv_assert(!r.first && r.second == m.init, "the first position is the initial model");
        else
            lv_assert(r.first && *r.first == m.history[c - 1].action && r.second == m.history[c - 1].model, "position c is the c-th step");
    }
    lv_assert(m.summary() == m.history.size(), "the summary is the length of the history");
}

// an action while running
LV_CONTRACT(action_while_running)
{
    auto m = arbitrary_model();
    lv_assume(!m.paused);
    auto a    = any<W>("a");
    auto old  = m;
    auto s    = shown(m);
    bool with_eff = any_bool("reducer with effects");
    g_log.clear();
    auto r = with_eff ? D::update(eff_reducer{}, m, D::action{a}) : D::update(plain_reducer{}, m, D::action{a});
    auto& n = r.first;
    lv_assert(g_log.n == 1 && g_log.is(0, REDUCED, s.id, a.id), "reduced exactly once, on the shown model");
    lv_assert(shown(n) == red(s, a), "shows what the reducer returned");
    lv_assert(n.cursor == old.cursor + 1 && n.history.size() == old.cursor + 1, "what was undone is replaced");
    lv_assert(n.history[old.cursor].action == a && n.history[old.cursor].model == red(s, a), "the step is recorded");
    auto J = lv_any("J");
    lv_assert(J >= old.cursor || same_at(n, old, J), "earlier steps are kept");
    lv_assert(n.init == old.init && !n.paused, "the rest is kept");
    lv_assert(n.pending.size() == old.pending.size() && same_pending_at(n, old, lv_any("K")), "nothing becomes or ceases to be pending");
    lv_assert(same_at(m, old, J) && shown(m) == s, "the previous state is not modified");
    gloop l;
    run(r.second, l);
    bool has = with_eff && (uf("has effect", s.id, a.id) & 1);
    lv_assert(g_log.n == (has ? 2u : 1u) && (!has || g_log.is(1, EFFECT, a.id)), "its effect, and only that, is returned");
    lv_assert(l.pauses == 0 && l.resumes == 0, "the loop is left alone");
}

// an action while paused is kept for later
LV_CONTRACT(action_while_paused)
{
    auto m = arbitrary_model();
    lv_assume(m.paused);
    auto a   = any<W>("a");
    auto old = m;
    g_log.clear();
    auto r  = D::update(eff_reducer{}, m, D::action{a});
    auto& n = r.first;
    gloop l;
    run(r.second, l);
    lv_assert(g_log.n == 0, "nothing is reduced and no effect runs");
    lv_assert(n.paused && n.cursor == old.cursor && shown(n) == shown(old), "what is shown does not change");
    lv_assert(n.history.size() == old.history.size() && same_at(n, old, lv_any("J")), "the history stays");
    lv_assert(n.pending.size() == old.pending.size() + 1, "one more pending action");
    lv_assert(n.pending[old.pending.size()] == a, "it is the last one");
    auto K = lv_any("K");
    lv_assert(K >= old.pending.size() || n.pending[K] == old.pending[K], "the previous ones are kept");
    lv_assert(l.pauses == 0 && l.resumes == 0, "the loop is left alone");
}

// moving through the history
LV_CONTRACT(travelling)
{
    auto m      = arbitrary_model();
    auto old    = m;
    unsigned op = pick("operation", 3);
    auto target = lv_any("target");
    auto want   = old.cursor;
    g_log.clear();
    D::result_t r;
    if (op == 0) {
        r = D::update(eff_reducer{}, m, D::action{D::undo_action{}});
        if (old.cursor > 0)
            want = old.cursor - 1;
    } else if (op == 1) {
        r = D::update(eff_reducer{}, m, D::action{D::redo_action{}});
        if (old.cursor < old.history.size())
            want = old.cursor + 1;
    } else {
        r = D::update(eff_reducer{}, m, D::action{D::goto_action{target}});
        if (target <= old.history.size())
            want = target;
    }
    auto& n = r.first;
    lv_assert(n.cursor == want, "moves to the requested position, or stays when there is none");
    lv_assert(shown(n) == (want == 0 ? old.init : V{old.history[want == 0 ? 0 : want - 1].model}), "shows the model of that step");
    lv_assert(n.paused == old.paused, "stays paused or running");
    assert_history_kept(n, old);
    gloop l;
    run(r.second, l);
    lv_assert(g_log.n == 0 && l.pauses == 0 && l.resumes == 0, "nothing is reduced and no effect runs");
}

LV_CONTRACT(pausing)
{
    auto m   = arbitrary_model();
    auto old = m;
    g_log.clear();
    auto r  = D::update(eff_reducer{}, m, D::action{D::pause_action{}});
    auto& n = r.first;
    lv_assert(n.paused && n.cursor == old.cursor && shown(n) == shown(old), "paused where it was");
    assert_history_kept(n, old);
    gloop l;
    run(r.second, l);
    lv_assert(l.pauses == 1 && l.resumes == 0 && g_log.n == 0, "the loop is paused once");
}

// resuming without pending actions
LV_CONTRACT(resuming)
{
    auto m    = arbitrary_model();
    m.pending = {};
    // up to three pending actions, each with or without an effect
    unsigned k = pick("pending", 4);
    W p[3];
    for (unsigned i = 0; i < k; ++i) {
        p[i]      = any<W>("p");
        m.pending = m.pending.push_back(p[i]);
    }
    auto old = m;
    g_log.clear();
    auto r  = D::update(eff_reducer{}, m, D::action{D::resume_action{}});
    auto& n = r.first;
    lv_assert(!n.paused && n.pending.empty(), "running, with nothing pending");
    lv_assert(g_log.n == k, "every pending action is reduced once");
    V cur = shown(old);
    V before[3];
    for (unsigned i = 0; i < k; ++i) {
        lv_assert(g_log.is(i, REDUCED, cur.id, p[i].id), "in the order in which they came");
        before[i] = cur;
        cur       = red(cur, p[i]);
        lv_assert(n.history[old.cursor + i].action == p[i] && n.history[old.cursor + i].model == cur, "and recorded");
    }
    lv_assert(shown(n) == cur, "shows the result of the last one");
    lv_assert(n.cursor == old.cursor + k, "the cursor is after them");
    lv_assert(n.history.size() == (k ? old.cursor + k : old.history.size()), "what was undone is replaced by them");
    auto J = lv_any("J");
    lv_assert(J >= old.cursor || same_at(n, old, J), "earlier steps are kept");
    gloop l;
    unsigned at = g_log.n;
    run(r.second, l);
    l.drain();
    lv_assert(l.resumes == 1 && l.pauses == 0, "the loop is resumed once");
    for (unsigned i = 0; i < k; ++i)
        if (uf("has effect", before[i].id, p[i].id) & 1) {
            lv_assert(g_log.is(at, EFFECT, p[i].id), "the effects run in order");
            ++at;
        }
    lv_assert(g_log.n == at, "each exactly once");
}

// ... and everything the same when it happens again
LV_CONTRACT(lookup_again)
{
    lvc_lookup();
    lvc_lookup();
}
LV_CONTRACT(action_while_paused_again)
{
    lvc_action_while_paused();
    lvc_action_while_paused();
}
LV_CONTRACT(pausing_again)
{
    lvc_pausing();
    lvc_pausing();
}
