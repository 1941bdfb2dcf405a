// A store with a debugger behaves as the same store without one until the
// debugger is used, and can be driven through the handle of the debugger.
// LV_STUBS: immer_seq
#include "gloop.h"
#include "nodes.h"
#include "seq.h"
#include <lager/debug/debugger.hpp>
#include <lager/event_loop/manual.hpp>
#include <lager/store.hpp>
using namespace lv;

namespace {
V red(const V& m, const W& a) { return V{uf("red", m.id, a.id)}; }
enum { REDUCED = 1, EFFECT = 2, WATCH = 3 };
struct svc
{
    uint64_t id = 0;
};
gloop* g_loop;
struct reducer_t
{
    Log* log;
    std::pair<V, lager::effect<W, lager::deps<svc&>>> operator()(V m, W a) const
    {
        log->push(REDUCED, m.id, a.id);
        auto id = a.id;
        auto l  = log;
        if (uf("has effect", m.id, a.id) & 1)
            return {red(m, a), [id, l](auto&& ctx) { lv_assert(!g_loop || g_loop->pauses == g_loop->resumes, "effects run in a loop that runs"); l->push(EFFECT, id, lager::get<svc>(ctx).id); }};
        return {red(m, a), lager::noop};
    }
};
using deps_t = lager::deps<lager::dep::ref<svc>>;
using D      = lager::debugger<W, V, deps_t>;
// the server side of a debugger
struct server
{
    struct impl
    {
        unsigned inits = 0;
        std::optional<lager::context<D::action>> ctx;
        lager::reader<D::model> r;
        template <typename Context, typename Reader>
        void init(Context&& c, Reader&& x)
        {
            ++inits;
            ctx.emplace(c);
            r = std::forward<Reader>(x);
        }
    };
    std::shared_ptr<impl> i;
    template <typename Dbg>
    std::shared_ptr<impl> make(Dbg)
    {
        return i = std::make_shared<impl>();
    }
};
} // namespace
namespace lv {
template <>
struct elem_of<D::step>
{
    static D::step make(uint64_t id, uint64_t i) { return {W{uf("step action", id, i)}, V{uf("step model", id, i)}}; }
};
template <>
struct elem_of<W>
{
    static W make(uint64_t id, uint64_t i) { return W{uf("pending", id, i)}; }
};
} // namespace lv

LV_CONTRACT(transparent_store)
{
    g_loop = nullptr;
    Log log;
    gloop l;
    server serv;
    svc dep{any_id("service")};
    auto m = any("m");
    auto s = lager::make_store<W>(V{m}, with_gloop{&l}, lager::with_reducer(reducer_t{&log}), lager::with_deps(std::ref(dep)), lager::with_debugger(serv));
    lv_assert(serv.i->inits == 1, "the debugger is started once");
    V last = m;
    lager::reader<V> shown = s.map([](const D::model& x) { return static_cast<const V&>(x); });
    shown.watch([&](const V& v) { last = v; });
    lv_assert(shown.get() == m && serv.i->r.get().summary() == 0, "starts with the given model");
    V cur = m;
    unsigned at = 0;
    for (unsigned i = 0; i < 2; ++i) {
        auto a = any<W>("a");
        s.dispatch(a);
        l.drain();
        lv_assert(log.is(at++, REDUCED, cur.id, a.id), "reduced once on the current model");
        if (uf("has effect", cur.id, a.id) & 1)
            lv_assert(log.is(at++, EFFECT, a.id, dep.id), "its effect runs once, with its dependencies");
        cur = red(cur, a);
        lv_assert(log.n == at, "nothing else");
        lv_assert(shown.get() == cur && last == cur, "published and notified");
        lv_assert(serv.i->r.get().summary() == i + 1, "the debugger knows every step");
    }
    // go back through the handle, as a server does
    serv.i->ctx->dispatch(D::action{D::undo_action{}});
    l.drain();
    lv_assert(log.n == at, "undo computes nothing");
    auto p = serv.i->r.get().lookup(1).second;
    lv_assert(shown.get() == p && last == p, "undo publishes the previous model");
    serv.i->ctx->dispatch(D::action{D::goto_action{0}});
    l.drain();
    lv_assert(shown.get() == m && last == m && log.n == at, "going to the start publishes the initial model");
    // and forth again
    auto b = any<W>("b");
    s.dispatch(b);
    l.drain();
    lv_assert(log.is(at, REDUCED, m.id, b.id), "an action continues from what is shown");
    lv_assert(shown.get() == red(m, b) && serv.i->r.get().summary() == 1, "and replaces what was undone");
}

LV_CONTRACT(paused_store)
{
    Log log;
    gloop l;
    g_loop = &l;
    server serv;
    svc dep{any_id("service")};
    auto m = any("m");
    auto s = lager::make_store<W>(V{m}, with_gloop{&l}, lager::with_reducer(reducer_t{&log}), lager::with_deps(std::ref(dep)), lager::with_debugger(serv));
    lager::reader<V> shown = s.map([](const D::model& x) { return static_cast<const V&>(x); });
    unsigned calls         = 0;
    shown.watch([&](const V&) { ++calls; });
    serv.i->ctx->dispatch(D::action{D::pause_action{}});
    l.drain();
    lv_assert(l.pauses == 1 && serv.i->r.get().paused, "pausing pauses the loop");
    auto a = any<W>("a"), b = any<W>("b");
    s.dispatch(a);
    s.dispatch(b);
    l.drain();
    lv_assert(log.n == 0 && shown.get() == m && calls == 0, "while paused nothing is reduced or published");
    serv.i->ctx->dispatch(D::action{D::resume_action{}});
    l.drain();
    auto x = red(m, a), y = red(x, b);
    lv_assert(l.resumes == 1 && !serv.i->r.get().paused, "resuming resumes the loop");
    unsigned at = 0;
    lv_assert(log.is(at++, REDUCED, m.id, a.id) && log.is(at++, REDUCED, x.id, b.id), "what was pending is reduced in order, once");
    if (uf("has effect", m.id, a.id) & 1)
        lv_assert(log.is(at++, EFFECT, a.id, dep.id), "first effect");
    if (uf("has effect", x.id, b.id) & 1)
        lv_assert(log.is(at++, EFFECT, b.id, dep.id), "second effect");
    lv_assert(log.n == at, "nothing else");
    lv_assert(shown.get() == y && calls == (y == m ? 0u : 1u), "published at once");
    g_loop = nullptr;
}

// the debugger lives as long as the store, is known to the effects, and is shown
// the whole of its own state
LV_CONTRACT(debugger_of_a_store)
{
    gloop l;
    server serv;
    auto m = any("m");
    svc dep{any_id("service")};
    std::weak_ptr<server::impl> w;
    {
        auto s = lager::make_store<W>(V{m}, with_gloop{&l}, lager::with_reducer([](V x, W a) { return red(x, a); }), lager::with_deps(std::ref(dep)), lager::with_debugger(serv));
        w = serv.i;
        serv.i->ctx.reset();
        serv.i.reset();
        lv_assert(!w.expired(), "it is not stopped while the store is used");
        auto h = w.lock();
        auto k = pick("paused", 2);
        if (k) {
            s.dispatch(D::action{D::pause_action{}});
            l.drain();
        }
        auto a = any<W>("a"), b = any<W>("b");
        s.dispatch(a);
        s.dispatch(b);
        s.dispatch(D::action{D::undo_action{}});
        l.drain();
        D::model is = h->r.get();
        lv_assert(is.init == m && is.paused == (k == 1), "its state is shown");
        if (k) {
            lv_assert(is.cursor == 0 && is.history.size() == 0 && is.pending.size() == 2, "what it keeps");
            lv_assert(is.pending[0] == a && is.pending[1] == b, "with the actions that wait");
        } else {
            lv_assert(is.cursor == 1 && is.history.size() == 2 && is.pending.size() == 0, "what it keeps");
            lv_assert(is.history[0].action == a && is.history[0].model == red(m, a), "first step");
            lv_assert(is.history[1].action == b && is.history[1].model == red(red(m, a), b), "second step");
        }
    }
}

// ... and everything the same when it happens again
LV_CONTRACT(paused_store_again)
{
    lvc_paused_store();
    lvc_paused_store();
}
