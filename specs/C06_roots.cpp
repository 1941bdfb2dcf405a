// Kinds of sources: automatic states, setters, sensors, constants.
#include "nodes.h"
#include <functional>
using namespace lv;
using lager::commit;

// automatic state: a write is visible everywhere and notified before it returns
LV_CONTRACT(automatic_state_publishes_at_once)
{
    auto a = any("a");
    lager::state<V, lager::automatic_tag> s{a};
    lager::reader<W> r = s.zoom(ulens());
    unsigned ns = 0, nr = 0, es = 0, er = 0;
    bool consistent = true;
    s.watch([&](const V& v) { ++ns; consistent = consistent && v == s.get() && r.get() == uget(v); });
    r.watch([&](const W& w) { ++nr; consistent = consistent && w == uget(s.get()); });
    auto cur = a;
    for (unsigned i = 0; i < 2; ++i) {
        auto b = any("b");
        es += b != cur;
        er += uget(b) != uget(cur);
        cur = b;
        if (any_bool("rvalue"))
            s.set(V{b});
        else
            s.set(b);
        lv_assert(s.get() == b && r.get() == uget(b), "visible at once");
        lv_assert(ns == es && nr == er, "notified once iff changed");
        lv_assert(consistent, "watchers see a consistent state");
    }
    commit(s);
    lv_assert(ns == es && nr == er && s.get() == cur, "an extra commit is harmless");
}

// a write from a watcher of an automatic state ends in the last written value
LV_CONTRACT(automatic_reentrant_write)
{
    auto a = any("a"), b = any("b"), c = any("c");
    lv_assume(a != b && b != c);
    lager::state<V, lager::automatic_tag> s{a};
    lager::reader<W> r = s.zoom(ulens());
    unsigned n         = 0;
    s.watch([&](const V& v) {
        if (n++ == 0)
            s.set(c);
    });
    s.set(b);
    lv_assert(s.get() == c && r.get() == uget(c), "the nested write wins");
    lv_assert(n == 2, "each change is notified once");
}

// a setter cursor calls its function exactly once per write with the value, and
// follows its source
LV_CONTRACT(setter_calls_function_and_follows_source)
{
    auto a = any("a"), b = any("b"), c = any("c");
    lager::state<V> s{a};
    unsigned n    = 0;
    uint64_t seen = 0;
    lager::reader<V> src = s;
    auto k               = lager::with_setter(src, [&](const V& v) { ++n; seen = v.id; });
    lv_assert(k.get() == a, "reads its source");
    if (any_bool("rvalue"))
        k.set(V{b});
    else
        k.set(b);
    lv_assert(n == 1 && seen == b.id, "function called once with the value");
    lv_assert(k.get() == a && s.get() == a, "not visible before commit");
    s.set(c);
    commit(s);
    lv_assert(a == c || k.get() == c, "follows its source");
    lv_assert(n == 1, "no further calls");
    k.update([](V v) { return V{uf("f", v.id)}; });
    lv_assert(n == 2, "update calls it once");
    lv_assert(a == c || seen == uf("f", c.id), "with the function of the source value");
}
LV_CONTRACT(setter_round_trip)
{
    auto a = any("a"), b = any("b");
    lager::state<V> s{a};
    auto k     = lager::reader<V>(s).setter([&](const V& v) { s.set(v); });
    unsigned n = 0;
    k.watch([&](const V& v) { ++n; lv_assert(v == b, "value"); });
    wr(k, b);
    lv_assert(k.get() == a, "isolated");
    commit(s);
    lv_assert(s.get() == b && k.get() == b, "both show the written value");
    lv_assert(n == (a == b ? 0u : 1u), "notified once iff changed");
}
LV_CONTRACT(automatic_setter)
{
    auto a = any("a"), b = any("b"), c = any("c");
    lager::state<V> s{a};
    unsigned n           = 0, calls = 0;
    lager::reader<V> src = s;
    auto k = src.template setter<lager::automatic_tag>([&](const V& v) { ++calls; s.set(v); lv_assert(v == b, "value"); });
    k.watch([&](auto&&) { ++n; });
    wr(k, b);
    lv_assert(calls == 1, "function called once");
    lv_assert(k.get() == b, "visible at once");
    lv_assert(s.get() == a, "the source stays uncommitted");
    lv_assert(n == (a == b ? 0u : 1u), "notified once iff changed");
    commit(s);
    lv_assert(k.get() == b && s.get() == b, "agrees after the commit");
    lv_assert(n == (a == b ? 0u : 1u), "no second notification");
    s.set(c);
    commit(s);
    lv_assert(k.get() == c, "follows its source afterwards");
}

// ... also when the function does something else with the value than to write it
// to the source
LV_CONTRACT(automatic_setter_of_its_own)
{
    auto a = any("a"), b = any("b"), c = any("c");
    lager::state<V> s{a};
    unsigned n = 0, calls = 0;
    V got = a;
    auto k = lager::reader<V>(s).setter<lager::automatic_tag>([&](const V& v) { ++calls; got = v; });
    lager::reader<W> r = k.zoom(ulens());
    k.watch([&](const V& v) { ++n; lv_assert(v == got && k.get() == v && r.get() == uget(v), "consistent"); });
    wr(k, b);
    lv_assert(calls == 1 && got == b, "function called once");
    lv_assert(k.get() == b && r.get() == uget(b), "visible at once");
    lv_assert(n == (a == b ? 0u : 1u), "notified once iff changed");
    lv_assert(s.get() == a, "the source did not change");
    wr(k, c);
    lv_assert(calls == 2 && got == c && k.get() == c && r.get() == uget(c), "every time");
}

// an automatic setter in front of an automatic source that stores what it is given
LV_CONTRACT(automatic_setter_automatic_source)
{
    auto a = any("a"), b = any("b"), c = any("c");
    lager::state<V, lager::automatic_tag> s{a};
    lager::reader<V> src = s;
    unsigned calls       = 0;
    auto k = lager::with_setter<lager::automatic_tag>(src, [&](const V& v) { ++calls; s.set(v); });
    wr(k, b);
    lv_assert(calls == 1 && k.get() == b && s.get() == b, "written through");
    s.set(c);
    lv_assert(k.get() == c, "follows its source");
    lv_assert(calls == 1, "following does not call the function");
}

// a sensor samples only on construction and commit
LV_CONTRACT(sensor_samples_on_commit)
{
    V cur  = any("v0");
    auto a = cur;
    unsigned samples = 0, n = 0;
    auto x           = lager::make_sensor([&] { ++samples; return cur; });
    lager::reader<W> r = x.zoom(ulens());
    r.watch([&](auto&&) { ++n; });
    lv_assert(x.get() == a && r.get() == uget(a), "initial sample");
    unsigned base = samples;
    cur           = any("v1");
    lv_assert(x.get() == a && samples == base, "reading does not sample");
    commit(x);
    lv_assert(samples == base + 1, "one sample per commit");
    lv_assert(x.get() == cur && r.get() == uget(cur), "the new sample is visible");
    lv_assert(n == (uget(a) == uget(cur) ? 0u : 1u), "watchers once iff changed");
}

// constants never change and never notify
LV_CONTRACT(constant_is_constant)
{
    auto a = any("a");
    auto x = lager::make_constant(a);
    lager::reader<V> c = x;
    lager::reader<W> r = c.zoom(ulens());
    unsigned n         = 0;
    c.watch([&](auto&&) { ++n; });
    r.watch([&](auto&&) { ++n; });
    commit(x);
    lv_assert(c.get() == a && r.get() == uget(a) && n == 0, "constant");
    lager::state<W> t{any<W>("t")};
    auto m = lager::with(c, lager::reader<W>(t)).make();
    auto b = any<W>("b");
    wr(t, b);
    commit(t);
    lv_assert(std::get<0>(m.get()) == a && std::get<1>(m.get()) == b, "combines with changing sources");
}

// functions given by name are copied, and still work
LV_CONTRACT(given_functions_stay_usable)
{
    struct fn
    {
        uint64_t *n, *last;
        bool gone = false;
        fn(uint64_t* n, uint64_t* last)
            : n(n)
            , last(last)
        {}
        fn(const fn&) = default;
        fn(fn&& o)
            : n(o.n)
            , last(o.last)
            , gone(o.gone)
        {
            o.gone = true;
        }
        void operator()(V v) const
        {
            lv_assert(!gone, "no function is used after it was moved from");
            ++*n;
            *last = v.id;
        }
        V operator()() const
        {
            lv_assert(!gone, "no function is used after it was moved from");
            return V{uf("sample", (*n)++)};
        }
    };
    uint64_t n = 0, last = 0, m = 0;
    fn put{&n, &last}, sample{&m, &last};
    {
        auto s = lager::make_sensor(sample);
        lv_assert(!sample.gone && s.get().id == uf("sample", 0) && m == 1, "sampled once");
        lager::sensor<V> q = lager::make_sensor(sample);
        lv_assert(!sample.gone && q.get().id == uf("sample", 1) && m == 2, "a sensor of its own");
        commit(s);
        lv_assert(s.get().id == uf("sample", 2), "again with every commit");
    }
    auto a = any("a"), b = any("b"), c = any("c");
    lager::state<V> s{a};
    lager::cursor<V> k = lager::reader<V>{s}.setter(put);
    lager::cursor<V> l = lager::with(lager::reader<V>{s}).setter(put);
    lv_assert(!put.gone && n == 0, "not called yet");
    wr(k, b);
    lv_assert(n == 1 && last == b.id, "called by the one");
    wr(l, c);
    lv_assert(n == 2 && last == c.id, "and by the other");
    lv_assert(!put.gone && !sample.gone, "what was given by name was not taken");
}

// ... and everything the same when it happens again
LV_CONTRACT(automatic_reentrant_write_again)
{
    lvc_automatic_reentrant_write();
    lvc_automatic_reentrant_write();
}
LV_CONTRACT(setter_round_trip_again)
{
    lvc_setter_round_trip();
    lvc_setter_round_trip();
}
LV_CONTRACT(automatic_setter_again)
{
    lvc_automatic_setter();
    lvc_automatic_setter();
}
LV_CONTRACT(automatic_setter_automatic_source_again)
{
    lvc_automatic_setter_automatic_source();
    lvc_automatic_setter_automatic_source();
}
LV_CONTRACT(sensor_samples_on_commit_again)
{
    lvc_sensor_samples_on_commit();
    lvc_sensor_samples_on_commit();
}
LV_CONTRACT(constant_is_constant_again)
{
    lvc_constant_is_constant();
    lvc_constant_is_constant();
}
LV_CONTRACT(setter_calls_function_and_follows_source_again)
{
    lvc_setter_calls_function_and_follows_source();
    lvc_setter_calls_function_and_follows_source();
}
LV_CONTRACT(automatic_setter_of_its_own_again)
{
    lvc_automatic_setter_of_its_own();
    lvc_automatic_setter_of_its_own();
}
LV_CONTRACT(given_functions_stay_usable_again)
{
    lvc_given_functions_stay_usable();
    lvc_given_functions_stay_usable();
}
