// Handles without a source refuse to be used, and do nothing else.
#include "nodes.h"
#include <stdexcept>
using namespace lv;

namespace {
template <typename Fn>
bool throws(Fn&& fn)
{
    try {
        fn();
    } catch (const std::runtime_error&) {
        return true;
    }
    return false;
}
} // namespace

LV_CONTRACT(reader_without_source)
{
    lager::reader<V> r;
    lv_assert(throws([&] { (void) r.get(); }), "get throws");
    lv_assert(throws([&] { (void) *r; }), "dereference throws");
    lv_assert(throws([&] { (void) r->id; }), "arrow throws");
    auto a = any("a");
    lager::state<V> s{a};
    r = s;
    lv_assert(r.get() == a && r->id == a.id && (*r) == a, "works once it has a source");
}
LV_CONTRACT(cursor_without_source)
{
    lager::cursor<V> c;
    auto v      = any("v");
    unsigned n  = 0;
    lv_assert(throws([&] { (void) c.get(); }), "get throws");
    lv_assert(throws([&] { c.set(v); }), "set throws");
    lv_assert(throws([&] { c.update([&](V x) { ++n; return x; }); }), "update throws");
    lv_assert(n == 0, "without calling the function");
    auto a = any("a");
    lager::state<V> s{a};
    c = s;
    c.set(v);
    lager::commit(s);
    lv_assert(c.get() == v && s.get() == v, "works once it has a source");
}
LV_CONTRACT(writer_without_source)
{
    lager::writer<V> w;
    auto v     = any("v");
    unsigned n = 0;
    lv_assert(throws([&] { w.set(v); }), "set throws");
    lv_assert(throws([&] { w.update([&](V x) { ++n; return x; }); }), "update throws");
    lv_assert(n == 0, "without calling the function");
    lager::state<V> s{any("a")};
    w = lager::writer<V>{s};
    w.set(v);
    lager::commit(s);
    lv_assert(s.get() == v, "works once it has a source");
}
// a handle assigned from an empty one is empty again
LV_CONTRACT(emptied_handle)
{
    lager::state<V> s{any("a")};
    lager::cursor<V> c = s;
    c                  = lager::cursor<V>{};
    lv_assert(throws([&] { (void) c.get(); }), "get throws");
    auto v = any("v");
    lv_assert(throws([&] { c.set(v); }), "set throws");
    auto a = s.get();
    lager::commit(s);
    lv_assert(s.get() == a, "the former source is untouched");
}
// watching: registers the callback, or refuses; binding and nudging need a value
LV_CONTRACT(watching_without_source)
{
    lager::reader<V> r;
    lager::cursor<V> c;
    unsigned n = 0;
    lv_assert(throws([&] { r.bind([&](const V&) { ++n; }); }), "bind throws");
    lv_assert(throws([&] { c.bind([&](const V&) { ++n; }); }), "bind throws");
    lv_assert(throws([&] { r.nudge(); }), "nudge throws");
    lv_assert(throws([&] { c.nudge(); }), "nudge throws");
    lv_assert(n == 0, "no callback is called");
    r.unbind();
    V seen{0};
    r.watch([&](const V& v) { ++n; seen = v; });
    lv_assert(n == 0, "watching alone calls nothing");
    auto a = any("a"), b = any("b");
    lager::state<V> s{a};
    r = s;
    s.set(b);
    lager::commit(s);
    lv_assert(a == b ? n == 0 : (n == 1 && seen == b), "callbacks registered before work once there is a source");
}
// deriving
LV_CONTRACT(deriving_without_source)
{
    lager::reader<V> r;
    lager::cursor<V> c;
    unsigned n = 0;
    auto f     = [&](const V& x) { ++n; return x; };
    auto id    = zug::comp([](auto&& k) { return [k](auto&& p) { return k(p)([&](auto&& x) { return V{x}; }); }; });
    lv_assert(throws([&] { lager::reader<V> d = r.map(f); }), "map throws");
    lv_assert(throws([&] { lager::reader<V> d = r.xform(zug::map(f)); }), "xform throws");
    lv_assert(throws([&] { lager::reader<V> d = r.zoom(id); }), "zoom throws");
    lv_assert(throws([&] { lager::cursor<V> d = c.zoom(id); }), "zoom throws");
    lv_assert(throws([&] { lager::cursor<V> d = c.xform(zug::map(f), zug::map(f)); }), "two-way xform throws");
    lv_assert(throws([&] { auto d = r.setter(f); }), "setter throws");
    lv_assert(throws([&] { auto d = lager::with_setter(r, f); }), "with_setter throws");
    lager::state<V> s{any("a")};
    lv_assert(throws([&] { auto d = lager::with(s, c).make(); }), "with throws");
    lv_assert(throws([&] { auto d = lager::with(c, s).make(); }), "with throws");
    lv_assert(throws([&] { auto d = lager::with(r, c).map([&](auto&&...) { ++n; return 0; }).make(); }), "with throws");
    lv_assert(n == 0, "no function is called");
    r = s;
    lv_assert(r.map(f).make().get() == s.get(), "works once it has a source");
}

// ... and everything the same when it happens again
LV_CONTRACT(reader_without_source_again)
{
    lvc_reader_without_source();
    lvc_reader_without_source();
}
LV_CONTRACT(cursor_without_source_again)
{
    lvc_cursor_without_source();
    lvc_cursor_without_source();
}
LV_CONTRACT(writer_without_source_again)
{
    lvc_writer_without_source();
    lvc_writer_without_source();
}
LV_CONTRACT(emptied_handle_again)
{
    lvc_emptied_handle();
    lvc_emptied_handle();
}
LV_CONTRACT(watching_without_source_again)
{
    lvc_watching_without_source();
    lvc_watching_without_source();
}
LV_CONTRACT(deriving_without_source_again)
{
    lvc_deriving_without_source();
    lvc_deriving_without_source();
}
