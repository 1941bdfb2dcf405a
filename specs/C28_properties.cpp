// Qt properties on top of readers and cursors.  The meta object compiler is
// replaced by the contract: signals are recorded.
// LV_FLAGS: -include lv_inline_std.h -I{VERIF}/stubs/qt
#include "lv.h"
#include "lv_qt.h"
#include <lager/commit.hpp>
#include <lager/extra/qt.hpp>
#include <lager/lenses/attr.hpp>
#include <lager/state.hpp>
using namespace lv;

namespace {
Log g_log;
struct model
{
    V a, b;
    bool operator==(const model& o) const { return a == o.a && b == o.b; }
};
class object : public QObject
{
    Q_OBJECT
public:
    object(lager::cursor<model> c, V k)
        : LAGER_QT(fixed){k}
        , LAGER_QT(whole){c}
    {
        LAGER_QT(first)  = c.zoom(lager::lenses::attr(&model::a)).make();
        LAGER_QT(second) = c.zoom(lager::lenses::attr(&model::b)).make();
    }
    LAGER_QT_CONST(V, fixed);
    LAGER_QT_READER(V, first);
    LAGER_QT_CURSOR(V, second);
    LAGER_QT_READER(model, whole);
};
// (by the time of a signal everything that can be read is up to date)
void object::firstChanged(const V& v)
{
    lv_assert(first() == v, "the property has the new value");
    g_log.push(1, v.id, whole().a.id);
}
void object::secondChanged(const V& v)
{
    lv_assert(second() == v, "the property has the new value");
    g_log.push(2, v.id, whole().b.id);
}
void object::wholeChanged(const model& m)
{
    lv_assert(whole() == m && first() == m.a && second() == m.b, "the other properties too");
    g_log.push(3, m.a.id, m.b.id);
}
model any_model() { return {any("a"), any("b")}; }
unsigned count(unsigned kind)
{
    unsigned n = 0;
    for (unsigned i = 0; i < g_log.n; ++i)
        n += g_log.e[i].kind == kind;
    return n;
}
bool seen(unsigned kind, uint64_t x, uint64_t y)
{
    for (unsigned i = 0; i < g_log.n; ++i)
        if (g_log.e[i].kind == kind)
            return g_log.e[i].a == x && g_log.e[i].b == y;
    return true;
}
void check(const object& o, const model& was, const model& is, V k)
{
    lv_assert(o.fixed() == k, "a constant stays as it is");
    lv_assert(o.first() == is.a && o.second() == is.b && o.whole() == is, "properties show the values of their sources");
    lv_assert(count(1) == (was.a == is.a ? 0 : 1), "one signal if the value changed, none otherwise");
    lv_assert(count(2) == (was.b == is.b ? 0 : 1), "one signal if the value changed, none otherwise.");
    lv_assert(count(3) == (was == is ? 0 : 1), "one signal if the value changed, none otherwise..");
    lv_assert(seen(1, is.a.id, is.a.id) && seen(2, is.b.id, is.b.id) && seen(3, is.a.id, is.b.id), "with the new value");
}
} // namespace

// properties follow the state, commit by commit
LV_CONTRACT(qt_properties_follow)
{
    g_log.clear();
    model m = any_model(), n = any_model(), p = any_model();
    V k = any("k");
    auto s = lager::make_state(m);
    object o{s, k};
    check(o, m, m, k);
    s.set(n);
    check(o, m, m, k);
    lager::commit(s);
    check(o, m, n, k);
    g_log.clear();
    s.set(p);
    lager::commit(s);
    check(o, n, p, k);
}
// writing a property writes that part of the state, and is signalled when committed
LV_CONTRACT(qt_properties_write)
{
    g_log.clear();
    model m = any_model();
    V x = any("x"), y = any("y"), k = any("k");
    auto s = lager::make_state(m);
    object o{s, k};
    o.setsecond(x);
    if (any_bool("again"))
        o.setsecond(y);
    else
        y = x;
    check(o, m, m, k);
    lager::commit(s);
    check(o, m, model{m.a, y}, k);
    lv_assert(s.get() == model{m.a, y}, "the source has it too");
}
// with an automatic state it takes effect at once
LV_CONTRACT(qt_properties_automatic)
{
    g_log.clear();
    model m = any_model();
    V x = any("x"), k = any("k");
    auto s = lager::make_state(m, lager::automatic_tag{});
    object o{s, k};
    o.setsecond(x);
    check(o, m, model{m.a, x}, k);
}
// an object that is gone is not told anything
LV_CONTRACT(qt_properties_lifetime)
{
    g_log.clear();
    model m = any_model(), n = any_model();
    V k = any("k");
    auto s = lager::make_state(m);
    object other{s, k};
    {
        object o{s, k};
    }
    s.set(n);
    lager::commit(s);
    check(other, m, n, k);
}

// ... and everything the same when it happens again
LV_CONTRACT(qt_properties_write_again)
{
    lvc_qt_properties_write();
    lvc_qt_properties_write();
}
LV_CONTRACT(qt_properties_automatic_again)
{
    lvc_qt_properties_automatic();
    lvc_qt_properties_automatic();
}
LV_CONTRACT(qt_properties_lifetime_again)
{
    lvc_qt_properties_lifetime();
    lvc_qt_properties_lifetime();
}
