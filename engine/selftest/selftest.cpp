// Contracts with a known verdict, for the verifier itself: lvc_ok_* must be
// proved, lvc_bad_* must fail.
#include "../../specs/lv.h"
#include <array>
#include <deque>
#include <list>
#include <string>
using namespace lv;

// ---- integers
LV_CONTRACT(ok_wraps) { uint64_t x = lv_any("x"); lv_assert(x + 1 > x || x == ~0ull, "wrap"); }
LV_CONTRACT(bad_wraps) { uint64_t x = lv_any("x"); lv_assert(x + 1 > x, "no wrap"); }
LV_CONTRACT(ok_narrow) { uint8_t x = (uint8_t) lv_any("x"); lv_assert(int(x) + 1 > int(x), "promoted"); }
LV_CONTRACT(bad_narrow) { uint8_t x = (uint8_t) lv_any("x"); uint8_t y = x + 1; lv_assert(y > x, "narrow"); }
LV_CONTRACT(ok_signed) { int32_t x = (int32_t) lv_any("x"); lv_assume(x < 0); lv_assert(x / 2 <= 0 && x % 2 <= 0, "towards zero"); }
LV_CONTRACT(bad_signed) { int32_t x = (int32_t) lv_any("x"); lv_assume(x < 0); lv_assert((x >> 1) == x / 2, "shift is not division"); }
LV_CONTRACT(bad_signed_wraps) { int32_t x = (int32_t) lv_any("x"); lv_assert(x + 1 > x, "no wrap"); }
LV_CONTRACT(ok_uf) { uint64_t a = lv_any("a"), b = lv_any("b"); lv_assert(a != b || uf("f", a) == uf("f", b), "functional"); }
LV_CONTRACT(bad_uf) { uint64_t a = lv_any("a"), b = lv_any("b"); lv_assert(a == b || uf("f", a) != uf("f", b), "not injective"); }
// ---- memory
LV_CONTRACT(ok_array) { int a[4] = {1, 2, 3, 4}; uint64_t i = lv_any("i"); lv_assume(i < 4); lv_assert(a[i] == int(i) + 1, "element"); }
LV_CONTRACT(bad_array) { int a[4] = {1, 2, 3, 4}; uint64_t i = lv_any("i"); lv_assume(i <= 4); lv_assert(a[i] >= 0, "out of bounds"); }
LV_CONTRACT(bad_use_after_free) { int* p = new int(3); delete p; lv_assert(*p == 3, "freed"); }
LV_CONTRACT(bad_double_free) { int* p = new int(3); delete p; delete p; }
LV_CONTRACT(bad_null) { int* p = any_bool("b") ? new int(1) : nullptr; lv_assert(*p == 1, "null"); delete p; }
LV_CONTRACT(ok_null) { int* p = any_bool("b") ? new int(1) : nullptr; lv_assert(!p || *p == 1, "checked"); delete p; }
LV_CONTRACT(bad_uninitialised) { int* p = new int; if (*p == 3) lv_assert(true, "x"); delete p; }
LV_CONTRACT(bad_dangling_stack)
{
    const int* p;
    auto f = [&] { int x = 3; p = &x; asm volatile("" : : "r"(p) : "memory"); };
    (void) f;
    struct R { const int* operator()() { int y[2] = {1, 2}; const int* volatile q = y; return q; } };
    p = R{}();
    lv_assert(*p == 1, "dead frame");
}
LV_CONTRACT(bad_vector_reference)
{
    std::vector<int> v{1};
    int& r = v[0];
    for (int i = 0; i < 4; ++i)
        v.push_back(i);
    lv_assert(r == 1, "invalidated");
}
// ---- control flow
LV_CONTRACT(ok_exceptions)
{
    int n = 0;
    struct D { int& n; ~D() { n = n * 10 + 1; } };
    try {
        D d{n};
        if (any_bool("throw"))
            throw std::runtime_error("x");
        n = 5;
    } catch (const std::logic_error&) {
        lv_assert(false, "the other kind");
    } catch (const std::exception&) {
        n = n * 10 + 2;
    }
    lv_assert(n == 51 || n == 12, "unwinding before handling");
}
LV_CONTRACT(bad_exception_kind)
{
    try {
        throw std::out_of_range("x");
    } catch (const std::logic_error&) {
        lv_assert(false, "a logic error");
    } catch (...) {
    }
}
LV_CONTRACT(bad_escaping_exception) { if (any_bool("b")) throw 3; }
LV_CONTRACT(bad_terminate) { struct N { static void f() noexcept { if (any_bool("b")) throw 3; } }; try { N::f(); } catch (...) {} }
namespace {
struct base { virtual ~base() = default; virtual int f() const { return 1; } };
struct derived : base { int f() const override { return 2; } };
} // namespace
LV_CONTRACT(ok_virtual) { std::unique_ptr<base> p; bool d = any_bool("d"); if (d) p = std::make_unique<derived>(); else p = std::make_unique<base>(); lv_assert(p->f() == (d ? 2 : 1), "dynamic type"); }
LV_CONTRACT(bad_virtual) { std::unique_ptr<base> p; if (any_bool("d")) p = std::make_unique<derived>(); else p = std::make_unique<base>(); lv_assert(p->f() == 2, "dynamic type"); }
namespace { int counter() { static int n = 0; return ++n; } }
LV_CONTRACT(ok_static) { int a = counter(), b = counter(); lv_assert(b == a + 1, "kept"); }
LV_CONTRACT(bad_static) { int a = counter(), b = counter(); lv_assert(b == a, "kept"); }
// ---- loops of any length
LV_CONTRACT(ok_sum)
{
    uint64_t n = lv_len("n"), s = 0;
    for (uint64_t i = 0; i < n; ++i)
        s += 3;
    lv_assert(s == 3 * n, "sum");
}
LV_CONTRACT(bad_sum)
{
    uint64_t n = lv_len("n"), s = 0;
    for (uint64_t i = 0; i < n; ++i)
        s += i == 7777 ? 2 : 3;
    lv_assert(s == 3 * n, "off at one iteration");
}
LV_CONTRACT(bad_loop_bound)
{
    uint64_t n = lv_len("n"), s = 0;
    for (uint64_t i = 0; i + 1 < n; ++i)
        s += 1;
    lv_assert(s == n, "one too few");
}
// ---- the library
LV_CONTRACT(ok_shared)
{
    auto p = std::make_shared<int>(1);
    std::weak_ptr<int> w = p;
    auto q = p;
    p.reset();
    lv_assert(!w.expired() && w.lock().use_count() == 2, "kept");
    q.reset();
    lv_assert(w.expired() && !w.lock(), "gone");
}
LV_CONTRACT(bad_shared)
{
    auto p = std::make_shared<int>(1);
    std::weak_ptr<int> w = p;
    if (any_bool("drop"))
        p.reset();
    lv_assert(!w.expired(), "kept");
}
LV_CONTRACT(ok_function)
{
    uint64_t x = lv_any("x");
    std::function<uint64_t(uint64_t)> f;
    bool threw = false;
    try { f(1); } catch (const std::bad_function_call&) { threw = true; }
    lv_assert(threw, "empty");
    f = [x](uint64_t y) { return x ^ y; };
    auto g = std::move(f);
    lv_assert(g(3) == (x ^ 3), "captured");
}
LV_CONTRACT(ok_variant)
{
    std::variant<int, V> v = 3;
    auto a = any("a");
    if (any_bool("b"))
        v = a;
    lv_assert(std::holds_alternative<int>(v) ? std::get<0>(v) == 3 : std::get<V>(v) == a, "alternative");
}
LV_CONTRACT(bad_variant)
{
    std::variant<int, V> v = 3;
    if (any_bool("b"))
        v = any("a");
    std::get<0>(v);
}
LV_CONTRACT(bad_optional) { std::optional<int> o; if (any_bool("b")) o = 1; o.value(); }
LV_CONTRACT(ok_deque)
{
    std::deque<uint64_t> d;
    uint64_t a = lv_any("a");
    for (int i = 0; i < 5; ++i)
        d.push_back(a + i);
    d.pop_front();
    lv_assert(d.front() == a + 1 && d.back() == a + 4 && d.size() == 4, "order");
}
// ---- values
LV_CONTRACT(ok_moved) { auto a = any("a"); V x = a; V y = std::move(x); lv_assert(y == a, "moved to"); }
LV_CONTRACT(bad_moved) { auto a = any("a"); lv_assume(a.id != LV_MOVED); V x = a; V y = std::move(x); lv_assert(x == a, "moved from"); }
// ---- threads
LV_CONTRACT(ok_lock)
{
    std::mutex m;
    uint64_t x = 0;
    lv_guard(&x, sizeof x, &m);
    {
        std::lock_guard<std::mutex> l(m);
        x = 1;
        lv_assert(lv_locked(&m), "held");
    }
    lv_assert(!lv_locked(&m), "released");
    lv_unguard(&x);
}
LV_CONTRACT(bad_lock)
{
    std::mutex m;
    uint64_t x = 0;
    lv_guard(&x, sizeof x, &m);
    {
        std::lock_guard<std::mutex> l(m);
        x = 1;
    }
    x = 2;
    lv_unguard(&x);
}
namespace { struct shared_t { std::mutex m; uint64_t x = 0; }; }
LV_CONTRACT(bad_interference)
{
    shared_t s;
    lv_before_lock(&s.m, [](void* p) { static_cast<shared_t*>(p)->x = 7; }, &s);
    uint64_t seen = s.x;
    std::lock_guard<std::mutex> l(s.m);
    lv_assert(s.x == seen, "somebody else");
}
LV_CONTRACT(bad_self_deadlock)
{
    std::mutex m;
    std::lock_guard<std::mutex> l(m);
    std::lock_guard<std::mutex> k(m);
}
// ---- undefined behaviour that compilers use to delete paths
LV_CONTRACT(bad_uninitialised_local)
{
    bool done;
    if (any_bool("b"))
        done = true;
    lv_assert(done, "maybe");
}
namespace { struct boxed { int v; }; int may_miss(bool b) { if (b) return 1; } }
LV_CONTRACT(bad_missing_return) { lv_assert(may_miss(any_bool("b")) == 1, "x"); }
LV_CONTRACT(bad_unreachable) { uint64_t x = lv_any("x"); if (x == 12) __builtin_unreachable(); lv_assert(x != 12, "x"); }
LV_CONTRACT(bad_null_member) { boxed b{1}; boxed* p = any_bool("b") ? &b : nullptr; p->v = 2; lv_assert(p != nullptr, "written through"); }
LV_CONTRACT(bad_null_reference) { boxed b{1}; boxed* p = any_bool("b") ? &b : nullptr; boxed& r = *p; lv_assert(&r != nullptr, "reference"); }
LV_CONTRACT(bad_uninitialised_pointer) { int x = 1; int* p; if (any_bool("b")) p = &x; lv_assert(*p == 1, "no value"); }
LV_CONTRACT(bad_division) { uint64_t x = lv_any("x"); lv_assert(7 / x <= 3 || x == 1, "zero"); }
