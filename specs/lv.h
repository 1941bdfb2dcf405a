// Harness primitives of the contract language.  In the verifier these are
// interpreted by /verif/engine/models.py; natively by /verif/engine/native.cpp.
#pragma once
#include <algorithm>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <memory>
#include <mutex>
#include <optional>
#include <stdexcept>
#include <thread>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>

extern "C" {
// an arbitrary 64 bit value (universally quantified input of the contract)
uint64_t lv_any(const char* name);
// an arbitrary length (universally quantified, < 2^32)
uint64_t lv_len(const char* name);
void lv_assume(bool c);
void lv_assert(bool c, const char* name);
// auxiliary lemma about the representation: when it cannot be shown the contract
// is undecided, not violated
void lv_lemma(bool c, const char* name);
void lv_cover(const char* name);
// uninterpreted (arbitrary but functional) mathematical functions
uint64_t lv_uf1(const char* f, uint64_t a);
uint64_t lv_uf2(const char* f, uint64_t a, uint64_t b);
uint64_t lv_uf3(const char* f, uint64_t a, uint64_t b, uint64_t c);
uint64_t lv_ite(bool c, uint64_t a, uint64_t b);
int lv_symbolic();
void lv_skip();
// symbolic-length memory (verifier only)
void* lv_region(uint64_t stride, uint64_t n, const char* name);
void lv_region_fill(void* r, uint64_t off, uint64_t width, uint64_t v0, uint64_t coef);
void lv_region_list(void* r, uint64_t hook, uint64_t n, void* hdr, uint64_t next_off, uint64_t prev_off);
void* lv_replicate(const void* obj, uint64_t size, uint64_t n);
void lv_rep_index(const void* field, uint64_t c0, uint64_t c1);
void lv_rep_uf(const void* field, uint64_t width, const char* f, uint64_t mask);
void lv_set_vector(void* vec, void* data, uint64_t n, uint64_t elemsize);
void lv_inv(bool (*f)(void*, uint64_t, uint64_t), void* ctx, uint64_t j);
// some flag of the function that loops, or of what it writes, is set when this holds
void lv_flag(bool (*f)(void*, uint64_t, uint64_t), void* ctx, uint64_t j);
void lv_inv_pop();
// calls to the function named `fn` are checked against the contract `c`
void lv_replace(const char* fn, void* c);
void lv_guard(void* p, uint64_t n, void* mutex);
void lv_unguard(void* p);
// verifier only: what follows is executed by thread t; a pseudo lock is held or not
void lv_set_thread(uint64_t t);
void lv_hold(void* lock, bool held);
// c(ctx) runs once right before the next acquisition of the mutex: what another
// thread may do there (shared state being accessed only under the lock, this is
// the only place where it matters)
void lv_before_lock(void* mutex, void (*c)(void*), void* ctx);
bool lv_locked(void* mutex);
void lv_lock_hook(void* mutex, void (*acq)(void*), void (*rel)(void*), void* ctx);
bool lv_same_object(const void* a, const void* b, uint64_t n);
void lv_debug(const char*, uint64_t);
}

// A contract, verified for all inputs.
#define LV_CONTRACT(name) extern "C" __attribute__((used, noinline)) void lvc_##name()
// A contract checked only up to a stated bound.
#define LV_BOUNDED(name) extern "C" __attribute__((used, noinline)) void lvb_##name()

#define LV_MOVED 0xDEADDEADDEADDEADull

namespace lv {

// f is executed by another thread t, at this moment
template <typename Fn>
void in_thread(unsigned t, Fn f)
{
#ifdef LV_VERIFY
    lv_set_thread(t);
    f();
    lv_set_thread(0);
#else
    std::thread(f).join();
#endif
}

inline bool any_bool(const char* n) { return lv_any(n) & 1; }

// lv::below("n", 3): arbitrary in 0..2, one path each
inline unsigned pick(const char* n, unsigned k)
{
    uint64_t x = lv_any(n);
    lv_assume(x < k);
    for (unsigned i = 0; i + 1 < k; ++i)
        if (x == i)
            return i;
    return k - 1;
}

inline uint64_t any_id(const char* n)
{
    uint64_t x = lv_any(n);
    lv_assume(x != LV_MOVED);
    return x;
}

inline uint64_t uf(const char* f, uint64_t a)
{
    uint64_t x = lv_uf1(f, a);
    lv_assume(x != LV_MOVED);
    return x;
}
inline uint64_t uf(const char* f, uint64_t a, uint64_t b)
{
    uint64_t x = lv_uf2(f, a, b);
    lv_assume(x != LV_MOVED);
    return x;
}
inline uint64_t uf(const char* f, uint64_t a, uint64_t b, uint64_t c)
{
    uint64_t x = lv_uf3(f, a, b, c);
    lv_assume(x != LV_MOVED);
    return x;
}

// An opaque regular type: copyable, movable (a moved-from object is marked so
// that using it afterwards is visible), equality comparable.
template <int Tag>
struct Val
{
    uint64_t id;
    Val()
        : id(0)
    {}
    explicit Val(uint64_t i)
        : id(i)
    {}
    Val(const Val& o) noexcept
        : id(o.id)
    {}
    Val(Val&& o) noexcept
        : id(o.id)
    {
        o.id = LV_MOVED;
    }
    Val& operator=(const Val& o) noexcept
    {
        id = o.id;
        return *this;
    }
    Val& operator=(Val&& o) noexcept
    {
        uint64_t t = o.id;
        o.id       = LV_MOVED;
        id         = t;
        return *this;
    }
    friend bool operator==(const Val& a, const Val& b) { return a.id == b.id; }
    friend bool operator!=(const Val& a, const Val& b) { return a.id != b.id; }
};
using V = Val<0>;
using W = Val<1>;

template <typename T = V>
T any(const char* n)
{
    return T{any_id(n)};
}

// ghost log of observable events
// a function that notices when it is used after it was moved from, and whether it
// still is what it was
struct by_name
{
    unsigned* runs;
    bool gone = false;
    explicit by_name(unsigned* r)
        : runs(r)
    {}
    by_name(const by_name&) = default;
    by_name(by_name&& o)
        : runs(o.runs)
        , gone(o.gone)
    {
        o.gone = true;
    }
    template <typename... Ts>
    void operator()(Ts&&...) const
    {
        lv_assert(!gone, "no function is used after it was moved from");
        ++*runs;
    }
};
struct Event
{
    uint64_t kind, a, b;
};
struct Log
{
    Event e[64];
    unsigned n = 0;
    void push(uint64_t k, uint64_t a = 0, uint64_t b = 0)
    {
        lv_assert(n < 64, "ghost-log-capacity");
        e[n].kind = k;
        e[n].a    = a;
        e[n].b    = b;
        ++n;
    }
    void clear() { n = 0; }
    bool is(unsigned i, uint64_t k, uint64_t a = 0, uint64_t b = 0) const
    {
        return i < n && e[i].kind == k && e[i].a == a && e[i].b == b;
    }
    unsigned count(uint64_t k) const
    {
        unsigned c = 0;
        for (unsigned i = 0; i < n; ++i)
            c += e[i].kind == k ? 1 : 0;
        return c;
    }
    // position of the first event of the kind, or 64
    unsigned find(uint64_t k) const
    {
        for (unsigned i = 0; i < n; ++i)
            if (e[i].kind == k)
                return i;
        return 64;
    }
};

} // namespace lv
