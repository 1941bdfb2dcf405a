// Shared contract vocabulary for the cursor graph: stub observers of a node.
#pragma once
#include "lv.h"
#include <lager/commit.hpp>
#include <lager/constant.hpp>
#include <lager/cursor.hpp>
#include <lager/lenses.hpp>
#include <lager/lenses/attr.hpp>
#include <lager/lenses/tuple.hpp>
#include <lager/reader.hpp>
#include <lager/sensor.hpp>
#include <lager/setter.hpp>
#include <lager/state.hpp>
#include <lager/with.hpp>
#include <lager/writer.hpp>
#include <memory>
#include <vector>

namespace lv {

// A lens between opaque types about which nothing is assumed: arbitrary
// (functional) getter and setter.
template <typename Part = W, typename Whole = V>
auto ulens(const char* g = "get", const char* s = "put")
{
    return lager::lenses::getset([g](const Whole& w) { return Part{uf(g, w.id)}; },
                                 [s](const Whole& w, const Part& p) { return Whole{uf(s, w.id, p.id)}; });
}
inline W uget(const V& v, const char* g = "get") { return W{uf(g, v.id)}; }
inline V uput(const V& v, const W& w, const char* s = "put") { return V{uf(s, v.id, w.id)}; }

// writes a value, passed as an rvalue or by reference
template <typename C, typename T>
void wr(C& c, const T& v, bool rvalue = any_bool("rvalue"))
{
    if (rvalue) {
        c.set(T{v});
    } else {
        T x{v};
        c.set(x);
        lv_assert(x == v, "an argument passed by reference is not modified");
    }
}

// ---- an arbitrary number of arbitrary children of one node
struct kids
{
    static uint64_t *sd, *nt, n; // ghost counters per child
    static uint64_t sd_total, nt_total, seq, last_sd, first_nt;
};
uint64_t* kids::sd       = nullptr;
uint64_t* kids::nt       = nullptr;
uint64_t kids::n         = 0;
uint64_t kids::sd_total  = 0;
uint64_t kids::nt_total  = 0;

struct child_stub : lager::detail::reader_node_base
{
    uint64_t idx = 0;
    void send_down() override { kids::sd[idx]++; }
    void notify() override { kids::nt[idx]++; }
};

inline bool alive(uint64_t j) { return lv_uf1("alive", j) & 1; }

template <typename Node>
struct arbitrary_children
{
    Node& node;
    std::shared_ptr<child_stub> proto;
    std::weak_ptr<lager::detail::reader_node_base> w;
    std::vector<std::shared_ptr<child_stub>> natives;

    explicit arbitrary_children(Node& nd)
        : node(nd)
    {
        uint64_t n = lv_len("children");
        kids::n    = n;
        kids::sd   = (uint64_t*) lv_region(8, n, "send_downs");
        kids::nt   = (uint64_t*) lv_region(8, n, "notifies");
        lv_region_fill(kids::sd, 0, 8, 0, 0);
        lv_region_fill(kids::nt, 0, 8, 0, 0);
#ifdef LV_VERIFY
        proto = std::make_shared<child_stub>();
        w     = proto;
        lv_replicate(proto.get(), 0, n);
        lv_rep_index(&proto->idx, 0, 1);
        // use_count of child j: 1 when alive, 0 when expired
        lv_rep_uf((char*) proto.get() - 8, 4, "alive", 1);
        void* ws = lv_replicate(&w, sizeof w, n);
        lv_set_vector((void*) &node.children(), ws, n, sizeof w);
#else
        for (uint64_t j = 0; j < n; ++j) {
            auto c = std::make_shared<child_stub>();
            c->idx = j;
            node.link(c);
            natives.push_back(c);
        }
        for (uint64_t j = 0; j < n; ++j)
            if (!alive(j))
                natives[j].reset();
#endif
    }
    void clear()
    {
#ifdef LV_VERIFY
        lv_set_vector((void*) &node.children(), nullptr, 0, sizeof w);
#endif
    }
    void reset_counters()
    {
        for (uint64_t j = 0; j < kids::n; ++j)
            kids::sd[j] = kids::nt[j] = 0;
    }
};

// the node of a handle
template <typename T>
const auto& whole(const lager::detail::observable_reader_node<T>& n)
{
    return static_cast<const lager::detail::reader_node<T>&>(n);
}
template <typename H>
const auto& node_of(const H& h)
{
    return whole(*lager::detail::access::node(h));
}
// it shows `visible`, its watchers know, and nothing is pending
template <typename N, typename Id>
bool settled(const N& n, uint64_t visible, Id id)
{
    return (id(n.last()) == visible) & (id(n.notified_) == visible) & (id(n.current()) == visible);
}
// it shows `visible`, its watchers know, and what is pending is marked as such
template <typename N, typename Id>
bool consistent(const N& n, uint64_t visible, Id id)
{
    return (id(n.last()) == visible) & (id(n.notified_) == visible) &
           (n.needs_send_down_ | (id(n.current()) == visible));
}
struct id_of
{
    template <typename T>
    uint64_t operator()(const T& x) const
    {
        return x.id;
    }
};
} // namespace lv
