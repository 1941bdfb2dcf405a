// LV_PROPS: C01 C02 C08
// Node level contracts: one node with arbitrary value, arbitrary pending
// state, arbitrary number of arbitrary (live or expired) children.
#include "nodes.h"
using namespace lv;
using namespace lager::detail;

namespace {
struct any_node : reader_node<V> // recompute is an arbitrary child of reality
{
    using base = reader_node<V>;
    using base::base;
    bool has_new = false;
    V next;
    unsigned recomputes = 0;
    void recompute() override
    {
        ++recomputes;
        if (has_new)
            this->push_down(next);
    }
    void refresh() override { recompute(); }
};
bool sd_inv(void* want, uint64_t k, uint64_t j)
{
    return j >= kids::n || kids::sd[j] == ((j < k && alive(j)) ? 1 : 0);
}
bool nt_inv(void*, uint64_t k, uint64_t j)
{
    return j >= kids::n || kids::nt[j] == ((j < k && alive(j)) ? 1 : 0);
}
bool expired_seen(void*, uint64_t k, uint64_t j) { return j < k && !alive(j); }
// contract of the sweep of expired children (its body: see C08_dynamic): only
// expired children leave the list, nothing else is touched
any_node* g_node;
unsigned g_collects;
void collect_contract(void*)
{
    ++g_collects;
#ifdef LV_VERIFY
    lv_set_vector((void*) &g_node->children(), nullptr, 0, 16);
#endif
}
// drive the node to an arbitrary reachable state: visible value `last`, pending
// value `cur`, `told`: the value that the observers know, `dirty`: something was
// pushed that differed, `nn`: something was propagated but not yet notified
struct st
{
    uint64_t last, cur, told;
    bool dirty, nn;
};
std::shared_ptr<any_node> canonical(const st& s, uint64_t other)
{
    std::shared_ptr<any_node> n;
    if (s.nn) {
        n = std::make_shared<any_node>(V{s.told});
        n->push_down(V{other});
        n->push_down(V{s.last});
        n->send_down();
    } else
        n = std::make_shared<any_node>(V{s.last});
    if (s.dirty && s.cur == s.last)
        n->push_down(V{other});
    if (s.dirty)
        n->push_down(V{s.cur});
    n->recomputes = 0;
    return n;
}
std::shared_ptr<any_node> arbitrary_node(st& s)
{
    s.last     = any_id("last");
    s.cur      = any_id("cur");
    s.dirty    = any_bool("dirty");
    s.nn       = any_bool("unnotified");
    s.told     = s.nn ? any_id("told") : s.last;
    auto other = any_id("other");
    lv_assume(other != s.last && other != s.cur && other != s.told);
    lv_assume(s.dirty || s.last == s.cur);
    return canonical(s, other);
}
} // namespace

// every history of pushes, propagations and notifications leaves the node in one
// of the states `arbitrary_node` enumerates (induction step)
LV_CONTRACT(node_states_closed)
{
    st s;
    auto n       = arbitrary_node(s);
    n->has_new   = false;
    unsigned op  = pick("operation", 3);
    auto v       = any_id("v");
    if (op == 0) {
        n->push_down(V{v});
        s.dirty = s.dirty || v != s.cur;
        s.cur   = v;
    } else if (op == 1) {
        n->send_down();
        s.nn    = s.nn || s.dirty;
        s.last  = s.cur;
        s.dirty = false;
    } else {
        n->notify();
        s.nn = s.nn && s.dirty;
        if (!s.nn)
            s.told = s.last;
    }
    n->recomputes = 0;
    auto other    = any_id("other2");
    lv_assume(other != s.last && other != s.cur && other != s.told);
    auto m = canonical(s, other);
    lv_lemma(lv_same_object(n.get(), m.get(), sizeof(any_node)), "closed under operations");
}

// after propagation the visible value is the recomputed one; every live child
// is reached exactly once iff there was a change, expired ones never
LV_CONTRACT(node_send_down)
{
    st s;
    auto node = arbitrary_node(s);
    lv_assert(node->last().id == s.last, "pushing does not change the visible value");
    lv_assert(node->current().id == s.cur, "current is the last pushed value");
    node->has_new = any_bool("recompute gives a value");
    node->next    = any("d");
    if (node->has_new) {
        s.dirty = s.dirty || node->next.id != s.cur;
        s.cur   = node->next.id;
    }
    arbitrary_children<any_node> ch{*node};
    uint64_t J = lv_any("J");
    lv_assume(J < kids::n);
    lv_inv(sd_inv, nullptr, J);
    node->send_down();
    lv_inv_pop();
    lv_assert(node->recomputes == 1, "recomputed once");
    lv_assert(node->last().id == s.cur, "visible value is the recomputed value");
    lv_assert(node->current().id == s.cur, "current value is kept");
    lv_assert(kids::sd[J] == ((s.dirty && alive(J)) ? 1 : 0), "each live child receives the change exactly once");
    lv_assert(kids::nt[J] == 0, "no child is notified during propagation");
    ch.clear();
}

// the second phase
LV_CONTRACT(node_notify)
{
    st s;
    auto node      = arbitrary_node(s);
    unsigned calls = 0;
    uint64_t seen  = 0;
    auto conn      = node->observers().connect([&](const V& v) {
        ++calls;
        seen = v.id;
    });
    arbitrary_children<any_node> ch{*node};
    uint64_t J = lv_any("J");
    lv_assume(J < kids::n);
    lv_assume(alive(J));
    uint64_t K   = lv_any("K");
    bool expired = K < kids::n && !alive(K);
    g_node     = node.get();
    g_collects = 0;
    lv_replace("::collect()", (void*) collect_contract);
    // a node that was written after its change was propagated waits for the
    // next propagation
    bool fires   = s.nn && !s.dirty;
    bool changed = s.last != s.told;
    lv_inv(nt_inv, nullptr, J);
    lv_flag(expired_seen, nullptr, K);
    node->notify();
    lv_inv_pop();
    lv_inv_pop();
    lv_assert(calls == (fires && changed ? 1u : 0u), "observers run once iff what they know is not what was propagated");
    lv_assert(!(fires && changed) || seen == s.last, "observers get the propagated value");
    lv_assert(kids::nt[J] == (fires ? 1 : 0), "each live child is notified once");
    lv_assert(!(fires && expired) || g_collects == 1, "expired children are swept");
    lv_assert(kids::sd[J] == 0, "nothing is propagated during notification");
    lv_assert(node->last().id == s.last, "notification does not change the visible value");
    lv_assert(node->current().id == s.cur, "notification does not change the pending value");
    ch.clear();
}
