// Keyed access in programs without exceptions: presence is asked for first.
// LV_FLAGS: -DLAGER_NO_EXCEPTIONS
#include "at_laws.h"
#include "rb_tree.h"
#include <map>
#include <vector>

LV_CONTRACT(noexc_at_mutable_container) { at_laws(any_map2()); }
LV_CONTRACT(noexc_at_persistent_container) { at_laws(pmap2{any_map2()}); }
LV_CONTRACT(noexc_at_table_container) { table_laws(table2{any_map2()}); }
LV_CONTRACT(noexc_at_or_mutable_container) { at_or_laws(any_map2()); }
LV_CONTRACT(noexc_at_or_persistent_container) { at_or_laws(pmap2{any_map2()}); }
LV_BOUNDED(noexc_at_std_vector) { vector_laws<std::vector<V>>(2); }
LV_BOUNDED(noexc_at_std_map)
{
    std::map<uint64_t, V> w;
    unsigned n = pick("size", 3);
    for (unsigned i = 0; i < n; ++i)
        w.emplace(lv_any("key"), any("elem"));
    auto k = lv_any("k");
    partial_laws<V>(at(k), w, any_ov("p"), w.count(k) > 0);
}
// a handle without a source: nothing of the graph is read, whatever index
LV_CONTRACT(noexc_negative_index)
{
    std::vector<V> w;
    w.push_back(any("a"));
    int k = -(int) (1 + (lv_any("k") & 0xffff));
    lv_assert(!OV(lager::view(at(k), w)), "not there");
    lv_assert(std::vector<V>(lager::set(at(k), w, OV{any("p")})) == w, "and not set");
}
