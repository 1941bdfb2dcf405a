// Any history of writes, also through the combination, and commits.
#include "hist.h"
using namespace lv;

LV_CONTRACT(any_history_values)
{
    document d{doc{any("p"), any("q")}, values | combined};
    d.history();
    lv_cover("end");
}
LV_CONTRACT(any_history_writes)
{
    document d{doc{any("p"), any("q")}, writes | combined};
    d.history();
    lv_cover("end");
}
