// Any history of writes and commits.
#include "hist.h"
using namespace lv;

LV_CONTRACT(any_history)
{
    document d{doc{any("p"), any("q")}, writes};
    d.history();
    lv_cover("end");
}
