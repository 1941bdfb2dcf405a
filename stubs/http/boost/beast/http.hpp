#include <lv_http.h>
