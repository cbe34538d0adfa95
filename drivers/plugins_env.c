#include "src/plugins_env.c"
#include "drv.h"
static void drv_dispatch(const char *fn) {
    FN("apex_json_escape") { char *r = apex_json_escape(S(0)); out_str(r); free(r); return; }
}
