#include "src/extensions/special_markers.c"
#include "drv.h"
static void drv_dispatch(const char *fn) {
    FN("apex_process_special_markers") { char *r = apex_process_special_markers(S(0)); out_str(r); free(r); return; }
}
