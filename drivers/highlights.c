#include "src/extensions/highlight.c"
#include "drv.h"
static void drv_dispatch(const char *fn) {
    FN("apex_process_highlights") { char *r = apex_process_highlights(S(0)); out_str(r); free(r); return; }
}
