#include "src/ast_json.c"
#include "drv.h"
static void drv_dispatch(const char *fn) {
    FN("apex_json_escape_local") { char *r = apex_json_escape_local(S(0)); out_str(r); free(r); return; }
}
