#include "procshim.h"
#include "src/filters_ast.c"
#include "procshim_end.h"
static void drv_dispatch(const char *fn) {
    FN("run_single_ast_filter") {
        shim_reset((unsigned long long)I(0), S(2), N(2), (int)I(3));
        unsetenv("APEX_TARGET_FORMAT");
        char *r = run_single_ast_filter("some command", "html", S(1));
        out_mem(req, nreq); out_str(r); out_str(ranenv); out_str(ran); free(r); return;
    }
}
