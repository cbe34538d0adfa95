#include "procshim.h"
#include "src/plugins_env.c"
#include "procshim_end.h"
static void drv_dispatch(const char *fn) {
    FN("apex_run_external_plugin_command") {
        shim_reset((unsigned long long)I(0), S(4), N(4), 0);
        char *r = apex_run_external_plugin_command("some command", S(3), S(2), S(1), 0);
        out_mem(req, nreq); out_str(r); out_str(ran); free(r); return;
    }
}
