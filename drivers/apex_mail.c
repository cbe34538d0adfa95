#include "src/apex.c"
#include "drv.h"
static void drv_dispatch(const char *fn) {
    FN("apex_encode_hex_entities") {
        /* not terminated: the function gets a length */
        char *t = malloc(N(0));
        memcpy(t, S(0), N(0));
        char *r = apex_encode_hex_entities(t, N(0));
        out_str(r); free(r); free(t);
        return;
    }
    FN("apex_obfuscate_email_links") { char *r = apex_obfuscate_email_links(S(0)); out_str(r); free(r); return; }
}
