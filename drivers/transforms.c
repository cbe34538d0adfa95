#include "src/extensions/metadata.c"
#include "drv.h"
static void drv_dispatch(const char *fn) {
    FN("apply_transform") {
        apex_string_array *arr = NULL; bool is = false;
        char *r = apply_transform(S(0), S(1), S(2), &arr, &is);
        out_str(r); out_int(is); free(r); if (arr) free_string_array(arr); return;
    }
    FN("apply_transform_chain") {
        char *key = NULL;
        apex_transform *t = parse_transform_chain(S(1), &key);
        out_str(key);
        if (key) { char *r = apply_transform_chain(S(0), t); out_str(r); free(r); free(key); free_transform_chain(t); }
        return;
    }
    FN("is_number_format") { out_int(is_number_format(S(0))); return; }
}
