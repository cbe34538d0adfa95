#include "src/extensions/metadata.c"
#include "drv.h"
static apex_metadata_item *list(int from) {
    apex_metadata_item *head = NULL, **tail = &head;
    for (int i = from; i + 1 < NA; i += 2) {
        apex_metadata_item *it = calloc(1, sizeof *it);
        it->key = S(i) ? strdup(S(i)) : NULL; it->value = S(i + 1) ? strdup(S(i + 1)) : NULL;
        *tail = it; tail = &it->next;
    }
    return head;
}
static void drop(apex_metadata_item *m) { while (m) { apex_metadata_item *x = m->next; free(m->key); free(m->value); free(m); m = x; } }
static void drv_dispatch(const char *fn) {
    FN("normalize_metadata_key") { char *r = normalize_metadata_key(S(0)); out_str(r); free(r); return; }
    FN("apex_metadata_get") { apex_metadata_item *m = list(1); out_str(apex_metadata_get(m, S(0))); drop(m); return; }
    FN("apex_metadata_replace_variables") {
        apex_metadata_item *m = list(2);
        apex_options o; memset(&o, 0, sizeof o); o.enable_metadata_transforms = I(0) == 1;
        char *r = apex_metadata_replace_variables(S(1), m, I(0) == 2 ? NULL : &o);
        out_str(r); free(r); drop(m); return;
    }
}
