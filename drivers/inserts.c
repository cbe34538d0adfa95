/* ial.c needs cmark-gfm internals that are not installed, so it cannot be compiled here: the attribute list is an arbitrary function of its text, as in the contract */
#include "src/extensions/insert.c"
#include "drv.h"
apex_attributes *parse_ial_content(const char *c, int n) {
    if (n > 0 && *c == '!') return NULL;
    char *r = malloc(n + 1); memcpy(r, c, n); r[n] = 0; return (apex_attributes *)r;
}
char *attributes_to_html(apex_attributes *a) {
    char *s = (char *)a, *r = malloc(strlen(s) * 3 + 20);
    if (*s == '?') { free(r); return NULL; }
    if (!*s) *r = 0; else sprintf(r, "data=\"%s %s\"", s, s);
    return r;
}
void apex_free_attributes(apex_attributes *a) { free(a); }
static void drv_dispatch(const char *fn) {
    FN("apex_process_inserts") { char *r = apex_process_inserts(S(0)); out_str(r); free(r); return; }
}
