#include "src/extensions/includes.c"
#include "drv.h"
#include <sys/stat.h>
/* metadata is specified elsewhere; here a document has none */
apex_metadata_item *apex_extract_metadata(char **t) { (void)t; return NULL; }
const char *apex_metadata_get(apex_metadata_item *m, const char *k) { (void)m; (void)k; return NULL; }
void apex_free_metadata(apex_metadata_item *m) { (void)m; }
static char dirbuf[] = "./incXXXXXX";
static char *dir;
static const char *made[64];
static int nmade;
static char *mine(const char *n) { static char b[500]; snprintf(b, sizeof b, "%s/%s", dir, n); return b; }
static void gone(void) { for (int i = 0; i < nmade; i++) unlink(mine(made[i])); rmdir(mine("sub")); rmdir(dir); }
static void put(const char *n, const char *p, size_t len) {
    int known = 0;
    for (int i = 0; i < nmade; i++) if (!strcmp(made[i], n)) known = 1;
    if (!known && nmade < 64) made[nmade++] = strdup(n);
    FILE *f = fopen(mine(n), "wb");
    fwrite(p, 1, len, f);
    fclose(f);
}
static void drv_dispatch(const char *fn) {
    if (!dir) { dir = mkdtemp(dirbuf); mkdir(mine("sub"), 0700); atexit(gone); }
    FN("normalize_fence_delimiters") { char *r = normalize_fence_delimiters(S(0)); out_str(r); free(r); return; }
    FN("resolve_path") { char *r = resolve_path(S(0), S(1)); out_str(r); free(r); return; }
    FN("apex_detect_file_type") { out_int(apex_detect_file_type(S(0))); return; }
    FN("read_file_contents") { put("in", S(0), N(0)); char *r = read_file_contents(mine("in")); if (r) { out_mem(r, N(0)); out_int(r[N(0)]); } else out_str(NULL); free(r); return; }
    FN("read_file_dir") { char *r = read_file_contents(mine("sub")); out_str(r); free(r); return; }
    FN("apex_csv_to_table") { char *r = apex_csv_to_table(S(0), I(1)); out_str(r); free(r); return; }
    FN("include_lines") {
        address_spec_t *a = parse_address_spec(S(1));
        if (!a) { out_int(-1); return; }
        char *r = extract_lines(S(0), a);
        out_str(r);
        free(r);
        free_address_spec(a);
        return;
    }
    FN("put") { put(S(0), S(1), N(1)); out_int(1); return; }
    FN("apex_process_includes") { char *r = apex_process_includes(S(0), dir, NULL, 0); out_str(r); free(r); return; }
    FN("apex_resolve_wildcard") { char *r = apex_resolve_wildcard(S(0), dir); out_str(r ? r + strlen(dir) + 1 : NULL); free(r); return; }
}
