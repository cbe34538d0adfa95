#define main apex_main
#include "cli/main.c"
#undef main
#include "drv.h"
#include <sys/stat.h>
#include <sys/wait.h>
/* stand-ins: the include and metadata passes are specified elsewhere; here a document has neither */
char *apex_process_includes(const char *t, const char *b, apex_metadata_item *m, int d) { (void)b; (void)m; (void)d; return strdup(t); }
apex_metadata_item *apex_extract_metadata(char **t) { (void)t; return NULL; }
static char *dir;
static int nf;
static char *mine(const char *n) { static char b[500]; snprintf(b, sizeof b, "%s/%s", dir, n); return b; }
static void gone(void) { if (dir) { unlink(mine("in")); unlink(mine("out")); unlink(mine("a.md")); unlink(mine("b c.md")); unlink(mine("d.txt")); rmdir(mine("sub")); rmdir(dir); } }
static void put(const char *n, const char *p, size_t len) {
    if (!dir) { static char t[400]; strcpy(t, "./cliXXXXXX"); dir = mkdtemp(t); mkdir(mine("sub"), 0700); atexit(gone); }
    FILE *f = fopen(mine(n), "wb");
    fwrite(p, 1, len, f);
    fclose(f);
}
static void out_file(const char *n) {
    FILE *f = fopen(mine(n), "rb");
    char *b = malloc(1 << 22);
    size_t k = fread(b, 1, 1 << 22, f);
    fclose(f);
    out_mem(b, k);
    free(b);
}
static void drv_dispatch(const char *fn) {
    FN("apex_cli_shift_headers") { char *r = apex_cli_shift_headers(S(0), I(1)); out_str(r); free(r); return; }
    FN("wrap_ansi_to_width") { char *r = wrap_ansi_to_width(S(0), I(1)); out_str(r); free(r); return; }
    FN("normalize_plugin_repo_url") { char *r = normalize_plugin_repo_url(S(0)); out_str(r); free(r); return; }
    FN("apex_cli_get_directory") { char *r = apex_cli_get_directory(S(0)); out_str(r); free(r); return; }
    FN("read_file") {
        size_t n = 77;
        put("in", S(0), N(0));
        char *r = read_file(mine("in"), &n);
        if (r) { out_mem(r, n); out_int(r[n]); } else out_str(NULL);
        free(r);
        return;
    }
    FN("read_file_dir") { put("in", "", 0); if (!freopen("/dev/null", "w", stderr)) {} char *r = read_file(mine("sub"), NULL); out_str(r); free(r); return; }
    FN("read_stdin") {
        /* bytes, chunk: a child writes the bytes into a pipe in pieces of that size */
        int p[2], keep = dup(0);
        if (pipe(p)) return;
        pid_t c = fork();
        if (c == 0) {
            size_t at = 0, m = I(1);
            close(p[0]);
            while (at < N(0)) { size_t k = N(0) - at < m ? N(0) - at : m; ssize_t w = write(p[1], S(0) + at, k); if (w <= 0) break; at += w; }
            _exit(0);
        }
        close(p[1]);
        dup2(p[0], 0);
        close(p[0]);
        size_t n = 0;
        char *r = read_stdin(&n);
        dup2(keep, 0);
        close(keep);
        int st;
        waitpid(c, &st, 0);
        if (r) { out_mem(r, n); out_int(r[n]); } else out_str(NULL);
        free(r);
        return;
    }
    FN("apex_cli_combine_from_summary") {
        put("in", S(0), N(0)); put("a.md", S(1), N(1)); put("b c.md", S(2), N(2));
        FILE *o = fopen(mine("out"), "wb");
        int keep = dup(2);
        if (!freopen("/dev/null", "w", stderr)) {}
        int rc = apex_cli_combine_from_summary(mine("in"), o);
        fflush(stderr);
        dup2(keep, 2);
        close(keep);
        fclose(o);
        out_int(rc);
        out_file("out");
        return;
    }
    FN("apex_cli_mmd_merge_index") {
        /* index, a.md, "b c.md" */
        put("in", S(0), N(0)); put("a.md", S(1), N(1)); put("b c.md", S(2), N(2));
        FILE *o = fopen(mine("out"), "wb");
        int keep = dup(2);
        if (!freopen("/dev/null", "w", stderr)) {}
        int rc = apex_cli_mmd_merge_index(mine("in"), o);
        fflush(stderr);
        dup2(keep, 2);
        close(keep);
        fclose(o);
        out_int(rc);
        out_file("out");
        return;
    }
    FN("apex_cli_write_combined_chunk") {
        put("in", "", 0);
        FILE *o = fopen(mine("out"), "wb");
        bool sep = I(0);
        apex_cli_write_combined_chunk(o, S(1), &sep);
        fclose(o);
        out_int(sep);
        out_file("out");
        return;
    }
}
