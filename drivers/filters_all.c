/* the real filter loop and runner; the serialiser, the parser and the child are scripted */
#include "procshim.h"
#include "src/filters_ast.c"
#include "procshim_end.h"
#include <stdint.h>
static const unsigned char *sc; static int nsc, step, emp[300]; static char log_[16384]; static size_t nl;
#define LOG(...) (nl += (size_t)snprintf(log_ + nl, sizeof log_ - nl, __VA_ARGS__))
#define SEP() (nl ? LOG(",") : 0)
#define NODE(i) ((cmark_node *)(uintptr_t)(4096 + 16 * (i)))
#define IDX(p) ((int)(((uintptr_t)(p) - 4096) / 16))
static int what(void) { return step < nsc ? sc[step] : 99; }
char *apex_cmark_to_pandoc_json(cmark_node *n, const apex_options *o) {
    (void)o; while (step < nsc && sc[step] < 2) step++;
    SEP(); LOG("J%d", IDX(n));
    if (what() == 2) { step++; return NULL; }
    char *r = malloc(32); snprintf(r, 32, "%d", IDX(n)); return r;
}
static char reply[32];
static void rec(const char *cmd) {
    SEP(); LOG("R%s", cmd + 1);
    xst = what() == 3 ? 256 : 0; if (xst) step++;
    snprintf(reply, sizeof reply, "out%s", cmd + 1); rep = reply; nrep = strlen(reply); prep = 0;
}
cmark_node *apex_pandoc_json_to_cmark(const char *json, const apex_options *o) {
    (void)o; SEP(); LOG(":%.*s", (int)nreq, req); LOG(",P%s", json + 3);
    int i = atoi(json + 3), w = sc[i]; step = i + 1;
    if (w == 4) return NULL;
    emp[i + 1] = w == 5;
    return NODE(i + 1);
}
cmark_node *cmark_node_first_child(cmark_node *n) { return emp[IDX(n)] ? NULL : n; }
void cmark_node_free(cmark_node *n) { SEP(); LOG("F%d", IDX(n)); }
static void drv_dispatch(const char *fn) {
    FN("apex_run_ast_filters") {
        apex_options o; memset(&o, 0, sizeof o);
        static char names[300][8]; static const char *cmds[300];
        sc = (unsigned char *)S(2); nsc = (int)N(2); step = 0; nl = 0; log_[0] = 0;
        for (int i = 0; i < nsc; i++) { snprintf(names[i], 8, "c%d", i); cmds[i] = sc[i] == 0 ? NULL : sc[i] == 1 ? "" : names[i]; }
        const char **heap = malloc(sizeof *heap * (size_t)(nsc ? nsc : 1)); memcpy(heap, cmds, sizeof *heap * (size_t)nsc);
        emp[0] = (int)I(1); o.ast_filter_commands = heap; o.ast_filter_count = (size_t)nsc; o.ast_filter_strict = I(0) != 0;
        shim_reset(7 + (unsigned)nsc, "", 0, 0); on_exec = rec;
        cmark_node *r = apex_run_ast_filters(NODE(0), &o, "html");
        on_exec = NULL; free(heap);
        out_int(r ? IDX(r) : -1); out_str(log_); return;
    }
}
