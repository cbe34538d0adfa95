/* trees are built through libcmark-gfm from a compact script; the real writer/reader are included */
#include "src/ast_json.c"
#include "drv.h"
/* script: node := type byte, then attributes as length-prefixed strings (2 byte big endian), then child count byte, then children */
static unsigned char *sp;
static char *str(void) { size_t n = sp[0] * 256u + sp[1]; sp += 2; char *s = malloc(n + 1); memcpy(s, sp, n); s[n] = 0; sp += n; return s; }
static cmark_node *build(void) {
    int ty = *sp++; cmark_node *n; char *s, *t;
    switch (ty) {
    case 'D': n = cmark_node_new(CMARK_NODE_DOCUMENT); break;
    case 'P': n = cmark_node_new(CMARK_NODE_PARAGRAPH); break;
    case 'H': n = cmark_node_new(CMARK_NODE_HEADING); cmark_node_set_heading_level(n, *sp++); break;
    case 'T': n = cmark_node_new(CMARK_NODE_THEMATIC_BREAK); break;
    case 'h': n = cmark_node_new(CMARK_NODE_HTML_BLOCK); s = str(); cmark_node_set_literal(n, s); free(s); break;
    case 'C': n = cmark_node_new(CMARK_NODE_CODE_BLOCK); s = str(); t = str(); cmark_node_set_literal(n, s); cmark_node_set_fence_info(n, t); free(s); free(t); break;
    case 'B': n = cmark_node_new(CMARK_NODE_BLOCK_QUOTE); break;
    case 'U': n = cmark_node_new(CMARK_NODE_LIST); cmark_node_set_list_type(n, CMARK_BULLET_LIST); break;
    case 'O': n = cmark_node_new(CMARK_NODE_LIST); cmark_node_set_list_type(n, CMARK_ORDERED_LIST); cmark_node_set_list_start(n, sp[0] * 256 + sp[1]); sp += 2; break;
    case 'I': n = cmark_node_new(CMARK_NODE_ITEM); break;
    case 't': n = cmark_node_new(CMARK_NODE_TEXT); s = str(); cmark_node_set_literal(n, s); free(s); break;
    case 's': n = cmark_node_new(CMARK_NODE_SOFTBREAK); break;
    case 'b': n = cmark_node_new(CMARK_NODE_LINEBREAK); break;
    case 'c': n = cmark_node_new(CMARK_NODE_CODE); s = str(); cmark_node_set_literal(n, s); free(s); break;
    case 'r': n = cmark_node_new(CMARK_NODE_HTML_INLINE); s = str(); cmark_node_set_literal(n, s); free(s); break;
    case 'e': n = cmark_node_new(CMARK_NODE_EMPH); break;
    case 'g': n = cmark_node_new(CMARK_NODE_STRONG); break;
    case 'l': n = cmark_node_new(CMARK_NODE_LINK); s = str(); t = str(); cmark_node_set_url(n, s); cmark_node_set_title(n, t); free(s); free(t); break;
    case 'i': n = cmark_node_new(CMARK_NODE_IMAGE); s = str(); t = str(); cmark_node_set_url(n, s); cmark_node_set_title(n, t); free(s); free(t); break;
    default: abort();
    }
    int k = *sp++;
    while (k--) { cmark_node *c = build(); if (!cmark_node_append_child(n, c)) abort(); }
    return n;
}
/* canonical dump of a tree, same notation as the generator */
static char *dp; static size_t dn, dc;
static void put(const void *p, size_t n) { if (dn + n > dc) { dc = (dn + n) * 2; dp = realloc(dp, dc); } memcpy(dp + dn, p, n); dn += n; }
static void puts1(const char *s) { if (!s) s = ""; size_t n = strlen(s); char h[2] = {(char)(n >> 8), (char)n}; put(h, 2); put(s, n); }
static void dump(cmark_node *n) {
    int ty = '?';
    switch (cmark_node_get_type(n)) {
    case CMARK_NODE_DOCUMENT: ty = 'D'; break; case CMARK_NODE_PARAGRAPH: ty = 'P'; break; case CMARK_NODE_HEADING: ty = 'H'; break;
    case CMARK_NODE_THEMATIC_BREAK: ty = 'T'; break; case CMARK_NODE_HTML_BLOCK: ty = 'h'; break; case CMARK_NODE_CODE_BLOCK: ty = 'C'; break;
    case CMARK_NODE_BLOCK_QUOTE: ty = 'B'; break; case CMARK_NODE_LIST: ty = cmark_node_get_list_type(n) == CMARK_ORDERED_LIST ? 'O' : 'U'; break;
    case CMARK_NODE_ITEM: ty = 'I'; break; case CMARK_NODE_TEXT: ty = 't'; break; case CMARK_NODE_SOFTBREAK: ty = 's'; break; case CMARK_NODE_LINEBREAK: ty = 'b'; break;
    case CMARK_NODE_CODE: ty = 'c'; break; case CMARK_NODE_HTML_INLINE: ty = 'r'; break; case CMARK_NODE_EMPH: ty = 'e'; break; case CMARK_NODE_STRONG: ty = 'g'; break;
    case CMARK_NODE_LINK: ty = 'l'; break; case CMARK_NODE_IMAGE: ty = 'i'; break; default: break;
    }
    char c = (char)ty; put(&c, 1);
    if (ty == 'H') { c = (char)cmark_node_get_heading_level(n); put(&c, 1); }
    if (ty == 'O') { int v = cmark_node_get_list_start(n); char h[2] = {(char)(v >> 8), (char)v}; put(h, 2); }
    if (strchr("htcr", ty)) puts1(cmark_node_get_literal(n));
    if (ty == 'C') { puts1(cmark_node_get_literal(n)); puts1(cmark_node_get_fence_info(n)); }
    if (ty == 'l' || ty == 'i') { puts1(cmark_node_get_url(n)); puts1(cmark_node_get_title(n)); }
    int k = 0; for (cmark_node *x = cmark_node_first_child(n); x; x = cmark_node_next(x)) k++;
    c = (char)k; put(&c, 1);
    for (cmark_node *x = cmark_node_first_child(n); x; x = cmark_node_next(x)) dump(x);
}
static void drv_dispatch(const char *fn) {
    FN("write") { sp = (unsigned char *)S(0); cmark_node *d = build(); char *r = apex_cmark_to_pandoc_json(d, NULL); out_str(r); free(r); cmark_node_free(d); return; }
    FN("read") {
        cmark_node *d = apex_pandoc_json_to_cmark(S(0), NULL);
        if (!d) { out_str(NULL); return; }
        dn = 0; dump(d); out_mem(dp, dn);
        if (!cmark_node_check(d, stderr) == 0) out_int(1); /* inconsistent tree */
        cmark_node_free(d); return;
    }
    FN("round") {
        sp = (unsigned char *)S(0); cmark_node *d = build(); char *r = apex_cmark_to_pandoc_json(d, NULL);
        cmark_node *e = r ? apex_pandoc_json_to_cmark(r, NULL) : NULL;
        if (!e) out_str(NULL); else { dn = 0; dump(e); out_mem(dp, dn); cmark_node_free(e); }
        free(r); cmark_node_free(d); return;
    }
}
