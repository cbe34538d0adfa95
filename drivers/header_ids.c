#include "src/extensions/header_ids.c"
#include "drv.h"
/* a stand-in table: the property is about what is done with the name found */
static char longname[400];
const char *apex_find_emoji_name(const char *u, size_t n) {
    if (n == 4 && memcmp(u, "\xF0\x9F\x98\x80", 4) == 0) return "grinning";
    if (n == 4 && memcmp(u, "\xF0\x9F\x91\x8E", 4) == 0) return "-1";
    if (n == 2 && memcmp(u, "\xC2\xA9", 2) == 0) return "a-";
    if (n == 3 && memcmp(u, "\xE2\x9C\x94", 3) == 0) { memset(longname, 'L', 399); return longname; }
    return NULL;
}
static void drv_dispatch(const char *fn) {
    FN("apex_generate_header_id") { char *r = apex_generate_header_id(S(0), (apex_id_format_t)I(1)); out_str(r); free(r); return; }
    FN("is_valid_mmd_id") { out_int(is_valid_mmd_id(S(0))); return; }
    FN("apex_extract_manual_header_id") {
        char *h = strdup(S(0)), *id = NULL;
        bool r = apex_extract_manual_header_id(&h, &id);
        out_int(r); out_str(h); out_str(r ? id : NULL); free(h); if (r) free(id);
        return;
    }
    FN("apex_extract_heading_text") {
        cmark_node *h = cmark_node_new(I(0) ? CMARK_NODE_HEADING : CMARK_NODE_PARAGRAPH);
        for (int i = 1; i + 1 < NA; i += 2) {
            cmark_node *c = cmark_node_new(I(i) == 0 ? CMARK_NODE_TEXT : I(i) == 1 ? CMARK_NODE_CODE : I(i) == 2 ? CMARK_NODE_SOFTBREAK : CMARK_NODE_HTML_INLINE);
            if (I(i) != 2) cmark_node_set_literal(c, S(i + 1));
            cmark_node_append_child(h, c);
        }
        char *r = apex_extract_heading_text(h);
        out_str(r); free(r); cmark_node_free(h);
        return;
    }
}
