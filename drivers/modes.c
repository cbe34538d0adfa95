/* the extensions a parser gets are recorded, not attached */
#define cmark_parser_attach_syntax_extension drv_attach
#define cmark_find_syntax_extension drv_find
#define create_math_extension drv_math
#define create_definition_list_extension drv_deflist
#define create_advanced_footnotes_extension drv_footnotes
#define create_advanced_tables_extension drv_tables
#include "src/apex.c"
#include "drv.h"
static const char *names[] = {"table", "tasklist", "strikethrough", "autolink", "tagfilter", "create_math_extension", "create_definition_list_extension", "create_advanced_footnotes_extension", "create_advanced_tables_extension"};
static char tok[16];
static long long seen[16], avail, cellalign;
static cmark_syntax_extension *tk(int i) { return (avail >> i & 1) ? (cmark_syntax_extension *)(tok + i) : NULL; }
cmark_syntax_extension *drv_find(const char *n) { for (int i = 0; i < 5; i++) if (!strcmp(n, names[i])) return tk(i); return (cmark_syntax_extension *)(tok + 15); }
cmark_syntax_extension *drv_math(void) { return tk(5); }
cmark_syntax_extension *drv_deflist(void) { return tk(6); }
cmark_syntax_extension *drv_footnotes(void) { return tk(7); }
cmark_syntax_extension *drv_tables(bool c) { cellalign = c; return tk(8); }
int drv_attach(cmark_parser *p, cmark_syntax_extension *x) { (void)p; if ((char *)x < tok || (char *)x > tok + 15) abort(); seen[(char *)x - tok]++; return 1; }
#define B(f) { #f, &o.f, sizeof o.f, 0 },
#define P(f) { #f, &o.f, sizeof o.f, 1 },
static apex_options o;
static struct { const char *n; void *p; size_t z; int ptr; } fld[] = {
B(mode) B(enable_plugins) B(enable_tables) B(enable_footnotes) B(enable_definition_lists) B(enable_smart_typography) B(enable_math) B(enable_critic_markup) B(enable_wiki_links) B(enable_task_lists)
B(enable_attributes) B(enable_callouts) B(enable_marked_extensions) B(enable_divs) B(enable_spans) B(critic_mode) B(strip_metadata) B(enable_metadata_variables) B(enable_metadata_transforms) B(enable_file_includes)
B(max_include_depth) P(base_directory) B(output_format) B(unsafe) B(validate_utf8) B(github_pre_lang) B(standalone) B(pretty) P(stylesheet_paths) B(stylesheet_count)
P(document_title) B(hardbreaks) B(nobreaks) B(generate_header_ids) B(header_anchors) B(id_format) B(relaxed_tables) B(caption_position) B(per_cell_alignment) B(allow_mixed_list_markers)
B(allow_alpha_lists) B(enable_sup_sub) B(enable_strikethrough) B(enable_autolink) B(obfuscate_emails) B(embed_images) B(enable_image_captions) B(title_captions_only) B(enable_citations) P(bibliography_files)
P(csl_file) B(suppress_bibliography) B(link_citations) B(show_tooltips) P(nocite) B(enable_indices) B(enable_mmark_index_syntax) B(enable_textindex_syntax) B(enable_leanpub_index_syntax) B(suppress_index)
B(group_index_by_letter) B(wikilink_space) P(wikilink_extension) B(wikilink_sanitize) P(script_tags) B(embed_stylesheet) B(enable_aria) B(enable_emoji_autocorrect) P(code_highlighter) B(code_line_numbers)
B(highlight_language_only) B(enable_widont) B(code_is_poetry) B(enable_markdown_in_html) B(random_footnote_ids) B(enable_hashtags) B(style_hashtags) B(proofreader_mode) B(hr_page_break) B(title_from_h1)
B(page_break_before_footnotes) P(input_file_path) P(ast_filter_commands) B(ast_filter_count) B(ast_filter_strict) P(progress_callback) P(progress_user_data) P(theme_name) B(terminal_width)
};
static void drv_dispatch(const char *fn) {
    int def = 0;
    FN("apex_options_default") def = 1;
    if (def || strcmp(fn, "apex_options_for_mode") == 0) {
        /* twice, over different memory contents: a field left unset shows */
        o = def ? apex_options_default() : apex_options_for_mode((apex_mode_t)I(0));
        for (size_t i = 0; i < sizeof fld / sizeof *fld; i++) {
            long long v = 0;
            if (fld[i].ptr) { void *q; memcpy(&q, fld[i].p, sizeof q); v = q != NULL; }
            else if (fld[i].z == 1) v = *(unsigned char *)fld[i].p;
            else { int q; memcpy(&q, fld[i].p, sizeof q); v = q; }
            out_int(v);
        }
        return;
    }
    memset(&o, 0, sizeof o);
    for (int i = 1; i + 1 < NA; i += 2)
        for (size_t k = 0; k < sizeof fld / sizeof *fld; k++)
            if (!strcmp(S(i), fld[k].n)) { if (fld[k].z == 1) *(bool *)fld[k].p = I(i + 1) != 0; else *(int *)fld[k].p = (int)I(i + 1); }
    FN("apex_to_cmark_options") { out_int(apex_to_cmark_options(&o)); return; }
    FN("apex_register_extensions") {
        memset(seen, 0, sizeof seen); cellalign = -1; avail = I(0);
        apex_register_extensions((cmark_parser *)tok, &o);
        for (int i = 0; i < 9; i++) out_int(seen[i]);
        out_int(seen[15]); out_int(cellalign);
        return;
    }
}
