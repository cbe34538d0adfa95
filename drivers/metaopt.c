#include "src/extensions/metadata.c"
#include "drv.h"
#define B(f) { #f, &o.f, sizeof o.f, 0 },
#define P(f) { #f, &o.f, sizeof o.f, 1 },
static apex_options o;
static struct { const char *n; void *p; size_t z; int ptr; } fld[] = {
B(mode) B(enable_plugins) B(enable_tables) B(enable_footnotes) B(enable_definition_lists) B(enable_smart_typography) B(enable_math) B(enable_critic_markup) B(enable_wiki_links) B(enable_task_lists)
B(enable_attributes) B(enable_callouts) B(enable_marked_extensions) B(enable_divs) B(enable_spans) B(critic_mode) B(strip_metadata) B(enable_metadata_variables) B(enable_metadata_transforms) B(enable_file_includes)
B(max_include_depth) P(base_directory) B(output_format) B(unsafe) B(validate_utf8) B(github_pre_lang) B(standalone) B(pretty) P(stylesheet_paths) B(stylesheet_count)
P(document_title) B(hardbreaks) B(nobreaks) B(generate_header_ids) B(header_anchors) B(id_format) B(relaxed_tables) B(caption_position) B(per_cell_alignment) B(allow_mixed_list_markers)
B(allow_alpha_lists) B(enable_sup_sub) B(enable_strikethrough) B(enable_autolink) B(obfuscate_emails) B(embed_images) B(enable_image_captions) B(title_captions_only) B(enable_citations) P(bibliography_files)
P(csl_file) B(suppress_bibliography) B(link_citations) B(show_tooltips) P(nocite) B(enable_indices) B(enable_mmark_index_syntax) B(enable_textindex_syntax) B(enable_leanpub_index_syntax) B(suppress_index)
B(group_index_by_letter) B(wikilink_space) P(wikilink_extension) B(wikilink_sanitize) P(script_tags) B(embed_stylesheet) B(enable_aria) B(enable_emoji_autocorrect) P(code_highlighter) B(code_line_numbers)
B(highlight_language_only) B(enable_widont) B(code_is_poetry) B(enable_markdown_in_html) B(random_footnote_ids) B(enable_hashtags) B(style_hashtags) B(proofreader_mode) B(hr_page_break) B(title_from_h1)
B(page_break_before_footnotes) P(input_file_path) P(ast_filter_commands) B(ast_filter_count) B(ast_filter_strict) P(progress_callback) P(progress_user_data) P(theme_name) B(terminal_width)
};

static apex_metadata_item *list(int from) {
    apex_metadata_item *head = NULL, **tail = &head;
    for (int i = from; i + 1 < NA; i += 2) {
        apex_metadata_item *it = calloc(1, sizeof *it);
        it->key = S(i) ? strdup(S(i)) : NULL; it->value = S(i + 1) ? strdup(S(i + 1)) : NULL;
        *tail = it; tail = &it->next;
    }
    return head;
}
static void drv_dispatch(const char *fn) {
    FN("is_true_value") { out_int(is_true_value(S(0))); return; }
    FN("is_false_value") { out_int(is_false_value(S(0))); return; }
    FN("apex_apply_metadata_to_options") {
        apex_metadata_item *m = list(2);
        o = apex_options_for_mode((apex_mode_t)I(0));
        o.theme_name = S(1);
        apex_apply_metadata_to_options(m, &o);
        for (size_t i = 0; i < sizeof fld / sizeof *fld; i++) {
            if (!strcmp(fld[i].n, "stylesheet_paths")) { out_str(o.stylesheet_paths ? o.stylesheet_paths[0] : NULL); if (o.stylesheet_paths && o.stylesheet_paths[1]) abort(); continue; }
            if (!strcmp(fld[i].n, "progress_callback")) { out_str(o.progress_callback ? "set" : NULL); continue; }
            if (fld[i].ptr) { char *q; memcpy(&q, fld[i].p, sizeof q); out_str(q); }
            else if (fld[i].z == 1) out_int(*(unsigned char *)fld[i].p);
            else { int q; memcpy(&q, fld[i].p, sizeof q); out_int(q); }
        }
        while (m) { apex_metadata_item *x = m->next; free(m->key); free(m->value); free(m); m = x; }
        return;
    }
}
