"""One entry per property: the listed statement, and how it is decided."""
PROPS = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, design, note='', observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, design=design, note=note, observe=list(observe)))


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech, 'Not applicable: ' + reason)
    NA.append((id, reason))


prop('P01', 'External plugins get the whole document as JSON; their reply is kept intact',
     'For every document text, an external plugin command receives on its standard input exactly one JSON object whose "text" member decodes to that text (control characters, quotes and backslashes escaped), '
     'followed by a newline, no matter how the operating system splits the writes. Everything the plugin prints, up to end of file and however the reads are split or interrupted, becomes the returned text unchanged and terminated; '
     'a missing result is reported only when allocation, pipe, fork or reading fails.',
     ['inputs', 'schedules', 'fault_sequences'], 'every text, every sequence of short writes, short reads and EINTR, every allocation or system-call failure',
     'no baseline test starts a plugin process; the property is over all texts and all I/O schedules',
     ['src/plugins_env.c'], [('JSON escaping of the text', 'src/plugins_env.c:apex_json_escape'), ('request/response over two pipes', 'src/plugins_env.c:apex_run_external_plugin_command')],
     'apex_json_escape: postcondition output = the escape transducer applied byte by byte to the whole text (all lengths), inside its block, terminated. apex_run_external_plugin_command: proved against a ghost model of '
     'pipe/fork/write/read/waitpid in which every return value the kernel may give is possible; postconditions: bytes sent = the request, reading stops only at end of file, returned string = bytes received, child never returns, no descriptor or memory misuse.',
     'The kernel calls are a ghost contract (every result allowed), not the kernel. Waiting forever on a plugin that does not read its input is outside the property.')

prop('P02', 'AST filters run in order and a failing filter never loses the document',
     'Configured document filters run one after another in the order given, each once, on the document the previous successful one produced, with the output format exported to them; empty commands are skipped. '
     'A filter that cannot be run, exits with a non-zero status or a signal, prints something that is not a document, or empties a non-empty document leaves the current document in place, and in strict mode a failure makes the whole step fail. '
     'The document passed in is never freed by this step and no intermediate document is used after it was freed.',
     ['inputs', 'schedules', 'fault_sequences', 'configurations'], 'every list of commands, every mixture of successes and failures, strict or not, every I/O schedule',
     'no baseline test runs a filter; histories of successes and failures are unbounded',
     ['src/filters_ast.c'], [('one filter run', 'src/filters_ast.c:run_single_ast_filter'), ('filter loop and ownership', 'src/filters_ast.c:apex_run_ast_filters')],
     'run_single_ast_filter is proved like P01 plus: a result only if the child was reaped with exit status 0, target format exported before exec. apex_run_ast_filters is proved for any number of commands with a ghost record of the current document, '
     'the next command index and failures; serialiser, parser and runner are used through contracts.',
     'Serialiser/parser by contract (their own behaviour is P03/P04).')

prop('P03', 'The AST JSON given to filters is well-formed and mirrors the document',
     'For every document tree, the JSON produced for document filters is exactly one syntactically valid JSON value whose block and inline objects correspond one to one, in order and nesting, to the nodes of the tree. '
     'Every text, code, raw HTML, URL, title and code language string in it decodes to the node\'s own string (a code block without its one final newline), and heading levels and list start numbers are the node\'s own.',
     ['inputs'], 'every tree: every node kind, any number of children, any nesting, any string contents',
     'the existing tests look for substrings of a few small documents; well-formedness over all trees is a structural induction',
     ['src/ast_json.c'], [('tree writer', 'src/ast_json.c:write_block/write_inline/write_inlines/write_blocks'), ('buffer and escaping', 'src/ast_json.c:apex_json_buf_*, apex_json_escape_local')],
     'A ghost JSON push-down automaton is stepped by the contract of the buffer-append function; postcondition of write_inline/write_block: exactly one JSON value, equal to the template of the node kind over the node\'s own attributes; write_inlines/write_blocks: '
     'exactly one value per child, in order, comma separated; recursive calls go through the contract being proved. apex_json_buf_* and apex_json_escape_local are proved to append exactly the (escaped) argument.',
     'libcmark-gfm accessors are assumed pure.')

prop('P04', 'AST JSON read back: strings decode exactly and the reader stays inside its input',
     'Reading the document JSON back, every string decodes to exactly the text that the writer encoded, including control characters, quotes, backslashes and text outside ASCII, and escaped code points decode to their UTF-8 form. '
     'On any input whatsoever, well-formed or not, the reader never reads past the end of the JSON text and always terminates. A document written and read back has the same blocks and inlines with the same text, link targets, titles, heading levels, list kinds and start numbers.',
     ['inputs'], 'every string, every (possibly damaged) JSON text, every tree',
     'the tests read back a handful of fixed snippets; decoding must invert encoding for all strings and the reader must survive any filter output',
     ['src/ast_json.c'], [('string decoding', 'src/ast_json.c:json_parse_string'), ('value skipping', 'src/ast_json.c:json_skip_value'), ('tree reader', 'src/ast_json.c:apex_pandoc_json_to_cmark')],
     'json_parse_string: proved that on quote+ESC(text)+quote it returns text and leaves the cursor after the closing quote, and separately that on arbitrary input it stays in bounds and terminates; json_skip_value, json_match_char, json_skip_ws, json_parse_int likewise on arbitrary input. '
     'The object parsers above them are exercised by a bounded round trip only (random trees, Python re-serialisations, damaged documents under ASan).',
     'Tree-level round trip is bounded, not proved.')

prop('P05', 'Embedding an image yields exactly its bytes and leaves the page unchanged',
     'Embedding a local image replaces its src by a data URL whose base64 part decodes to exactly the bytes of the file (files above 10 MB or unreadable are left as they are), with the media type chosen by the last extension of the path, '
     'case-insensitively and ignoring a query or fragment. Everything else on the page, before and after the image, however large the image is, comes out byte for byte, including pages with remote, data-URL or broken img tags.',
     ['inputs', 'configurations'], 'every file content and length, every path, every page, every buffer boundary',
     'no baseline test embeds an image; base64 grouping, buffer growth and the copy loop must hold for every length',
     ['src/apex.c'], [('base64', 'src/apex.c:apex_base64_encode'), ('media type', 'src/apex.c:apex_detect_mime_type'), ('path', 'src/apex.c:apex_resolve_image_path'), ('file reading', 'src/apex.c:apex_read_and_encode_image'), ('page rewriting', 'src/apex.c:apex_embed_images')],
     'apex_base64_encode: postcondition gives every output character as a function of the input bytes, for every length (loop invariant over groups). apex_detect_mime_type and apex_resolve_image_path: complete functional contracts. apex_read_and_encode_image: against a ghost file '
     '(any failure, short read, any content). apex_embed_images: proved (a) output = input when nothing can be embedded, (b) with images of any size no access outside the page or the buffer and a live result; the placement of the data URL inside the page is compared with a reference on bounded inputs.',
     'Replacement position is bounded; stdio is a ghost contract.')

prop('P06', 'Obfuscated mail links decode to the same text; the rest of the page is unchanged',
     'With e-mail obfuscation on, the href value and the link text of every mailto link are rewritten as hexadecimal character references that decode to exactly the original text; UTF-8 letters and character references already present are kept as they are. '
     'Every other byte of the page comes out unchanged and in place, for every page including unterminated or nested links, with no read or write outside the buffers.',
     ['inputs'], 'every page, every mixture of links, tags, references and truncation',
     'no baseline test covers obfuscation; the rewriting is a state machine over the whole page',
     ['src/apex.c'], [('text to references', 'src/apex.c:apex_encode_hex_entities'), ('page scan', 'src/apex.c:apex_obfuscate_email_links')],
     'Both functions are proved equal to a transducer (page mode x inside-a-reference) for all inputs; the page function uses the encoder only through its contract, linked by an inductively proved segment lemma.',
     'Allocation failure in the page function is not modelled.')

prop('P07', 'Heading identifiers follow the selected format for every heading text',
     'Generated identifiers depend only on the text: GFM style lowercases ASCII letters and digits, turns runs of spaces and dashes into one dash with none at either end, writes an emoji as its name and drops everything else except accented letters it has a base letter for; '
     'MMD style keeps letters, digits, dashes and UTF-8 characters, without spaces and punctuation; Kramdown style keeps each space or dash as a dash, turns inner punctuation into a dash (absorbing one space right after it) and drops leading dashes, trailing punctuation and non-ASCII. '
     'The result is never empty ("header" is used instead). A manual [id] or {#id} at the very end of a heading is taken out exactly, with the space before it, and any other heading is left alone; all of it for any text, including invalid or truncated UTF-8, without touching memory outside the strings.',
     ['inputs', 'configurations'], 'every heading text (any bytes, any length) in the three formats, every heading tree',
     'tests sample a few headings; truncated sequences, buffer growth and trimming need every text',
     ['src/extensions/header_ids.c'], [('identifier generation', 'src/extensions/header_ids.c:apex_generate_header_id'), ('manual identifiers', 'src/extensions/header_ids.c:apex_extract_manual_header_id'), ('identifier syntax', 'src/extensions/header_ids.c:is_valid_mmd_id'), ('heading text', 'src/extensions/header_ids.c:apex_extract_heading_text')],
     'apex_generate_header_id is proved three times, once per format, equal to a byte transducer (with a variable-length chunk for an emoji name, taken from an arbitrary name table) followed by the trimming, for every text. apex_extract_manual_header_id: complete functional contract with ghost positions of the last bracket, '
     'its end and the last non-space. apex_extract_heading_text: result = concatenation of the text and code literals of any number of children.',
     'Emoji lookup is a pure function of the position (any table). Which accented letters GFM maps is pinned to the current table (C3 xx). apex_process_manual_header_id (AST rewriting) is not under contract.')

prop('P08', 'A processing mode selects exactly its feature set, passed on to the parser',
     'Every option has a definite default, and each of the five modes (CommonMark, GFM, MultiMarkdown, Kramdown, Unified) sets exactly its documented feature set and leaves every other option at its default: CommonMark turns every extension off and does not pass raw HTML, GFM adds only tables, task lists, strikethrough, autolinks and hard line breaks, Unified has everything but wiki links on. '
     'The parser gets exactly the flags the options ask for (UTF-8 validation, raw HTML, hard or no breaks, pre-lang attribute, footnotes, smart punctuation), and exactly the syntax extensions they ask for, each once: autolinks only in GFM and Unified, the tag filter in GFM only.',
     ['inputs', 'configurations'], 'every mode value, every combination of option values',
     'tests look at a few rendered documents per mode; the guarantee is about all 89 fields and all 2^n combinations, and no conversion test runs in this build',
     ['src/apex.c', 'include/apex/apex.h'], [('defaults', 'src/apex.c:apex_options_default'), ('mode profiles', 'src/apex.c:apex_options_for_mode'), ('parser flags', 'src/apex.c:apex_to_cmark_options'), ('extensions', 'src/apex.c:apex_register_extensions')],
     'Each function has a complete functional contract: the value of all 89 fields per mode (the mode functions use the contract of the default function), the flag word as a function of the options, the recorded sequence of attached extensions as a function of the options, '
     'symbolic over all option values.',
     'The feature tables are the documented ones where documented (README, include/apex/apex.h) and pinned to the current values otherwise; README says indices are on in MultiMarkdown mode, the code says off with an explicit comment: the code is taken as right.')

prop('P09', 'Document metadata sets exactly the options it names',
     'Applying a document\'s metadata to the options first switches to the profile of the first mode item (commonmark, gfm, mmd/multimarkdown, kramdown, unified; any other mode name changes nothing), then lets every later or earlier item set the option of its key, the last one winning; keys and values are compared ignoring case, and items with an unknown key, or a boolean key whose value is not true/yes/1 or false/no/0, change nothing. '
     'Boolean keys set their own option (and only what they imply: indices its two syntaxes, title-captions-only the captions, code-is-poetry highlight-language-only, proofreader critic markup; css standalone; bibliography and csl citations); title, csl, base-dir, wikilink-extension and css take the item\'s text, id-format, wikilink-space and code-highlight their listed names, the theme only if none is set, the width only if positive. '
     'Every other option stays exactly as it was.',
     ['inputs', 'configurations'], 'every metadata list of any length, every order and repetition of keys, every starting set of options',
     'tests apply two or three metadata lists; the guarantee is over every list, order and starting point, for all 89 options',
     ['src/extensions/metadata.c'], [('truth values', 'src/extensions/metadata.c:is_true_value, is_false_value'), ('application', 'src/extensions/metadata.c:apex_apply_metadata_to_options')],
     'is_true_value/is_false_value: complete functional contracts over every string. apex_apply_metadata_to_options: for every list (any length), each of the 89 fields equals a fold over the items of that field\'s rule, as a loop invariant at every list position; the mode pass is linked by the ghost position of the first mode item. '
     'Strings are handles of an arbitrary string family; the lower-casing loops run on the real bytes.',
     'Allocation failure not modelled; atoi arbitrary; which keys exist and what they imply is pinned to the current table.')

prop('P10', 'Metadata lookup finds the right item and [%key] substitution keeps the rest',
     'Looking up a metadata key returns the value of the first item whose key is equal ignoring case, otherwise of the first one equal after lower-casing and removing white space on both sides, otherwise nothing; for every list. '
     'Substitution replaces every [%key], up to its matching closing bracket, by the value of that key, and leaves the pattern in place if there is no such key or the pattern is 512 bytes or longer; a pattern holding a colon goes through the transforms only when they are enabled. '
     'Every other byte of the text, and everything from an unclosed [% on, comes out unchanged and in order, for any text and any value lengths, without touching memory outside the buffers.',
     ['inputs', 'configurations'], 'every metadata list, every text and nesting of brackets, every length of the values',
     'tests look up a few keys; buffer growth, bracket nesting and unclosed patterns need every text',
     ['src/extensions/metadata.c'], [('key normalisation', 'src/extensions/metadata.c:normalize_metadata_key'), ('lookup', 'src/extensions/metadata.c:apex_metadata_get'), ('substitution', 'src/extensions/metadata.c:apex_metadata_replace_variables')],
     'normalize_metadata_key is proved equal to a transducer; apex_metadata_get has a complete functional contract over lists of any length (first exact, else first normalised), with ownership of the normalised copies; apex_metadata_replace_variables is proved to write a sequence of segments '
     '(literal text, value or kept pattern) defined by recursion over the text, with the buffer growth checked by memory obligations.',
     'Which string the transform chain yields is arbitrary here (P11). String comparison functions are taken by contract.')

prop('P11', 'Metadata transforms compute what they document, in order, for any value',
     'A chain of metadata transforms applies its steps in order, each to the result of the step before (an array after split, until join, first or last); if any step fails the original value is used. '
     'Each transform computes its documented function for every value and option: case changes, trim, reverse, slug, HTML escaping and URL encoding/decoding byte by byte, prefix, suffix, default, replace, remove, repeat, truncate, substring, pad, length, contains, basename, split, join, first and last; an unknown name leaves the value as it is. '
     'format only uses an option that is text with exactly one floating-point conversion, and nothing reads or writes outside the strings, for values and options of any content and length.',
     ['inputs', 'configurations'], 'every value, every option text and length, every chain of any number of steps',
     'tests sample a few transforms on short ASCII values; the result must be right for every byte, length, negative index and chain',
     ['src/extensions/metadata.c'], [('transforms', 'src/extensions/metadata.c:apply_transform'), ('chains', 'src/extensions/metadata.c:apply_transform_chain'), ('format option', 'src/extensions/metadata.c:is_number_format')],
     'apply_transform is proved once per transform name (73 tasks): byte transducers for the case changes, escapes, slug and URL coding; segment recursion for replace, remove, repeat, join; slices for substring, truncate, pad, trim and basename, over strings of any length. apply_transform_chain: the value after any number of steps is the fold of the step function, '
     'or the original when a step fails. is_number_format: acceptance implies one conversion (automaton over the option).',
     'slice, replace(regex:), strftime, split_string and parse_transform_chain are compared with a reference on bounded inputs only; strtol, strftime, regcomp/regexec and snprintf(%g) are external. Allocation failure not modelled.')

prop('P12', 'Critic Markup is resolved the same way everywhere in every text',
     'With Critic Markup on, each {++..++}, {--..--}, {~~old~>new~~}, {==..==} and {>>..<<}, up to the first matching closing marker, is replaced: accept keeps additions, new text and highlights and drops deletions and comments; reject keeps deletions, old text and highlights and drops additions and comments; markup wraps each in its own ins, del, mark or span element with the critic class. '
     'Unclosed markup and every other byte of the text come out unchanged and in order. It holds for any text, any number and density of marks, without dropping anything and without touching memory outside the buffers.',
     ['inputs', 'configurations'], 'every text, every number, nesting and truncation of marks, the three modes',
     'tests convert a handful of short marks; the output must be complete for every density of marks and every length',
     ['src/extensions/critic.c'], [('text pass', 'src/extensions/critic.c:apex_process_critic_markup_text'), ('recognition', 'src/extensions/critic.c:scan_critic_markup'), ('rendering', 'src/extensions/critic.c:critic_to_html')],
     'apex_process_critic_markup_text is proved, per mode, equal to a segment recursion over the text (copy one byte, or one mark with its ghost closing position), including scan_critic_markup and critic_to_html; the growth lemma (HTML at most 8 times the mark) is proved per kind of mark and shows that the buffer is large enough.',
     'Allocation failure not modelled; scan_critic_markup and critic_to_html are verified inlined into their caller. The tree variant (apex_process_critic_markup_in_tree), which nothing calls, is not covered.')

prop('P13', '==highlight== and ++insert++ mark their spans and leave all other text alone',
     '==text== becomes <mark>text</mark> and ++text++ becomes <ins>text</ins> when the opening pair is not preceded by {, + or its own character nor followed by white space, }, + or its own character, and the first closing pair on the same line is not preceded by a blank or + nor followed by its own character (or, for ==, a +); an attribute list in braces right after an insert goes into the tag. '
     'Nothing is marked inside single-backtick code, three-backtick fences or, for ==, indented code that is not a list line. Every other byte comes out unchanged and in order for every text, and nothing is read or written outside the buffers.',
     ['inputs'], 'every text, every mixture of marks, code, indentation and attribute lists',
     'tests convert a few short spans; closing rules, code tracking and buffer growth need every text',
     ['src/extensions/highlight.c', 'src/extensions/insert.c'], [('highlights', 'src/extensions/highlight.c:apex_process_highlights, line_is_indented_code_block, looks_like_list_marker'), ('inserts', 'src/extensions/insert.c:apex_process_inserts, find_ial_after')],
     'Both functions are proved equal to a segment recursion over the text that carries the code state (fence, inline, indented) along; closing positions, runs of blanks and digits are ghost functions linked by the loop invariants of the scanning loops. Room in the buffer: growth lemma for ==, an invariant on the remaining room for ++ (reallocation included).',
     'parse_ial_content and attributes_to_html (ial.c cannot be compiled here: it needs cmark-gfm internals that are not installed) are an arbitrary function of the attribute text. Allocation failure not modelled.')

prop('P14', 'Page-break, pause, end-of-block and index markers are replaced, nothing else is',
     '<!--BREAK--> and {::pagebreak /} become the page-break block, <!--PAUSE:n--> a pause element with that number, {index} the index placeholder, and a ^ alone on its line (blanks allowed on both sides) the invisible end-of-block paragraph, wherever they stand in the text. '
     'Every other byte, including all the text after a marker, comes out unchanged and in order, for any text and any number of markers, without touching memory outside the buffers.',
     ['inputs'], 'every text, every number, position and truncation of markers',
     'tests place one marker in a short text; the rest of the text must survive any number of markers',
     ['src/extensions/special_markers.c'], [('marker pass', 'src/extensions/special_markers.c:apex_process_special_markers')],
     'apex_process_special_markers is proved equal to a segment recursion over the text, with ghost functions for the line start before and the line end after a ^ and for the digits of a pause; an invariant keeps room for seven bytes per remaining byte through every reallocation.',
     'The value of a pause is atoi of its digits (arbitrary function; above 2147483647 is not specified). Allocation failure not modelled.')

prop('P15', 'The command line converts all its input: whole files and stdin, merged intact',
     'Reading a file or standard input yields all its bytes in order with their count, however the operating system cuts the reads into pieces, or an error. '
     'Merging (mmd-merge and combine) puts the listed files one after another, in order and separated by a blank line, each unchanged except that in an mmd-merge every line starting with # gets one more # per level of indentation (tab or four blanks) of its entry; unreadable entries, comments and blank lines add nothing. '
     'Wrapping help text to a width only inserts line breaks, never inside an ANSI sequence and never leaving a line wider than the width; a plugin argument becomes a repository URL only if it is one or has the form owner/repo.',
     ['inputs', 'schedules', 'environments'], 'every file and input content and size, every split of the reads, every indentation depth, every index and text',
     'tests run the tool on a few small files; short reads, buffer growth and deep indentation need every case',
     ['cli/main.c'], [('files', 'cli/main.c:read_file'), ('standard input', 'cli/main.c:read_stdin'), ('heading shift', 'cli/main.c:apex_cli_shift_headers'), ('merging', 'cli/main.c:apex_cli_mmd_merge_index, apex_cli_combine_from_summary, apex_cli_write_combined_chunk'), ('wrapping', 'cli/main.c:wrap_ansi_to_width'), ('plugin URLs', 'cli/main.c:normalize_plugin_repo_url')],
     'read_file and read_stdin are proved against ghost contracts of stdio and read() (any content, size, short count, error): the result is the bytes received, the count is theirs, end of input was reached. apex_cli_shift_headers and wrap_ansi_to_width are proved equal to a recursion over the text (the column is carried along), the capacity len*(indent+1)+1 included through a product lemma. '
     'normalize_plugin_repo_url and apex_cli_write_combined_chunk have complete functional contracts.',
     'apex_cli_mmd_merge_index, apex_cli_combine_from_summary and apex_cli_get_directory (dirname) are compared with a reference on bounded inputs only, with stand-ins for the include and metadata passes. EINTR counts as an error (the tool installs no handler). Allocation failure not modelled in read_stdin and wrap_ansi_to_width.')


prop('P16', 'File inclusion inserts the addressed lines and leaves the rest unchanged',
     'An include ({{file}}, <<[file], <<(file) or /file at a line start, outside code delimited by backticks) is replaced by the content of the named file, resolved against the directory of the including file, with its own includes expanded to the depth limit; all other text is kept, except that the backtick fences are made odd in length, and an include of an unreadable file in {{}} or / form stays as it is. '
     'An address picks lines: [N] one line, [N,M] from N up to but not including M, [N,] from N to the end, [/A/,/B/] from the first line matching A up to the next one matching B, each with the prefix given in front and a newline behind. '
     'A CSV or TSV file becomes a table with a row per line and the columns of its first line, whatever the size of the file; no file, address or table makes the pass write outside its buffers.',
     ['inputs', 'environments'], 'every text, file content and size up to the 10 MB limit, line range and prefix, table shape and fence length',
     'tests include a few small files; ranges at the end of a file, long prefixes, ragged tables and buffer growth need every case',
     ['src/extensions/includes.c'], [('address', 'src/extensions/includes.c:extract_lines, parse_address_spec'), ('reading', 'src/extensions/includes.c:read_file_contents'), ('fences', 'src/extensions/includes.c:normalize_fence_delimiters'), ('tables', 'src/extensions/includes.c:apex_csv_to_table'), ('paths and types', 'src/extensions/includes.c:resolve_path, apex_detect_file_type'), ('pass', 'src/extensions/includes.c:apex_process_includes')],
     'extract_lines is proved, for every text, line range and prefix, equal to the concatenation of the addressed lines (segments by line, the line number a counting function over the text, the capacity with lines*prefix through a product lemma); read_file_contents against ghost stdio contracts; resolve_path and apex_detect_file_type have complete functional contracts; normalize_fence_delimiters is proved equal to a recursion over the text that carries the open fence.',
     'Pattern addresses (regcomp/regexec), parse_address_spec, apex_csv_to_table, wildcards and apex_process_includes itself are compared with a reference on bounded inputs over scratch files only; raw HTML includes (<<{file}) and metadata of included files (transclude base) are left out. Allocation failure not modelled in the line-range and fence proofs.')