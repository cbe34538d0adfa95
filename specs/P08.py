"""P08: a processing mode selects exactly its feature set, and the parser gets exactly the features selected."""
from vc.api import *
R = Registry()
F = 'src/apex.c'
ASSUME = ['cmark_find_syntax_extension and the create_*_extension functions are used through contracts (all of the extensions exist, or none); cmark_parser_attach_syntax_extension through a ghost record']
ON, OFF = 1, 0
DEFAULT = dict(
    mode=4, enable_plugins=0, enable_tables=1, enable_footnotes=1, enable_definition_lists=1, enable_smart_typography=1, enable_math=1, enable_critic_markup=1, enable_wiki_links=0,
    enable_task_lists=1, enable_attributes=1, enable_callouts=1, enable_marked_extensions=1, enable_divs=1, enable_spans=1, critic_mode=2, strip_metadata=1, enable_metadata_variables=1,
    enable_metadata_transforms=1, enable_file_includes=1, max_include_depth=10, base_directory=None, output_format=0, unsafe=1, validate_utf8=1, github_pre_lang=1, standalone=0, pretty=0,
    stylesheet_paths=None, stylesheet_count=0, document_title=None, hardbreaks=0, nobreaks=0, generate_header_ids=1, header_anchors=0, id_format=0, relaxed_tables=1, caption_position=1,
    per_cell_alignment=1, allow_mixed_list_markers=1, allow_alpha_lists=1, enable_sup_sub=1, enable_strikethrough=1, enable_autolink=1, obfuscate_emails=0, embed_images=0, enable_image_captions=1,
    title_captions_only=0, enable_citations=0, bibliography_files=None, csl_file=None, suppress_bibliography=0, link_citations=0, show_tooltips=0, nocite=None, enable_indices=0,
    enable_mmark_index_syntax=0, enable_textindex_syntax=0, enable_leanpub_index_syntax=0, suppress_index=0, group_index_by_letter=1, wikilink_space=0, wikilink_extension=None, wikilink_sanitize=0,
    script_tags=None, embed_stylesheet=0, enable_aria=0, enable_emoji_autocorrect=1, code_highlighter=None, code_line_numbers=0, highlight_language_only=0, enable_widont=0, code_is_poetry=0,
    enable_markdown_in_html=1, random_footnote_ids=0, enable_hashtags=0, style_hashtags=0, proofreader_mode=0, hr_page_break=0, title_from_h1=0, page_break_before_footnotes=0, input_file_path=None,
    ast_filter_commands=None, ast_filter_count=0, ast_filter_strict=1, progress_callback=None, progress_user_data=None, theme_name=None, terminal_width=0)
# what a mode changes: feature -> (commonmark, gfm, multimarkdown, kramdown, unified)
MODES = dict(
    enable_tables=(0, 1, 1, 1, 1), enable_footnotes=(0, 0, 1, 1, 1), enable_definition_lists=(0, 0, 1, 1, 1), enable_smart_typography=(0, 0, 1, 1, 1), enable_math=(0, 0, 1, 1, 1),
    enable_critic_markup=(0, 0, 0, 0, 1), enable_wiki_links=(0, 0, 0, 0, 0), enable_task_lists=(0, 1, 0, 0, 1), enable_attributes=(0, 0, 0, 1, 1), enable_callouts=(0, 0, 0, 0, 1),
    enable_marked_extensions=(0, 0, 0, 1, 1), enable_divs=(0, 0, 0, 0, 1), enable_spans=(0, 0, 0, 0, 1), enable_file_includes=(0, 0, 1, 0, 1), enable_metadata_variables=(0, 0, 1, 0, 1),
    enable_metadata_transforms=(0, 0, 0, 0, 1), unsafe=(0, 0, 1, 1, 1), hardbreaks=(0, 1, 0, 0, 0), id_format=(0, 0, 1, 2, 0), relaxed_tables=(0, 0, 0, 1, 1), per_cell_alignment=(0, 0, 0, 0, 1),
    allow_mixed_list_markers=(0, 0, 1, 0, 1), allow_alpha_lists=(0, 0, 0, 0, 1), enable_sup_sub=(0, 0, 1, 0, 1), enable_strikethrough=(0, 1, 0, 0, 1), enable_autolink=(0, 1, 1, 1, 1),
    enable_image_captions=(0, 0, 1, 0, 1), enable_citations=(0, 0, 1, 0, 1), enable_emoji_autocorrect=(0, 0, 0, 0, 1), enable_markdown_in_html=(0, 0, 1, 1, 1),
    enable_indices=(0, 0, 0, 0, 1), enable_mmark_index_syntax=(0, 0, 0, 0, 1), enable_textindex_syntax=(0, 0, 0, 0, 1), enable_leanpub_index_syntax=(0, 0, 0, 0, 1))


def profile(mode):
    """options of a mode (int 0..4), or the defaults with that mode number"""
    d = dict(DEFAULT, mode=mode)
    if isinstance(mode, int) and 0 <= mode <= 4:
        for k, v in MODES.items():
            d[k] = v[mode]
    return d


def structpost(e, s, v, want, name, fields):
    """every field of the returned struct is set, and has the wanted value"""
    if not isinstance(v, StructVal):
        e.prove(s, False, name + ':returns-options')
        return
    for f, ty in fields:
        c = v.cells.get((f,))
        if c is None:
            e.prove(s, v.default == 'zero', name + ':field-%s-is-initialised' % f)
            x = NULL if ty.k == 'ptr' else 0
        else:
            x = c[0]
        if f not in want:
            continue
        w = want[f]
        e.prove(s, e.ptr_null(x) if w is None else eq(asint(x), w), name + ':' + f)
    e.cover(s, name)


def fields(e):
    return e.tu.fields(e.tu.parse('apex_options'))


@R.task(F, 'apex_options_default')
def _(e):
    st = State()
    for s, v in e.run(st, 'apex_options_default', []):
        structpost(e, s, v, DEFAULT, 'apex_options_default', fields(e))


def default_contract(e, s, args, node):
    fs = dict(fields(e))
    return [(s, StructVal({(f,): (NULL if w is None else w, fs[f]) for f, w in DEFAULT.items() if f in fs}, 'uninit'))]


for mode in (0, 1, 2, 3, 4, None):
    @R.task(F, 'apex_options_for_mode')
    def _(e, mode=mode):
        nm = 'apex_options_for_mode(%s)' % ('commonmark', 'gfm', 'multimarkdown', 'kramdown', 'unified')[mode] if mode is not None else 'apex_options_for_mode(other)'
        st = State()
        e.contracts['apex_options_default'] = default_contract
        m = mode
        if mode is None:
            m = e.fresh('mode', 5, (1 << 31) - 1, st)
        for s, v in e.run(st, 'apex_options_for_mode', [m]):
            structpost(e, s, v, profile(m), nm, fields(e))


BITS = [('validate_utf8', 1 << 9), ('unsafe', 1 << 17 | 1 << 12), ('hardbreaks', 1 << 2), ('nobreaks', 1 << 4), ('github_pre_lang', 1 << 11), ('enable_footnotes', 1 << 13), ('enable_smart_typography', 1 << 10)]


@R.task(F, 'apex_to_cmark_options')
def _(e):
    nm = 'apex_to_cmark_options'
    st = State()
    st.mem['o'] = Block('cell', cells={}, default=('sym', 'o'), name='o', ro=True)
    e.roots.add('o')
    for s, v in e.run(st, nm, [Ptr('o')]):
        want = 0
        for f, b in BITS:
            c = s.mem['o'].cells.get((f,))
            if c is None:
                e.prove(s, False, nm + ':%s-is-consulted' % f)
                continue
            want = add(want, ite(e.truth(c[0]), b, 0))
        e.prove(s, eq(asint(v), want), nm + ':parser-flags-are-exactly-the-options')
        e.cover(s, nm)


EXT = {'table': lambda o: o('enable_tables'), 'tasklist': lambda o: o('enable_task_lists'), 'strikethrough': lambda o: o('enable_strikethrough'),
       'autolink': lambda o: And(o('enable_autolink'), Or(eq(o('mode', 1), 1), eq(o('mode', 1), 4))), 'tagfilter': lambda o: eq(o('mode', 1), 1),
       'create_math_extension': lambda o: o('enable_math'), 'create_definition_list_extension': lambda o: o('enable_definition_lists'),
       'create_advanced_footnotes_extension': lambda o: o('enable_footnotes'), 'create_advanced_tables_extension': lambda o: o('enable_tables')}


def register(e, avail):
    nm = 'apex_register_extensions'
    st = State()
    st.mem['o'] = Block('cell', cells={}, default=('sym', 'o'), name='o', ro=True)
    st.mem['parser'] = Block('cell', cells={}, name='parser', ro=True)
    e.roots |= {'o', 'parser'}
    st.ghost['ext'] = ()

    def opt(s, f):
        c = s.mem['o'].cells.get((f,))
        return None if c is None else c[0]

    def give(name):
        def f(e, s, a, node):
            n = name
            if n is None:
                bs = libc.litbytes(e, s, a[0])
                n = bs.decode('latin-1') if bs is not None else '?'
            if n == 'create_advanced_tables_extension':
                c = opt(s, 'per_cell_alignment')
                e.oblige(s, False if c is None else Iff(e.truth(a[0]), e.truth(c)), 'per-cell-alignment-option-passed-to-tables', node)
            if not avail:
                return [(s, NULL)]
            s.mem.setdefault('ext:' + n, Block('cell', cells={}, name='ext:' + n, ro=True))
            e.roots.add('ext:' + n)
            return [(s, Ptr('ext:' + n))]
        return f

    def attach(e, s, a, node):
        ok = isinstance(a[1], Ptr) and a[1].blk and a[1].blk.startswith('ext:')
        e.oblige(s, bool(ok) and isinstance(a[0], Ptr) and a[0].blk == 'parser', 'attaches-an-extension-to-the-parser', node)
        if ok:
            s.ghost['ext'] = s.ghost['ext'] + (a[1].blk[4:],)
        return [(s, 1)]
    e.contracts.update(cmark_gfm_core_extensions_ensure_registered=lambda e, s, a, node: [(s, None)], cmark_find_syntax_extension=give(None), cmark_parser_attach_syntax_extension=attach,
                       **{k: give(k) for k in EXT if k.startswith('create_')})
    for s, v in e.run(st, nm, [Ptr('parser'), Ptr('o')]):
        def o(f, num=0):
            x = opt(s, f)
            if x is None:
                x = 0
                e.prove(s, False, nm + ':%s-is-consulted' % f)
            return asint(x) if num else e.truth(x)
        got = s.ghost['ext']
        for k, cond in EXT.items():
            if k in got:
                e.prove(s, cond(o), nm + ':%s-only-when-enabled' % k)
                e.prove(s, got.count(k) == 1, nm + ':%s-once' % k)
            elif avail:
                e.prove(s, Not(cond(o)), nm + ':%s-when-enabled' % k)
        e.prove(s, all(k in EXT for k in got), nm + ':no-other-extension')
        e.cover(s, nm)


R.task(F, 'apex_register_extensions')(lambda e: register(e, True))
R.task(F, 'apex_register_extensions')(lambda e: register(e, False))


def oracle(fn, args):
    if fn in ('apex_options_default', 'apex_options_for_mode'):
        d = DEFAULT if fn == 'apex_options_default' else profile(args[0])
        return [0 if v is None else v for v in d.values()]
    o = {args[i].decode(): args[i + 1] for i in range(1, len(args), 2)}
    if fn == 'apex_to_cmark_options':
        return [sum(b for f, b in BITS if o.get(f))]
    on = lambda f, num=0: o.get(f, 0) if num else bool(o.get(f))
    m = o.get('mode', 0)
    r = []
    for i, (k, c) in enumerate(EXT.items()):
        w = {'autolink': on('enable_autolink') and m in (1, 4), 'tagfilter': m == 1}.get(k)
        r.append(int((c(on) if w is None else w) and bool(args[0] >> i & 1)))
    return r + [0, int(on('per_cell_alignment')) if on('enable_tables') else -1]


def cases(rng, size, hb, consts):
    yield 'apex_options_default', []
    for m in list(range(8)) + [100, -1, 2147483647]:
        yield 'apex_options_for_mode', [m]
    for x in range(128):
        yield 'apex_to_cmark_options', [0] + [y for i, (f, b) in enumerate(BITS) if x >> i & 1 for y in (f.encode(), 1)]
    E = ['enable_tables', 'enable_task_lists', 'enable_strikethrough', 'enable_autolink', 'enable_math', 'enable_definition_lists', 'enable_footnotes', 'per_cell_alignment']
    for x in range(256):
        for m in range(6):
            for av in (511, 0, rng.getrandbits(9)):
                yield 'apex_register_extensions', [av, b'mode', m] + [y for i, f in enumerate(E) if x >> i & 1 for y in (f.encode(), 1)]
    for _ in range(2000 * size):
        fs = [f for f, v in DEFAULT.items() if v is not None and f not in ('mode',) and rng.random() < .25][:25]
        a = [511, b'mode', rng.randint(0, 5)] + [y for f in fs for y in (f.encode(), 1)]
        yield 'apex_register_extensions', a
        yield 'apex_to_cmark_options', a


R.concrete('modes', cases, oracle, bound='every mode; all 128 combinations of the parser options; all 256 combinations of the extension options in 6 modes, with all, none or some extensions available')
