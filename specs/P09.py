"""P09: document metadata sets exactly the options it names."""
from vc.api import *
from specs.P08 import DEFAULT, profile
R = Registry()
F = 'src/extensions/metadata.c'
APPLY = 'apex_apply_metadata_to_options'
ASSUME = ['strcasecmp/strcmp on metadata keys and values decide equality of the (lower-cased) strings; each distinct lower-cased string has one identity',
          'apex_options_for_mode is used through its contract (proved in P08)', 'allocation failure is not modelled in apex_apply_metadata_to_options', 'atoi is an arbitrary function of the string here']
TRUE, FALSE = ('true', 'yes', '1'), ('false', 'no', '0')
BOOL = {'indices': 'enable_indices', 'wikilinks wiki-links': 'enable_wiki_links', 'includes file-includes': 'enable_file_includes', 'relaxed-tables relaxed_tables': 'relaxed_tables',
        'alpha-lists alpha_lists': 'allow_alpha_lists', 'mixed-lists mixed_lists': 'allow_mixed_list_markers', 'sup-sub sup_sub': 'enable_sup_sub', 'autolink': 'enable_autolink',
        'strikethrough strike-through': 'enable_strikethrough', 'transforms metadata-transforms': 'enable_metadata_transforms', 'unsafe': 'unsafe', 'plugins enable-plugins enable_plugins': 'enable_plugins',
        'tables': 'enable_tables', 'footnotes': 'enable_footnotes', 'smart smart-typography': 'enable_smart_typography', 'math': 'enable_math', 'ids header-ids': 'generate_header_ids',
        'header-anchors header_anchors': 'header_anchors', 'embed-images embed_images': 'embed_images', 'image-captions image_captions': 'enable_image_captions',
        'title-captions-only title_captions_only': 'title_captions_only', 'link-citations link_citations': 'link_citations', 'show-tooltips show_tooltips': 'show_tooltips',
        'suppress-bibliography suppress_bibliography': 'suppress_bibliography', 'suppress-index suppress_index': 'suppress_index', 'group-index-by-letter group_index_by_letter': 'group_index_by_letter',
        'obfuscate-emails obfuscate_emails': 'obfuscate_emails', 'pretty': 'pretty', 'standalone': 'standalone', 'hardbreaks hard-breaks': 'hardbreaks', 'widont': 'enable_widont',
        'code-is-poetry code_is_poetry': 'code_is_poetry', 'markdown-in-html markdown_in_html': 'enable_markdown_in_html', 'random-footnote-ids random_footnote_ids': 'random_footnote_ids',
        'hashtags': 'enable_hashtags', 'style-hashtags style_hashtags': 'style_hashtags', 'proofreader': 'proofreader_mode', 'hr-page-break hr_page_break': 'hr_page_break',
        'title-from-h1 title_from_h1': 'title_from_h1', 'page-break-before-footnotes page_break_before_footnotes': 'page_break_before_footnotes',
        'code-line-numbers code_line_numbers': 'code_line_numbers', 'highlight-language-only highlight_language_only': 'highlight_language_only'}
# what a true value implies besides its own option
IMPLY = {'indices': dict(enable_mmark_index_syntax=1, enable_textindex_syntax=1), 'title-captions-only title_captions_only': dict(enable_image_captions=1),
         'code-is-poetry code_is_poetry': dict(highlight_language_only=1), 'proofreader': dict(enable_critic_markup=1, critic_mode=2)}
ENUM = {'id-format id_format': ('id_format', dict(gfm=0, mmd=1, kramdown=2)), 'wikilink-space wikilink_space': ('wikilink_space', dict(dash=0, none=1, underscore=2, space=3)),
        'code-highlight code_highlight': ('code_highlighter', dict(pygments='pygments', p='pygments', pyg='pygments', skylighting='skylighting', s='skylighting', sky='skylighting', shiki='shiki', sh='shiki',
                                                                   none=None, false=None, no=None, **{'0': None}))}
STR = {'csl': 'csl_file', 'title': 'document_title', 'base-dir base_dir': 'base_directory', 'wikilink-extension wikilink_extension': 'wikilink_extension'}
MODE = dict(commonmark=0, gfm=1, mmd=2, multimarkdown=2, kramdown=3, unified=4)


def truthfn(fn, words):
    @R.task(F, fn)
    def _(e):
        st = State()
        v = e.cstring(st, 'v')
        want = Or(*[sameci(st.mem['v'].content.read, 0, w) for w in words])
        lowerhint(e)
        for s, r in e.run(st, fn, [v]):
            e.prove(s, Or(bool(s.ghost.get('oom')), Iff(e.truth(r), want)), fn + ':exactly-' + '-'.join(words))
            e.prove(s, Implies(e.truth(r), want), fn + ':only-' + '-'.join(words))
            e.cover(s, fn)

    @R.task(F, fn)
    def _(e):
        for s, r in e.run(State(), fn, [NULL]):
            e.prove(s, Not(e.truth(r)), fn + ':null-is-neither')
            e.cover(s, fn)


def sameci(read, off, w):
    """the string at off is w, ignoring case"""
    return And(*[eq(lower(read(add(off, k))), c) for k, c in enumerate(w.encode())], eq(read(add(off, len(w))), 0))


def lowerhint(e):
    def c(L, h, M, U, blocks, put, s0):
        for k in blocks:
            c0 = s0.mem[k].content
            for a in M:
                if a.kind in ('off', 'int'):
                    L.put_forall(put, 'lowered %s<%s' % (k, a.nice()), k, lambda s, a=a: (0, a.get(s)), lambda s, t, c0=c0: lower(c0.read(t)), extra=c0)
    e.usercands.append(c)


truthfn('is_true_value', TRUE)
truthfn('is_false_value', FALSE)


class Items:
    name = 'items'

    def __init__(self, n, KH, VH):
        self.n, self.KH, self.VH = n, KH, VH

    def load(self, e, st, idx, f, ty):
        if f == 'next':
            return [(st, Chain(self, add(idx, 1)))]
        if f in ('key', 'value'):
            return [(st, norm((self.KH if f == 'key' else self.VH)(Z(idx))))]
        raise Unsupported('metadata item field ' + f)

    def store(self, *a):
        raise Unsupported('store into the metadata list')


def apply(e, part, parts):
    nm = APPLY
    e.alloc_may_fail = False
    e.maxstates = 2000
    e.heavy = 'opt_'
    e.lazy = lambda c: isinstance(c, z3.ExprRef) and {a.decl().name() for a in e.apps(c).values()} - {'keyh', 'valh'} == {'lowerid'}
    st = State()
    I, B = z3.IntSort(), z3.BoolSort()
    KH, VH = z3.Function('keyh', I, I), z3.Function('valh', I, I)
    for f in ('keyh', 'valh'):
        e.schemas[f] = [lambda a: [a >= 0]]
        RANGED_DECLS[f] = (0, None)
    LC, ATOI, CSS = z3.Function('lowerid', I, I), z3.Function('atoi', I, I), z3.Function('cssarray', I, I)
    RANGED_DECLS['atoi'] = (-(1 << 31), (1 << 31) - 1)
    e.schemas['atoi'] = [lambda a: [a >= -(1 << 31), a < 1 << 31]]
    ids = {}
    idof = lambda w: ids.setdefault(w.lower(), len(ids) + 1)
    e.handlefam = fam = e.family('str')
    n = e.fresh('n', 1, MAXLEN, st)
    items = Items(n, KH, VH)
    ptrs = {f for f, v in DEFAULT.items() if v is None}
    tys = dict(e.tu.fields(e.tu.parse('apex_options')))
    LIT = {None: 0, 'pygments': -1, 'skylighting': -2, 'shiki': -3}
    init = {}
    for f, ty in tys.items():
        init[f] = z3.Int('o.' + f)
        if ty.k == 'int':
            lo, hi = e.range_of(ty)
            RANGED_DECLS['o.' + f] = (lo, hi)
        else:
            RANGED_DECLS['o.' + f] = (0, None)
    st.mem['o'] = Block('cell', cells={(f,): (init[f], ty) for f, ty in tys.items()}, name='o')
    e.roots.add('o')
    e.handlecells = {('o', (f,)) for f in tys}

    def to_handle(st, p, v, node):
        if isinstance(v, (int, z3.ExprRef)):
            return v
        if isinstance(v, Ptr) and v.blk is None:
            return 0
        bs = libc.litbytes(e, st, v)
        if bs is not None and bs.decode('latin-1') in LIT:
            return LIT[bs.decode('latin-1')]
        if isinstance(v, Ptr) and st.mem[v.blk].kind == 'parr':
            b = st.mem[v.blk]
            c0, c1 = b.cells.get((0,)), b.cells.get((1,))
            ok = c0 is not None and c1 is not None and isinstance(c0[0], z3.ExprRef) and same(v.off, 0)
            e.oblige(st, And(bool(ok), c1 is not None and e.ptr_null(c1[0])), 'style-list-holds-the-value-and-ends', node)
            if ok:
                return CSS(c0[0])
        raise Unsupported('pointer %r stored in the options' % (v,))
    e.to_handle = to_handle
    # the first mode item
    Mi = z3.Int('firstmode')
    e.uterms.append(Mi)
    ismode = lambda j: And(ne(KH(Z(j)), 0), ne(VH(Z(j)), 0), eq(LC(KH(Z(j))), idof('mode')))
    st.assume(And(Mi >= 0, Mi <= n))
    st.assume(Or(eq(Mi, n), ismode(Mi)))
    st.assume(Forall([(KH, (), 0)], lambda j: Implies(And(ge(j, 0), lt(j, Mi)), Not(ismode(j))), 'first mode'))
    mc = LC(VH(Mi))

    def base(f):
        r = init[f]
        for w, m in MODE.items():
            x = profile(m)[f]
            r = ite(And(lt(Mi, n), eq(mc, idof(w))), 0 if x is None else x, r)
        return r
    # rules: field -> [(condition on key and value identity, value)]
    rules = {}

    def rule(f, c, v):
        rules.setdefault(f, []).append((c, v))
    kin = lambda ks: (lambda k, v: Or(*[eq(k, idof(x)) for x in ks.split()]))
    vin = lambda ws: (lambda k, v: Or(*[eq(v, idof(x)) for x in ws]))
    both = lambda a, b: (lambda k, v: And(a(k, v), b(k, v)))
    for ks, f in BOOL.items():
        rule(f, both(kin(ks), vin(TRUE)), lambda h, old: 1)
        rule(f, both(kin(ks), vin(FALSE)), lambda h, old: 0)
        for g, x in IMPLY.get(ks, {}).items():
            rule(g, both(kin(ks), vin(TRUE)), lambda h, old, x=x: x)
    for ks, (f, tab) in ENUM.items():
        for w, x in tab.items():
            rule(f, both(kin(ks), vin([w])), lambda h, old, x=x: x if isinstance(x, int) else LIT[x])
    for ks, f in STR.items():
        rule(f, kin(ks), lambda h, old: h)
    rule('enable_citations', kin('bibliography csl'), lambda h, old: 1)
    rule('stylesheet_paths', kin('style css'), lambda h, old: CSS(h))
    rule('stylesheet_count', kin('style css'), lambda h, old: 1)
    rule('standalone', kin('style css'), lambda h, old: 1)
    ws = kin('wikilink-sanitize wikilink_sanitize')
    rule('wikilink_sanitize', ws, lambda h, old: ite(Or(eq(LC(h), idof('true')), eq(LC(h), idof('1'))), 1, 0))
    rule('theme_name', kin('terminal.theme terminal_theme'), lambda h, old: ite(Or(eq(old, 0), eq(fam[0](Z(old), Z(0)), 0)), h, old))
    rule('terminal_width', kin('terminal.width terminal_width'), lambda h, old: ite(gt(ATOI(h), 0), ATOI(h), old))
    words = set(MODE) | set(TRUE) | set(FALSE) | {w for _, t in ENUM.values() for w in t}
    mine = [f for j, f in enumerate(sorted(tys, key=lambda f: (f in rules, f))) if j % parts == part]
    FF = {f: z3.Function('opt_' + f, I, I) for f in mine}

    def step(f, i):
        k, h, old = LC(KH(Z(i))), VH(Z(i)), FF[f](Z(i))
        r = old
        for c, v in rules[f]:
            r = ite(c(k, LC(h)), v(h, old), r)
        return ite(Or(eq(KH(Z(i)), 0), eq(VH(Z(i)), 0)), old, r)
    # instances are taken at list positions (0 and loop variables) only, not at their successors
    at = lambda i: isinstance(i, int) or z3.is_const(i)
    for f in mine:
        st.assume(eq(FF[f](Z(0)), base(f)))
        if f in rules:
            st.assume(Forall([(FF[f], (), 0)], lambda i, f=f: Implies(ge(i, 0), eq(FF[f](Z(add(i, 1))), step(f, i))) if at(i) else True, 'opt_' + f))

    def strcase(e, s, a, node):
        h, w = a
        bs = libc.litbytes(e, s, w)
        if isinstance(h, z3.ExprRef) and bs is not None:
            e.oblige(s, ne(h, 0), 'null-string', node)
            x = e.fresh('cmp')
            return [(s, ite(eq(LC(h), idof(bs.decode('latin-1'))), 0, ite(ge(x, 0), add(x, 1), x)))]
        return libc.MODELS['strcasecmp'](e, s, a, node)

    def strcmp(e, s, a, node):
        bs = libc.litbytes(e, s, a[1])
        if isinstance(a[0], z3.ExprRef) and bs is not None and not any(chr(c).isalpha() for c in bs):
            return strcase(e, s, a, node)
        return libc.MODELS['strcmp'](e, s, a, node)

    def strdup(e, s, a, node):
        if isinstance(a[0], z3.ExprRef):
            h = a[0]
            p = e.as_ptr(s, h)
            rd = s.mem[p.blk].content.read
            for w in sorted(words):
                s.assume(Iff(eq(LC(h), idof(w)), sameci(rd, 0, w)))
            a = [p]
        return libc.MODELS['strdup'](e, s, a, node)

    def truthy(ws):
        def f(e, s, a, node):
            h = a[0]
            if isinstance(h, Ptr) and h.blk is None:
                return [(s, False)]
            if isinstance(h, Ptr):
                return [(s, Or(*[sameci(s.mem[h.blk].content.read, h.off, w) for w in ws]))]
            return [(s, And(ne(h, 0), Or(*[eq(LC(h), idof(w)) for w in ws])))]
        return f

    def atoi(e, s, a, node):
        e.oblige(s, ne(a[0], 0), 'null-string', node)
        return [(s, ATOI(a[0]))]

    def formode(e, s, a, node):
        m = a[0]
        if not isinstance(m, int):
            raise Unsupported('mode is not a constant')
        return [(s, StructVal({(f,): (0 if v is None else v, tys[f]) for f, v in profile(m).items() if f in tys}, 'uninit'))]
    e.contracts.update(strcasecmp=strcase, strcmp=strcmp, strdup=strdup, is_true_value=truthy(TRUE), is_false_value=truthy(FALSE), atoi=atoi, apex_options_for_mode=formode)
    lowerhint(e)

    def cands(L, h, M, U, blocks, put, s0):
        for a in M:
            if a.kind == 'idx' and ('cell', 'o', ('mode',)) in h.mod:
                for f in mine:
                    put('%s=fold at %s' % (f, a.nice()), lambda s, a=a, f=f: eq(asint(s.mem['o'].cells[(f,)][0]), FF[f](Z(a.get(s) if f in rules else 0))))
    e.usercands.append(cands)
    for s, v in e.run(st, nm, [Chain(items, 0), Ptr('o')]):
        for f in mine:
            x = asint(s.mem['o'].cells[(f,)][0])
            e.prove(s, eq(x, FF[f](n) if f in rules else base(f)), nm + ':' + f)
        e.cover(s, nm)


PARTS = 6
for part in range(PARTS):
    R.task(F, APPLY, budget=500)(lambda e, part=part: apply(e, part, PARTS))


def fold(mode, theme, items):
    low = lambda b: None if b is None else b.lower().decode('latin-1')
    o = {k: v for k, v in profile(mode).items()}
    o['theme_name'] = theme
    for k, v in items:
        if k is not None and v is not None and low(k) == 'mode':
            if low(v) in MODE:
                o = dict(profile(MODE[low(v)]))
            break
    for k, v in items:
        if k is None or v is None:
            continue
        kk, vv = low(k), low(v)
        for ks, f in BOOL.items():
            if kk in ks.split():
                if vv in TRUE:
                    o[f] = 1
                    o.update(IMPLY.get(ks, {}))
                elif vv in FALSE:
                    o[f] = 0
        for ks, (f, tab) in ENUM.items():
            if kk in ks.split() and vv in tab:
                x = tab[vv]
                o[f] = x.encode() if isinstance(x, str) else x
        for ks, f in STR.items():
            if kk in ks.split():
                o[f] = v
        if kk in ('bibliography', 'csl'):
            o['enable_citations'] = 1
        if kk in ('style', 'css'):
            o.update(stylesheet_paths=v, stylesheet_count=1, standalone=1)
        if kk in ('wikilink-sanitize', 'wikilink_sanitize'):
            o['wikilink_sanitize'] = int(vv in ('true', '1'))
        if kk in ('terminal.theme', 'terminal_theme') and not o['theme_name']:
            o['theme_name'] = v
        if kk in ('terminal.width', 'terminal_width'):
            import re
            m = re.match(rb'[ \t\n\v\f\r]*([+-]?\d+)', v)
            if m and 0 < int(m.group(1)) < 1 << 31:
                o['terminal_width'] = int(m.group(1))
    return list(o.values())


def oracle(fn, a):
    if fn != APPLY:
        return [int(a[0] is not None and a[0].lower().decode('latin-1') in (TRUE if fn == 'is_true_value' else FALSE))]
    return fold(a[0], a[1], [(a[i], a[i + 1]) for i in range(2, len(a), 2)])


KEYS = [k for d in (BOOL, ENUM, STR) for ks in d for k in ks.split()] + 'mode bibliography style css wikilink-sanitize wikilink_sanitize terminal.theme terminal_theme terminal.width terminal_width author Titl tablesx'.split()
VALS = list(TRUE) + list(FALSE) + list(MODE) + [w for _, t in ENUM.values() for w in t] + ['', 'tru', 'truex', 'on', 'off', 'My Title', '80', '-3', ' 12', '007', '12x', 'x.css', '10', 'T', 'n']


def cases(rng, size, hb, consts):
    mix = lambda w: ''.join(c.upper() if rng.random() < .3 else c for c in w).encode()
    for w in VALS:
        for v in (w.encode(), w.upper().encode(), mix(w)):
            yield 'is_true_value', [v]
            yield 'is_false_value', [v]
    for fn in ('is_true_value', 'is_false_value'):
        yield fn, [None]
    for k in KEYS:
        for v in VALS:
            yield APPLY, [rng.randint(0, 4), None, mix(k), mix(v)]
    for _ in range(4000 * size):
        a = [rng.randint(0, 4), rng.choice([None, None, b'', b'dark'])]
        ks = rng.sample(KEYS, 4)
        for _ in range(rng.randint(1, 10)):
            k, v = rng.choice(ks if rng.random() < .6 else KEYS), rng.choice(VALS)
            if rng.random() < .1:
                k, v = 'mode', rng.choice(list(MODE) + ['gmf'])
            a += [None if rng.random() < .03 else mix(k), None if rng.random() < .03 else mix(v)]
        yield APPLY, a


from vc.frontend import REPO
R.concrete('metaopt', cases, oracle, extra=[REPO + '/src/apex.c'], bound='every key x 50 values in random letter case; lists of up to 10 items with repeated keys, mode items and nulls')
