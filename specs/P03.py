"""P03: the AST JSON handed to filters is one well-formed JSON value that mirrors the document."""
from vc.api import *
from vc.jsonpda import *
from vc import jsonpda
from specs.P01 import ESC, escaper, ecases
import json as _json
R = Registry()
F = 'src/ast_json.c'
P = Ty('ptr', of=Ty('void'))
ULONG = Ty('int', 64, False)
ASSUME = ['cmark_node_get_type / get_literal / get_url / get_title / get_fence_info / get_heading_level / get_list_type / get_list_start / first_child / next (libcmark-gfm) '
          'are assumed pure; first_child/next enumerate a finite child list',
          'recursion in write_inline/write_inlines/write_block is used through the contract being proved (partial correctness; termination from the tree being finite)']

R.task(F, 'apex_json_escape_local')(escaper('apex_json_escape_local'))


# ---- the output buffer: exact append, always terminated, never outside its block
def jsonbuf(e, st):
    L, C = e.fresh('len', 0, MAXLEN, st), e.fresh('cap', 1, 4 * MAXLEN, st)
    st.assume(lt(L, C))
    e.uterms += [L, C]
    f = e.bytefn('old')
    st.mem['data'] = Block('arr', size=C, content=Base(lambda k: f(Z(k)), f), ety=CHAR, heap=True, name='data')
    st.mem['b'] = Block('cell', cells={('data',): (Ptr('data'), P), ('len',): (L, ULONG), ('cap',): (C, ULONG)}, name='b')
    e.roots |= {'b', 'data'}
    return L, f


def bufpost(e, s, name, L, f, n, app):
    """buffer = old bytes, then n bytes app(k), then NUL"""
    c = s.mem['b'].cells
    d, ln, cap = c[('data',)][0], c[('len',)][0], c[('cap',)][0]
    b = s.mem[d.blk]
    e.prove(s, not b.freed and same(d.off, 0), name + ':buffer-is-live')
    e.prove(s, eq(ln, add(L, n)), name + ':length-grows-by-the-appended-length')
    e.prove(s, And(eq(cap, b.size), lt(ln, cap)), name + ':capacity-is-the-allocated-size')
    k = z3.Int('k!post')
    e.prove(s.copy().assume(And(ge(k, 0), lt(k, L))), eq(b.content.read(k), f(k)), name + ':earlier-bytes-kept')
    e.prove(s.copy().assume(And(ge(k, 0), lt(k, n))), eq(b.content.read(add(L, k)), app(k)), name + ':appended-bytes-are-the-argument')
    e.prove(s, eq(b.content.read(add(L, n)), 0), name + ':terminated')
    e.cover(s, name)


def bufret(e, s, v, name):
    t, f = e.split(s, e.truth(v))
    if f is not None:
        e.prove(f, bool(f.ghost.get('oom')), name + ':fails-only-when-out-of-memory')
    return t


@R.task(F, 'apex_json_buf_append')
def _(e):
    st = State()
    L, f = jsonbuf(e, st)
    p = e.cstring(st, 's')
    r, n = blkstr(st, 's')
    for s, v in e.run(st, 'apex_json_buf_append', [Ptr('b'), p]):
        s = bufret(e, s, v, 'apex_json_buf_append')
        if s is not None:
            bufpost(e, s, 'apex_json_buf_append', L, f, n, r)


@R.task(F, 'apex_json_buf_append_escaped_string')
def _(e):
    nm = 'apex_json_buf_append_escaped_string'
    st = State()
    L, f = jsonbuf(e, st)
    p = e.cstring(st, 'text')
    b = st.mem['text']
    T = ESC().bind(e, b.content.read, b.L, 'text').nonzero(st)
    e.contracts['apex_json_escape_local'] = string_contract(T, 'apex_json_escape_local')
    n, app = pieces(lit('"'), (T.out, T.pos(T.n)), lit('"'))
    for s, v in e.run(st, nm, [Ptr('b'), p]):
        s = bufret(e, s, v, nm)
        if s is not None:
            bufpost(e, s, nm, L, f, n, app)


@R.task(F, 'apex_json_buf_init')
def _(e):
    nm = 'apex_json_buf_init'
    st = State()
    st.mem['b'] = Block('cell', cells={}, name='b')
    e.roots.add('b')
    for s, v in e.run(st, nm, [Ptr('b')]):
        s = bufret(e, s, v, nm)
        if s is not None:
            bufpost(e, s, nm, 0, lambda k: 0, 0, lambda k: 0)


# ---- the tree writer, against ghost JSON state
CNT = 'g:!cnt'


class Kids:
    def __init__(self, name, n, owner=None):
        self.name, self.n, self.owner = name, n, owner


class Writer:
    """ghost: (stack, mode, frames); one frame per open bracket, a frame is the tuple of what was written in it"""

    def __init__(self, e, st, numbers=(), rows=False, stack='', mode='V'):
        self.e, self.numbers, self.rows = e, dict(numbers), rows
        st.mem[CNT] = Block('cell', cells={(str(d),): (0, LONG) for d in range(12)}, name=CNT)
        e.roots.add(CNT)
        st.ghost['pda'] = (stack, mode, tuple(() for _ in stack) + ((),))
        e.contracts.update({'apex_json_buf_append': self.append, 'apex_json_buf_append_escaped_string': self.escaped})
        self.blocks = {}

    def cnt(self, s, d):
        return s.mem[CNT].cells[(str(d),)][0]

    def setcnt(self, s, d, v):
        b = s.mem[CNT]
        s.mem[CNT] = b.but(cells={**b.cells, (str(d),): (v, LONG)})

    def emit(self, s, fn, bad):
        try:
            fn()
            return True
        except (Bad, ValueError) as x:
            return False

    def item(self, s, it):
        """append a finished item to the innermost frame, folding runs of children"""
        stack, mode, fr = s.ghost['pda']
        f = fr[-1]
        if it[0] in ('kid', 'row'):
            if f[-2:] == (it, ','):
                f = f[:-1]
            else:
                f = f + (it,)
        else:
            f = f + (it,)
        s.ghost['pda'] = (stack, mode, fr[:-1] + (f,))

    def finish_value(self, s):
        """a value was completed in the current frame"""
        stack, mode, fr = s.ghost['pda']
        if mode not in 'Vv' or 'pend' in s.ghost:
            raise Bad('value')
        if stack and stack[-1] == '[':
            d = len(stack)
            self.setcnt(s, d, add(self.cnt(s, d), 1))
        s.ghost['pda'] = (stack, ',' if stack else 'D', fr)

    def tok_string(self, s, it):
        stack, mode, fr = s.ghost['pda']
        if mode in 'kK':
            s.ghost['pda'] = (stack, ':', fr)
        else:
            self.finish_value(s)
        self.item(s, it)

    def feed(self, s, bs):
        bs = s.ghost.pop('pend', b'') + bs
        i = 0
        while i < len(bs):
            c = chr(bs[i])
            stack, mode, fr = s.ghost['pda']
            if c in ' \t\r\n':
                i += 1
            elif c == '"':
                j = i + 1
                while j < len(bs) and bs[j] != 34:
                    j += 2 if bs[j] == 92 else 1
                if j >= len(bs):
                    s.ghost['pend'] = bs[i:]        # a string split over several appends
                    return
                v = _json.loads(bs[i:j + 1].decode('latin-1'))
                self.tok_string(s, ('s', v))
                i = j + 1
            elif c in '-0123456789tfn':
                j = i
                while j < len(bs) and chr(bs[j]) in '+-.eE0123456789truefalsn':
                    j += 1
                _json.loads(bs[i:j])
                self.finish_value(s)
                self.item(s, ('n', bs[i:j].decode()))
                i = j
            elif c in '[{':
                if mode not in 'Vv':
                    raise Bad(c)
                if len(stack) >= 10:
                    raise Bad('nesting')
                s.ghost['pda'] = (stack + c, 'v' if c == '[' else 'k', fr + ((),))
                self.setcnt(s, len(stack) + 1, 0)
                i += 1
            elif c in ']}':
                o = '[' if c == ']' else '{'
                if not stack or stack[-1] != o or mode not in ('v,' if c == ']' else 'k,'):
                    raise Bad(c)
                f = fr[-1]
                n = self.cnt(s, len(stack))
                self.setcnt(s, len(stack), 0)
                s.ghost['pda'] = (stack[:-1], 'V', fr[:-1])
                it = (o, f)
                if c == ']' and len(f) == 1 and f[0][0] in ('kid', 'row'):
                    # grandchildren: their list belongs to the item whose number is the element count one level up (children-in-order)
                    want = self.blocks['kids'].n if f[0][1] == 'kids' else self.rows(self.cnt(s, len(stack) - 1))
                    self.e.oblige(s, eq(n, want), 'every-child-is-written', None)
                    it = ('kids', f[0][1])
                if self.rows and c == ']' and self.isrows(stack[:-1], fr[:-1]):
                    if f == ():
                        self.e.oblige(s, eq(self.rows(self.cnt(s, len(stack) - 1)), 0), 'every-child-is-written', None)
                        it = ('row', 'kids')
                    elif it == ('kids', 'gkids'):
                        it = ('row', 'kids')
                self.finish_value(s)
                self.item(s, it)
                i += 1
            elif c == ',':
                if not stack or mode != ',':
                    raise Bad(c)
                s.ghost['pda'] = (stack, 'V' if stack[-1] == '[' else 'K', fr[:-1] + (fr[-1] + (',',),))
                i += 1
            elif c == ':':
                if mode != ':':
                    raise Bad(c)
                s.ghost['pda'] = (stack, 'V', fr)
                i += 1
            else:
                raise Bad(c)

    def isrows(self, stack, fr):
        f = fr[-1]
        return stack in ('{[', '{[[') and (f == () or f == (('row', 'kids'), ',')) and \
            fr[1] and fr[1][:1] == (('s', 't'),) and fr[1][1] == ('s', 'BulletList' if stack == '{[' else 'OrderedList')

    def guarded(self, s, f, node, what):
        try:
            f()
            return True
        except (Bad, ValueError, UnicodeDecodeError) as x:
            self.e.oblige(s, False, 'well-formed-json:' + what, node)
            return False

    def results(self, s):
        f = s.copy()
        f.ghost['oom'] = True
        return [(s, 1), (f, 0)]

    def append(self, e, s, a, node):
        p = a[1]
        if isinstance(p, Ptr) and p.blk is None:
            return self.results(s)
        bs = libc.litbytes(e, s, p)
        if bs is None:
            k = z3.Int('k!num')
            b = s.mem[p.blk]
            for nm, v in self.numbers.items():
                c, o, n = e.dec_piece(s, v)
                bad = Or(And(ge(k, 0), lt(k, n), Not(eq(b.content.read(add(p.off, k)), c.read(k)))), Not(eq(b.content.read(add(p.off, n)), 0)))
                if e.solve(s.pc, [bad])[0] == 'unsat':
                    def num(nm=nm):
                        self.finish_value(s)
                        self.item(s, ('N', nm))
                    return self.results(s) if self.guarded(s, num, node, 'number') else []
            e.oblige(s, False, 'number-written-is-the-nodes', node)
            return []
        return self.results(s) if self.guarded(s, lambda: self.feed(s, bs), node, bs.decode('latin-1')[:40]) else []

    def escaped(self, e, s, a, node):
        p = a[1]
        if isinstance(p, Ptr) and p.blk is None:
            it = ('s', '')
        else:
            bs = libc.litbytes(e, s, p)
            if bs is not None:
                it = ('s', bs.decode('latin-1'))
            elif p.blk in ('literal', 'url', 'title', 'info') and same(p.off, 0):
                it = ('S', p.blk)
            else:
                it = ('S', '?')
                b, l = s.mem[p.blk], s.mem['literal']
                k = z3.Int('k!lit')
                for nm, n in (('literal', l.L), ('chopped', sub(l.L, 1))):
                    bad = Or(And(ge(k, 0), lt(k, n), Not(eq(b.content.read(add(p.off, k)), l.content.read(k)))), Not(eq(b.content.read(add(p.off, n)), 0)), b.freed)
                    if e.solve(s.pc, [And(ge(n, 0), bad)])[0] == 'unsat':
                        it = ('S', nm)
                        break
                e.oblige(s, it[1] != '?', 'text-written-is-the-nodes', node)
        return self.results(s) if self.guarded(s, lambda: self.tok_string(s, it), node, 'string') else []

    def child(self, e, s, a, node):
        """contract of write_inline / write_block: one value for a non-null node"""
        c = a[1]
        if not isinstance(c, Chain):
            e.oblige(s, False, 'writes-a-child-node', node)
            return []
        stack, mode, fr = s.ghost['pda']
        d = len(stack)
        ch = c.ch
        e.oblige(s, And(ge(c.idx, 0), lt(c.idx, ch.n)), 'a-missing-child-is-not-written', node)
        e.oblige(s, eq(c.idx, self.cnt(s, d)), 'children-in-order', node)
        if ch.owner is not None:
            e.oblige(s, eq(ch.owner, self.cnt(s, d - 1)), 'children-in-order', node)

        def go():
            self.finish_value(s)
            self.item(s, ('kid', ch.name))
        return self.results(s) if self.guarded(s, go, node, 'child') else []

    def children(self, e, s, a, node):
        """contract of write_inlines(b, first child): one array of all children"""
        c = a[1]
        e.oblige(s, isinstance(c, Chain) and same(c.idx, 0), 'all-children-are-written', node)

        def go():
            self.finish_value(s)
            self.item(s, ('kids', c.ch.name))
        return self.results(s) if isinstance(c, Chain) and self.guarded(s, go, node, 'children') else []


def tree(e, st):
    """one node with its attributes and children"""
    kids = Kids('kids', e.fresh('nkids', 0, MAXLEN, st))
    NG = z3.Function('ngrand', z3.IntSort(), z3.IntSort())
    RANGED_DECLS['ngrand'] = (0, MAXLEN)
    e.schemas['ngrand'] = [lambda a: [a >= 0, a <= MAXLEN]]
    st.mem['node'] = Block('cell', cells={}, name='node', ro=True)
    e.roots.add('node')
    nul = {}
    for x in ('literal', 'url', 'title', 'info'):
        e.cstring(st, x)
        nul[x] = z3.Bool(x + '?null')
    cache = {}

    def first(e, s, a, node):
        p = a[0]
        if isinstance(p, Ptr) and p.blk == 'node':
            return [(s, Chain(kids, 0))]
        if isinstance(p, Chain) and p.ch is kids:
            e.oblige(s, And(ge(p.idx, 0), lt(p.idx, kids.n)), 'null-node', node)
            key = str(p.idx)
            if key not in cache:
                cache[key] = Kids('gkids', NG(Z(p.idx)), p.idx)
            return [(s, Chain(cache[key], 0))]
        raise Unsupported('first_child of %r' % (p,))

    def nxt(e, s, a, node):
        p = a[0]
        if not isinstance(p, Chain):
            raise Unsupported('next of %r' % (p,))
        e.oblige(s, And(ge(p.idx, 0), lt(p.idx, p.ch.n)), 'null-node', node)
        return [(s, Chain(p.ch, add(p.idx, 1)))]

    def getter(x):
        def f(e, s, a, node):
            if not (isinstance(a[0], Ptr) and a[0].blk == 'node'):
                raise Unsupported('attribute of %r' % (a[0],))
            t, n = e.split(s, nul[x])
            return ([(t, NULL)] if t is not None else []) + ([(n, Ptr(x))] if n is not None else [])
        return f
    ints = {}
    for x in ('type', 'heading_level', 'list_type', 'list_start'):
        v = ints[x] = e.fresh(x, -(1 << 31), (1 << 31) - 1, st)
        e.contracts['cmark_node_get_' + x] = lambda e, s, a, node, v=v: [(s, v)]
    for x in ('literal', 'url', 'title'):
        e.contracts['cmark_node_get_' + x] = getter(x)
    e.contracts.update(cmark_node_get_fence_info=getter('info'), cmark_node_first_child=first, cmark_node_next=nxt)
    return kids, nul, ints, lambda i: NG(Z(i))


def enumv(e, name):
    return e.tu.enumconst[name]


ATTR = ('[', (('s', ''), ',', ('[', ()), ',', ('[', ())))
HTML = ('s', 'html')


def obj(t, c):
    return ('{', (('s', 't'), ('s', t), ',', ('s', 'c')) + (c,))


def arr(*xs):
    f = ()
    for i, x in enumerate(xs):
        f += (x,) if i == 0 else (',', x)
    return ('[', f)


def match(e, s, kids, nul, pat, got):
    """-> condition under which the written value `got` is an instance of pattern `pat`"""
    lits = s.mem
    if isinstance(pat, tuple) and pat and pat[0] == 'F':       # the text of attribute x
        x = pat[1]
        if got == ('S', x):
            return True
        if got == ('s', ''):
            return Or(nul[x], eq(lits[x].L, 0))
        return False
    if isinstance(pat, tuple) and pat and pat[0] == 'code':    # literal without one final newline
        l = lits['literal']
        nl = And(gt(l.L, 0), eq(l.content.read(sub(l.L, 1)), 10))
        if got == ('S', 'literal'):
            return Not(nl)
        if got == ('S', 'chopped'):
            return nl
        if got == ('s', ''):
            return Or(nul['literal'], eq(l.L, 0), And(nl, eq(l.L, 1)), bool(s.ghost.get('oom')))
        return False
    if isinstance(pat, tuple) and pat and pat[0] == 'K':       # all children
        if got == ('kids', 'kids') or got == ('row', 'kids'):
            return True
        if got == ('[', ()):
            return eq(kids.n, 0)
        return False
    if isinstance(pat, tuple) and pat and pat[0] == 'class':
        if got == ('[', ()):
            return Or(nul['info'], eq(lits['info'].L, 0))
        return And(Not(nul['info']), gt(lits['info'].L, 0)) if got == arr(('S', 'info')) else False
    if isinstance(pat, tuple) and pat and pat[0] == 'kv':
        r = lits['info'].content.read
        inc = And(Not(nul['info']), eq(lits['info'].L, 3), eq(r(0), ord('i')), eq(r(1), ord('n')), eq(r(2), ord('c')))
        if got == ('[', ()):
            return Not(inc)
        return inc if got == arr(arr(('s', 'inc'), ('s', 'yes'))) else False
    if pat == got:
        return True
    if isinstance(pat, tuple) and isinstance(got, tuple) and len(pat) == len(got):
        c = True
        for a, b in zip(pat, got):
            c = And(c, match(e, s, kids, nul, a, b))
            if c is False:
                return False
        return c
    return False


def text(x='literal'):
    return ('F', x)


K = ('K',)


def inline_patterns(e):
    E = lambda x: enumv(e, 'CMARK_NODE_' + x)
    known = {E('TEXT'): obj('Str', text()), E('SOFTBREAK'): obj('SoftBreak', ('[', ())), E('LINEBREAK'): obj('LineBreak', ('[', ())),
             E('CODE'): obj('Code', arr(ATTR, text())), E('EMPH'): obj('Emph', K), E('STRONG'): obj('Strong', K),
             E('LINK'): obj('Link', arr(ATTR, K, arr(text('url'), text('title')))), E('IMAGE'): obj('Image', arr(ATTR, K, arr(text('url'), text('title')))),
             E('HTML_INLINE'): obj('RawInline', arr(HTML, text()))}
    return known, obj('Str', text())


def block_patterns(e, ints):
    E = lambda x: enumv(e, 'CMARK_NODE_' + x)
    known = {E('PARAGRAPH'): obj('Para', K), E('HEADING'): obj('Header', arr(('N', 'level'), ATTR, K)), E('THEMATIC_BREAK'): obj('HorizontalRule', ('[', ())),
             E('HTML_BLOCK'): obj('RawBlock', arr(HTML, text())),
             E('CODE_BLOCK'): obj('CodeBlock', arr(arr(('s', ''), ('class',), ('kv',)), ('code',))),
             E('BLOCK_QUOTE'): obj('BlockQuote', K), E('LIST'): None}
    return known, obj('Para', arr(obj('Str', text())))


def finish(e, s, v, name, W, ok):
    t, f = e.split(s, e.truth(v))
    if f is not None:
        e.prove(f, bool(f.ghost.get('oom')), name + ':fails-only-when-out-of-memory')
    if t is None:
        return
    stack, mode, fr = t.ghost['pda']
    e.prove(t, stack == '' and mode == 'D' and 'pend' not in t.ghost, name + ':exactly-one-json-value-is-written')
    if mode == 'D':
        e.prove(t, ok(t, fr[0][0]), name + ':the-value-describes-the-node')
    e.cover(t, name)


def node_task(name, isblock):
    def go(e):
        st = State()
        kids, nul, ints, ng = tree(e, st)
        lv, ls = ints['heading_level'], ints['list_start']
        W = Writer(e, st, {'level': ite(le(lv, 0), 1, lv), 'start': ite(le(ls, 0), 1, ls)}, rows=ng)
        W.blocks['kids'] = kids
        e.contracts['write_inlines'] = W.children
        if isblock:
            e.contracts['write_block'] = W.child
            known, other = block_patterns(e, ints)
        else:
            known, other = inline_patterns(e)

        def ok(s, got):
            c = False
            ty = ints['type']
            for t, p in known.items():
                if p is None:
                    o = eq(ints['list_type'], enumv(e, 'CMARK_ORDERED_LIST'))
                    rows = ('R',)
                    p1 = obj('OrderedList', arr(arr(('N', 'start'), ('s', 'Decimal'), ('s', 'Period')), K))
                    p2 = obj('BulletList', K)
                    m = Or(And(o, match(e, s, kids, nul, p1, got)), And(Not(o), match(e, s, kids, nul, p2, got)))
                else:
                    m = match(e, s, kids, nul, p, got)
                c = Or(c, And(eq(ty, t), m))
            return Or(c, And(*[Not(eq(ty, t)) for t in known], match(e, s, kids, nul, other, got)))
        fd = e.tu.funcs.get(name)
        run = e.run
        c = e.contracts.pop(name, None)
        # the function itself is inlined once; recursive calls inside go through the contract
        outs = run_top(e, st, name, [NULLB(st), Ptr('node')], c)
        for s, v in outs:
            finish(e, s, v, name, W, ok)
    return go


def NULLB(st):
    st.mem['b'] = Block('cell', cells={}, name='b')
    return Ptr('b')


def run_top(e, st, name, args, contract):
    fd = e.tu.funcs.get(name)
    if fd is None:
        raise Missing('function %s not found in %s' % (name, e.tu.path))
    e.roots.add('b')
    e.statics = {}
    if contract is not None:
        e.contracts[name] = contract
    return e.inline(st, fd, args, {'id': 'top00'})


R.task(F, 'write_inline')(node_task('write_inline', False))
R.task(F, 'write_block')(node_task('write_block', True))


@R.task(F, 'write_inlines')
def _(e):
    nm = 'write_inlines'
    st = State()
    kids = Kids('kids', e.fresh('nkids', 0, MAXLEN, st))
    tree(e, st)
    W = Writer(e, st)
    W.blocks['kids'] = kids
    e.contracts['write_inline'] = W.child
    for s, v in run_top(e, st, nm, [NULLB(st), Chain(kids, 0)], None):
        finish(e, s, v, nm, W, lambda t, got: match(e, t, kids, {}, K, got))


@R.task(F, 'write_blocks')
def _(e):
    nm = 'write_blocks'
    st = State()
    kids = Kids('kids', e.fresh('nkids', 0, MAXLEN, st))
    tree(e, st)
    W = Writer(e, st, stack='[', mode='v')
    W.blocks['kids'] = kids
    e.contracts['write_block'] = W.child
    for s, v in run_top(e, st, nm, [NULLB(st), Chain(kids, 0)], None):
        t, f = e.split(s, e.truth(v))
        if f is not None:
            e.prove(f, bool(f.ghost.get('oom')), nm + ':fails-only-when-out-of-memory')
        if t is None:
            continue
        stack, mode, fr = t.ghost['pda']
        e.prove(t, stack == '[' and (fr[1] == () and mode == 'v' or fr[1] == (('kid', 'kids'),) and mode == ','), nm + ':array-elements-are-written')
        e.prove(t, eq(W.cnt(t, 1), kids.n), nm + ':every-child-is-written')
        e.cover(t, nm)


@R.task(F, 'apex_cmark_to_pandoc_json')
def _(e):
    nm = 'apex_cmark_to_pandoc_json'
    st = State()
    kids, nul, ints, ng = tree(e, st)
    W = Writer(e, st)
    W.blocks['kids'] = kids

    def init(e, s, a, node):
        out = []
        for x, p in libc.do_alloc(e, s, 4096, node):
            if p.blk is not None:
                e.typed(x, p, CHAR)
                q = a[0]
                b = x.mem[q.blk]
                x.mem[q.blk] = b.but(cells={**b.cells, q.path + ('data',): (p, P), q.path + ('len',): (0, ULONG), q.path + ('cap',): (4096, ULONG)})
                x.ghost['buf'] = p.blk
            out.append((x, 1 if p.blk is not None else 0))
        return out

    def blocks(e, s, a, node):
        c = a[1]
        e.oblige(s, isinstance(c, Chain) and c.ch is kids and same(c.idx, 0), 'all-blocks-are-written', node)
        stack, mode, fr = s.ghost['pda']
        e.oblige(s, mode == 'v' and stack[-1] == '[', 'well-formed-json:blocks', node)
        if not (mode == 'v' and stack[-1] == '['):
            return []
        t, f = e.split(s, eq(kids.n, 0))
        out = []
        if t is not None:
            out += W.results(t)
        if f is not None:
            W.setcnt(f, len(stack), kids.n)
            f.ghost['pda'] = (stack, ',', fr[:-1] + ((('kid', 'kids'),),))
            out += W.results(f)
        return out
    e.contracts.update(apex_json_buf_init=init, write_blocks=blocks)
    doc = enumv(e, 'CMARK_NODE_DOCUMENT')
    for s, v in run_top(e, st, nm, [Ptr('node'), NULL], None):
        if isinstance(v, Ptr) and v.blk is None:
            e.prove(s, Or(bool(s.ghost.get('oom')), Not(eq(ints['type'], doc))), nm + ':null-only-on-failure')
            b = s.ghost.get('buf')
            e.prove(s, b is None or b not in s.mem or s.mem[b].freed, nm + ':no-leak-on-failure')
            continue
        e.prove(s, not s.mem[v.blk].freed and v.blk == s.ghost.get('buf') and same(v.off, 0), nm + ':returns-the-buffer')
        stack, mode, fr = s.ghost['pda']
        e.prove(s, stack == '' and mode == 'D' and 'pend' not in s.ghost, nm + ':exactly-one-json-value-is-written')
        if mode == 'D':
            pat = ('{', (('s', 'pandoc-api-version'), arr(('n', '1'), ('n', '23'), ('n', '1')), ',', ('s', 'meta'), ('{', ()), ',', ('s', 'blocks'), K))
            e.prove(s, match(e, s, kids, nul, pat, fr[0][0]), nm + ':the-value-describes-the-document')
        e.cover(s, nm)


# ---- bounded side: random trees built through libcmark-gfm, output read by Python's json
def T(ty, *attrs, kids=()):
    return (ty, attrs, tuple(kids))


def ser(n):
    ty, at, ks = n
    o = ty.encode()
    for a in at:
        if isinstance(a, int):
            o += bytes([a]) if ty == 'H' else bytes([a >> 8, a & 255])
        else:
            o += bytes([len(a) >> 8, len(a) & 255]) + a
    return o + bytes([len(ks)]) + b''.join(map(ser, ks))


def rtext(rng, empty=True):
    al = [b'a', b'Z', b' ', b'"', b'\\', b'\n', b'\t', b'\r', b'\x01', b'\x08', b'\x0c', b'\x1f', b'/', b'<', b'&', b'\xc3\xa9', b'\xe2\x82\xac', b'\xf0\x9f\x98\x80', b'{', b'}', b'[', b']', b',', b':', b'u0041', b'\x7f']
    return b''.join(rng.choice(al) for _ in range(rng.randint(0 if empty else 1, 8)))


def rinlines(rng, d, links=True):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        k = rng.choice('ttttsbcreg' + ('li' if links else ''))
        if k in 'tcr':
            out.append(T(k, rtext(rng)))
        elif k in 'sb':
            out.append(T(k))
        elif k in 'eg':
            out.append(T(k, kids=rinlines(rng, d - 1, links) if d > 0 else ()))
        else:
            out.append(T(k, rtext(rng), rtext(rng), kids=[x for x in (rinlines(rng, d - 1, links) if d > 0 else ()) if x[0] != 'l']))
    return out


def strip_links(n, inl=False):
    ty, at, ks = n
    out = []
    for k in ks:
        if inl and k[0] == 'l':
            continue
        out.append(strip_links(k, inl or ty == 'l'))
    return (ty, at, tuple(out))


def rblocks(rng, d, links=True):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        k = rng.choice('PPPHThCCBUO')
        if d <= 0 and k in 'BUO':
            k = 'P'
        if k == 'P':
            out.append(T(k, kids=rinlines(rng, 2, links)))
        elif k == 'H':
            out.append(T(k, rng.randint(1, 6), kids=rinlines(rng, 2, links)))
        elif k == 'T':
            out.append(T(k))
        elif k == 'h':
            out.append(T(k, rtext(rng)))
        elif k == 'C':
            out.append(T(k, rng.choice([rtext(rng), rtext(rng) + b'\n', b'', b'\n', b'\n\n', b'a\n\n', b'x']), rng.choice([b'', b'', b'c', b'inc', b'inc2', b'in', b'python x', rtext(rng)])))
        elif k == 'B':
            out.append(T(k, kids=rblocks(rng, d - 1, links)))
        else:
            items = [T('I', kids=rblocks(rng, d - 1, links)) for _ in range(rng.randint(1, 3))]
            out.append(T(k, *([rng.choice([0, 1, 2, 9, 10, 99, 1000])] if k == 'O' else []), kids=items))
    return out


def dec(b):
    return b.decode('utf-8')


def want_inline(n):
    ty, at, ks = n
    A = ['', [], []]
    W = lambda: [want_inline(k) for k in ks]
    S = lambda i=0: dec(at[i])
    return {'t': lambda: {'t': 'Str', 'c': S()}, 's': lambda: {'t': 'SoftBreak', 'c': []}, 'b': lambda: {'t': 'LineBreak', 'c': []}, 'c': lambda: {'t': 'Code', 'c': [A, S()]},
            'r': lambda: {'t': 'RawInline', 'c': ['html', S()]}, 'e': lambda: {'t': 'Emph', 'c': W()}, 'g': lambda: {'t': 'Strong', 'c': W()},
            'l': lambda: {'t': 'Link', 'c': [A, W(), [S(0), S(1)]]}, 'i': lambda: {'t': 'Image', 'c': [A, W(), [S(0), S(1)]]}}[ty]()


def want_block(n):
    ty, at, ks = n
    A = ['', [], []]
    I = lambda: [want_inline(k) for k in ks]
    B = lambda k=None: [want_block(x) for x in (ks if k is None else k[2])]
    S = lambda i=0: dec(at[i])
    if ty == 'C':
        lit = S()
        if lit.endswith('\n'):
            lit = lit[:-1]
        return {'t': 'CodeBlock', 'c': [['', [S(1)] if S(1) else [], [['inc', 'yes']] if S(1) == 'inc' else []], lit]}
    return {'P': lambda: {'t': 'Para', 'c': I()}, 'H': lambda: {'t': 'Header', 'c': [at[0], A, I()]}, 'T': lambda: {'t': 'HorizontalRule', 'c': []},
            'h': lambda: {'t': 'RawBlock', 'c': ['html', S()]}, 'B': lambda: {'t': 'BlockQuote', 'c': B()}, 'U': lambda: {'t': 'BulletList', 'c': [B(k) for k in ks]},
            'O': lambda: {'t': 'OrderedList', 'c': [[at[0] or 1, 'Decimal', 'Period'], [B(k) for k in ks]]}}[ty]()


TREES = {}


def wcases(rng, size, hb, consts):
    TREES.clear()
    def one(d):
        b = ser(d)
        TREES[b] = d
        return 'write', [b]
    for n in list(consts) + [100, 1000, 4000, 4090, 4096, 8192, 20000]:
        for dlt in range(-70, 70, 7) if n > 1000 else (-1, 0, 1):
            if 0 <= n + dlt < 65000:
                yield one(T('D', kids=[T('P', kids=[T('t', b'x' * (n + dlt))])]))
                yield one(T('D', kids=[T('P', kids=[T('t', b'\x01"' * ((n + dlt) // 12))])]))
    for x in list(range(1, 128)) + hb:
        if 0 < x < 128:
            for mk in (lambda t: T('P', kids=[T('t', t)]), lambda t: T('h', t), lambda t: T('C', t, b''), lambda t: T('C', b'', t), lambda t: T('P', kids=[T('c', t)]), lambda t: T('P', kids=[T('l', t, t)])):
                yield one(T('D', kids=[mk(bytes([x]))]))
                yield one(T('D', kids=[mk(b'a' + bytes([x]) + b'b')]))
    for _ in range(2500 * size):
        yield one(strip_links(T('D', kids=rblocks(rng, 2))))


def woracle(fn, args):
    d = TREES[args[0]]

    def chk(got):
        if got[0] is None:
            return 'a document'
        try:
            j = _json.loads(got[0].decode('utf-8'))
        except ValueError as x:
            return 'valid JSON (%s)' % x
        w = {'pandoc-api-version': [1, 23, 1], 'meta': {}, 'blocks': [want_block(k) for k in d[2]]}
        return None if j == w else _json.dumps(w)
    return chk


def eoracle(fn, args):
    return [ESC().run(args[0])]


R.concrete('astjson_str', ecases('apex_json_escape_local'), eoracle, bound='all strings up to length 2 over 21 byte classes, random strings up to 160 bytes')
R.concrete('astjson', wcases, woracle, bound='random trees of depth up to 4 over every node kind, texts up to 20 kB')
