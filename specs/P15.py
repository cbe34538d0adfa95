"""P15: what the command line reads is what is converted: files and standard input complete, merged documents intact, headings shifted by their level."""
from vc.api import *
from vc.inline import Run, rewriter, cat
R = Registry()
BOOL = Ty('int', bits=8, signed=False)
SIZE = Ty('int', bits=64, signed=False)
F = 'cli/main.c'
ASSUME = ['stdio and POSIX read (fopen/fseek/ftell/fread/read) are ghost contracts: any failure, any short count, any content',
          'profiling (APEX_PROFILE) only measures: profiling_enabled answers false']


def quiet(e):
    e.contracts.update(profiling_enabled=lambda e, s, a, n: [(s, 0)], get_time_ms=lambda e, s, a, n: [(s, 0)], fprintf=lambda e, s, a, n: [(s, 0)])


@R.task(F, 'apex_cli_shift_headers', budget=200)
def _(e):
    nm = 'apex_cli_shift_headers'
    st = State()
    p = e.cstring(st, 'text')
    b = st.mem['text']
    L, rd = b.L, b.content.read
    D = e.fresh('indent', 1, 1 << 16, st)
    st.assume(le(L, 1 << 24))
    LD = z3.Int('L*indent')
    st.assume(eq(LD, mul(L, D)))

    def spans(v):
        return [(And(eq(rd(v), 35), Or(eq(v, 0), eq(rd(sub(v, 1)), 10))), [(add(D, 1), lambda j: 35)], add(v, 1))]
    T = rewriter('shift', e, st, 'text', spans)

    def bol(L_, h, M, U, blocks, put, s0):
        for i in M:
            if i.kind == 'off' and i.tgt == 'text' or i.kind == 'int' and i.ty.bits > 8:
                for w in M:
                    if w.kind == 'int' and w is not i:
                        put('%s: %s at a line start' % (w.nice(), i.nice()), lambda s, w=w, i=i: eq(asint(w.get(s)), ite(Or(eq(i.get(s), 0), eq(rd(sub(i.get(s), 1)), 10)), 1, 0)))
    e.usercands.append(bol)
    V = z3.Function('v*indent', z3.IntSort(), z3.IntSort())
    m = lambda v: V(Z(norm(v)))
    st.assume(And(eq(m(0), 0), eq(m(L), mul(L, D))))
    old = T.facts

    # growth: |output before v| <= v + v*indent, the product by its defining recurrence
    def facts(v):
        a, f = old(v)
        g = And(T.seg(v), lt(v, L))
        return a + [Implies(g, eq(m(add(v, 1)), add(m(v), D))), Implies(T.seg(v), le(m(v), mul(L, D))), Implies(g, le(m(add(v, 1)), mul(L, D))), Implies(T.seg(v), le(T.pos(v), add(v, m(v)))), Implies(g, le(T.pos(add(v, 1)), add(add(v, 1), m(add(v, 1)))))], f
    s = st.copy()
    v = e.fresh('gv', 0, None, s)
    # monotone: v <= L => v*indent <= L*indent (nonlinear fact proved on its own)
    e.prove(State().assume(And(v >= 0, v <= L, D >= 1)), Z(v) * D <= L * D, nm + ':lemma:product-monotone')
    e.prove(State(), Z(add(v, 1)) * D == v * D + D, nm + ':lemma:product-step')
    s.assume(And(T.seg(v), lt(v, L), eq(m(add(v, 1)), add(m(v), D)), le(T.pos(v), add(v, m(v)))))
    T.facts = None
    T.defs(s, v)
    e.prove(s, le(T.pos(add(v, 1)), add(add(v, 1), m(add(v, 1)))), nm + ':lemma:growth')
    T.facts = facts
    st.assume(le(T.N, add(L, mul(L, D))))
    T.defs(st, 0)
    for s, r in e.run(st, nm, [p, D]):
        T.post(s, r, nm)


@R.task(F, 'apex_cli_shift_headers')
def _(e):
    nm = 'apex_cli_shift_headers'
    st = State()
    p = e.cstring(st, 'text')
    D = e.fresh('indent', -(1 << 31), 0, st)
    for s, v in e.run(st, nm, [p, D]):
        if isinstance(v, Ptr) and v.blk is None:
            e.prove(s, bool(s.ghost.get('oom')), nm + ':null-only-when-out-of-memory')
            continue
        post_equal_fn(e, s, v, st.mem['text'].L, st.mem['text'].content.read, nm + ':unshifted')


@R.task(F, 'read_file')
def _(e):
    nm = 'read_file'
    st = State()
    quiet(e)
    p = e.cstring(st, 'path')
    size = e.fresh('filesize', -1, (1 << 63) - 1, st)
    FB = e.bytefn('FILE')
    st.mem['len'] = Block('cell', cells={(): (0, SIZE)}, name='len')
    e.roots.add('len')

    def fopen(e, s, a, node):
        e.oblige(s, caller_passes(e, s, a[0], 'path'), 'opens-the-given-file', node)
        bad = s.copy()
        bad.ghost['failed'] = True
        s.ghost['at'] = None
        return [(bad, NULL), (s, Opaque('FILE', False))]

    def fseek(e, s, a, node):
        s.ghost['at'] = int(a[2]) if isinstance(a[2], int) else None
        return [(s, 0)]

    def ftell(e, s, a, node):
        e.oblige(s, s.ghost.get('at') == 2, 'size-is-taken-at-the-end', node)
        return [(s, size)]

    def fread(e, s, a, node):
        e.oblige(s, s.ghost.get('at') == 0, 'reads-from-the-start', node)
        q, sz, cnt = e.as_ptr(s, a[0]), asint(a[1]), asint(a[2])
        e.oblige(s, eq(sz, 1), 'reads-bytes', node)
        e.oblige(s, eq(cnt, size), 'asks-for-the-whole-file', node)
        b = s.mem[q.blk]
        e.oblige(s, And(ge(q.off, 0), le(add(q.off, cnt), b.size)), 'write-in-bounds', node)
        r = e.fresh('nread', 0, None, s)
        s.assume(le(r, cnt))
        if b.kind == 'raw':
            e.typed(s, q, CHAR)
            b = s.mem[q.blk]
        s.mem[q.blk] = b.but(content=Copy(b.content, q.off, Base(lambda k: FB(Z(k)), FB), 0, r), L=None, hints=())
        s.ghost['nread'] = r
        return [(s, r)]
    e.contracts.update(fopen=fopen, fread=fread, fclose=lambda e, s, a, n: [(s, 0)], fseek=fseek, ftell=ftell, rewind=lambda e, s, a, n: fseek(e, s, [a[0], 0, 0], n))
    for s, v in e.run(st, nm, [p, Ptr('len', 0)]):
        if isinstance(v, Ptr) and v.blk is None:
            e.prove(s, Or(bool(s.ghost.get('oom')), bool(s.ghost.get('failed')), lt(size, 0)), nm + ':null-only-on-failure')
            continue
        n = s.ghost['nread']
        e.prove(s, eq(s.mem['len'].cells[()][0], n), nm + ':length-is-what-was-read')
        k = z3.Int('k!r')
        b = s.mem[v.blk]
        e.prove(s, And(eq(v.off, 0), not b.freed, lt(n, b.size)), nm + ':room')
        e.prove(s.copy().assume(And(ge(k, 0), lt(k, n))), eq(b.content.read(k), FB(k)), nm + ':bytes-of-the-file')
        e.prove(s, eq(b.content.read(n), 0), nm + ':terminated')
        e.cover(s, nm)


@R.task(F, 'read_stdin')
def _(e):
    nm = 'read_stdin'
    st = State()
    quiet(e)
    e.alloc_may_fail = False
    IN = e.bytefn('STDIN')
    st.mem['len'] = Block('cell', cells={(): (0, SIZE)}, name='len')
    G = 'g:!in'
    st.mem[G] = Block('cell', cells={('rcv',): (0, LONG), ('eof',): (0, LONG)}, name=G)
    e.roots |= {'len', G}
    g = lambda s, f: s.mem[G].cells[(f,)][0]

    def setg(s, f, v):
        b = s.mem[G]
        s.mem[G] = b.but(cells={**b.cells, (f,): (v, LONG)})

    def read(e, s, a, node):
        fd, p, cnt = asint(a[0]), e.as_ptr(s, a[1]), asint(a[2])
        libc.need_arr(e, s, p, node)
        b = s.mem[p.blk]
        e.oblige(s, eq(fd, 0), 'reads-standard-input', node)
        e.oblige(s, And(ge(p.off, 0), ge(cnt, 1), le(add(p.off, cnt), b.size)), 'asks-for-at-least-a-byte-inside-the-buffer', node)
        rcv = g(s, 'rcv')
        r = e.fresh('got', -1, None)
        ok = s.copy().assume(And(r > 0, le(r, cnt), add(rcv, r) <= 1 << 40))
        ok.mem[p.blk] = b.but(content=Copy(b.content, p.off, Base(lambda k: IN(Z(k)), IN), rcv, r), L=None, hints=())
        setg(ok, 'rcv', add(rcv, r))
        z, er = s.copy(), s.copy()
        setg(z, 'eof', 1)
        er.ghost['ioerr'] = True
        return [(ok, r), (z, 0), (er, -1)]
    e.variants.append(lambda s: sub(1 << 40, g(s, 'rcv')))
    e.contracts.update(read=read, fileno=lambda e, s, a, n: [(s, 0)])

    def cands(L, h, M, U, blocks, put, s0):
        put('rcv bounded', lambda s: le(g(s, 'rcv'), 1 << 40))
        ws = [w for w in M if w.ty is not None and w.ty.k == 'int' and w.ty.bits > 8]
        for w in ws:
            put('%s==rcv' % w.nice(), lambda s, w=w: eq(w.get(s), g(s, 'rcv')))
            for k in blocks:
                for c in (4096, 1):
                    put('%s+%d fits %s' % (w.nice(), c, k), lambda s, w=w, k=k, c=c: le(add(w.get(s), c), s.mem[k].size))
                L.put_forall(put, 'IN:%s[0..%s)' % (k, w.nice()), k, lambda s, w=w: (0, w.get(s)), lambda s, t: IN(Z(t)), xtrigs=lambda s: [(IN, (), 0)])
            for w2 in ws:
                if w2 is not w:
                    for c in (4096, 1):
                        put('%s+%d<=%s' % (w.nice(), c, w2.nice()), lambda s, w=w, w2=w2, c=c: le(add(w.get(s), c), w2.get(s)))
    e.usercands.append(cands)
    for s, v in e.run(st, nm, [Ptr('len', 0)]):
        if isinstance(v, Ptr) and v.blk is None:
            e.prove(s, bool(s.ghost.get('oom') or s.ghost.get('ioerr')), nm + ':null-only-on-failure')
            continue
        n = g(s, 'rcv')
        e.prove(s, eq(g(s, 'eof'), 1), nm + ':reads-to-end-of-input')
        e.prove(s, eq(s.mem['len'].cells[()][0], n), nm + ':length-is-what-was-read')
        k = z3.Int('k!r')
        b = s.mem[v.blk]
        e.prove(s, And(eq(v.off, 0), not b.freed, lt(n, b.size)), nm + ':room')
        e.prove(s.copy().assume(And(ge(k, 0), lt(k, n))), eq(b.content.read(k), IN(k)), nm + ':bytes-in-order')
        e.prove(s, eq(b.content.read(n), 0), nm + ':terminated')
        e.cover(s, nm)


@R.task(F, 'normalize_plugin_repo_url')
def _(e):
    nm = 'normalize_plugin_repo_url'
    st = State()
    p = e.cstring(st, 'arg')
    b = st.mem['arg']
    L, rd = b.L, b.content.read
    at = lambda t, i=0: And(*[eq(rd(add(i, j)), c) for j, c in enumerate(t)])
    # where "://", "@" and the first slash are, if anywhere (ghost)
    U, A, S = e.fresh('scheme', -1, None, st), e.fresh('at', -1, None, st), e.fresh('slash', -1, None, st)
    for g, t in ((U, b'://'), (A, b'@'), (S, b'/')):
        st.assume(Or(eq(g, -1), And(ge(g, 0), le(add(g, len(t)), L), at(t, g))))
        st.pc.append(Forall(b.content.trigs(), lambda k, g=g, t=t: Implies(And(ge(k, 0), lt(k, L), Or(eq(g, -1), lt(k, g))), Not(at(t, k))), 'first'))
        e.uterms.append(g)
    url = Or(ne(U, -1), ne(A, -1))
    hub = Or(*[And(ge(L, len(t)), at(t)) for t in (b'https://github.com/', b'http://github.com/', b'git@github.com:')])
    dotgit = And(ge(L, 4), at(b'.git', sub(L, 4)))
    short = And(Not(url), gt(S, 0), lt(add(S, 1), L))
    x = blkstr(st, 'arg')
    n1, f1 = pieces(x)
    n2, f2 = pieces(x, lit('.git'))
    n3, f3 = pieces(lit('https://github.com/'), x, lit('.git'))
    for s, v in e.run(st, nm, [p]):
        if isinstance(v, Ptr) and v.blk is None:
            e.prove(s, Or(bool(s.ghost.get('oom')), And(Not(url), Not(short))), nm + ':null-only-for-a-plain-name')
            continue
        asis, suf = And(url, Or(Not(hub), dotgit)), And(url, hub, Not(dotgit))
        e.prove(s, Or(url, short), nm + ':a-url-only-for-a-url-or-owner/repo')
        post_equal_fn(e, s, v, ite(asis, n1, ite(suf, n2, n3)), lambda k: ite(asis, f1(k), ite(suf, f2(k), f3(k))), nm)


@R.task(F, 'apex_cli_write_combined_chunk')
def _(e):
    nm = 'apex_cli_write_combined_chunk'
    st = State()
    p = e.cstring(st, 'chunk')
    sep = e.fresh('sep', 0, 1, st)
    st.mem['needs'] = Block('cell', cells={(): (sep, BOOL)}, name='needs')
    e.roots.add('needs')

    def fputc(e, s, a, node):
        e.oblige(s, And(eq(a[0], 10), eq(s.ghost.get('chunks', 0), 0)), 'only-newlines-before-the-chunk', node)
        s.ghost['nl'] = s.ghost.get('nl', 0) + 1
        return [(s, 10)]

    def fputs(e, s, a, node):
        e.oblige(s, caller_passes(e, s, a[0], 'chunk'), 'writes-the-chunk', node)
        s.ghost['chunks'] = s.ghost.get('chunks', 0) + 1
        return [(s, 1)]
    e.contracts.update(fputc=fputc, putc=fputc, fputs=fputs)
    for s, v in e.run(st, nm, [Opaque('FILE', False), p, Ptr('needs', 0)]):
        e.prove(s, eq(s.ghost.get('chunks', 0), 1), nm + ':chunk-written-once')
        e.prove(s, eq(s.ghost.get('nl', 0), ite(eq(sep, 0), 0, 2)), nm + ':one-blank-line-between-documents')
        e.prove(s, eq(s.mem['needs'].cells[()][0], 1), nm + ':next-chunk-is-separated')
        e.cover(s, nm)


@R.task(F, 'wrap_ansi_to_width', budget=300)
def _(e):
    nm = 'wrap_ansi_to_width'
    st = State()
    e.alloc_may_fail = False
    p = e.cstring(st, 'text')
    b = st.mem['text']
    L, rd = b.L, b.content.read
    W = e.fresh('width', 1, (1 << 31) - 1, st)
    letter = Run(e, 'letter', lambda t: is_alpha(rd(t)), 'text', st)
    csi = lambda v: And(eq(rd(v), 27), lt(add(v, 1), L), eq(rd(add(v, 1)), 91))
    cend = lambda v: ite(eq(letter(add(v, 2)), L), L, add(letter(add(v, 2)), 1))

    def spans(v, S):
        return [(Or(eq(rd(v), 10), eq(rd(v), 13)), [(1, lambda j: rd(v))], add(v, 1)),
                (csi(v), [(sub(cend(v), v), lambda j: rd(add(v, j)))], cend(v)),
                (ge(S['col'](v), W), [(2, lambda j: ite(eq(j, 0), 10, rd(v)))], add(v, 1))]

    def delta(v, S):
        c = S['col'](v)
        return ite(eq(rd(v), 10), 0, ite(Or(eq(rd(v), 13), csi(v)), c, ite(ge(c, W), 1, add(c, 1))))
    T = rewriter('wrap', e, st, 'text', spans, 2, lambda v: ([], [letter.none_before(add(v, 2))]), states=[('col', 0, delta, W)])
    for s, v in e.run(st, nm, [p, W]):
        T.post(s, v, nm)


# ---------------------------------------------------------------- concrete side
def shift(t, n):
    return b'\n'.join((b'#' * n + x if n > 0 and x[:1] == b'#' else x) for x in t.split(b'\n'))


def merge(index, files):
    out = b''
    for ln in index.split(b'\n'):
        ln = ln.rstrip(b' \t\r')
        x = ln.lstrip(b' \t')
        if not x or x[:1] == b'#':
            continue
        d, k = 0, 0
        while True:
            if ln[k:k + 1] == b'\t':
                d, k = d + 1, k + 1
            elif ln[k:k + 4] == b'    ':
                d, k = d + 1, k + 4
            else:
                break
        if x in files:
            out += shift(files[x], d) + b'\n\n'
    return out


def combine(summary, files):
    out = []
    for ln in summary.split(b'\n'):
        a = ln.find(b'[')
        c = ln.find(b']', a)
        if a < 0 or c < 0 or ln[c + 1:c + 2] != b'(':
            continue
        z = ln.find(b')', c + 2)
        if z < 0:
            continue
        x = ln[c + 2:z].lstrip(b' \t').rstrip(b' \t\r').split(b'#')[0]
        if x in files:
            out.append(files[x])
    return b'\n\n'.join(out)


def wrap(t, w):
    if t is None or w <= 0:
        return None
    out, col, i = b'', 0, 0
    while i < len(t):
        c = t[i:i + 1]
        if c == b'\n':
            out, col, i = out + c, 0, i + 1
        elif c == b'\r':
            out, i = out + c, i + 1
        elif t[i:i + 2] == b'\x1b[':
            j = i + 2
            while j < len(t) and not t[j:j + 1].isalpha():
                j += 1
            j = min(j + 1, len(t))
            out, i = out + t[i:j], j
        else:
            if col >= w:
                out, col = out + b'\n', 0
            out, col, i = out + c, col + 1, i + 1
    return out


def url(a):
    if not a:
        return None
    if b'://' in a or b'@' in a:
        if a.startswith((b'https://github.com/', b'http://github.com/', b'git@github.com:')) and not a.endswith(b'.git'):
            return a + b'.git'
        return a
    k = a.find(b'/')
    return b'https://github.com/' + a + b'.git' if k > 0 and k + 1 < len(a) else None


def dirname(p):
    if not p:
        return b'.'
    q = p.rstrip(b'/')
    if not q:
        return b'/'
    if b'/' not in q:
        return b'.'
    return q[:q.rindex(b'/')].rstrip(b'/') or b'/'


def oracle(fn, a):
    if fn == 'apex_cli_shift_headers':
        return [None if a[0] is None else shift(*a)]
    if fn == 'wrap_ansi_to_width':
        return [wrap(*a)]
    if fn == 'normalize_plugin_repo_url':
        return [url(a[0])]
    if fn == 'apex_cli_get_directory':
        return None if (a[0] or b'').startswith(b'//') else [dirname(a[0])]
    if fn == 'read_file':
        return [a[0], 0]
    if fn == 'read_file_dir':
        return [None]
    if fn == 'read_stdin':
        return [a[0], 0]
    if fn == 'apex_cli_mmd_merge_index':
        return [0, merge(a[0], {b'a.md': a[1], b'b c.md': a[2]})]
    if fn == 'apex_cli_combine_from_summary':
        return [0, combine(a[0], {b'a.md': a[1], b'b c.md': a[2]})]
    if fn == 'apex_cli_write_combined_chunk':
        return [1, (b'\n\n' if a[0] else b'') + a[1]]


def cases(rng, size, hb, consts):
    r = lambda n: bytes(rng.randint(0, 255) for _ in range(n))
    yield 'read_file_dir', [0]
    for t in list(strings(rng, [b'#', b'a', b'\n', b' '], 300 * size, 20, 4)):
        yield 'apex_cli_shift_headers', [t, rng.choice([-1, 0, 1, 2, 3, 7])]
    for d in (1, 2, 5, 30):
        yield 'apex_cli_shift_headers', [b'#\n' * 50, d]
        yield 'apex_cli_shift_headers', [b'# Title\n\n\n## Sub\n#\n#', d]
        yield 'apex_cli_shift_headers', [b'#', d]
    yield 'apex_cli_shift_headers', [None, 2]
    for n in (0, 1, 2, 10, 4095, 4096, 4097, 70000):
        yield 'read_file', [r(n)]
        yield 'read_file', [b'a\n' * n]
    for n in (0, 1, 100, 4095, 4096, 4097, 8191, 8192, 8193, 12287, 12288, 12289, 20000, 70001):
        for c in (1 << 20, 4096, 1000, 4095, 4097, 3):
            if n / c < 500:
                yield 'read_stdin', [r(n), c]
    for x in (0, 1):
        for t in (b'', b'x', b'a\n', b'%s%n'):
            yield 'apex_cli_write_combined_chunk', [x, t]
    for _ in range(40 * size):
        n = rng.randint(0, 20000)
        yield 'read_stdin', [r(n), rng.randint(max(1, n // 200), 9000)]
        yield 'read_file', [r(rng.randint(0, 5000))]
    fr = [b'a.md', b'b c.md', b'\n', b'\n', b'\t', b'    ', b' ', b'  ', b'# comment', b'#', b'none.md', b'\r\n', b'    a.md\n', b'\tb c.md\n', b'a.md\n', b'\t\ta.md\n', b'\t    b c.md\n', b'a.md  \n', b'   a.md\n', b'\n    \n']
    body = [b'# One\n\ntext\n', b'no headings', b'', b'# A\n## B\n### C', b'x # y\n #z\n#', b'####\n' * 20]
    for _ in range(250 * size):
        yield 'apex_cli_mmd_merge_index', [b''.join(rng.choice(fr) for _ in range(rng.randint(0, 8))), rng.choice(body), rng.choice(body)]
    fr = [b'* [One](a.md)\n', b'- [T]', b'(a.md)', b'(b c.md)', b'( a.md )', b'[x](b c.md#part)', b'[y](http://h/a.md)', b'[', b']', b'(', b')', b'\n', b'\n', b' ', b'[z]()', b'[q](none.md)', b'[s](#top)', b'# Summary\n']
    for _ in range(150 * size):
        yield 'apex_cli_combine_from_summary', [b''.join(rng.choice(fr) for _ in range(rng.randint(0, 8))), rng.choice(body), rng.choice(body)]
    fr = [b'a', b'bb', b' ', b'\n', b'\r', b'\x1b[', b'\x1b[1;31m', b'\x1b[0m', b'\x1b', b'[', b'm', b';1', b'word', b'\xc3\xa9', b'x' * 30]
    for _ in range(1500 * size):
        yield 'wrap_ansi_to_width', [b''.join(rng.choice(fr) for _ in range(rng.randint(0, 14))), rng.choice([-1, 0, 1, 1, 2, 3, 5, 10, 80])]
    yield 'wrap_ansi_to_width', [None, 3]
    fr = [b'https://', b'http://', b'github.com', b'git@github.com:', b'https://github.com/', b'http://github.com/', b'/', b'user', b'/repo', b'.git', b'@', b'://', b':', b'.', b'git']
    for t in strings(rng, fr, 500 * size, 5, 3):
        yield 'normalize_plugin_repo_url', [t]
    yield 'normalize_plugin_repo_url', [None]
    for t in strings(rng, [b'/', b'a', b'bc', b'.', b'..'], 200 * size, 8, 4):
        yield 'apex_cli_get_directory', [t]
    yield 'apex_cli_get_directory', [None]


R.concrete('cli', cases, oracle, bound='texts of up to 80 fragments, files to 70000 bytes, standard input to 70001 bytes in pieces of 3 bytes to all at once, indexes of up to 8 fragments over two files')
