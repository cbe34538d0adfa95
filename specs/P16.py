"""P16: file inclusion: the addressed lines of the named file, and the rest of the text unchanged."""
from vc.api import *
from vc.inline import First, Run, rewriter, cat, asint
R = Registry()
F = 'src/extensions/includes.c'
BOOL = Ty('int', bits=8, signed=False)
ASSUME = ['stdio file reading (fopen/fseek/ftell/fread) is a ghost contract: any failure, any short count, any content']


@R.task(F, 'normalize_fence_delimiters', budget=300)
def _(e):
    nm = 'normalize_fence_delimiters'
    st = State()
    e.alloc_may_fail = False
    p = e.cstring(st, 'text')
    b = st.mem['text']
    L, rd = b.L, b.content.read
    ticks = Run(e, 'ticks', lambda t: ne(rd(t), 96), 'text', st)
    eol = Run(e, 'eol', lambda t: Or(eq(rd(t), 10), eq(rd(t), 13)), 'text', st)
    bol = lambda v: Or(eq(v, 0), eq(rd(sub(v, 1)), 10))
    tick = lambda j: 96
    odd = lambda n: add(n, sub(1, mod(n, 2)))
    fence = lambda v: And(bol(v), eq(rd(v), 96), ge(sub(ticks(v), v), 3))

    def spans(v, S):
        q = ticks(v)
        n = sub(q, v)
        r = eol(q)
        rest = (sub(r, q), lambda j: rd(add(q, j)))
        same_ = (n, lambda j: rd(add(v, j)))
        on = eq(S['inf'](v), 1)
        return [(And(bol(v), eq(rd(v), 96), lt(n, 3)), [same_], q),
                (And(fence(v), on, eq(n, S['fl'](v))), [(odd(n), tick), rest], r),
                (And(fence(v), Not(on)), [(odd(n), tick), rest], r),
                (fence(v), [same_, rest], r)]

    def close(v, S):
        return And(fence(v), eq(S['inf'](v), 1), eq(sub(ticks(v), v), S['fl'](v)))

    def open_(v, S):
        return And(fence(v), eq(S['inf'](v), 0))

    def extra(v):
        return [], [ticks.none_before(v), eol.none_before(ticks(v))]
    st1 = [('inf', 0, lambda v, S: ite(close(v, S), 0, ite(open_(v, S), 1, S['inf'](v))), 1),
           ('fl', 0, lambda v, S: ite(close(v, S), 0, ite(open_(v, S), sub(ticks(v), v), S['fl'](v))), L)]
    T = rewriter('fence', e, st, 'text', spans, 2, extra, states=st1)

    fn = {x: z3.Function('fence.' + x, z3.IntSort(), z3.IntSort()) for x in ('inf', 'fl')}
    nl = lambda v: ite(eq(fn['inf'](Z(norm(v))), 1), odd(fn['fl'](Z(norm(v)))), 0)

    def cands(L_, h, M, U, blocks, put, s0):
        for i in list(M) + list(U):
            if i.kind == 'off' and i.tgt == 'text' or i.kind == 'const' and len(M) < 9:
                for w in M:
                    if w.kind == 'int' and i not in M:
                        for x in fn:
                            put('%s==%s(%s)' % (w.nice(), x, i.nice()), lambda s, w=w, x=x, i=i: eq(asint(w.get(s)), fn[x](Z(norm(i.get(s))))))
                    if w.kind == 'int' and w.ty.bits > 8:
                        put('%s: odd length at %s' % (w.nice(), i.nice()), lambda s, w=w, i=i: eq(w.get(s), nl(i.get(s))))
        for k in blocks:
            for w in M:
                if w.kind == 'off' and w.tgt == k:
                    w0 = norm(w.get(s0))
                    L_.put_forall(put, 'ticks %s<%s' % (k, w.nice()), k, lambda s, w=w: (w0, w.get(s)), lambda s, t: 96)
    e.usercands.append(cands)
    for s, v in e.run(st, nm, [p]):
        T.post(s, v, nm)


def spec_block(e, st, **kw):
    cells = {('is_line_range',): (0, BOOL), ('is_regex_range',): (0, BOOL), ('start_line',): (0, INT), ('end_line',): (-1, INT)}
    cells.update({('regex_start',): (NULL, None), ('regex_end',): (NULL, None), ('prefix',): (NULL, None)})
    for k, v in kw.items():
        cells[(k,)] = (v, cells[(k,)][1])
    st.mem['spec'] = Block('cell', cells=cells, name='spec')
    e.roots.add('spec')
    return Ptr('spec', 0)


@R.task(F, 'extract_lines')
def _(e):
    nm = 'extract_lines'
    st = State()
    p = e.cstring(st, 'text')
    q = spec_block(e, st)
    for s, v in e.run(st, nm, [p, q]):
        if isinstance(v, Ptr) and v.blk is None:
            e.prove(s, bool(s.ghost.get('oom')), nm + ':null-only-when-out-of-memory')
            continue
        post_equal_fn(e, s, v, st.mem['text'].L, st.mem['text'].content.read, nm + ':no-address')


def rpath_case(withbase):
    def go(e):
        nm = 'resolve_path'
        st = State()
        a = e.cstring(st, 'file')
        b = e.cstring(st, 'base') if withbase else NULL
        fa = blkstr(st, 'file')
        asis = Or(eq(fa[0](0), 47), eq(st.mem['base'].L, 0)) if withbase else True
        n1, f1 = pieces(fa)
        n2, f2 = pieces(blkstr(st, 'base'), lit('/'), fa) if withbase else (n1, f1)
        for s, v in e.run(st, nm, [a, b]):
            if isinstance(v, Ptr) and v.blk is None:
                e.prove(s, bool(s.ghost.get('oom')), nm + ':null-only-when-out-of-memory')
                continue
            post_equal_fn(e, s, v, ite(asis, n1, n2), lambda k: ite(asis, f1(k), f2(k)), nm)
    return go


R.task(F, 'resolve_path')(rpath_case(False))
R.task(F, 'resolve_path')(rpath_case(True))

EXT = {'jpg': 1, 'jpeg': 1, 'png': 1, 'gif': 1, 'webp': 1, 'svg': 1, 'csv': 4, 'tsv': 5, 'html': 3, 'htm': 3, 'md': 0, 'markdown': 0, 'mmd': 0}
EXT.update({x: 2 for x in ('c', 'h', 'cpp', 'py', 'js', 'java', 'swift', 'go', 'rs', 'sh')})


def type_case(dot):
    def go(e):
        nm = 'apex_detect_file_type'
        st = State()
        p = e.cstring(st, 'path')
        b = st.mem['path']
        rd, L = b.content.read, b.L
        if dot:
            D = e.fresh('dot', 0, None, st)
            st.assume(And(lt(D, L), eq(rd(D), 46)))
            e.uterms.append(D)
        st.pc.append(Forall(b.content.trigs(), lambda k: Implies(And(gt(k, D if dot else -1), lt(k, L)), ne(rd(k), 46)), 'last dot'))
        for s, v in e.run(st, nm, [p]):
            if not dot:
                e.prove(s, eq(asint(v), 6), nm + ':text-without-extension')
            else:
                n = sub(sub(L, D), 1)
                xs = {x: And(eq(n, len(x)), *[eq(lower(rd(add(D, 1 + j))), ord(c)) for j, c in enumerate(x)]) for x in EXT}
                for x, t in EXT.items():
                    e.prove(s, Implies(xs[x], eq(asint(v), t)), nm + ':type-of-' + x)
                e.prove(s, Implies(Not(Or(*xs.values())), eq(asint(v), 6)), nm + ':text-otherwise')
            e.cover(s, nm)
    return go


R.task(F, 'apex_detect_file_type')(type_case(False))
R.task(F, 'apex_detect_file_type')(type_case(True))


@R.task(F, 'read_file_contents')
def _(e):
    nm = 'read_file_contents'
    st = State()
    p = e.cstring(st, 'path')
    size = e.fresh('filesize', -1, (1 << 63) - 1, st)
    FB = e.bytefn('FILE')

    def fopen(e, s, a, node):
        e.oblige(s, caller_passes(e, s, a[0], 'path'), 'opens-the-given-file', node)
        bad = s.copy()
        bad.ghost['failed'] = True
        s.ghost['at'] = None
        s.ghost['open'] = 1
        return [(bad, NULL), (s, Opaque('FILE', False))]

    def fseek(e, s, a, node):
        s.ghost['at'] = int(a[2]) if isinstance(a[2], int) else None
        return [(s, 0)]

    def ftell(e, s, a, node):
        e.oblige(s, s.ghost.get('at') == 2, 'size-is-taken-at-the-end', node)
        return [(s, size)]

    def fclose(e, s, a, node):
        s.ghost['open'] = s.ghost.get('open', 0) - 1
        return [(s, 0)]

    def fread(e, s, a, node):
        e.oblige(s, s.ghost.get('at') == 0, 'reads-from-the-start', node)
        q, sz, cnt = e.as_ptr(s, a[0]), asint(a[1]), asint(a[2])
        e.oblige(s, eq(sz, 1), 'reads-bytes', node)
        e.oblige(s, eq(cnt, size), 'asks-for-the-whole-file', node)
        b = s.mem[q.blk]
        e.oblige(s, And(ge(q.off, 0), le(add(q.off, cnt), b.size)), 'write-in-bounds', node)
        r = e.fresh('nread', 0, None, s)
        s.assume(le(r, cnt))
        if b.kind == 'raw':
            e.typed(s, q, CHAR)
            b = s.mem[q.blk]
        s.mem[q.blk] = b.but(content=Copy(b.content, q.off, Base(lambda k: FB(Z(k)), FB), 0, r), L=None, hints=())
        s.ghost['nread'] = r
        return [(s, r)]
    e.contracts.update(fopen=fopen, fread=fread, fclose=fclose, fseek=fseek, ftell=ftell, rewind=lambda e, s, a, n: fseek(e, s, [a[0], 0, 0], n))
    for s, v in e.run(st, nm, [p]):
        e.prove(s, s.ghost.get('open', 0) == 0, nm + ':file-closed')
        if isinstance(v, Ptr) and v.blk is None:
            e.prove(s, Or(bool(s.ghost.get('oom')), bool(s.ghost.get('failed')), lt(size, 0), gt(size, 10 << 20)), nm + ':null-only-on-failure-or-above-10MB')
            continue
        n = s.ghost['nread']
        k = z3.Int('k!r')
        b = s.mem[v.blk]
        e.prove(s, And(eq(v.off, 0), not b.freed, lt(n, b.size)), nm + ':room')
        e.prove(s.copy().assume(And(ge(k, 0), lt(k, n))), eq(b.content.read(k), FB(k)), nm + ':bytes-of-the-file')
        e.prove(s, eq(b.content.read(n), 0), nm + ':terminated')
        e.cover(s, nm)


def range_case(prefix):
    def go(e):
        nm = 'extract_lines'
        st = State()
        e.alloc_may_fail = False
        p = e.cstring(st, 'text')
        b = st.mem['text']
        L, rd = b.L, b.content.read
        st.assume(le(L, 10 << 20))        # read_file_contents: no larger file is included
        A = e.fresh('first', 1, (1 << 31) - 1, st)
        B = e.fresh('last', -1, (1 << 31) - 1, st)
        st.assume(Or(eq(B, -1), ge(B, A)))       # parse_address_spec
        pre = e.cstring(st, 'prefix') if prefix else NULL
        P = st.mem['prefix'].L if prefix else 0
        q = spec_block(e, st, is_line_range=1, start_line=A, end_line=B, prefix=pre)
        eol = Run(e, 'eol', lambda t: eq(rd(t), 10), 'text', st)
        # number of newlines before v
        C = z3.Function('newlines', z3.IntSort(), z3.IntSort())
        c = lambda v: C(Z(norm(v)))
        st.assume(And(eq(c(0), 0)))
        step = lambda v: Implies(And(ge(v, 0), lt(v, L)), eq(c(add(v, 1)), add(c(v), ite(eq(rd(v), 10), 1, 0))))
        # lemmas by induction over the text
        u = z3.Int('u')
        e.prove(st.copy().assume(And(u >= 0, u < L, c(u) >= 0, c(u) <= u, step(u))), And(c(u + 1) >= 0, c(u + 1) <= u + 1), nm + ':lemma:count-bounds')
        v0 = z3.Int('v0')
        s1 = st.copy().assume(And(v0 >= 0, v0 <= u, u < eol(v0), u < L, eq(c(u), c(v0)), step(u)))
        s1.pc.append(eol.none_before(v0))
        e.prove(s1, eq(c(u + 1), c(v0)), nm + ':lemma:no-newline-inside-a-line')
        e.prove(st.copy().assume(And(u >= v0, v0 >= 0, u < L, c(u) >= c(v0), step(u))), c(u + 1) >= c(v0), nm + ':lemma:count-monotone')
        e.schemas['newlines'] = [lambda a: [Implies(And(ge(a.arg(0), 0), le(a.arg(0), L)), And(a >= 0, a <= a.arg(0), a <= c(L))), step(a.arg(0))]]
        num = lambda v: add(c(v), 1)

        def nx(v):
            return ite(lt(eol(v), L), add(eol(v), 1), L)

        def spans(v):
            rest = (sub(eol(v), v), lambda j: rd(add(v, j)))
            hit = And(ge(num(v), A), Or(eq(B, -1), lt(num(v), B)))
            front = [(P, lambda j: st.mem['prefix'].content.read(j))] if prefix else []
            return [(hit, front + [rest, (1, lambda j: 10)], nx(v)), (True, [], nx(v))]

        def extra(v):
            return [Implies(And(ge(v, 0), lt(v, L)), And(eq(c(eol(v)), c(v)), step(eol(v)), Implies(lt(eol(v), L), c(add(eol(v), 1)) <= c(L))))], [eol.none_before(v)]
        T = rewriter('lines', e, st, 'text', spans, None if prefix else 2, extra)
        m = lambda v: 0
        TP = 0
        if prefix:
            st.assume(le(P, 1024))        # the address is at most 1023 bytes
            # (lines before v) * P, by its defining recurrence
            V = z3.Function('lines*prefix', z3.IntSort(), z3.IntSort())
            m = lambda v: V(Z(norm(v)))
            TP = z3.Int('total*prefix')
            st.assume(And(eq(m(0), 0), TP == (c(L) + 1) * P))
            k1 = z3.Int('k1')
            e.prove(State().assume(And(k1 >= 0, k1 <= c(L), P >= 0)), And(k1 * P + P <= (c(L) + 1) * P, (k1 + 1) * P == k1 * P + P), nm + ':lemma:product')

        # what is included is at most the lines read, and a newline for a last line without one
        g = lambda v: le(T.pos(v), ite(lt(v, L), add(v, m(v)), add(add(L, 1), TP)))
        old = T.facts
        prod = lambda v: And(Implies(And(ge(v, 0), lt(v, L)), And(ge(m(v), 0), le(add(m(v), P), TP), Implies(lt(nx(v), L), eq(m(nx(v)), add(m(v), P)))))) if prefix else True
        s1 = st.copy().assume(And(T.seg(v0), v0 >= 0, v0 < L, g(v0), prod(v0)))
        T.defs(s1, v0)
        e.prove(s1, g(nx(v0)), nm + ':lemma:growth')

        def facts(v):
            a, f = old(v)
            return a + [Implies(T.seg(v), g(v)), Implies(And(T.seg(v), lt(v, L)), g(nx(v))), Implies(T.seg(v), prod(v))], f
        T.facts = facts
        st.assume(le(T.N, add(add(L, 1), TP)))
        # no line of that number: nothing is included
        s1 = st.copy().assume(And(T.seg(v0), v0 >= 0, v0 < L, gt(A, num(L)), eq(T.pos(v0), 0), c(v0) <= c(L)))
        T.defs(s1, v0)
        e.prove(s1, eq(T.pos(nx(v0)), 0), nm + ':lemma:empty-beyond-the-last-line')
        st.assume(Implies(gt(A, num(L)), eq(T.N, 0)))

        def cands(L_, h, M, U, blocks, put, s0):
            for i in M:
                if i.kind == 'off' and i.tgt == 'text':
                    for w in M:
                        if w.kind == 'int' and w.ty.bits > 8:
                            put('%s==number of %s' % (w.nice(), i.nice()), lambda s, w=w, i=i: eq(w.get(s), num(i.get(s))))
                            put('%s==number of %s in the text' % (w.nice(), i.nice()), lambda s, w=w, i=i: Implies(lt(i.get(s), L), eq(w.get(s), num(i.get(s)))))
            for w in M:
                if w.kind == 'int' and w.ty.bits == 32:
                    put('%s==end of the range' % w.nice(), lambda s, w=w: eq(w.get(s), ite(Or(eq(B, -1), gt(B, num(L))), add(num(L), 1), B)))
        e.usercands.append(cands)
        for s, v in e.run(st, nm, [p, q]):
            T.post(s, v, nm)
    return go


R.task(F, 'extract_lines', budget=200)(range_case(False))
R.task(F, 'extract_lines', budget=200)(range_case(True))


# ---------------------------------------------------------------- concrete side
import re


def fences(t):
    if b'`' not in t:
        return t
    out, inf, fl = b'', False, 0
    i = 0
    while i < len(t):
        if t[i] == 96 and (i == 0 or t[i - 1] == 10):
            j = i
            while j < len(t) and t[j] == 96:
                j += 1
            n = j - i
            if n < 3:
                out += t[i:j]
                i = j
                continue
            k = j
            while k < len(t) and t[k] not in (10, 13):
                k += 1
            if inf and n == fl:
                out += b'`' * (n | 1)
                inf = False
            elif not inf:
                out += b'`' * (n | 1)
                inf, fl = True, n
            else:
                out += b'`' * n
            out += t[j:k]
            i = k
        else:
            out += t[i:i + 1]
            i += 1
    return out


TYPES = {b'jpg': 1, b'jpeg': 1, b'png': 1, b'gif': 1, b'webp': 1, b'svg': 1, b'csv': 4, b'tsv': 5, b'html': 3, b'htm': 3, b'md': 0, b'markdown': 0, b'mmd': 0}
TYPES.update({x: 2 for x in (b'c', b'h', b'cpp', b'py', b'js', b'java', b'swift', b'go', b'rs', b'sh')})


def ftype(p):
    if p is None or b'.' not in p:
        return 6
    return TYPES.get(p[p.rindex(b'.') + 1:].lower(), 6)


def resolve(p, base):
    if p is None:
        return None
    return p if p[:1] == b'/' or not base else base + b'/' + p


ADDR = re.compile(rb'^(?:(\d+)(,(\d*))?)?(;prefix="([^"]*)")?$')


def pick(t, spec):
    """lines of t addressed by the given (documented) form; None = not specified here"""
    if spec.startswith(b'prefix="'):
        pre = spec[8:-1]
        ls = t.split(b'\n')
        return b'\n'.join(pre + x if x else x for x in ls)
    lines = t.split(b'\n')
    if lines[-1] == b'':
        lines.pop()
    m = ADDR.match(spec)
    if m and m.group(1):
        a, pre = int(m.group(1)), m.group(5) or b''
        if a < 1:
            return None
        b = a + 1 if m.group(2) is None else int(m.group(3)) if m.group(3) else len(lines) + 1
        if b < a:
            return None
        return b''.join(pre + x + b'\n' for x in lines[a - 1:b - 1])
    m = re.match(rb'^/([A-Za-z]+)/(?:,/([A-Za-z]+)/)?(;prefix="([^"]*)")?$', spec)
    if m:
        pre = m.group(4) or b''
        a = next((i for i, x in enumerate(lines) if m.group(1) in x), None)
        if a is None:
            return b''
        b = len(lines)
        if m.group(2):
            b = next((i for i in range(a + 1, len(lines)) if m.group(2) in lines[i]), len(lines))
        return b''.join(pre + x + b'\n' for x in lines[a:b])
    return None


ALIGN = {b'left': b' :--- ', b'right': b' ---: ', b'center': b' :---: ', b'auto': b' --- '}


def table(t, tsv):
    if not t:
        return None
    ls = t.split(b'\n')
    if ls[-1] == b'':
        ls.pop()
    rows = [x.split(b'\t' if tsv else b',') for x in ls]
    n = len(rows[0])
    sep, body = [b' --- '] * n, rows[1:]
    if body and len(body[0]) == n and all(x.strip().lower() in ALIGN for x in body[0]):
        sep, body = [ALIGN[x.strip().lower()] for x in body[0]], body[1:]
    row = lambda r: b'|' + b''.join(b' ' + (r[i] if i < len(r) else b'') + b' |' for i in range(n)) + b'\n'
    return row(rows[0]) + b'|' + b''.join(x + b'|' for x in sep) + b'\n' + b''.join(map(row, body))


FILES = {b'a.md': b'alpha\nbeta\ngamma', b'nest.md': b'[{{a.md}}]\n', b'self.md': b's{{self.md}}', b'x.py': b'def f():\n    pass\n', b't.csv': b'h,i\n1,2\n3\n', b'u.tsv': b'h\ti\nright\tleft\nx\ty',
         b'sub/s.md': b'in sub: {{t.md}}', b'sub/t.md': b'<T>', b'big.md': b'z' * 40 + b'\n', b'empty.md': b'', b'p.png': b'\x89PNG', b'plain': b'no extension', b'sub/all.md': b'<<[t.md]\n/t.md\n<<(c.py)[1,]\n{{t.md}}', b'sub/c.py': b'1\n2', b'code.md': b'````\n{{a.md}}\n````\n'}
LANG = {b'c': b'c', b'h': b'c', b'cpp': b'cpp', b'cc': b'cpp', b'py': b'python', b'js': b'javascript', b'rb': b'ruby', b'sh': b'bash'}


def process(t, d, depth=0):
    if depth > 10:
        return t
    t = fences(t)
    out, i, code = b'', 0, False
    at = lambda p: (d + b'/' + p if d else p)

    def inner(p, body):
        q = at(p)
        ty = ftype(q)
        if ty in (4, 5):
            body = table(body, ty == 5) or body
        return process(body, q.rsplit(b'/', 1)[0] if b'/' in q else b'', depth + 1)
    while i < len(t):
        bol = i == 0 or t[i - 1] == 10
        if t[i] == 96:
            code = not code
        if not code and t[i] == 47 and bol:
            m = re.match(rb'[^ \t\r\n]+', t[i + 1:])
            if m and at(m.group(0)) in FILES:
                p = m.group(0)
                c, ty = FILES[at(p)], ftype(p)
                if ty == 1:
                    out += b'![](' + p + b')\n'
                elif ty in (4, 5):
                    out += table(c, ty == 5) or b''
                elif ty == 2:
                    out += b'\n```' + p[p.rindex(b'.') + 1:] + b'\n' + c + b'\n```\n'
                else:
                    out += inner(p, c)
                i += 1 + len(p)
                continue
        if not code and t[i:i + 2] == b'{{':
            z = t.find(b'}}', i + 2)
            if z > i + 2 and at(t[i + 2:z]) in FILES:
                p = t[i + 2:z]
                c, e_ = FILES[at(p)], z + 2
                if t[e_:e_ + 1] == b'[' and b']' in t[e_:]:
                    y = t.index(b']', e_)
                    if t[e_ + 1:y]:
                        c = pick(c, t[e_ + 1:y])
                        if c is None:
                            return None
                    e_ = y + 1
                r = inner(p, c)
                if r is None:
                    return None
                out, i = out + r, e_
                continue
        if not code and bol and t[i:i + 3] == b'<<{':
            return None      # raw HTML include: not specified here
        if not code and bol and t[i:i + 3] in (b'<<[', b'<<('):
            z = t.find(b']' if t[i + 2] == 91 else b')', i + 3)
            if z > i + 3:
                p = t[i + 3:z]
                e_ = z + 1
                c = FILES.get(at(p))
                if c is None:
                    return None
                y = e_
                while t[y:y + 1].isspace():
                    y += 1
                if t[y:y + 1] == b'[' and b']' in t[y:]:
                    w = t.index(b']', y)
                    if t[y + 1:w]:
                        c = pick(c, t[y + 1:w])
                        if c is None:
                            return None
                    e_ = w + 1
                if t[i + 2] == 91:
                    r = inner(p, c)
                    if r is None:
                        return None
                    out += r
                else:
                    x = p[p.rindex(b'.') + 1:] if b'.' in p else b''
                    out += b'\n```' + LANG.get(x, x) + b'\n' + c + b'\n```\n'
                i = e_
                continue
        m = re.compile(rb'[^`/{<]*').match(t, i + 1)
        out += t[i:m.end()]
        i = m.end()
    return out


def oracle(fn, a):
    if fn == 'normalize_fence_delimiters':
        return [None if a[0] is None else fences(a[0])]
    if fn == 'resolve_path':
        return [resolve(*a)]
    if fn == 'apex_detect_file_type':
        return [ftype(a[0])]
    if fn == 'read_file_contents':
        return [a[0], 0]
    if fn == 'read_file_dir':
        return [None]
    if fn == 'apex_csv_to_table':
        return [None if a[0] is None else table(*a)]
    if fn == 'include_lines':
        r = pick(*a)
        return None if r is None else [r]
    if fn == 'put':
        return [1]
    if fn == 'apex_process_includes':
        r = process(a[0], b'')
        return None if r is None else [r]
    if fn == 'apex_resolve_wildcard':
        if a[0].endswith(b'.*'):
            for x in (b'.html', b'.md', b'.txt', b'.tex'):
                if a[0][:-2] + x in FILES:
                    return [a[0][:-2] + x]
        return [a[0]] if not set(a[0]) & set(b'*?[{') else None


def cases(rng, size, hb, consts):
    pickn = lambda fr, n: b''.join(rng.choice(fr) for _ in range(rng.randint(0, n)))
    for t in list(strings(rng, [b'`', b'```', b'````', b'\n', b'a', b'\r\n'], 600 * size, 14, 4)):
        yield 'normalize_fence_delimiters', [t]
    for k in range(3, 9):
        for m in range(3, 9):
            yield 'normalize_fence_delimiters', [b'`' * k + b'lang\nx\n' + b'`' * m + b'\n' + b'`' * k + b'\n']
    yield 'normalize_fence_delimiters', [b'````' * 1 + b'\n````\n' * 30]
    yield 'normalize_fence_delimiters', [None]
    ps = [b'', b'a', b'/', b'/abs/x.md', b'x/y', b'./z', b'..']
    for p in ps + [None]:
        for q in ps + [None]:
            yield 'resolve_path', [p, q]
    xs = list(TYPES) + [b'txt', b'', b'mdx', b'jp', b'gi', b'ta', b'htmlx', b'JPG', b'Md', b'cP', b'tar.gz', b'rst']
    for x in xs:
        for p in (b'f.' + x, b'd.csv/' + x, b'a.md.' + x, b'.' + x, x.upper(), b'q.' + x.upper(), b'q.' + x + b' '):
            yield 'apex_detect_file_type', [p]
    for n in (0, 1, 2, 100, 5000, 70000):
        yield 'read_file_contents', [bytes(rng.randint(0, 255) for _ in range(n))]
    yield 'read_file_dir', [0]
    cf = [b',', b',', b'\n', b'\n', b'a', b'bb', b'left', b'right', b'center', b'auto', b' left ', b'RIGHT', b'\t', b'---', b'|', b'l', b'leftmost and more', b'\n\n', b'"q"']
    for _ in range(900 * size):
        yield 'apex_csv_to_table', [pickn(cf, 14), rng.randint(0, 1)]
    for r in (1, 2, 3, 9, 20, 60):
        for c in (1, 2, 7, 8, 9, 17, 40):
            yield 'apex_csv_to_table', [b'\n'.join(b','.join(b'x' * (i % 3) for i in range(c)) for _ in range(r)), 0]
            yield 'apex_csv_to_table', [b','.join([b'h'] * c) + b'\n' + b','.join([b'center'] * c) + b'\n' + b'\n' * r, 0]
            yield 'apex_csv_to_table', [b','.join([b'h'] * c) + b'\n' + b'\n'.join(b',' * (c + 3) for _ in range(r)), 0]
    specs = [b'1', b'2', b'3', b'1,2', b'2,4', b'2,', b'1,', b'3,9', b'9', b'9,', b'1,1', b'2,2', b'4,7', b'/b/', b'/b/,/c/', b'/a/,/a/', b'/b/,/b/', b'/zz/', b'/c/,/zz/', b'prefix="> "', b'prefix=""', b'2,3;prefix="* "', b'/b/,/c/;prefix="-- "', b'2,;prefix="' + b'p' * 150 + b'"', b'1;prefix="#"', b'prefix="' + b'q' * 200 + b'"', b'/a/;prefix="' + b'r' * 300 + b'"']
    lf = [b'a', b'b', b'c', b'ab', b'\n', b'\n', b'\n', b'xyz', b' ']
    for _ in range(1200 * size):
        yield 'include_lines', [pickn(lf, 16), rng.choice(specs)]
    for k in (5, 12, 40, 300):
        for sp in specs:
            yield 'include_lines', [b'b\n' * k, sp]
            yield 'include_lines', [b'\n' * k, sp]
            yield 'include_lines', [b'a' * 90 + b'\nb' * k + b'c', sp]
    for f, c in FILES.items():
        yield 'put', [f, c]
    fr = [b'{{a.md}}', b'{{nest.md}}', b'{{self.md}}', b'<<[a.md]', b'\n<<[nest.md]', b'\n<<(x.py)', b'{{t.csv}}', b'{{u.tsv}}', b'\n/a.md', b'\n/x.py\n', b'\n/p.png', b'{{sub/s.md}}', b'\n/sub/s.md ', b'{{none.md}}', b'`', b'```\n', b'\n````\n', b'{{', b'}}', b'text', b'\n',
          b'[2,3]', b'{{a.md}}[2,]', b'{{a.md}}[1]', b'{{a.md}}[/beta/]', b'{{a.md}}[prefix="> "]', b'\n<<[a.md] [2,3]', b'\n<<(x.py)[1,2]', b'\n/t.csv', b'{{plain}}', b'{{empty.md}}', b'\n<<(plain)', b'{{code.md}}', b'{{big.md}}', b'\n/none', b'<<', b'/a.md', b'\n<<[sub/s.md]\n', b'\n<<(sub/c.py)', b'{{sub/all.md}}', b'\n<<[sub/all.md]', b'\n/sub/all.md\n', b'\n<<[t.csv]', b'\n<<[u.tsv]', b'\n<<[self.md]', b'\n/self.md\n', b'\n/code.md', b'{{t.csv}}[1,3]', b'\n<<(t.csv)', b'\n<<[x.py]']
    for _ in range(900 * size):
        yield 'apex_process_includes', [pickn(fr, 9)]
    for x in fr:
        yield 'apex_process_includes', [x]
        yield 'apex_process_includes', [b'\n' + x + b' tail']
    FILES[b'huge.md'] = b'y' * 1100000
    yield 'put', [b'huge.md', FILES[b'huge.md']]
    yield 'apex_process_includes', [b'<{{huge.md}}>']
    yield 'apex_process_includes', [b'q' * 70 + b'{{big.md}}' * 300 + b'end']
    for p in (b'a.md', b'a.*', b'nest.*', b'x.py', b'sub/t.*', b'none.md'):
        yield 'apex_resolve_wildcard', [p]


R.concrete('includes', cases, oracle, bound='texts of up to 16 fragments over 15 files in two directories, includes nested to the depth limit, tables to 60 rows and 40 columns, a 1.1 MB file')
