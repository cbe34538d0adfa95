"""P07: heading identifiers: the three published formats, for any heading text, and the manual forms."""
from vc.api import *
R = Registry()
F = 'src/extensions/header_ids.c'
from specs.P03 import Kids
GFM, MMD, KRAM = 0, 1, 2
ASSUME = ['apex_find_emoji_name: proved for headings in which it finds no emoji (exact output) and, for memory safety only, for any name it may return; the text written for an emoji is checked on examples (bounded)',
          'cmark_node_get_type / get_literal / first_child / next (libcmark-gfm) are assumed pure']

LETTERS = [(0x80, 0x85, 'a'), (0x87, 0x87, 'c'), (0xA7, 0xA7, 'c'), (0x88, 0x8B, 'e'), (0x8C, 0x8F, 'i'), (0x91, 0x91, 'n'), (0xB1, 0xB1, 'n'), (0x92, 0x98, 'o'), (0x99, 0x9C, 'u'), (0x9D, 0x9D, 'y'), (0xBD, 0xBD, 'y'), (0x9F, 0x9F, 's')]


def cont(c):
    return between(c, 0x80, 0xBF)


def base(b2):
    v = 0
    for lo, hi, ch in reversed(LETTERS):
        v = ite(between(b2, lo, hi), ord(ch), v)
    return v


def punct3(c, rd, *last):
    """E2 80 xx"""
    return And(eq(c, 0xE2), eq(rd(1), 0x80), Or(*[eq(rd(2), x) for x in last]))


def extra(c):
    return ite(between(c, 0xC0, 0xDF), 1, ite(between(c, 0xE0, 0xEF), 2, ite(between(c, 0xF0, 0xF7), 3, 0)))


def complete(c, rd):
    """a lead byte with all its continuation bytes"""
    return Or(And(between(c, 0xC0, 0xDF), cont(rd(1))), And(between(c, 0xE0, 0xEF), cont(rd(1)), cont(rd(2))), And(between(c, 0xF0, 0xF7), cont(rd(1)), cont(rd(2)), cont(rd(3))))


def gfm(emoji, name):
    """state: the last thing written was a dash from a space or dash; nothing written yet.
       emoji(t): the complete sequence at t is an emoji; name(t): what is written for it"""
    def em(c, rd, t):
        return And(complete(c, rd), Not(punct3(c, rd, 0x93, 0x94, 0x98, 0x99)), emoji(t))

    def letter(c, rd):
        return And(eq(c, 0xC3), cont(rd(1)), ne(base(rd(1)), 0))

    def out(st, c, rd, t):
        dash = Or(eq(c, 32), eq(c, 45))
        return [(cont(c), []), (em(c, rd, t), name(t)), (letter(c, rd), [base(rd(1))]), (ge(c, 128), []), (is_alnum(c), [lower(c)]),
                (And(dash, eq(st[0], 0), eq(st[1], 0)), [45]), (True, [])]

    def delta(st, c, rd, t):
        dash = Or(eq(c, 32), eq(c, 45))
        w = Or(em(c, rd, t), letter(c, rd), is_alnum(c))
        return (ite(w, 0, ite(And(dash, eq(st[1], 0)), 1, st[0])), ite(w, 0, st[1]))
    return Transducer('gfm', out, 2, (0, 1), delta)


def mmd():
    """state: bytes of the current UTF-8 sequence still to be copied"""
    def drop(st, c, rd):
        return And(eq(st[0], 0), Or(cont(c), punct3(c, rd, 0x98, 0x99), And(lt(c, 128), ne(c, 45), Not(is_alnum(c))), ge(c, 0xF8)))

    def out(st, c, rd, t):
        return [(drop(st, c, rd), []), (And(eq(st[0], 0), lt(c, 128)), [lower(c)]), (True, [c])]

    def delta(st, c, rd, t):
        return (ite(gt(st[0], 0), sub(st[0], 1), ite(drop(st, c, rd), 0, extra(c))),)
    return Transducer('mmd', out, 1, (0,), delta)


def kram(trailing):
    """state: the last thing written was a dash for punctuation; bytes of the current UTF-8 sequence still to be skipped"""
    def out(st, c, rd, t):
        return [(Or(gt(st[1], 0), ge(c, 128)), []), (is_alnum(c), [lower(c)]), (eq(c, 45), [45]), (And(eq(c, 32), eq(st[0], 0)), [45]), (eq(c, 32), []),
                (trailing(t), []), (True, [45])]

    def delta(st, c, rd, t):
        u = Or(gt(st[1], 0), ge(c, 128))
        pd = ite(u, st[0], ite(Or(is_alnum(c), eq(c, 45), eq(c, 32), trailing(t)), 0, 1))
        r = ite(gt(st[1], 0), sub(st[1], 1), ite(Or(cont(c), punct3(c, rd, 0x93, 0x94, 0x98, 0x99)), 0, extra(c)))
        return (pd, r)
    return Transducer('kram', out, 2, (0, 0), delta)


def setup(e):
    st = State()
    e.alloc_may_fail = False
    p = e.cstring(st, 'text')
    b = st.mem['text']
    e.uterms.append(b.L)
    return st, p, b


def posthdr(e, s, v, n, f, nm):
    """the result is the n bytes f(k), or "header" when n is 0"""
    t, z = e.split(s, gt(n, 0))
    if t is not None:
        post_equal_fn(e, t, v, n, f, nm)
    if z is not None:
        r, m = lit('header')
        post_equal_fn(e, z, v, m, r, nm + ':empty')


def dashes(e, st, T, N):
    """ghosts: D leading dashes of the N bytes written; E = end of the last byte that is not a dash (if any)"""
    D = e.fresh('leadingdashes', 0, None, st)
    E = e.fresh('lastnondash', 0, None, st)
    st.assume(And(le(D, N), Implies(lt(D, N), And(ne(T.out(D), 45), gt(E, D), le(E, N), ne(T.out(sub(E, 1)), 45)))))
    st.pc.append(Forall([(T.S, (), 0)], lambda k: Implies(And(ge(k, 0), lt(k, N)), And(Implies(lt(k, D), eq(T.out(k), 45)), Implies(And(lt(D, N), ge(k, E)), eq(T.out(k), 45)))), 'dashes'))
    e.uterms.extend([D, E])

    def cands(L, h, M, U, blocks, put, s0):
        for i in M:
            if i.kind in ('off', 'int') and i.ty.bits > 8:
                put('%s leading' % i.nice(), lambda s, i=i: le(i.get(s), D))
                put('%s low' % i.nice(), lambda s, i=i: ge(i.get(s), sub(D, 1)))
                put('%s trim' % i.nice(), lambda s, i=i: Implies(lt(D, N), ge(i.get(s), sub(E, 1))))
                put('%s trim1' % i.nice(), lambda s, i=i: Implies(lt(D, N), ge(i.get(s), E)))
    e.usercands.append(cands)
    return D, E


@R.task(F, 'apex_generate_header_id')
def g(e):
    nm = 'apex_generate_header_id(GFM)'
    st, p, b = setup(e)
    fam = e.family('emoji', True)
    rd = b.content.read
    T = gfm(lambda t: Not(fam[2](Z(norm(t)))), lambda t: Chunk(fam[1](Z(norm(t))), lambda k: fam[0](Z(norm(t)), Z(norm(k))))).bind(e, rd, b.L, 'text').nonzero(st)
    e.hints.append(T)

    def find(e, s, args, node):
        q, n = e.as_ptr(s, args[0]), asint(args[1])
        e.oblige(s, q.blk == 'text', 'looks-up-part-of-the-heading', node)
        t = q.off
        r = lambda k: rd(add(t, k))
        e.oblige(s, And(ge(t, 0), lt(t, b.L), complete(r(0), r), eq(n, add(extra(r(0)), 1))), 'looks-up-one-whole-character', node)
        T.chunks(s, t)
        no, yes = e.split(s, fam[2](Z(norm(t))))
        out = [(no, NULL)] if no is not None else []
        if yes is not None:
            out.append((yes, e.family_block(yes, fam, 'emoji', t)))
        return out
    e.contracts['apex_find_emoji_name'] = find

    def cands(L, h, M, U, blocks, put, s0):
        offs = [x for x in M if x.kind == 'off' and x.ty.bits > 8 or x.kind == 'int' and x.ty.bits > 8]
        for i in offs:
            for w in offs:
                if w is i:
                    continue
                for bn in ([w.tgt] if w.kind == 'off' else blocks):
                    if bn == 'text' or bn is None:
                        continue
                    put('%s room %s %s' % (bn, w.nice(), i.nice()), lambda s, i=i, w=w, bn=bn: lt(add(w.get(s), sub(b.L, i.get(s))), s.mem[bn].size))
    e.usercands.append(cands)
    N = T.pos(b.L)
    st.assume(le(N, 1 << 50))
    D, E = dashes(e, st, T, N)
    for s, v in e.run(st, 'apex_generate_header_id', [p, GFM]):
        posthdr(e, s, v, ite(lt(D, N), sub(E, D), 0), lambda k: T.out(add(k, D)), nm)


@R.task(F, 'apex_generate_header_id')
def m(e):
    nm = 'apex_generate_header_id(MMD)'
    st, p, b = setup(e)
    T = mmd().bind(e, b.content.read, b.L, 'text').nonzero(st)
    e.hints.append(T)
    for s, v in e.run(st, 'apex_generate_header_id', [p, MMD]):
        posthdr(e, s, v, T.pos(b.L), T.out, nm)


@R.task(F, 'apex_generate_header_id')
def k(e):
    nm = 'apex_generate_header_id(KRAMDOWN)'
    st, p, b = setup(e)
    rd = b.content.read
    ws = lambda c: Or(eq(c, 32), eq(c, 9), eq(c, 10), eq(c, 13))
    LN = e.fresh('lastnonspace', -1, None, st)
    st.assume(And(lt(LN, b.L), Or(eq(LN, -1), Not(ws(rd(LN))))))
    st.pc.append(Forall(b.content.trigs(), lambda k: Implies(And(gt(k, LN), lt(k, b.L)), ws(rd(k))), 'last nonspace'))
    e.uterms.append(LN)
    T = kram(lambda t: ge(t, LN)).bind(e, rd, b.L, 'text').nonzero(st)
    e.hints.append(T)
    scans(e, ws, blocks=['text'])
    N = T.pos(b.L)
    D, E = dashes(e, st, T, N)
    for s, v in e.run(st, 'apex_generate_header_id', [p, KRAM]):
        posthdr(e, s, v, sub(N, D), lambda k: T.out(add(k, D)), nm)


def lastof(e, st, b, name, pred):
    """ghost: last index whose byte satisfies pred, or -1"""
    rd = b.content.read
    g = e.fresh(name, -1, None, st)
    st.assume(And(lt(g, b.L), Or(eq(g, -1), pred(rd(g)))))
    st.pc.append(Forall(b.content.trigs(), lambda k: Implies(And(gt(k, g), lt(k, b.L)), Not(pred(rd(k)))), name))
    e.uterms.append(g)
    return g


def firstof(e, st, b, name, lo, pred):
    """ghost: first index > lo whose byte satisfies pred, or the length"""
    rd = b.content.read
    g = e.fresh(name, 0, None, st)
    st.assume(And(le(g, b.L), gt(g, lo), Or(eq(g, b.L), pred(rd(g)))))
    st.pc.append(Forall(b.content.trigs(), lambda k: Implies(And(gt(k, lo), lt(k, g)), Not(pred(rd(k)))), name))
    e.uterms.append(g)
    return g


def rtrim(e, st, b, name, n):
    """ghost: length of the first n bytes without trailing white space"""
    rd = b.content.read
    g = e.fresh(name, 0, None, st)
    st.assume(Implies(ge(n, 0), And(le(g, n), Or(eq(g, 0), Not(is_space(rd(sub(g, 1))))))))
    st.pc.append(Forall(b.content.trigs(), lambda k: Implies(And(ge(k, g), lt(k, n)), is_space(rd(k))), name))
    e.uterms.append(g)
    return g


@R.task(F, 'apex_extract_manual_header_id')
def _(e):
    nm = 'apex_extract_manual_header_id'
    st = State()
    e.alloc_may_fail = False
    e.cstring(st, 'text')
    b = st.mem['text'] = st.mem['text'].but(heap=True)
    rd = b.content.read
    PT = Ty('ptr', of=CHAR)
    st.mem['ht'] = Block('cell', cells={(): (Ptr('text'), PT)}, name='ht')
    st.mem['mo'] = Block('cell', cells={(): (NULL, PT)}, name='mo')
    e.roots |= {'ht', 'mo', 'text'}
    LN = lastof(e, st, b, 'lastnonspace', lambda c: Not(is_space(c)))
    LB = lastof(e, st, b, 'lastbracket', lambda c: eq(c, 91))
    RB = firstof(e, st, b, 'closebracket', LB, lambda c: eq(c, 93))
    LC = lastof(e, st, b, 'lastbrace', lambda c: eq(c, 123))
    RC = firstof(e, st, b, 'closebrace', LC, lambda c: eq(c, 125))
    EB, EC = rtrim(e, st, b, 'endb', LB), rtrim(e, st, b, 'endc', LC)
    isM = And(ge(LB, 0), lt(RB, b.L), gt(RB, add(LB, 1)), ne(rd(add(LB, 1)), 37), eq(LN, RB))
    isK = And(Not(isM), ge(LC, 0), eq(rd(add(LC, 1)), 35), lt(RC, b.L), gt(RC, add(LC, 2)), eq(LN, RC))
    scans(e, is_space, blocks=['text'])

    def cands(L, h, M, U, blocks, put, s0):
        for i in M:
            if i.kind in ('off', 'int') and i.ty.bits > 8:
                for g, end in ((EB, LB), (EC, LC)):
                    put('%s rtrim %s' % (i.nice(), g), lambda s, i=i, g=g: ge(i.get(s), sub(g, 1)))
                    put('%s rtrim1 %s' % (i.nice(), g), lambda s, i=i, g=g: ge(i.get(s), g))
        for k in blocks:
            # the copy: unchanged up to the cursor, NUL behind it
            if k in ('text',) or h.rep.mem[k].ety is None:
                continue
            for i in M:
                if i.kind == 'off' and i.tgt == k:
                    L.put_forall(put, '%s kept to %s' % (k, i.nice()), k, lambda s, i=i: (0, add(i.get(s), 1)), lambda s, t: rd(t), xtrigs=lambda s: b.content.trigs())
                    L.put_forall(put, '%s cleared from %s' % (k, i.nice()), k, lambda s, i=i, k=k: (add(i.get(s), 1), s.mem[k].size), lambda s, t: 0)
    e.usercands.append(cands)
    for s, v in e.run(st, nm, [Ptr('ht'), Ptr('mo')]):
        t, f = e.split(s, e.truth(v))
        h, mo = s.mem['ht'].cells[()][0], s.mem['mo'].cells[()][0]
        if f is not None:
            e.prove(f, Not(Or(isM, isK)), nm + ':an-identifier-at-the-end-is-found')
            e.prove(f, isinstance(h, Ptr) and h.blk == 'text' and same(h.off, 0) and not f.mem['text'].freed, nm + ':heading-without-identifier-is-left-alone')
            k = z3.Int('k!post')
            if not f.mem['text'].freed:
                e.prove(f.copy().assume(And(ge(k, 0), le(k, b.L))), eq(f.mem['text'].content.read(k), rd(k)), nm + ':heading-without-identifier-keeps-its-text')
            e.cover(f, nm)
        if t is not None:
            e.prove(t, Or(isM, isK), nm + ':only-an-identifier-at-the-end-counts')
            e.prove(t, t.mem['text'].freed, nm + ':old-text-released')
            for g, lo, hi, end in ((isM, add(LB, 1), RB, EB), (isK, add(LC, 2), RC, EC)):
                x, _ = e.split(t.copy(), g)
                if x is not None:
                    post_equal_fn(e, x.copy(), mo, sub(hi, lo), lambda k, lo=lo: rd(add(k, lo)), nm + ':identifier')
                    post_equal_fn(e, x.copy(), h, end, rd, nm + ':heading-text')


@R.task(F, 'is_valid_mmd_id')
def _(e):
    nm = 'is_valid_mmd_id'
    st = State()
    p = e.cstring(st, 's')
    b = st.mem['s']
    bad = lambda c: inset(c, b' \t\n\r%')
    FB = firstof(e, st, b, 'firstbad', -1, bad)
    scans(e, lambda c: Not(bad(c)), blocks=['s'])
    for s, v in e.run(st, nm, [p]):
        e.prove(s, eq(asint(v), ite(And(gt(b.L, 0), eq(FB, b.L)), 1, 0)), nm + ':true-iff-non-empty-without-space-or-percent')
        e.cover(s, nm)


@R.task(F, 'apex_extract_heading_text')
def _(e):
    nm = 'apex_extract_heading_text'
    st = State()
    e.alloc_may_fail = False
    C = {k: e.tu.enumconst[k] for k in ('CMARK_NODE_TEXT', 'CMARK_NODE_CODE', 'CMARK_NODE_HEADING')}
    n = e.fresh('nkids', 0, MAXLEN, st)
    e.uterms.append(n)
    kids = Kids('kids', n)
    st.mem['node'] = Block('cell', cells={}, name='node', ro=True)
    e.roots.add('node')
    TY = z3.Function('kidtype', z3.IntSort(), z3.IntSort())
    RANGED_DECLS['kidtype'] = (0, 65535)
    e.schemas['kidtype'] = [lambda a: [a >= 0, a <= 65535]]
    fam = e.family('lit', True)
    ti = lambda k: TY(Z(norm(k)))
    txt = lambda c: Or(eq(c, C['CMARK_NODE_TEXT']), eq(c, C['CMARK_NODE_CODE']))
    T = Transducer('kids', lambda s_, c, rd, t: [(And(txt(c), Not(fam[2](Z(norm(t))))), Chunk(fam[1](Z(norm(t))), lambda k: fam[0](Z(norm(t)), Z(norm(k))))), (True, [])])
    T.bind(e, ti, n, None)
    st.assume(le(T.pos(n), 1 << 50))
    e.hints.append(T)
    HT = e.fresh('headtype', 0, 65535, st)

    def typ(e, s, a, node):
        if isinstance(a[0], Chain):
            return [(s, ti(a[0].idx))]
        return [(s, HT)]

    def first(e, s, a, node):
        return [(s, Chain(kids, 0))]

    def nxt(e, s, a, node):
        e.oblige(s, And(ge(a[0].idx, 0), lt(a[0].idx, n)), 'null-node', node)
        return [(s, Chain(kids, add(a[0].idx, 1)))]

    def literal(e, s, a, node):
        i = a[0].idx
        T.chunks(s, i)
        no, yes = e.split(s, fam[2](Z(norm(i))))
        out = [(no, NULL)] if no is not None else []
        if yes is not None:
            out.append((yes, e.family_block(yes, fam, 'lit', i)))
        return out
    e.contracts.update(cmark_node_get_type=typ, cmark_node_first_child=first, cmark_node_next=nxt, cmark_node_get_literal=literal)
    for s, v in e.run(st, nm, [Ptr('node')]):
        h, o = e.split(s, eq(HT, C['CMARK_NODE_HEADING']))
        if o is not None:
            post_equal_fn(e, o, v, 0, lambda k: 0, nm + ':not-a-heading')
        if h is not None:
            post_equal_fn(e, h, v, T.pos(n), T.out, nm)


EMO = {b'\xf0\x9f\x98\x80': b'grinning', b'\xf0\x9f\x91\x8e': b'-1', b'\xc2\xa9': b'a-', b'\xe2\x9c\x94': b'L' * 399}


def ident(d, fmt):
    if fmt == MMD:
        r = mmd().run(d)
    elif fmt == KRAM:
        ln = len(d.rstrip(b' \t\n\r')) - 1
        r = kram(lambda t: t >= ln).run(d).lstrip(b'-')
    else:
        def find(t):
            c = d[t] if t < len(d) else 0
            return EMO.get(d[t:t + 1 + (1 if 0xC0 <= c < 0xE0 else 2 if c < 0xF0 else 3)])

        def name(t):
            x = find(t) or b''
            return Chunk(len(x), lambda k: x[k])
        r = gfm(lambda t: find(t) is not None, name).run(d).strip(b'-')
    return r or b'header'


WS = b' \t\n\v\f\r'


def manual(d):
    e = d.rstrip(WS)
    lb = e.rfind(b'[')
    if e.endswith(b']') and lb >= 0 and e.find(b']', lb) == len(e) - 1 and len(e) - 1 > lb + 1 and e[lb + 1] != 37:
        return [1, e[:lb].rstrip(WS), e[lb + 1:-1]]
    lb = e.rfind(b'{')
    if e.endswith(b'}') and lb >= 0 and e[lb + 1] == 35 and e.find(b'}', lb) == len(e) - 1 and len(e) - 1 > lb + 2:
        return [1, e[:lb].rstrip(WS), e[lb + 2:-1]]
    return [0, d, None]


def oracle(fn, args):
    if fn == 'apex_generate_header_id':
        return [ident(args[0], args[1])]
    if fn == 'is_valid_mmd_id':
        return [int(bool(args[0]) and not set(args[0]) & set(b' \t\n\r%'))]
    if fn == 'apex_extract_manual_header_id':
        return manual(args[0])
    if not args[0]:
        return [b'']
    return [b''.join(args[i + 1] for i in range(1, len(args), 2) if args[i] in (0, 1))]


IDTOK = [b'a', b'Z', b'9', b' ', b'-', b'\t', b'\n', b'.', b'!', b'_', b"'", b'\xe2\x80\x93', b'\xe2\x80\x94', b'\xe2\x80\x98', b'\xe2\x80\x99', b'\xe2\x80', b'\xe2', b'\xc3', b'\xc3\x89', b'\xc3\xa9', b'\xc3\xb1', b'\xf0\x9f\x98\x80', b'\xf0\x9f\x91\x8e', b'\xc2\xa9',
         b'\xe2\x9c\x94', b'\xf0\x9f', b'\xf0', b'\xff', b'\x80', b'\xe3\x81\x82', b'\xe2\x80\x9c']
MTOK = [b'[', b']', b'{', b'}', b'#', b'{#', b'%', b' ', b'\t', b'\v', b'x', b'id', b'Head']


def cases(rng, size, hb, consts):
    for x in range(1, 256):
        for y in (None, 0x80, 0x89, 0xBF, 32, 65):
            for pre in (b'', b'x', b'x '):
                for post in (b'', b'y', b' '):
                    d = pre + bytes([x]) + (bytes([y]) if y else b'') + post
                    for f in (0, 1, 2):
                        yield 'apex_generate_header_id', [d, f]
    for x in range(0x80, 0xC0):
        for f in (0, 1, 2):
            yield 'apex_generate_header_id', [b'a\xc3' + bytes([x]) + b'b', f]
            yield 'apex_generate_header_id', [b'a\xe2\x80' + bytes([x]) + b'b', f]
    for s in strings(rng, IDTOK, 1500 * size, 14):
        for f in (0, 1, 2):
            yield 'apex_generate_header_id', [s, f]
    for s in strings(rng, MTOK, 3000 * size, 9, 3):
        yield 'apex_extract_manual_header_id', [s]
    for s in strings(rng, [b' ', b'\t', b'\n', b'\r', b'%', b'a', b'-'], 200 * size, 8):
        yield 'is_valid_mmd_id', [s]
    for n in (0, 1, 254, 255, 256, 257, 511, 512, 513, 1000, 5000):
        for t in (0, 1):
            yield 'apex_extract_heading_text', [1, t, b'a' * n, 1 - t, b'b' * n, t, b'c' * n]
    for _ in range(300 * size):
        a = [1 if rng.random() < .95 else 0]
        for _ in range(rng.randint(0, 12)):
            t = rng.randint(0, 3)
            a += [t, b'' if t == 2 else b'xyz'[:rng.randint(0, 3)] * rng.choice([1, 1, 30, 200])]
        yield 'apex_extract_heading_text', a


R.concrete('header_ids', cases, oracle, bound='every byte in 18 contexts, every C3 xx and E2 80 xx; all headings of two fragments out of 31, random ones up to 56 fragments; manual forms: all of three fragments out of 13; heading trees up to 12 children')
