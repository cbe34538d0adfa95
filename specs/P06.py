"""P06: obfuscating mail links changes only how the address and link text are written, never what they decode to, and nothing else on the page."""
from vc.api import *
import html as _html, re as _re
R = Registry()
F = 'src/apex.c'
ASSUME = ['allocation succeeds in apex_obfuscate_email_links (on failure the page is returned partly unobfuscated)']
PRE = b'href="mailto:'


def refchr(c):
    return Or(is_alnum(c), eq(c, 35))


def refs(e, name, rd, n):
    """REF over a segment of n bytes"""
    f = z3.Function(name, z3.IntSort(), z3.IntSort())
    RANGED_DECLS[name] = (0, 1)

    def ax(a):
        t = norm(a.arg(0))
        return [a >= 0, a <= 1, eq(a, ite(Or(lt(t, 0), ge(t, n)), 0, ite(eq(rd(t), 59), 1, ite(refchr(rd(t)), f(Z(norm(add(t, 1)))), 0))))]
    e.schemas[name] = [ax]
    return lambda t: eq(f(Z(norm(t))), 1), f


def entities(ref, lim=None):
    """text -> hexadecimal entities; UTF-8 bytes and existing character references stay. state: inside a reference"""
    def start(c, rd, t):
        return And(eq(c, 38), ref(add(t, 1)), Not(eq(rd(1), 59)))

    def out(st, c, rd, t):
        return [(Or(eq(st[0], 1), ge(c, 128), start(c, rd, t)), [c]), (True, [38, 35, 120, hexdig(floordiv(c, 16), True), hexdig(mod(c, 16), True), 59])]

    def delta(st, c, rd, t):
        return (ite(And(ne(c, 59), Or(eq(st[0], 1), start(c, rd, t))), 1, 0),)
    return Transducer('ent', out, 1, (0,), delta)


@R.task(F, 'apex_encode_hex_entities')
def enc(e):
    nm = 'apex_encode_hex_entities'
    st = State()
    n = e.fresh('len', 1, MAXLEN, st)
    p = e.bytes_input(st, 'text', n, CHAR)
    b = st.mem['text']
    ref, RF = refs(e, 'REFE', b.content.read, n)
    T = entities(ref).bind(e, b.content.read, n, 'text')
    e.uterms.append(n)
    e.hints.append(T)

    def cands(L, h, M, U, blocks, put, s0):
        num = lambda x: x.ty is not None and x.ty.k == 'int' and x.ty.bits > 8
        ints = [x for x in M if num(x) and (x.kind == 'int' or x.kind == 'off' and x.tgt == 'text')]
        for i in ints:
            for u in ints + [x for x in U if num(x) and x.kind in ('int', 'const', 'off') and not (x.kind == 'off' and x.tgt != 'text')]:
                if u is i:
                    continue
                # a scan from u: if this is a reference, everything up to i is copied
                put('%s ref of %s' % (i.nice(), u.nice()), lambda s, i=i, u=u: eq(RF(Z(norm(i.get(s)))), RF(Z(norm(add(u.get(s), 1))))))
                g = lambda s, i=i, u=u: And(ref(i.get(s)), Or(gt(i.get(s), add(u.get(s), 1)), ne(b.content.read(i.get(s)), 59)))
                put('%s copy of %s' % (i.nice(), u.nice()), lambda s, i=i, u=u, g=g: Implies(g(s), And(eq(T.pos(i.get(s)), add(T.pos(u.get(s)), sub(i.get(s), u.get(s)))), eq(T.st(i.get(s))[0], 1))))
                body = lambda s, k, i=i, u=u, g=g: Implies(And(g(s), ge(k, u.get(s)), lt(k, i.get(s))), eq(T.out(add(T.pos(u.get(s)), sub(k, u.get(s)))), b.content.read(k)))
                put('%s text of %s' % (i.nice(), u.nice()), lambda s, body=body: body(s, e.sk),
                    lambda s, body=body, u=u: Forall(b.content.trigs() + [(T.S, (), sub(T.pos(u.get(s)), u.get(s)))], lambda k: body(s, k), 'reftext'))
    e.usercands.append(cands)
    for s, v in e.run(st, nm, [p, n]):
        post_string(e, s, v, T, nm)


def mail(quo, ref):
    """the page. state: mode (0 page, 1 mail address, 2 inside the link, 3 link text), inside a reference"""
    def eff(st, rd, t):
        hit = And(eq(st[0], 0), ge(t, 6), *[eq(rd(j - 6), c) for j, c in enumerate(PRE)])
        return ite(And(hit, quo(t)), 1, st[0])

    def start(c, rd, t):
        return And(eq(c, 38), ref(add(t, 1)), Not(eq(rd(1), 59)))

    def encoding(m, c):
        return Or(And(eq(m, 1), ne(c, 34)), And(eq(m, 3), ne(c, 60)))

    def out(st, c, rd, t):
        plain = Or(Not(encoding(eff(st, rd, t), c)), eq(st[1], 1), ge(c, 128), start(c, rd, t))
        return [(plain, [c]), (True, [38, 35, 120, hexdig(floordiv(c, 16), True), hexdig(mod(c, 16), True), 59])]

    def delta(st, c, rd, t):
        m = eff(st, rd, t)
        enda = And(eq(c, 60), eq(rd(1), 47), eq(rd(2), 97))
        m2 = ite(And(eq(m, 1), eq(c, 34)), 2, ite(And(eq(m, 2), eq(c, 62)), 3, ite(And(Or(eq(m, 2), eq(m, 3)), enda), 0, ite(And(eq(m, 3), eq(c, 60)), 2, m))))
        return (m2, ite(And(encoding(m, c), ne(c, 59), Or(eq(st[1], 1), start(c, rd, t))), 1, 0))
    T = Transducer('mail', out, 2, (0, 0), delta)
    T.eff = eff
    return T


def segment_lemma(e, st, T, b, REF):
    """over an address or a link text the page stream is the entity stream of that segment (induction on the position)"""
    s = st.copy()
    a, n, m = (e.fresh(x, 0, None, s) for x in ('la', 'ln', 'lm'))
    rd = b.content.read
    stop = ite(eq(m, 1), 34, 60)
    s.assume(And(ge(n, 1), le(add(a, n), b.L), Or(eq(m, 1), eq(m, 3)), Or(eq(rd(add(a, n)), stop), eq(add(a, n), b.L))))
    ref, RF = refs(e, 'REFL', lambda k: rd(add(a, k)), n)
    E = entities(ref).bind(e, lambda k: rd(add(a, k)), n, None, prefix='l')
    nm = 'lemma:segment'
    e.prove(s, eq(REF(Z(norm(add(a, n)))), RF(Z(n))), nm + ':references-end-with-the-segment')
    j = e.fresh('lj', 0, None, s)
    s.assume(And(lt(j, n), ne(rd(add(a, j)), stop), ne(rd(add(a, j)), 0)))
    s1 = s.copy().assume(eq(REF(Z(norm(add(add(a, j), 1)))), RF(Z(norm(add(j, 1))))))
    e.prove(s1, eq(REF(Z(norm(add(a, j)))), RF(Z(norm(j)))), nm + ':same-references')
    for s2, st0 in ((s1.copy().assume(And(eq(j, 0), eq(T.eff(T.st(add(a, j)), T.rdat(add(a, j)), add(a, j)), m))), 'start'), (s1.copy().assume(And(gt(j, 0), eq(T.st(add(a, j))[0], m))), 'step')):
        t = norm(add(a, j))
        s2.assume(And(eq(T.st(t)[1], E.st(j)[0] if st0 == 'step' else 0), eq(E.st(j)[0], T.st(t)[1]), eq(T.pos(t), add(T.pos(a), E.pos(j)))))
        t1, j1 = norm(add(t, 1)), norm(add(j, 1))
        e.prove(s2, And(eq(T.st(t1)[0], m), eq(T.st(t1)[1], E.st(j1)[0]), eq(T.pos(t1), add(T.pos(a), E.pos(j1)))), nm + ':%s-state-and-length' % st0)
        for q in range(6):
            e.prove(s2.copy().assume(gt(sub(E.pos(j1), E.pos(j)), q)), eq(T.out(add(T.pos(t), q)), E.out(add(E.pos(j), q))), nm + ':%s-bytes' % st0)
    # at the end of the segment no reference is open: an open reference always still has its ';' to come
    s5 = s.copy().assume(Implies(eq(E.st(j)[0], 1), ref(j)))
    e.prove(s5, Implies(eq(E.st(norm(add(j, 1)))[0], 1), ref(add(j, 1))), nm + ':open-reference-will-close')
    e.prove(s, Not(ref(n)), nm + ':no-reference-open-at-the-end')


@R.task(F, 'apex_obfuscate_email_links')
def _(e):
    nm = 'apex_obfuscate_email_links'
    st = State()
    e.alloc_may_fail = False
    p = e.cstring(st, 'html')
    b = st.mem['html']
    rd = b.content.read
    LQ = e.fresh('lastquote', -1, None, st)
    st.assume(And(lt(LQ, b.L), Or(eq(LQ, -1), eq(rd(LQ), 34))))
    st.pc.append(Forall(b.content.trigs(), lambda k: Implies(And(gt(k, LQ), le(k, b.L)), ne(rd(k), 34)), 'last quote'))
    e.uterms.append(LQ)
    quo = lambda t: le(t, LQ)
    ref, REF = refs(e, 'REF', rd, b.L)
    T = mail(quo, ref).bind(e, rd, b.L, 'html').nonzero(st)
    e.hints.append(T)
    segment_lemma(e, st, T, b, REF)
    mode = lambda t: T.eff(T.st(t), T.rdat(t), t)

    def encode(e, s, args, node):
        q, n = e.as_ptr(s, args[0]), asint(args[1])
        e.oblige(s, q.blk == 'html', 'encodes-part-of-the-page', node)
        a = q.off
        t, z = e.split(s, gt(n, 0))
        out = []
        if z is not None:
            out.append((z, NULL))
        if t is not None:
            for j in range(6, 0, -1):       # instances of the stream's defining equations
                for ax in T.step(norm(sub(a, j))):
                    t.assume(ax)
            m = mode(a)
            end = add(a, n)
            for ax in T.step(norm(end)):
                t.assume(ax)
            stop = ite(eq(m, 1), 34, 60)
            e.oblige(t, And(ge(a, 0), le(end, b.L)), 'segment-inside-the-page', node)
            e.oblige(t, And(Or(eq(m, 1), eq(m, 3)), eq(T.st(a)[1], 0)), 'only-addresses-and-link-text-are-encoded', node)
            e.oblige(t, Or(eq(rd(end), stop), eq(end, b.L)), 'encodes-up-to-the-end-of-the-address-or-text', node)
            k = z3.Int('k!seg')
            if e.mode == 'final':
                e.prove(t.copy().assume(And(ge(k, a), lt(k, end))), ne(rd(k), stop), nm + ':segment-holds-no-end-mark')
            # post, by the segment lemma and the contract of apex_encode_hex_entities
            N = sub(T.pos(end), T.pos(a))
            t.assume(And(eq(T.st(end)[0], m), eq(T.st(end)[1], 0), ge(N, n), le(N, mul(6, n))))
            for x, r in libc.do_alloc(e, t, add(N, 1), node):
                if r.blk is not None:
                    pa = T.pos(a)
                    x.mem[r.blk] = x.mem[r.blk].but(kind='arr', ety=CHAR, L=N, content=Base(lambda k: ite(eq(k, N), 0, T.out(add(pa, k))), None))
                out.append((x, r))
        return out
    e.contracts['apex_encode_hex_entities'] = encode

    def nomatch(t):
        """no mail link began in the six bytes before t"""
        cs = []
        for d in range(1, 7):
            u = sub(t, d)
            cs.append(Not(And(ge(u, 0), *([eq(rd(add(u, j)), c) for j, c in enumerate(PRE)] + [quo(add(u, 6))]))))
        return And(*cs)

    def cands(L, h, M, U, blocks, put, s0):
        flags = [x for x in M if x.kind == 'int' and x.ty.k == 'int']
        for i in [x for x in M if x.kind == 'off' and x.tgt == 'html' or x.kind == 'int' and x.ty.bits > 8]:
            put('%s noref' % i.nice(), lambda s, i=i: eq(T.st(i.get(s))[1], 0))
            put('%s fresh' % i.nice(), lambda s, i=i: Implies(eq(T.st(i.get(s))[0], 0), nomatch(i.get(s))))
            atend = lambda s, i=i: Or(eq(T.st(i.get(s))[0], 2), And(eq(T.st(i.get(s))[0], 3), Or(eq(rd(i.get(s)), 60), eq(i.get(s), b.L))))
            for f in flags:
                if f is i:
                    continue
                put('%s mail mode %s' % (f.nice(), i.nice()), lambda s, i=i, f=f, atend=atend: ite(eq(f.get(s), 0), eq(T.st(i.get(s))[0], 0), atend(s)))
            # scanning link text
            for u in U + M:
                if u.kind == 'const' and u.tgt == 'html' or u.kind == 'off' and u.tgt == 'html' and u is not i:
                    put('%s text from %s' % (i.nice(), u.nice()), lambda s, i=i, u=u: And(ge(i.get(s), u.get(s)), le(i.get(s), b.L)))
    e.usercands.append(cands)
    scans(e, lambda c: And(ne(c, 60), ne(c, 0)), blocks=['html'])
    for s, v in e.run(st, nm, [p]):
        post_string(e, s, v, T, nm)


def cref(d):
    rx = _re.compile(rb'[A-Za-z0-9#]*;')
    return lambda t: bool(rx.match(d, t))


def oracle(fn, args):
    d = args[0]
    if fn == 'apex_encode_hex_entities':
        return [entities(cref(d)).run(d)]
    return [mail(lambda t: d.find(b'"', t) >= 0, cref(d)).run(d)]


TOK = [b'<a href="mailto:', b'<a href="mailto:a@b.c">', b'a@b.c', b'"', b'>', b'<', b'</a>', b'<b>', b'&amp;', b'&', b';', b'&#x41;', b'&x', b'\xc3\xa9', b'x', b'href="mailto:', b'href="', b'mailto:', b'</a', b'<a href="http://x">', b'&#38', b'#', b'text', b'\n']


def cases(rng, size, hb, consts):
    al = [b'&', b';', b'#', b'a', b'Z', b'9', b' ', b'\xff', b'\x80', b'\x7f', b'\x01', b'amp;', b'"', b'<', b'/', b'@']
    for x in range(1, 256):
        for pre in (b'', b'&', b'a'):
            yield 'apex_encode_hex_entities', [pre + bytes([x])]
            yield 'apex_encode_hex_entities', [pre + bytes([x]) + b';']
        yield 'apex_obfuscate_email_links', [b'<a href="mailto:' + bytes([x]) + b'">' + bytes([x]) + b'</a>' + bytes([x])]
    for s in strings(rng, al, 1500 * size):
        if s:
            yield 'apex_encode_hex_entities', [s]
    for s in strings(rng, TOK, 4000 * size, 12):
        yield 'apex_obfuscate_email_links', [s]
    for n in (1, 2, 50, 500, 4000):
        yield 'apex_obfuscate_email_links', [b'<a href="mailto:' + b'x' * n + b'">' + b'y' * n + b'</a>' + b'z' * n]
        yield 'apex_obfuscate_email_links', [b'<a href="mailto:a">b</a>' * n]


R.concrete('apex_mail', cases, oracle, bound='every byte as address, text and after "&"; all pages of two fragments out of 24, random pages up to 48 fragments, addresses up to 4000 bytes')
