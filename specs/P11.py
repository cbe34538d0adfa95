"""P11: metadata transforms."""
from vc.api import *
R = Registry()
F = 'src/extensions/metadata.c'
TR, CHAIN = 'apply_transform', 'apply_transform_chain'
ASSUME = ['sscanf: any conversion count and any numbers; a %63s conversion yields 1 to 63 bytes', 'isalnum, toupper etc. as in the C locale']
LONGMIN, LONGMAX = -(1 << 63), (1 << 63) - 1


def setup(e, name, options=True):
    """value and options are arbitrary strings, no array yet"""
    st = State()
    v = e.cstring(st, 'value')
    n = e.strlit(st, {'value': '"%s"' % name})
    o = e.cstring(st, 'options') if options else NULL
    st.mem['arrp'] = Block('cell', cells={(): (NULL, e.tu.parse('apex_string_array *'))}, name='arrp')
    st.mem['isarr'] = Block('cell', cells={(): (0, e.tu.parse('_Bool'))}, name='isarr')
    e.roots |= {'arrp', 'isarr'}
    e.uterms.append(st.mem['value'].L)
    return st, [n, o, v, Ptr('arrp'), Ptr('isarr')]


def null_ok(e, s, v, nm):
    if isinstance(v, Ptr) and v.blk is None:
        e.prove(s, bool(s.ghost.get('oom')), nm + ':null-only-when-out-of-memory')
        return True
    return False


def post(e, s, v, n, f, nm):
    if not null_ok(e, s, v, nm):
        post_equal_fn(e, s, v, n, f, nm)
        e.prove(s, eq(s.mem['isarr'].cells[()][0], 0), nm + ':the-result-is-one-string')


def task(name, options=(True, False), budget=300):
    def d(f):
        for o in options:
            def run(e, o=o):
                nm = '%s(%s%s)' % (TR, name, '' if o else ', no options')
                st, a = setup(e, name, o)
                f(e, st, a, nm)
            R.task(F, TR, budget)(run)
        return f
    return d


def bytemap(e, f):
    """candidates: the first w bytes of a block are f(t)"""
    def c(L, h, M, U, blocks, put, s0):
        for k in blocks:
            for a in M:
                if a.kind in ('off', 'int') and not (a.kind == 'off' and a.tgt not in (k, 'value')):
                    L.put_forall(put, 'mapped %s<%s' % (k, a.nice()), k, lambda s, a=a: (0, a.get(s)), lambda s, t: f(t), xtrigs=lambda s: s.mem['value'].content.trigs())
    e.usercands.append(c)


def mapped(name, fn, flag=None):
    @task(name)
    def _(e, st, a, nm):
        b = st.mem['value']
        rd = b.content.read
        bytemap(e, lambda t: fn(rd, t))
        if flag:
            def c(L, h, M, U, blocks, put, s0):
                for v in M:
                    for i in M:
                        if v.kind == 'int' and i.kind in ('off', 'int') and i is not v:
                            put('%s flag of %s' % (v.nice(), i.nice()), lambda s, v=v, i=i: eq(v.get(s), asint(flag(rd, i.get(s)))))
            e.usercands.append(c)
        for s, v in e.run(st, TR, a):
            post(e, s, v, b.L, lambda k: fn(rd, k), nm)


mapped('upper', lambda rd, t: upper(rd(t)))
mapped('lower', lambda rd, t: lower(rd(t)))
start = lambda rd, t: Or(eq(t, 0), is_space(rd(sub(t, 1))))
mapped('title', lambda rd, t: ite(start(rd, t), upper(rd(t)), lower(rd(t))), start)
mapped('capitalize', lambda rd, t: ite(eq(t, 0), upper(rd(t)), rd(t)))
mapped('no-such-transform', lambda rd, t: rd(t))


@task('reverse')
def _(e, st, a, nm):
    b = st.mem['value']
    f = lambda k: b.content.read(sub(sub(b.L, 1), k))
    bytemap(e, f)
    for s, v in e.run(st, TR, a):
        post(e, s, v, b.L, f, nm)


def dec(v):
    return [add(48, mod(floordiv(v, 10), 10))]


def escape():
    def num(c):
        d = lambda q: add(48, mod(floordiv(c, q), 10))
        return [(lt(c, 10), [38, 35, d(1), 59]), (lt(c, 100), [38, 35, d(10), d(1), 59]), (True, [38, 35, d(100), d(10), d(1), 59])]
    return Transducer('escape', lambda s, c, rd, t: [(eq(c, 38), list(b'&amp;')), (eq(c, 60), list(b'&lt;')), (eq(c, 62), list(b'&gt;')), (eq(c, 34), list(b'&quot;')), (eq(c, 39), list(b'&#39;')),
                                                     (And(ge(c, 32), ne(c, 127)), [c])] + num(c))


def urlencode():
    ok = lambda c: Or(is_alnum(c), inset(c, b'-_.~'))
    return Transducer('urlencode', lambda s, c, rd, t: [(ok(c), [c]), (True, [37, hexdig(floordiv(c, 16), True), hexdig(mod(c, 16), True)])])


def xval(c):
    return ite(is_digit(c), sub(c, 48), ite(ge(c, 97), sub(c, 87), sub(c, 55)))


def urldecode():
    """state: digits of an escape still to be skipped"""
    esc = lambda c, rd: And(eq(c, 37), is_xdigit(rd(1)), is_xdigit(rd(2)))

    def out(st, c, rd, t):
        return [(gt(st[0], 0), []), (esc(c, rd), [add(mul(16, xval(rd(1))), xval(rd(2)))]), (eq(c, 43), [32]), (True, [c])]

    def delta(st, c, rd, t):
        return (ite(gt(st[0], 0), sub(st[0], 1), ite(esc(c, rd), 2, 0)),)
    return Transducer('urldecode', out, 1, (0,), delta)


def slug():
    """state: the last byte written is a dash"""
    sp = lambda c: Or(is_space(c), eq(c, 95))

    def out(st, c, rd, t):
        return [(is_alnum(c), [lower(c)]), (And(sp(c), eq(st[0], 0)), [45]), (True, [])]

    def delta(st, c, rd, t):
        return (ite(is_alnum(c), 0, ite(sp(c), 1, st[0])),)
    return Transducer('slug', out, 1, (0,), delta)


def streamed(name, mk, nonzero=True):
    @task(name)
    def _(e, st, a, nm):
        b = st.mem['value']
        T = mk().bind(e, b.content.read, b.L, 'value')
        if nonzero:
            T.nonzero(st)
        e.hints.append(T)
        for s, v in e.run(st, TR, a):
            if not null_ok(e, s, v, nm):
                post_string(e, s, v, T, nm)


streamed('escape', escape)
streamed('html_escape', escape)
streamed('urlencode', urlencode)


@task('urldecode')
def _(e, st, a, nm):
    b = st.mem['value']
    T = urldecode().bind(e, b.content.read, b.L, 'value')
    e.hints.append(T)

    def strtoul(e, s, a, node):
        p = e.as_ptr(s, a[0])
        c = s.mem[p.blk].content
        x, y, z = (c.read(add(p.off, k)) for k in range(3))
        e.oblige(s, And(is_xdigit(x), is_xdigit(y), eq(z, 0), eq(a[2], 16)), 'two-hexadecimal-digits', node)
        return [(s, add(mul(16, xval(x)), xval(y)))]
    e.contracts['strtoul'] = e.contracts['strtol'] = strtoul
    for s, v in e.run(st, TR, a):
        if not null_ok(e, s, v, nm):
            post_string(e, s, v, T, nm)


for name in ('slug', 'slugify'):
    @task(name)
    def _(e, st, a, nm):
        b = st.mem['value']
        T = slug().bind(e, b.content.read, b.L, 'value').nonzero(st)
        e.hints.append(T)
        N = T.pos(b.L)
        E = e.fresh('slugend', 0, None, st)      # end of the text without the trailing dashes
        st.assume(And(le(E, N), Or(eq(E, 0), ne(T.out(sub(E, 1)), 45))))
        st.pc.append(Forall([(T.S, (), 0)], lambda k: Implies(And(ge(k, E), lt(k, N)), eq(T.out(k), 45)), 'trailing'))
        e.uterms.append(E)

        def c(L, h, M, U, blocks, put, s0):
            for i in M:
                if i.kind in ('off', 'int') and i.ty.bits > 8:
                    put('%s trim' % i.nice(), lambda s, i=i: ge(i.get(s), E))
        e.usercands.append(c)
        for s, v in e.run(st, TR, a):
            post(e, s, v, E, T.out, nm)


@task('trim')
def _(e, st, a, nm):
    b = st.mem['value']
    rd = b.content.read
    A, E = e.fresh('first', 0, None, st), e.fresh('last', 0, None, st)
    st.assume(And(le(A, b.L), Or(And(eq(A, b.L), eq(E, A)), And(lt(A, E), le(E, b.L), Not(is_space(rd(A))), Not(is_space(rd(sub(E, 1))))))))
    st.pc.append(Forall(b.content.trigs(), lambda k: Implies(And(ge(k, 0), lt(k, b.L), Or(lt(k, A), ge(k, E))), is_space(rd(k))), 'outer'))
    e.uterms.extend([A, E])
    scans(e, is_space, blocks=['value'])

    def c(L, h, M, U, blocks, put, s0):
        for i in M:
            if i.kind in ('off', 'int') and i.ty.bits > 8:
                put('%s before' % i.nice(), lambda s, i=i: le(i.get(s), A))
                for d in (0, 1):
                    put('%s after%d' % (i.nice(), d), lambda s, i=i, d=d: ge(add(i.get(s), d), E))
    e.usercands.append(c)
    for s, v in e.run(st, TR, a):
        post(e, s, v, sub(E, A), lambda k: rd(add(A, k)), nm)


@task('default')
def _(e, st, a, nm):
    b = st.mem['value']
    o = st.mem.get('options')
    n, f = (o.L, o.content.read) if o else (0, lambda k: 0)
    for s, v in e.run(st, TR, a):
        post(e, s, v, ite(eq(b.L, 0), n, b.L), lambda k: ite(eq(b.L, 0), f(k), b.content.read(k)), nm)


@task('basename')
def _(e, st, a, nm):
    b = st.mem['value']
    rd = b.content.read
    A = e.fresh('afterslash', 0, None, st)
    st.assume(And(le(A, b.L), Or(eq(A, 0), eq(rd(sub(A, 1)), 47))))
    st.pc.append(Forall(b.content.trigs(), lambda k: Implies(And(ge(k, A), lt(k, b.L)), ne(rd(k), 47)), 'noslash'))
    e.uterms.append(A)
    for s, v in e.run(st, TR, a):
        post(e, s, v, sub(b.L, A), lambda k: rd(add(A, k)), nm)


def joined(name, order):
    @task(name)
    def _(e, st, a, nm):
        names = [x for x in order if x in st.mem]
        n, f = pieces(*[blkstr(st, x) for x in names])
        for s, v in e.run(st, TR, a):
            post(e, s, v, n, f, nm)


joined('prefix', ('options', 'value'))
joined('suffix', ('value', 'options'))


def numbers(e, st, second):
    """what the options hold: G conversions succeed, the first number is X, the second thing Y"""
    G, X = e.fresh('given', -1, 2, st), e.fresh('X', LONGMIN, LONGMAX, st)
    Y = e.fresh('Y', LONGMIN, LONGMAX, st) if second == b'ld' else e.fresh('Y', 1, 255, st)
    if second == b'63s':
        w = e.cstring(st, 'word', 1, 63)
    e.uterms.extend([X, Y])

    def sscanf(e, s, a, node):
        p = e.as_ptr(s, a[0])
        e.oblige(s, p.blk == 'options' and same(p.off, 0), 'reads-the-options', node)
        fmt = libc.litbytes(e, s, e.as_ptr(s, a[1]))
        if fmt not in (b'%ld', b'%ld,%' + second):
            raise Unsupported('sscanf %r' % fmt)
        out = []
        k = 2 if b',' in fmt else 1
        for g in (-1, 0, 1, 2):
            t = s.copy().assume(eq(G, g))
            if not e.feasible(t):
                continue
            ts = [t]
            if g >= 1:
                ts = [x for t in ts for x, _ in e.store(t, a[2], e.tu.parse('long'), X, node)]
            if g == 2 and k == 2:
                if second == b'ld':
                    ts = [x for t in ts for x, _ in e.store(t, a[3], e.tu.parse('long'), Y, node)]
                elif second == b'c':
                    ts = [x for t in ts for x, _ in e.store(t, a[3], CHAR, ite(ge(Y, 128), sub(Y, 256), Y), node)]
                else:
                    ts = [x for t in ts for x, _ in libc.MODELS['strcpy'](e, t, [a[3], w], node)]
            out += [(t, min(g, k)) for t in ts]
        return out
    e.contracts['sscanf'] = sscanf
    return G, X, Y


for name in ('substring', 'substr'):
    @task(name)
    def _(e, st, a, nm):
        b = st.mem['value']
        L, rd = b.L, b.content.read
        G, X, Y = numbers(e, st, b'ld')
        lo = ite(lt(X, 0), ite(lt(add(L, X), 0), 0, add(L, X)), ite(gt(X, L), L, X))
        hi = ite(lt(G, 2), L, ite(lt(Y, 0), ite(lt(add(L, Y), 0), L, add(L, Y)), ite(gt(Y, L), L, Y)))
        whole = Or('options' not in st.mem, lt(G, 1))
        lo, hi = ite(whole, 0, lo), ite(whole, L, hi)
        for s, v in e.run(st, TR, a):
            post(e, s, v, ite(gt(lo, hi), 0, sub(hi, lo)), lambda k: rd(add(lo, k)), nm)


@task('truncate')
def _(e, st, a, nm):
    b = st.mem['value']
    L, rd = b.L, b.content.read
    G, X, Y = numbers(e, st, b'63s')
    w = st.mem['word']
    whole = Or('options' not in st.mem, lt(G, 1), And(ge(X, 0), le(L, X)), eq(L, 0))
    m = ite(lt(X, 0), 0, X)
    sl = ite(eq(G, 2), w.L, 0)
    keep = ite(whole, L, ite(gt(m, sl), sub(m, sl), m))
    for s, v in e.run(st, TR, a):
        n, f = pieces((rd, keep), (w.content.read, ite(whole, 0, sl)))
        post(e, s, v, n, f, nm)


@task('pad')
def _(e, st, a, nm):
    b = st.mem['value']
    L, rd = b.L, b.content.read
    G, X, Y = numbers(e, st, b'c')
    n = ite(Or('options' not in st.mem, lt(G, 1), le(X, L)), 0, sub(X, L))
    c = ite(eq(G, 2), Y, 32)
    n, f = pieces((lambda k: c, n), (rd, L))
    for s, v in e.run(st, TR, a):
        post(e, s, v, n, f, nm)


@task('length')
def _(e, st, a, nm):
    b = st.mem['value']
    for s, v in e.run(st, TR, a):
        c, off, n = e.dec_piece(s, b.L)
        post(e, s, v, n, lambda k: c.read(add(off, k)), nm)


@task('contains')
def _(e, st, a, nm):
    H = z3.Bool('holds')

    def strstr(e, s, a, node):
        p, q = (e.as_ptr(s, x) for x in a)
        e.oblige(s, p.blk == 'value' and same(p.off, 0) and q.blk == 'options' and same(q.off, 0), 'looks-for-the-options-in-the-value', node)
        t, f = e.split(s, H)
        return [(t, Ptr('value', e.fresh('at', 0, None, t)))] * (t is not None) + [(f, NULL)] * (f is not None)
    e.contracts['strstr'] = strstr
    yes = And('options' in st.mem, H)
    (rt, nt), (rf, nf) = lit('true'), lit('false')
    for s, v in e.run(st, TR, a):
        post(e, s, v, ite(yes, nt, nf), lambda k: ite(yes, rt(k), rf(k)), nm)


@task('remove')
def _(e, st, a, nm):
    b = st.mem['value']
    L, rd = b.L, b.content.read
    o = st.mem.get('options')
    HIT = z3.Function('occurs', z3.IntSort(), z3.BoolSort())
    n = o.L if o else 0
    e.schemas['occurs'] = [lambda a: [Implies(a, And(ge(a.arg(0), 0), le(add(a.arg(0), n), L)))]]

    def strncmp(e, s, a, node):
        p, q = e.as_ptr(s, a[0]), e.as_ptr(s, a[1])
        if q.blk == 'value':
            p, q = q, p
        if p.blk != 'value' or q.blk != 'options':
            return libc.MODELS['strncmp'](e, s, a, node)
        e.oblige(s, And(ge(p.off, 0), le(p.off, L), eq(q.off, 0), eq(a[2], n)), 'compares-with-the-whole-of-the-options', node)
        x = e.fresh('cmp')
        return [(s, ite(HIT(Z(norm(p.off))), 0, ite(ge(x, 0), add(x, 1), x)))]
    e.contracts['strncmp'] = e.contracts['memcmp'] = strncmp
    hit = lambda v: And(gt(n, 0), HIT(Z(norm(v))))
    T = Segments('removed', e, 'value', lambda v: ge(v, L), lambda v: [(ite(Or(hit(v), ge(v, L)), 0, 1), lambda k: rd(v))], lambda v: add(v, ite(hit(v), n, 1))).begin(st)
    plain = Or(o is None, eq(n, 0))
    e.hints.append(T)

    def c(L_, h, M, U, blocks, put, s0):
        for w in M:
            for i in M:
                if w is not i and w.kind in ('off', 'int') and i.kind == 'off' and i.tgt == 'value':
                    put('%s behind %s' % (w.nice(), i.nice()), lambda s, w=w, i=i: le(w.get(s), i.get(s)))
    e.usercands.append(c)
    for s, v in e.run(st, TR, a):
        if null_ok(e, s, v, nm):
            continue
        t, f = e.split(s, plain)
        if t is not None:
            post(e, t, v, L, rd, nm + ':nothing-to-remove')
        if f is not None:
            T.post(f, v, nm)


@task('repeat')
def _(e, st, a, nm):
    b = st.mem['value']
    L, rd = b.L, b.content.read
    G, X, Y = numbers(e, st, b'ld')
    cnt = ite(Or('options' not in st.mem, lt(G, 1), le(X, 0)), 1, X)
    T = Segments('repeated', e, None, lambda v: ge(v, cnt), lambda v: [(ite(lt(v, cnt), L, 0), rd)], lambda v: add(v, 1)).begin(st)
    # the length of the first v copies is v * L (induction)
    s = st.copy()
    v = e.fresh('lv', 0, None, s)
    s.assume(And(lt(v, cnt), T.seg(v), eq(T.pos(v), mul(v, L))))
    T.defs(s, v)
    e.prove(s, eq(T.pos(add(v, 1)), mul(add(v, 1), L)), nm + ':lemma:length')
    st.assume(eq(T.N, mul(cnt, L)))
    e.hints.append(T)
    for s, v in e.run(st, TR, a):
        if not null_ok(e, s, v, nm):
            T.post(s, v, nm)


def array(e, st):
    """the value is already an array of n strings"""
    n = e.fresh('n', 0, MAXLEN, st)
    p, fam = e.string_array(st, 'items', n, False)
    st.mem['arr'] = Block('cell', cells={('items',): (p, e.tu.parse('char **')), ('count',): (n, e.tu.parse('size_t')), ('capacity',): (n, e.tu.parse('size_t'))}, name='arr')
    st.mem['arrp'] = st.mem['arrp'].but(cells={(): (Ptr('arr'), e.tu.parse('apex_string_array *'))})
    st.mem['isarr'] = st.mem['isarr'].but(cells={(): (1, e.tu.parse('_Bool'))})
    e.roots |= {'arr', 'items'}
    return n, fam


def splitter(e, st, delim, fail=True):
    """contract of split_string: a fresh array of n strings, or nothing"""
    n = e.fresh('n', 0, MAXLEN, st)
    p, fam = e.string_array(st, 'items', n, False)
    st.mem['arr'] = Block('cell', cells={('items',): (p, e.tu.parse('char **')), ('count',): (n, e.tu.parse('size_t')), ('capacity',): (n, e.tu.parse('size_t'))}, name='arr')

    def f(e, s, a, node):
        q = e.as_ptr(s, a[0])
        e.oblige(s, q.blk == 'value' and same(q.off, 0), 'splits-the-value', node)
        e.oblige(s, delim(s, e.as_ptr(s, a[1])), 'splits-at-the-delimiter', node)
        t = s.copy()
        t.ghost['oom'] = True
        return [(s, Ptr('arr')), (t, NULL)]
    e.contracts['split_string'] = f
    e.contracts['free_string_array'] = lambda e, s, a, node: [(s, None)]
    return n, fam


def first(e, st, n, fam, at):
    return ite(eq(n, 0), 0, fam[1](Z(at))), lambda k: fam[0](Z(at), Z(norm(k)))


def arrtask(name, split, options=(True, False), after=0):
    def d(f):
        for o in options:
            for arr in (True, False) if split else (True,):
                def run(e, o=o, arr=arr):
                    nm = '%s(%s%s%s)' % (TR, name, '' if o else ', no options', ' of an array' if arr else '')
                    st, a = setup(e, name, o)
                    n, fam = array(e, st) if arr else splitter(e, st, lambda s, p: libc.litbytes(e, s, p) == b',')
                    f(e, st, a, nm, n, fam)
                R.task(F, TR)(run)
        return f
    return d


def post_arr(e, s, v, n, f, nm, after=0):
    if not null_ok(e, s, v, nm):
        post_equal_fn(e, s, v, n, f, nm)
        e.prove(s, eq(asint(s.mem['isarr'].cells[()][0]), after), nm + (':still-an-array' if after else ':the-result-is-one-string'))


@arrtask('first', True)
def _(e, st, a, nm, n, fam):
    m, f = first(e, st, n, fam, 0)
    for s, v in e.run(st, TR, a):
        post_arr(e, s, v, m, f, nm)


@arrtask('last', True)
def _(e, st, a, nm, n, fam):
    m, f = first(e, st, n, fam, norm(sub(n, 1)))
    for s, v in e.run(st, TR, a):
        post_arr(e, s, v, m, f, nm)


def join(e, st, nm, a, n, fam, dr, dn):
    T = Segments('joined', e, None, lambda v: ge(v, n), lambda v: [(ite(lt(v, n), fam[1](Z(norm(v))), 0), lambda k: fam[0](Z(norm(v)), Z(norm(k)))), (ite(lt(add(v, 1), n), dn, 0), dr)], lambda v: add(v, 1)).begin(st)
    T.defs(st, 0)
    T.defs(st, 1)
    e.hints.append(T)
    for s, v in e.run(st, TR, a):
        if not null_ok(e, s, v, nm):
            T.post(s, v, nm)
            e.prove(s, eq(asint(s.mem['isarr'].cells[()][0]), 0), nm + ':the-result-is-one-string')


@arrtask('join', True)
def _(e, st, a, nm, n, fam):
    o = st.mem.get('options')
    r, m = lit(', ')
    given = And(o is not None, gt(o.L, 0) if o else False)
    join(e, st, nm, a, n, fam, lambda k: ite(given, o.content.read(k), r(k)) if o else r(k), ite(given, o.L, m) if o else m)


@arrtask('no-such-transform', False, (True,))
def _(e, st, a, nm, n, fam):
    r, m = lit(', ')
    join(e, st, nm, a, n, fam, r, m)


def splittask(o, arr):
    def run(e):
        nm = '%s(split%s%s)' % (TR, '' if o else ', no options', ' of an array' if arr else '')
        st, a = setup(e, 'split', o)
        ob = st.mem.get('options')

        def delim(s, p):
            if libc.litbytes(e, s, p) == b' ':
                return eq(ob.L, 0) if ob else True
            return And(p.blk == 'options', eq(p.off, 0), gt(ob.L, 0)) if ob and p.blk == 'options' else False
        n, fam = splitter(e, st, delim)
        if arr:
            st.mem['old'] = Block('cell', cells={}, name='old')
            st.mem['arrp'] = st.mem['arrp'].but(cells={(): (Ptr('old'), e.tu.parse('apex_string_array *'))})
            e.contracts['free_string_array'] = lambda e, s, a, node: (e.oblige(s, e.as_ptr(s, a[0]).blk == 'old', 'releases-the-old-array', node), [(s, None)])[1]
        m, f = first(e, st, n, fam, 0)
        for s, v in e.run(st, TR, a):
            post_arr(e, s, v, m, f, nm, 1)
            if isinstance(v, Ptr) and v.blk is not None:
                e.prove(s, e.as_ptr(s, s.mem['arrp'].cells[()][0]).blk == 'arr', nm + ':the-array-is-the-split')
    R.task(F, TR)(run)


for o in (True, False):
    for arr in (True, False):
        splittask(o, arr)


def parts(e, st):
    """options = OLD,NEW: C = position of the first comma (the length if there is none)"""
    o = st.mem['options']
    C = e.fresh('comma', 0, None, st)
    st.assume(And(le(C, o.L), Or(eq(C, o.L), eq(o.content.read(C), 44))))
    st.pc.append(Forall(o.content.trigs(), lambda k: Implies(And(ge(k, 0), lt(k, C)), ne(o.content.read(k), 44)), 'nocomma'))
    e.uterms.append(C)
    return o, C


@task('replace')
def _(e, st, a, nm):
    b = st.mem['value']
    L, rd = b.L, b.content.read
    if 'options' not in st.mem:
        for s, v in e.run(st, TR, a):
            post(e, s, v, L, rd, nm)
        return
    o, C = parts(e, st)
    ord_ = o.content.read
    st.assume(Not(And(*[eq(ord_(k), c) for k, c in enumerate(b'regex:')])))
    I = z3.IntSort()
    NX = z3.Function('nexthit', I, I)
    RANGED_DECLS['nexthit'] = (-1, None)
    e.schemas['nexthit'] = [lambda x: [x >= -1, Or(eq(x, -1), And(ge(x, x.arg(0)), le(add(x, C), L)))]]
    nx = lambda v: NX(Z(norm(v)))
    plain = Or(eq(C, 0), eq(C, o.L))
    new = sub(sub(o.L, C), 1)
    d = sub(new, C)
    end = lambda v: eq(nx(v), -1)
    CNT = z3.Function('replacements', I, I)
    TOT = z3.Int('total!replacements')
    cnt = lambda v: CNT(Z(norm(v)))
    nxt = lambda v: add(nx(v), C)
    inv = lambda v: And(eq(T.pos(v), add(v, mul(cnt(v), d))), ge(cnt(v), 0), Implies(eq(cnt(v), 0), eq(v, 0)), ge(v, 0), le(v, L), le(cnt(v), v))
    count = lambda v: And(Implies(Not(end(v)), eq(cnt(nxt(v)), add(cnt(v), 1))), Implies(end(v), eq(TOT, cnt(v))))

    def facts(v):
        g = T.seg(v)
        return [Implies(g, inv(v)), Implies(And(g, Not(end(v))), inv(nxt(v))), Implies(g, count(v)), Implies(g, le(cnt(v), TOT))], []
    T = Segments('replaced', e, 'value', end, lambda v: [(ite(end(v), sub(L, v), sub(nx(v), v)), lambda k: rd(add(v, k))), (ite(end(v), 0, new), lambda k: ord_(add(add(C, 1), k)))], nxt)
    # lemma: the facts hold at the first segment and carry over to the next
    s = st.copy().assume(And(Not(plain), eq(T.pos(0), 0), eq(cnt(0), 0)))
    e.prove(s, inv(0), nm + ':lemma:length:base')
    s = st.copy().assume(Not(plain))
    v = e.fresh('lv', 0, None, s)
    s.assume(And(T.seg(v), inv(v), count(v), Not(end(v))))
    T.defs(s, v)
    e.prove(s, inv(nxt(v)), nm + ':lemma:length:step')
    T.facts = facts
    st.assume(eq(cnt(0), 0))
    st.assume(Implies(Not(plain), And(eq(T.N, add(L, mul(TOT, d))), ge(TOT, 0), le(TOT, L))))     # inv and count at the last segment
    from specs.P10 import slice_of

    def strstr(e, s, a, node):
        p, q = e.as_ptr(s, a[0]), e.as_ptr(s, a[1])
        e.oblige(s, p.blk == 'value', 'searches-the-value', node)
        e.oblige(s, And(ge(p.off, 0), le(p.off, L)), 'search-in-bounds', node)
        sl = slice_of(e, s, q, 'options', node)
        e.oblige(s, sl is not None and And(eq(sl[0], 0), eq(sl[1], C)), 'searches-for-the-first-part-of-the-options', node)
        n, y = e.split(s, eq(nx(p.off), -1))
        return [(y, Ptr('value', nx(p.off)))] * (y is not None) + [(n, NULL)] * (n is not None)
    e.contracts['strstr'] = strstr

    def c(L_, h, M, U, blocks, put, s0):
        for w in M:
            for i in M:
                if w is not i and w.kind == 'int' and i.kind == 'off' and i.tgt == 'value':
                    put('%s counts %s' % (w.nice(), i.nice()), lambda s, w=w, i=i: eq(w.get(s), cnt(i.get(s))))
    e.usercands.append(c)
    p, q = e.split(st, plain)
    for s, v in e.run(p, TR, a):
        post(e, s, v, L, rd, nm + ':nothing-to-replace')
    e.hints.append(T)
    T.begin(q)
    for s, v in e.run(q, TR, a):
        if null_ok(e, s, v, nm):
            continue
        if s.ghost.get('oom'):
            post(e, s, v, L, rd, nm + ':out-of-memory')
        else:
            T.post(s, v, nm)


def opaque_text(e, s, dst, size, node):
    """an arbitrary string of fewer than size bytes is written to dst"""
    c = e.cstring(s, 'written', 0, size - 1) if 'written' not in s.mem else Ptr('written', 0)
    return libc.MODELS['strcpy'](e, s, [dst, c], node)


@task('format')
def _(e, st, a, nm):
    b = st.mem['value']
    OK = z3.Bool('numberformat')
    W = z3.Int('formatted')
    def isfmt(e, s, a, node):
        p = e.as_ptr(s, a[0])
        e.oblige(s, p.blk == 'options' and same(p.off, 0), 'checks-the-options', node)
        return [(s, OK)]

    def sscanf(e, s, a, node):
        return [(s, e.fresh('conv', -1, 1, s))]

    def snprintf(e, s, a, node):
        f = e.as_ptr(s, a[2])
        if f.blk != 'options':
            return libc.MODELS['snprintf'](e, s, a, node)
        e.oblige(s, And(same(f.off, 0), OK), 'only-a-number-format-reaches-printf', node)
        e.oblige(s, le(a[1], 256), 'within-the-buffer', node)
        n = e.fresh('formatted', -1, (1 << 31) - 1, s)
        return [(x, n) for x, _ in opaque_text(e, s, a[0], 256, node)]
    e.contracts.update(is_number_format=isfmt, sscanf=sscanf, snprintf=snprintf)
    for s, v in e.run(st, TR, a):
        if null_ok(e, s, v, nm):
            continue
        w = s.mem.get('written')
        r = s.mem[v.blk].content.read(add(v.off, 0))
        k = z3.Int('k!post')
        s2 = s.copy().assume(And(ge(k, 0), lt(k, b.L)))
        orig = And(e.proves(s, eq(s.mem[v.blk].L, b.L)), e.proves(s2, eq(s.mem[v.blk].content.read(add(v.off, k)), b.content.read(k))))
        if orig is True:
            post(e, s, v, b.L, b.content.read, nm + ':unchanged')
        else:
            e.prove(s, w is not None, nm + ':formatted')
            if w is not None:
                post(e, s, v, w.L, w.content.read, nm + ':formatted')


@R.task(F, CHAIN)
def _(e):
    nm = CHAIN
    st = State()
    e.keepalive = []
    e.alloc_may_fail = False
    I = z3.IntSort()
    e.handlefam = e.family('str')
    n = e.fresh('n', 1, MAXLEN, st)
    NAME, OPT, VAL, ARR = (z3.Function(x, I, I) for x in ('name_of', 'options_of', 'value_before', 'array_before'))
    FAIL = z3.Function('fails', I, z3.BoolSort())
    ISA = z3.Function('is_array_before', I, z3.BoolSort())
    for f, lo in (('name_of', 1), ('options_of', 0), ('value_before', 1), ('array_before', 0)):
        e.schemas[f] = [lambda a, lo=lo: [a >= lo]]
        RANGED_DECLS[f] = (lo, None)

    class Steps:
        name = 'transforms'

        def __init__(self):
            self.n = n

        def load(self, e, st, idx, f, ty):
            if f == 'next':
                return [(st, Chain(self, add(idx, 1)))]
            return [(st, norm({'name': NAME, 'options': OPT}[f](Z(idx))))]

        def store(self, *a):
            raise Unsupported('store into the chain')
    G = e.fresh('firstfailure', 0, None, st)
    st.assume(And(le(G, n), Or(eq(G, n), FAIL(Z(G)))))
    st.assume(Forall([(NAME, (), 0), (VAL, (), 0)], lambda j: Implies(And(ge(j, 0), lt(j, G)), Not(FAIL(Z(j)))), 'no failure before'))
    e.uterms.append(G)

    def step(e, s, a, node):
        x = a[0]
        ok = isinstance(x, z3.ExprRef) and x.decl().name() == 'name_of'
        e.oblige(s, ok, 'applies-a-transform-of-the-chain', node)
        if not ok:
            return []
        i = x.arg(0)
        e.oblige(s, And(eq(a[1], OPT(i)), eq(a[2], VAL(i))), 'applied-to-the-result-so-far', node)
        out = []
        t, f = e.split(s, FAIL(i))
        j = Z(norm(add(i, 1)))
        for q, r in ((t, NULL), (f, VAL(j))):
            if q is not None:
                for q2, _ in e.store(q, a[3], Ty('ptr', of=CHAR), ARR(j) if r is not NULL else e.fresh('arr', 0, None, q), node):
                    out += [(q3, r) for q3, _ in e.store(q2, a[4], e.tu.parse('_Bool'), ISA(j), node)]
        return out

    def dup(e, s, a, node):
        if not isinstance(a[0], z3.ExprRef):
            return libc.MODELS['strdup'](e, s, a, node)
        e.oblige(s, ne(a[0], 0), 'null-string', node)
        return [(s, a[0])]
    e.contracts.update(apply_transform=step, strdup=dup, free=lambda e, s, a, node: [(s, None)], free_string_array=lambda e, s, a, node: [(s, None)])

    def cands(L, h, M, U, blocks, put, s0):
        for a in M:
            if a.kind == 'idx':
                put('%s<=fail' % a.nice(), lambda s, a=a: le(a.get(s), G))
                for b in L.handles(h):
                    put('%s val %s' % (a.nice(), b.nice()), lambda s, a=a, b=b: eq(b.get(s), VAL(Z(norm(a.get(s))))))
    e.usercands.append(cands)
    V = VAL(Z(0))
    st.assume(V >= 1)
    for s, v in e.run(st, nm, [V, Chain(Steps(), 0)]):
        e.prove(s, eq(v, ite(lt(G, n), V, VAL(n))), nm + ':every-step-in-order-or-the-original')
        e.cover(s, nm)


NF = 'is_number_format'


def numfmt():
    """one floating-point conversion. state: 0 text, 1 after % (flags), 2 width, 3 precision, 4 refused; conversions seen (at most 2)"""
    def delta(st, c, rd, t):
        q, n = st
        conv = inset(c, b'aAeEfFgG')
        fin = ite(conv, 0, 4)
        nq = ite(eq(q, 0), ite(eq(c, 37), 1, 0),
                 ite(eq(q, 5), ite(eq(c, 37), 0, ite(inset(c, b'-+ #0'), 1, ite(is_digit(c), 2, ite(eq(c, 46), 3, fin)))),
                     ite(eq(q, 1), ite(inset(c, b'-+ #0'), 1, ite(is_digit(c), 2, ite(eq(c, 46), 3, fin))),
                         ite(eq(q, 2), ite(is_digit(c), 2, ite(eq(c, 46), 3, fin)),
                             ite(eq(q, 3), ite(is_digit(c), 3, fin), 4)))))
        nq = ite(And(eq(q, 0), eq(c, 37)), 5, nq)
        done = And(Or(eq(q, 1), eq(q, 5), eq(q, 2), eq(q, 3)), conv)
        return (nq, ite(And(done, lt(n, 2)), add(n, 1), n))
    return Transducer('nf', lambda st, c, rd, t: [(True, [])], 2, (0, 0), delta)


@R.task(F, NF)
def _(e):
    st = State()
    p = e.cstring(st, 'fmt')
    b = st.mem['fmt']
    T = numfmt().bind(e, b.content.read, b.L, 'fmt')
    T.lemma('range', lambda t: And(ge(T.st(t)[0], 0), le(T.st(t)[0], 5), ge(T.st(t)[1], 0), le(T.st(t)[1], 2)), st)
    e.hints.append(T)
    # once refused, always refused; conversions never decrease (seen from any position to the end)
    REF, TWO = e.fresh('refusedat', 0, None, st), None
    st.assume(And(le(REF, add(b.L, 1)), Implies(le(REF, b.L), eq(T.st(REF)[0], 4))))
    st.pc.append(Forall([(T.ST[0], (), 0)], lambda k: Implies(And(ge(k, 0), le(k, b.L)), Iff(ge(k, REF), eq(T.st(k)[0], 4))), 'refused'))
    e.uterms.append(REF)

    def c(L, h, M, U, blocks, put, s0):
        for i in M:
            if i.kind == 'off' and i.tgt == 'fmt':
                put('%s not refused' % i.nice(), lambda s, i=i: lt(i.get(s), REF))
                for qs in ((0, 4), (1, 5), (2,), (1, 2, 5), (1, 2, 3, 5)):
                    put('%s in %s' % (i.nice(), qs), lambda s, i=i, qs=qs: Or(*[eq(T.st(i.get(s))[0], q) for q in qs]))
                for n in M + U:
                    if n.kind in ('int', 'const') and n is not i:
                        put('%s conversions at %s' % (n.nice(), i.nice()), lambda s, i=i, n=n: And(ge(n.get(s), 0), eq(T.st(i.get(s))[1], ite(gt(n.get(s), 2), 2, n.get(s)))))
                        put('%s at most %s' % (n.nice(), i.nice()), lambda s, i=i, n=n: le(n.get(s), i.get(s)))
    e.usercands.append(c)
    want = And(eq(T.st(b.L)[0], 0), eq(T.st(b.L)[1], 1))
    for s, v in e.run(st, NF, [p]):
        e.prove(s, Implies(asbool(v), want), NF + ':accepts-only-one-number-conversion-and-text')
        e.cover(s, NF)


# ---------------------------------------------------------------- concrete side
import re as _re
SP = b' \t\n\v\f\r'
LONG = _re.compile(rb'[ \t\n\v\f\r]*([+-]?\d+)')


def nums(o):
    """-> (numbers read, first, rest after the comma)"""
    m = LONG.match(o)
    if not m:
        return 0, 0, None
    x = max(LONGMIN, min(LONGMAX, int(m.group(1))))
    r = o[m.end():]
    return 1, x, r[1:] if r[:1] == b',' else None


def up(s):
    return bytes(c - 32 if 97 <= c <= 122 else c for c in s)


def lo(s):
    return bytes(c + 32 if 65 <= c <= 90 else c for c in s)


def alnum(c):
    return 48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122


def split_at(v, pat):
    try:
        rx = _re.compile(pat)
    except _re.error:
        return [t.strip(SP) for t in _re.split(b'[' + _re.escape(pat) + b']+', v) if t]      # not a regular expression: a set of delimiters
    out, pos = [], 0
    while True:
        m = rx.search(v, pos) if pos < len(v) else None
        if m is None or m.end() == pos:
            break
        t = v[pos:m.start()].strip(SP)
        if t:
            out.append(t)
        pos = m.end()
    t = v[pos:].strip(SP)
    if t:
        out.append(t)
    return out or [v]


NUMFMT = _re.compile(rb'(?:[^%]|%%)*%[-+ #0]*\d*(?:\.\d*)?[aAeEfFgG](?:[^%]|%%)*\Z', _re.S)


def one(name, o, v, arr):
    """-> (value, array or None)"""
    if name == b'split':
        arr = split_at(v, o or b' ')
        return arr[0] if arr else b'', arr
    if name in (b'join', b'first', b'last'):
        if arr is None:
            arr = split_at(v, b',')
        return {b'join': (o or b', ').join(arr), b'first': arr[0] if arr else b'', b'last': arr[-1] if arr else b''}[name], None
    if name == b'slice':
        if arr is None:
            arr = [v[i:i + 1] for i in range(len(v))]
        if o is None:
            return v, arr
        k, x, r = nums(o)
        if not k:
            return v, arr
        n = nums(r)[1] if r is not None and nums(r)[0] else -1
        x = max(x, 0)
        if x >= len(arr):
            return b'', arr
        arr = arr[x:] if n < 0 else arr[x:x + n]
        return b''.join(arr), arr
    if arr is not None:
        v = b', '.join(arr)
    return text(name, o, v), None


def text(name, o, v):
    if name == b'upper':
        return up(v)
    if name == b'lower':
        return lo(v)
    if name == b'trim':
        return v.strip(SP)
    if name == b'title':
        return b''.join((up if i == 0 or v[i - 1] in SP else lo)(v[i:i + 1]) for i in range(len(v)))
    if name == b'capitalize':
        return up(v[:1]) + v[1:]
    if name in (b'slug', b'slugify'):
        out = bytearray()
        dash = False
        for c in v:
            if alnum(c):
                out += lo(bytes([c]))
                dash = False
            elif (c in SP or c == 95) and not dash:
                out.append(45)
                dash = True
        return bytes(out).rstrip(b'-')
    if name in (b'escape', b'html_escape'):
        return escape().run(v)
    if name == b'urlencode':
        return urlencode().run(v)
    if name == b'urldecode':
        return urldecode().run(v).split(b'\0')[0]
    if name == b'default':
        return v or (o or b'')
    if name == b'basename':
        return v.split(b'/')[-1]
    if name == b'length':
        return str(len(v)).encode()
    if name == b'reverse':
        return v[::-1]
    if name == b'contains':
        return b'true' if o is not None and o in v else b'false'
    if o is None:
        return v
    if name == b'prefix':
        return o + v
    if name == b'suffix':
        return v + o
    if name == b'remove':
        return v.replace(o, b'') if o else v
    if name == b'replace':
        if b',' not in o or o[:1] == b',':
            return v
        a, b = o.split(b',', 1)
        if a.startswith(b'regex:'):
            return _re.sub(a[6:], b.replace(b'\\', b'\\\\'), v)
        return v.replace(a, b)
    if name == b'format':
        if not NUMFMT.match(o):
            return v
        m = _re.match(rb'\s*[-+]?(\d+\.?\d*|\.\d+)', v)
        if not m:
            return v
        r = (o.decode('latin1') % float(m.group(0))).encode('latin1')
        return r if 0 < len(r) < 256 else v
    k, x, r = nums(o)
    if name in (b'substring', b'substr', b'truncate', b'pad', b'repeat') and not k:
        return v
    L = len(v)
    if name in (b'substring', b'substr'):
        y = nums(r)[1] if r is not None and nums(r)[0] else L
        x = max(L + x, 0) if x < 0 else min(x, L)
        y = (L + y if L + y >= 0 else L) if y < 0 else min(y, L)
        return v[x:y]
    if name == b'truncate':
        x = max(x, 0)
        if L <= x:
            return v
        w = r.lstrip(SP) if r is not None else b''
        w = _re.match(rb'[^ \t\n\v\f\r]{0,63}', w).group(0)
        return v[:x - len(w) if x > len(w) else x] + w
    if name == b'pad':
        c = r[:1] if r else b' '
        return c * (x - L) + v if x > L else v
    if name == b'repeat':
        return v * x if x > 0 else v
    return v


def parse(p):
    """KEY:NAME(OPTIONS):..."""
    if b':' not in p:
        return p, []
    key, r = p.split(b':', 1)
    out = []
    while r:
        m = _re.match(rb'[^:(]*', r)
        nm, r = m.group(0), r[m.end():]
        o = None
        if r[:1] == b'(':
            if b')' not in r:
                return None, []
            o, r = r[1:].split(b')', 1)
        out.append((nm, o))
        if r[:1] == b':':
            r = r[1:]
        elif r:
            break
    return key, out


def oracle(fn, a):
    if fn == 'is_number_format':
        return [int(bool(NUMFMT.match(a[0])))]
    if fn == TR:
        v, arr = one(a[0], a[1], a[2], None)
        return [v, int(arr is not None)]
    key, ts = parse(a[1])
    if key is None:
        return [None]
    v, arr = a[0], None
    for nm, o in ts:
        v, arr = one(nm, o, v, arr)
    return [key, v]


NAMES = [b'upper', b'lower', b'trim', b'title', b'capitalize', b'slug', b'slugify', b'escape', b'html_escape', b'urlencode', b'urldecode', b'default', b'basename', b'length', b'reverse', b'contains',
         b'prefix', b'suffix', b'remove', b'replace', b'format', b'substring', b'substr', b'truncate', b'pad', b'repeat', b'split', b'join', b'first', b'last', b'slice', b'nosuch', b'']
OPTS = {b'replace': [b'a,b', b'a,', b',x', b'an,A N', b'abc', b' ,_', b'a,aa,b', b'regex:[0-9]+,N', b'regex:a|b,<>', b'regex:[aeiou],', b'a,' + b'y' * 40], b'format': [b'%.2f', b'%d', b'%s', b'%n', b'%5.1f!', b'%f%f', b'100%%', b'%%%g', b'%300f', b'%e', b'', b'%*f', b'%.f'],
        b'split': [b',', b';', b' ', b'', b', *', b'-', b'[,;]', b'ab'], b'join': [b'', b'; ', b'-', b' and ']}
NUM = [b'0', b'1', b'2', b'3', b'5', b'-1', b'-2', b'100', b'-100', b'9223372036854775807', b'-9223372036854775808', b'x', b'']
NUM2 = [b'', b',0', b',1', b',2', b',4', b',-1', b',-3', b',-100', b',100', b',...', b',x', b', y', b',', b',9223372036854775807', b',' + b'z' * 70]


def cases(rng, size, hb, consts):
    vals = [b'', b'a', b'hello world', b'Hello, World', b'a, b, c', b' x ', b'one;two;three', b'caf\xc3\xa9 "x" <b> & \'q\'', b'path/to/file.txt', b'/', b'100%25+x%zz%4', b'a%00b', b'3.14159', b'-2', b'banana', b'__a__b--', b'\t\n', b'a' * 100, b'\x01\x7f\xff', b'aaaa', b',,', b'2024-01-02', b'x,y']
    frag = [b'a', b'B', b' ', b',', b'-', b'_', b'%', b'%41', b'%2', b'+', b'/', b'<', b'&', b'"', b'\xc3\xa9', b'\n', b'9', b'.', b'ab', b';', b'\x05']

    def val():
        return rng.choice(vals) if rng.random() < .5 else b''.join(rng.choice(frag) for _ in range(rng.randint(0, 10)))

    def opt(n):
        if rng.random() < .1:
            return None
        if n in (b'repeat',):
            return rng.choice([b'0', b'1', b'2', b'3', b'7', b'-1', b'-9223372036854775808', b'x', b'', b'40'])
        if n in (b'pad',):
            return rng.choice([b'0', b'1', b'5', b'20', b'120', b'-3', b'x', b'-9223372036854775808']) + rng.choice([b'', b',*', b',0', b','])
        if n in (b'substring', b'substr', b'truncate', b'slice'):
            return rng.choice(NUM) + rng.choice(NUM2)
        if n in OPTS:
            return rng.choice(OPTS[n])
        return rng.choice([b'', b'a', b'b', b'an', b'x y', b'o', b'na', b'N/A', b'l', b'aa'])
    for f in OPTS[b'format']:
        yield 'is_number_format', [f]
    for _ in range(500 * size):
        yield 'is_number_format', [b''.join(rng.choice([b'%', b'.', b'f', b'g', b'd', b'5', b'0', b'-', b' ', b'%%', b's', b'*', b'l', b'x']) for _ in range(rng.randint(0, 7)))]
    for _ in range(9000 * size):
        n = rng.choice(NAMES)
        yield TR, [n, opt(n), val()]
    for _ in range(4000 * size):
        p = rng.choice([b'key', b'', b'a b'])
        for _ in range(rng.randint(0, 5)):
            n = rng.choice(NAMES)
            o = opt(n)
            p += b':' + n + (b'' if o is None else b'(' + o + (b')' if rng.random() < .97 else b''))
            if rng.random() < .03:
                p += b'junk'
        v = val()
        if p.count(b'repeat') > 2 or p.count(b'y' * 40) > 1:
            continue
        yield CHAIN, [v, p]


R.concrete('transforms', cases, oracle, bound='33 transform names with boundary options, 23 values and random ones of up to 10 fragments, chains of up to 5 transforms')
