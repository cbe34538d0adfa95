"""P10: metadata lookup and substitution."""
from vc.api import *
from specs.P09 import Items
R = Registry()
F = 'src/extensions/metadata.c'
GET, SUBST, NORM = 'apex_metadata_get', 'apex_metadata_replace_variables', 'normalize_metadata_key'
ASSUME = ['in apex_metadata_get, strcasecmp and strcmp decide equality of the strings they are given (each string has one identity up to case, one exact identity)',
          'in apex_metadata_replace_variables, what parse_transform_chain and apply_transform_chain return is arbitrary (a key or none, a chain or none, a text or none)']


@R.task(F, NORM)
def _(e):
    st = State()
    p = e.cstring(st, 'key')
    b = st.mem['key']
    T = Transducer('nkey', lambda s_, c, rd, t: [(is_space(c), []), (True, [lower(c)])]).bind(e, b.content.read, b.L, 'key').nonzero(st)
    e.hints.append(T)
    for s, v in e.run(st, NORM, [p]):
        post_string(e, s, v, T, NORM)


@R.task(F, NORM)
def _(e):
    for s, v in e.run(State(), NORM, [NULL]):
        e.prove(s, e.ptr_null(v), NORM + ':null')
        e.cover(s, NORM)


def handles(e):
    """strings as handles, 0 = NULL"""
    I = z3.IntSort()
    LC, ID, NK = z3.Function('caseid', I, I), z3.Function('exactid', I, I), z3.Function('normkey', I, I)
    e.schemas['normkey'] = [lambda a: [a > 0]]
    RANGED_DECLS['normkey'] = (1, None)
    e.handlefam = fam = e.family('str')

    def cmp(F_):
        def f(e, s, a, node):
            if not all(isinstance(x, z3.ExprRef) for x in a):
                raise Unsupported('comparison of other strings')
            for x in a:
                e.oblige(s, ne(x, 0), 'null-string', node)
            d = e.fresh('cmp')
            return [(s, ite(eq(F_(a[0]), F_(a[1])), 0, ite(ge(d, 0), add(d, 1), d)))]
        return f

    def nkey(e, s, a, node):
        h = a[0]
        s.ghost['live'] = s.ghost.get('live', ()) + (norm(NK(h)).get_id(),)
        e.keepalive.append(norm(NK(h)))
        out = [(s, norm(NK(h)))]
        if e.alloc_may_fail:
            f = s.copy()
            f.ghost['oom'] = True
            f.ghost['live'] = s.ghost['live'][:-1]
            out.append((f, NULL))
        return out

    def free(e, s, a, node):
        h = a[0]
        if not isinstance(h, z3.ExprRef):
            return libc.MODELS['free'](e, s, a, node)
        live = s.ghost.get('live', ())
        e.oblige(s, h.get_id() in live, 'frees-what-it-owns-once', node)
        if h.get_id() in live:
            i = live.index(h.get_id())
            s.ghost['live'] = live[:i] + live[i + 1:]
        return [(s, None)]
    e.contracts.update(strcasecmp=cmp(LC), strcmp=cmp(ID), free=free)
    e.contracts[NORM] = nkey
    return fam, LC, ID, NK


@R.task(F, GET)
def _(e):
    nm = GET
    st = State()
    e.keepalive = []
    fam, LC, ID, NK = handles(e)
    I = z3.IntSort()
    KH, VH = z3.Function('keyh', I, I), z3.Function('valh', I, I)
    for f in ('keyh', 'valh'):
        e.schemas[f] = [lambda a: [a >= 0]]
        RANGED_DECLS[f] = (0, None)
    n = e.fresh('n', 1, MAXLEN, st)
    K = z3.Int('key')
    RANGED_DECLS['key'] = (1, None)
    st.assume(K >= 1)
    named = lambda j: And(ne(KH(Z(j)), 0), gt(fam[1](KH(Z(j))), 0))
    hit1 = lambda j: And(named(j), eq(LC(KH(Z(j))), LC(K)))
    hit2 = lambda j: And(named(j), eq(ID(NK(KH(Z(j)))), ID(NK(K))))

    def first(nm, hit):
        g = e.fresh(nm, 0, None, st)
        st.assume(And(le(g, n), Or(eq(g, n), hit(g))))
        st.assume(Forall([(KH, (), 0)], lambda j: Implies(And(ge(j, 0), lt(j, g)), Not(hit(j))), nm))
        e.uterms.append(g)
        return g
    E, N = first('exact', hit1), first('loose', hit2)

    def cands(L, h, M, U, blocks, put, s0):
        for a in M:
            if a.kind == 'idx':
                for g in (E, N):
                    put('%s<=%s' % (a.nice(), g), lambda s, a=a, g=g: le(a.get(s), g))
    e.usercands.append(cands)
    want = ite(eq(fam[1](K), 0), 0, ite(lt(E, n), VH(E), ite(lt(N, n), VH(N), 0)))
    for s, v in e.run(st, nm, [Chain(Items(n, KH, VH), 0), K]):
        if isinstance(v, Ptr):
            e.prove(s, v.blk is None, nm + ':returns-a-value-of-the-list')
            v = 0
        e.prove(s, Or(bool(s.ghost.get('oom')), eq(v, want)), nm + ':first-match-wins')
        e.prove(s, not s.ghost.get('live'), nm + ':keys-released')
        e.cover(s, nm)


@R.task(F, GET)
def _(e):
    handles(e)
    e.keepalive = []
    for s, v in e.run(State(), GET, [NULL, z3.Int('key')]):
        e.prove(s, e.ptr_null(v), GET + ':empty-list-has-nothing')
        e.cover(s, GET)


def slice_of(e, s, p, blk, node):
    """the string at p is a copy of blk[off..off+len): -> (off, len)"""
    b = s.mem[p.blk]
    r = libc.cstr(e, s, p, node)
    if r is None:
        return None
    c, off, n = r
    if p.blk == blk:
        raise Unsupported('tail of the text used as a key')
    k = e.fresh('k')
    t = s.copy()
    t.assume(And(ge(k, 0), lt(k, n)))
    x = Z(c.read(add(off, k)))
    src = s.mem[blk].content
    for a in list(e.apps(x).values()):
        if a.decl().name() == blk:
            o = norm(sub(a.arg(0), k))
            if not same(o, o) or k.get_id() in {y.get_id() for y in subterms(Z(o))}:
                continue
            if e.proves(t, eq(c.read(add(off, k)), src.read(add(o, k)))):
                return o, n
    if e.proves(s, eq(n, 0)):
        return 0, 0
    return None


def subterms(x):
    out, st = [], [x]
    while st:
        y = st.pop()
        out.append(y)
        st += y.children()
    return out


def matchfn(e, rd, n):
    """MF(j, d): position of the bracket closing depth d, scanning from j; -1 if there is none"""
    I = z3.IntSort()
    MF = z3.Function('closing', I, I, I)
    RANGED_DECLS['closing'] = (-1, None)

    def ax(a):
        j, d = norm(a.arg(0)), norm(a.arg(1))
        base = [a >= -1, Or(eq(a, -1), And(ge(a, j), lt(a, n), eq(rd(a), 93)))]
        if not (z3.is_const(Z(j)) and (isinstance(d, int) or z3.is_const(d))):
            return base
        c = rd(j)
        j1 = Z(norm(add(j, 1)))
        r = ite(eq(c, 91), MF(j1, Z(norm(add(d, 1)))), ite(eq(c, 93), ite(eq(d, 1), Z(j), MF(j1, Z(norm(sub(d, 1))))), MF(j1, Z(d))))
        return base + [Implies(And(ge(j, 0), lt(j, n), ge(d, 1)), eq(a, r)), Implies(ge(j, n), eq(a, -1))]
    e.schemas['closing'] = [ax]
    return MF


def subst(e, transforms):
    nm = SUBST
    st = State()
    e.growmerge = True
    I = z3.IntSort()
    p = e.cstring(st, 'text')
    b = st.mem['text']
    rd, L = b.content.read, b.L
    NX, MF = z3.Function('nexthit', I, I), matchfn(e, rd, L)
    RANGED_DECLS['nexthit'] = (-1, None)
    hit = lambda t: And(eq(rd(t), 91), eq(rd(add(t, 1)), 37))
    e.schemas['nexthit'] = [lambda a: [a >= -1, Or(eq(a, -1), And(ge(a, a.arg(0)), lt(add(a, 1), L), hit(a)))]]
    e.handlefam = fam = e.family('str')
    fn = lambda x, *s: z3.Function(x, *s)
    GETT, KEY, CHN, GETK, TR = fn('gettext', I, I, I), fn('chainkey', I, I, I), fn('chain', I, I, I), fn('getkey', I, I), fn('transformed', I, I, I)
    for f in ('gettext', 'chainkey', 'chain', 'getkey', 'transformed'):
        e.schemas[f] = [lambda a: [a >= 0]]
        RANGED_DECLS[f] = (0, None)
    e.schemas['gettext'].append(lambda a: [Implies(a.arg(1) == 0, a == 0)])      # the empty key names nothing (contract of apex_metadata_get)
    tr = bool(transforms)
    CL = z3.Function('nextcolon', I, I)     # first ':' at or after
    e.schemas['nextcolon'] = [lambda a: [Or(eq(a, L), And(ge(a, a.arg(0)), lt(a, L), eq(rd(a), 58)))]]

    def value(h):
        o, n = Z(norm(add(h, 2))), Z(norm(sub(sub(closing(h), h), 2)))
        plain = GETT(o, n)
        k, c = KEY(o, n), CHN(o, n)
        v = GETK(k)
        x = ite(eq(v, 0), 0, ite(And(ne(c, 0), ne(TR(v, c), 0)), TR(v, c), v))
        return ite(And(tr, lt(CL(o), closing(h))), ite(ne(k, 0), x, plain), plain)

    def closing(h):
        return MF(Z(norm(add(h, 2))), Z(1))
    end = lambda v: Or(eq(NX(Z(norm(v))), -1), eq(closing(NX(Z(norm(v)))), -1))

    def pieces_(v):
        h = NX(Z(norm(v)))
        m = closing(h)
        keep = Or(ge(sub(m, h), 514), eq(value(h), 0))
        e_ = end(v)
        return [(ite(e_, sub(L, v), sub(h, v)), lambda k: rd(add(v, k))),
                (ite(Or(e_, keep), 0, fam[1](Z(value(h)))), lambda k: fam[0](Z(value(h)), Z(norm(k)))),
                (ite(And(Not(e_), keep), add(sub(m, h), 1), 0), lambda k: rd(add(h, k)))]

    def facts(v):
        h = Z(norm(NX(Z(norm(v)))))
        o = norm(add(h, 2))
        return [], [Forall(b.content.trigs(), lambda k: Implies(And(ge(k, v), Or(eq(h, -1), lt(k, h))), Not(hit(k))), 'next hit'),
                    Forall(b.content.trigs(), lambda k: Implies(And(ge(k, o), lt(k, CL(Z(o)))), ne(rd(k), 58)), 'next colon')]
    T = Segments('subst', e, 'text', end, pieces_, lambda v: add(closing(NX(Z(norm(v)))), 1), 0, facts).begin(st)
    e.hints.append(T)

    def cands(L_, h, M, U, blocks, put, s0):
        for a in M:
            for d in M:
                if a is not d and (a.kind == 'off' and a.tgt == 'text' or a.kind == 'int') and d.kind == 'int':
                    try:
                        x0 = MF(Z(norm(a.get(s0))), Z(norm(d.get(s0))))
                    except Exception:
                        continue
                    put('closing of %s at %s' % (d.nice(), a.nice()), lambda s, a=a, d=d, x0=x0: ite(eq(d.get(s), 0), eq(x0, a.get(s)), eq(MF(Z(norm(a.get(s))), Z(norm(d.get(s)))), x0)))
    e.usercands.append(cands)

    def get(e, s, a, node):
        e.oblige(s, isinstance(a[0], Opaque) or isinstance(a[0], Ptr) and a[0].blk == 'meta', 'looks-in-the-metadata', node)
        if isinstance(a[1], z3.ExprRef):
            e.oblige(s, ne(a[1], 0), 'null-key', node)
            return [(s, GETK(a[1]))]
        sl = slice_of(e, s, a[1], 'text', node)
        e.oblige(s, sl is not None, 'key-is-the-bracketed-text', node)
        return [] if sl is None else [(s, GETT(Z(sl[0]), Z(sl[1])))]

    def chain(e, s, a, node):
        sl = slice_of(e, s, a[0], 'text', node)
        e.oblige(s, sl is not None, 'pattern-is-the-bracketed-text', node)
        if sl is None:
            return []
        k, c = KEY(Z(sl[0]), Z(sl[1])), CHN(Z(sl[0]), Z(sl[1]))
        return [(x, c) for x, _ in e.store(s, a[1], Ty('ptr', of=CHAR), k, node)]

    def newstr(s, h, node, null):
        out = []
        t, f = e.split(s, ne(h, 0))
        if f is not None and null:
            out.append((f, NULL))
        if t is not None:
            n = fam[1](h)
            for s2, q in libc.do_alloc(e, t, add(n, 1), node):
                if q.blk is not None:
                    s2.mem[q.blk] = s2.mem[q.blk].but(kind='arr', ety=CHAR, L=n, content=Base(lambda k: fam[0](h, Z(norm(k))), fam[0], (h,)))
                out.append((s2, q))
        return out

    def transform(e, s, a, node):
        e.oblige(s, And(ne(a[0], 0), ne(a[1], 0)), 'null-value-or-chain', node)
        return newstr(s, TR(Z(a[0]), Z(a[1])), node, True)

    def free(e, s, a, node):
        if isinstance(a[0], z3.ExprRef):
            return [(s, None)]
        return libc.MODELS['free'](e, s, a, node)
    e.contracts.update(parse_transform_chain=chain, apply_transform_chain=transform, free=free, free_transform_chain=lambda e, s, a, node: [(s, None)])
    e.contracts[GET] = get
    e.alloc_may_fail = False
    st.mem['meta'] = Block('cell', cells={}, name='meta')
    st.mem['opts'] = Block('cell', cells={('enable_metadata_transforms',): (int(tr), e.tu.parse("_Bool"))}, name='opts')
    e.roots |= {'meta', 'opts'}
    for s, v in e.run(st, nm, [p, Ptr('meta'), Ptr('opts')]):
        T.post(s, v, nm)


R.task(F, SUBST, budget=600)(lambda e: subst(e, False))
R.task(F, SUBST, budget=600)(lambda e: subst(e, True))


@R.task(F, SUBST)
def _(e):
    nm = SUBST + '(no metadata)'
    st = State()
    p = e.cstring(st, 'text')
    for s, v in e.run(st, SUBST, [p, NULL, NULL]):
        if isinstance(v, Ptr) and v.blk is None:
            e.prove(s, bool(s.ghost.get('oom')), nm + ':null-only-when-out-of-memory')
        else:
            post_equal_fn(e, s, v, st.mem['text'].L, st.mem['text'].content.read, nm)


@R.task(F, SUBST)
def _(e):
    for s, v in e.run(State(), SUBST, [NULL, NULL, NULL]):
        e.prove(s, e.ptr_null(v), SUBST + ':no-text')
        e.cover(s, SUBST)


# ---------------------------------------------------------------- concrete side
SP = b' \t\n\v\f\r'
nkey = lambda k: bytes(c for c in k.lower() if c not in SP)


def lookup(items, key):
    if not items or not key:
        return None
    for f in (lambda k: k.lower(), nkey):
        for k, v in items:
            if k and f(k) == f(key):
                return v
    return None


def expand(text, items, transforms):
    if text is None or not items:
        return text
    out, i = b'', 0
    while True:
        h = text.find(b'[%', i)
        if h < 0:
            return out + text[i:]
        j, d = h + 2, 1
        while j < len(text):
            if text[j:j + 1] == b'[':
                d += 1
            elif text[j:j + 1] == b']':
                d -= 1
                if d == 0:
                    break
            j += 1
        if j >= len(text):
            return out + text[i:]
        out += text[i:h]
        pat = text[h + 2:j]
        v = None
        if len(pat) < 512:
            if transforms == 1 and b':' in pat:
                k, *ts = pat.split(b':')
                v = lookup(items, k)
                for t in ts:
                    if v is not None:
                        v = v.upper() if t == b'upper' else v.lower() if t == b'lower' else v
                if any(b'(' in t and b')' not in t for t in ts):
                    v = lookup(items, pat)
            else:
                v = lookup(items, pat)
        out += text[h:j + 1] if v is None else v
        i = j + 1


def oracle(fn, a):
    prs = lambda i: [(a[j], a[j + 1]) for j in range(i, len(a) - 1, 2)]
    if fn == NORM:
        return [None if a[0] is None else nkey(a[0])]
    if fn == GET:
        return [lookup(prs(1), a[0])]
    return [expand(a[1], prs(2), a[0])]


def cases(rng, size, hb, consts):
    keys = [b'title', b'Title', b'TI TLE', b'html header level', b'HTMLHeaderLevel', b'HTML Header  Level', b'a', b'', b'a:b', b'x[1]', b'\xc3\xa9t\xc3\xa9', b'k' * 511, b'k' * 512, b'a b', b'ab', b'A\tB', None]
    vals = [b'', b'v', b'My Title', b'[%title]', b'x' * 700, b'one, two', None, b'%s']
    for k in keys:
        yield NORM, [k]
    for _ in range(1500 * size):
        it = []
        for _ in range(rng.randint(0, 5)):
            it += [rng.choice(keys), rng.choice(vals)]
        yield GET, [rng.choice(keys)] + it
    frag = [b'[%', b']', b'[', b'%', b'text ', b':upper', b':lower', b':upper:lower', b':', b'(', b'\n', b'x'] + [k for k in keys if k]
    good = [b'[%title]', b'[% title ]', b'[%a:upper]', b'[%nokey]', b'[%a:b]', b'[%x[1]]', b'[%' + b'k' * 511 + b']', b'[%' + b'k' * 512 + b']', b'[%]', b'[%ab]', b'[%title:lower:upper]', b'[%title:upper(]']
    for _ in range(3000 * size):
        it = []
        for _ in range(rng.randint(0, 5)):
            it += [rng.choice(keys), rng.choice(vals)]
        t = b''.join(rng.choice(good if rng.random() < .5 else frag) for _ in range(rng.randint(0, 12)))
        yield SUBST, [rng.randint(0, 2), None if rng.random() < .01 else t] + it


R.concrete('metaget', cases, oracle, bound='up to 5 items over 16 keys and 8 values, texts of up to 12 fragments including nested and unclosed brackets and patterns around 512 bytes')
