"""Assumed contracts of libc functions (C locale)."""
import z3
from .terms import *
from .mem import *
from .frontend import *

MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


# ---------------------------------------------------------------- strings
def cstr(e, st, p, node, what='string-argument-terminated'):
    """-> (content, off, len) of the C string at p; adds facts; None if infeasible"""
    if isinstance(p, Opaque):
        p = e.materialise(st, p)
    p = e.as_ptr(st, p)
    if not isinstance(p, Ptr):
        raise Unsupported('string argument %r' % (p,))
    b = e.deref_block(st, p, node)
    if b is None:
        return None
    if b.kind == 'raw':
        e.typed(st, p, CHAR)
        b = st.mem[p.blk]
    if b.kind != 'arr':
        raise Unsupported('string argument of kind ' + b.kind)
    if b.L is not None:
        e.oblige(st, And(ge(p.off, 0), le(p.off, b.L)), what, node)
        return b.content, p.off, sub(b.L, p.off)
    key = (id(b.content), p.off if isinstance(p.off, int) else p.off.get_id())
    # built buffer: find a terminating NUL
    hint = None
    for j in b.hints:
        g = And(ge(j, p.off), lt(j, b.size), ge(p.off, 0), eq(b.content.read(j), 0))
        if e.proves(st, g):
            hint = j
            break
    c = b.content
    if hint is None:
        e.oblige(st, False, what, node)
        return None
    nm = 'slen'
    n = e.fresh(nm, 0, 1 << 40)
    st.assume(n >= 0)
    st.assume(le(n, sub(hint, p.off)))
    st.assume(eq(c.read(add(p.off, n)), 0))
    off = p.off
    st.assume(Forall(c.trigs(), lambda t: Implies(And(ge(t, off), lt(t, add(off, n))), ne(c.read(t), 0)), 'strlen'))
    # most often the hint itself is the first NUL
    if e.try_exact_len:
        s2 = st.copy()
        k = e.fresh('k')
        s2.assume(And(ge(k, off), lt(k, hint)))
        if e.proves(s2, ne(c.read(k), 0)):
            st.assume(eq(n, sub(hint, off)))
            n = sub(hint, off)
    return c, off, n


def forall_in(st, c, lo, hi, pred, name):
    st.assume(Forall(c.trigs(), lambda t: Implies(And(ge(t, lo), lt(t, hi)), pred(c.read(t))), name))


def fnull(st):
    return (st, NULL)


@model('strlen')
def _strlen(e, st, a, n):
    r = cstr(e, st, a[0], n)
    return [] if r is None else [(st, r[2])]


def scan(e, st, p, pred, stop_null, n, name):
    """first index >= off with pred, within the string (NUL excluded unless pred(0)); forks found/notfound"""
    r = cstr(e, st, p, n)
    if r is None:
        return None, None
    c, off, L = r
    end = add(off, L)
    f = st.copy()
    i = e.fresh(name, None, None)
    f.assume(And(ge(i, off), lt(i, end)))
    f.assume(pred(c.read(i)))
    forall_in(f, c, off, i, lambda v: Not(pred(v)), name)
    nf = st.copy()
    forall_in(nf, c, off, end, lambda v: Not(pred(v)), name)
    if not e.feasible(f):
        f = None
    # a not-found path with the first byte known helps feasibility pruning
    nf.assume(Implies(gt(L, 0), Not(pred(c.read(off)))))
    if not e.feasible(nf):
        nf = None
    return (f, i), (nf, end)


@model('strchr', 'index')
def _strchr(e, st, a, n):
    ch = a[1]
    u = e.tobyte(asint(ch))
    if isinstance(u, int) and u == 0:
        r = cstr(e, st, a[0], n)
        return [] if r is None else [(st, Ptr(a[0].blk, add(r[1], r[2])))]
    p = e.as_ptr(st, a[0])
    if isinstance(u, int):
        b = st.mem.get(p.blk)
        # literal table searched for a symbolic char is handled below
        x = scan(e, st, p, lambda v: eq(v, u), True, n, 'strchr')
        if x[0] is None and x[1] is None:
            return []
        (f, i), (nf, end) = x
        out = []
        if f is not None:
            out.append((f, Ptr(p.blk, i)))
        if nf is not None:
            out.append((nf, NULL))
        return out
    b = e.deref_block(st, p, n)
    if b is not None and p.blk.startswith('lit:') and isinstance(b.L, int) and isinstance(p.off, int):
        # literal set searched for a symbolic character
        idx = None
        found = False
        for j in range(b.L, p.off - 1, -1):
            bv = b.content.read(j)
            found = Or(eq(u, bv), found)
            idx = ite(eq(u, bv), j, idx if idx is not None else j)
        t, f = e.split(st, found)
        out = []
        if t is not None:
            out.append((t, Ptr(p.blk, idx)))
        if f is not None:
            out.append((f, NULL))
        return out
    t0, t1 = e.split(st, eq(u, 0))
    out = []
    if t0 is not None:
        r = cstr(e, t0, p, n)
        if r is not None:
            out.append((t0, Ptr(p.blk, add(r[1], r[2]))))
    if t1 is not None:
        x = scan(e, t1, p, lambda v: eq(v, u), True, n, 'strchr')
        (f, i), (nf, end) = x
        if f is not None:
            out.append((f, Ptr(p.blk, i)))
        if nf is not None:
            out.append((nf, NULL))
    return out


@model('strrchr', 'rindex')
def _strrchr(e, st, a, n):
    u = e.tobyte(asint(a[1]))
    p = e.as_ptr(st, a[0])
    r = cstr(e, st, p, n)
    if r is None:
        return []
    c, off, L = r
    end = add(off, L)
    if isinstance(u, int) and u == 0:
        return [(st, Ptr(p.blk, end))]
    f = st.copy()
    i = e.fresh('strrchr')
    f.assume(And(ge(i, off), lt(i, end)))
    f.assume(eq(c.read(i), u))
    forall_in(f, c, add(i, 1), end, lambda v: ne(v, u), 'strrchr')
    nf = st.copy()
    forall_in(nf, c, off, end, lambda v: ne(v, u), 'strrchr-null')
    nf.assume(Implies(gt(L, 0), ne(c.read(off), u)))
    out = []
    if e.feasible(f):
        out.append((f, Ptr(p.blk, i)))
    if e.feasible(nf):
        out.append((nf, NULL))
    return out


def litbytes(e, st, p):
    """concrete bytes of a literal string pointer or None"""
    if isinstance(p, Ptr) and p.blk and isinstance(p.off, int):
        b = st.mem.get(p.blk)
        if b is not None and isinstance(b.L, int) and b.kind == 'arr':
            out = []
            for j in range(p.off, b.L):
                v = b.content.read(j)
                if not isinstance(v, int):
                    return None
                out.append(v)
            return bytes(out)
    return None


def lower(v):
    return ite(And(ge(v, 65), le(v, 90)), add(v, 32), v)


def upper(v):
    return ite(And(ge(v, 97), le(v, 122)), sub(v, 32), v)


def match_lit(c, off, bs, ci, n=None):
    """Bool: bytes at off equal literal bs (n None: plus terminator)"""
    cs = []
    m = len(bs) if n is None else min(n, len(bs))
    for j in range(m):
        v = c.read(add(off, j))
        x = bs[j]
        if ci and (65 <= x <= 90 or 97 <= x <= 122):
            lo = x | 32
            cs.append(Or(eq(v, lo), eq(v, lo - 32)))
        else:
            cs.append(eq(v, x))
    if n is None or n > len(bs):
        cs.append(eq(c.read(add(off, m)), 0))
    return And(*cs)


def _cmp(e, st, a, node, n, ci):
    p, q = e.as_ptr(st, a[0]), e.as_ptr(st, a[1])
    lp, lq = litbytes(e, st, p), litbytes(e, st, q)
    if lp is not None and lq is None:
        p, q, lp, lq = q, p, lq, lp
    if lq is not None:
        # string p must be readable up to its terminator or n
        r = cstr(e, st, p, node)
        if r is None:
            return []
        c, off, L = r
        if n is not None and not isinstance(n, int):
            raise Unsupported('strncmp with symbolic count against literal')
        m = match_lit(c, off, lq, ci, n)
        if m is True:
            return [(st, 0)]
        if m is False:
            return [(st, 1)]
        # sign of a non-zero result is left open
        x = e.fresh('cmp')
        return [(st, ite(m, 0, ite(ge(x, 0), add(x, 1), x)))]
    rp = cstr(e, st, p, node)
    rq = cstr(e, st, q, node)
    if rp is None or rq is None:
        return []
    if n is not None:
        raise Unsupported('strncmp of two symbolic strings')
    c1, o1, l1 = rp
    c2, o2, l2 = rq
    f = lower if ci else (lambda v: v)
    # equal
    s1 = st.copy()
    s1.assume(eq(l1, l2))
    d = sub(o2, o1)
    s1.assume(Forall(c1.trigs() + c2.trigs(d), lambda t: Implies(And(ge(t, o1), le(t, add(o1, l1))), eq(f(c1.read(t)), f(c2.read(add(t, d))))), 'strcmp-eq'))
    # different: there is a first difference
    s2 = st.copy()
    k = e.fresh('diff')
    s2.assume(And(ge(k, 0), le(k, l1), le(k, l2)))
    s2.assume(ne(f(c1.read(add(o1, k))), f(c2.read(add(o2, k)))))
    x = e.fresh('cmp')
    s2.assume(x != 0)
    s2.assume(Iff(lt(x, 0), lt(f(c1.read(add(o1, k))), f(c2.read(add(o2, k))))))
    s2.assume(Forall(c1.trigs() + c2.trigs(d), lambda t: Implies(And(ge(t, o1), lt(t, add(o1, k))), eq(f(c1.read(t)), f(c2.read(add(t, d))))), 'strcmp-prefix'))
    out = []
    if e.feasible(s1):
        out.append((s1, 0))
    if e.feasible(s2):
        out.append((s2, x))
    return out


@model('strcmp')
def _strcmp(e, st, a, n):
    return _cmp(e, st, a, n, None, False)


@model('strcasecmp')
def _strcasecmp(e, st, a, n):
    return _cmp(e, st, a, n, None, True)


@model('strncmp')
def _strncmp(e, st, a, n):
    return _cmp(e, st, a, n, a[2], False)


@model('strncasecmp')
def _strncasecmp(e, st, a, n):
    return _cmp(e, st, a, n, a[2], True)


@model('strstr')
def _strstr(e, st, a, n):
    p = e.as_ptr(st, a[0])
    bs = litbytes(e, st, e.as_ptr(st, a[1]))
    if bs is None:
        raise Unsupported('strstr with non-literal needle')
    r = cstr(e, st, p, n)
    if r is None:
        return []
    c, off, L = r
    if len(bs) == 0:
        return [(st, p)]
    end = add(off, L)

    def hit(t):
        return And(*[eq(c.read(add(t, j)), bs[j]) for j in range(len(bs))])
    f = st.copy()
    i = e.fresh('strstr')
    f.assume(And(ge(i, off), le(add(i, len(bs)), end)))
    f.assume(hit(i))
    f.assume(Forall(c.trigs(), lambda t: Implies(And(ge(t, off), lt(t, i)), Not(hit(t))), 'strstr'))
    nf = st.copy()
    nf.assume(Forall(c.trigs(), lambda t: Implies(And(ge(t, off), lt(t, end)), Not(hit(t))), 'strstr-null'))
    out = []
    if e.feasible(f):
        out.append((f, Ptr(p.blk, i)))
    if e.feasible(nf):
        out.append((nf, NULL))
    return out


def inset(v, bs):
    return Or(*[eq(v, b) for b in sorted(set(bs))])


@model('strspn', 'strcspn')
def _strspn(e, st, a, n):
    raise Unsupported('strspn')


@model('strpbrk')
def _strpbrk(e, st, a, n):
    p = e.as_ptr(st, a[0])
    bs = litbytes(e, st, e.as_ptr(st, a[1]))
    if bs is None:
        raise Unsupported('strpbrk with non-literal set')
    (f, i), (nf, end) = scan(e, st, p, lambda v: inset(v, bs), True, n, 'strpbrk')
    out = []
    if f is not None:
        out.append((f, Ptr(p.blk, i)))
    if nf is not None:
        out.append((nf, NULL))
    return out


@model('memchr')
def _memchr(e, st, a, n):
    p = e.as_ptr(st, a[0])
    u = e.tobyte(asint(a[1]))
    cnt = asint(a[2])
    b = e.deref_block(st, p, n)
    if b is None:
        return []
    c, off = b.content, p.off
    end = add(off, cnt)
    f = st.copy()
    i = e.fresh('memchr')
    f.assume(And(ge(i, off), lt(i, end)))
    f.assume(eq(c.read(i), u))
    forall_in(f, c, off, i, lambda v: ne(v, u), 'memchr')
    e.oblige(f, And(ge(off, 0), lt(i, b.size)), 'memchr-in-bounds', n)
    nf = st.copy()
    forall_in(nf, c, off, end, lambda v: ne(v, u), 'memchr-null')
    nf.assume(Implies(gt(cnt, 0), ne(c.read(off), u)))
    e.oblige(nf, And(ge(off, 0), le(end, b.size)), 'memchr-in-bounds', n)
    out = []
    if e.feasible(f):
        out.append((f, Ptr(p.blk, i)))
    if e.feasible(nf):
        out.append((nf, NULL))
    return out


# ---------------------------------------------------------------- memory
def do_alloc(e, st, size, node, zero=False, tag='heap'):
    size = asint(size)
    out = []
    site = e.site(node)
    f = st.copy()
    f.ghost['oom'] = True
    out_null = (f, NULL)
    bid = e.alloc_id(st, '%s:%s:%s' % (tag, '/'.join(x.split('@')[0] for x in st.frames[-1:]), site))
    st.mem[bid] = Block('raw', size=size, content=Base(lambda k: 0) if zero else None, cells={}, default='zero' if zero else 'uninit', heap=True, name=bid)
    out.append((st, Ptr(bid, 0)))
    if e.alloc_may_fail:
        out.append(out_null)
    return out


@model('malloc')
def _malloc(e, st, a, n):
    return do_alloc(e, st, a[0], n)


@model('calloc')
def _calloc(e, st, a, n):
    return do_alloc(e, st, mul(a[0], a[1]), n, True)


@model('realloc')
def _realloc(e, st, a, n):
    p, size = e.as_ptr(st, a[0]), asint(a[1])
    if p.blk is None:
        return do_alloc(e, st, size, n)
    b = e.deref_block(st, p, n)
    if b is None:
        return []
    e.oblige(st, And(eq(p.off, 0), b.heap), 'realloc-of-heap-start', n)
    if b.kind == 'cell' or b.kind == 'parr':
        if b.kind == 'parr':
            ok = st.copy()
            ok.mem[p.blk] = b.but(size=e.divsize(st, size, 8))
            st.ghost['oom'] = True
            return [(ok, Ptr(p.blk, 0))] + ([(st, NULL)] if e.alloc_may_fail else [])
        raise Unsupported('realloc of struct')
    ok = st.copy()
    es = 1 if b.kind == 'raw' else e.tu.sizeof(b.ety)
    nsz = size if es == 1 else e.divsize(st, size, es)
    c = b.content
    if b.kind == 'arr':
        e.fresh_n += 1
        u = e.uninit_content('%s!r%d' % (p.blk, e.fresh_n))
        c = Copy(u, 0, c, 0, b.size if e.proves(st, ge(nsz, b.size)) else ite(le(b.size, nsz), b.size, nsz))
    ok.mem[p.blk] = b.but(size=nsz, content=c)
    out = [(ok, Ptr(p.blk, 0))]
    if e.alloc_may_fail:
        st.ghost['oom'] = True
        out.append((st, NULL))
    return out


@model('free')
def _free(e, st, a, n):
    p = a[0]
    if isinstance(p, Opaque):
        return [(st, None)]
    if isinstance(p, Chain):
        raise Unsupported('free of chain node')
    if p.blk is None:
        return [(st, None)]
    b = st.mem.get(p.blk)
    if b is None:
        raise Unsupported('free of dropped block')
    if b.freed:
        e.oblige(st, False, 'double-free', n)
        return []
    e.oblige(st, And(eq(p.off, 0), b.heap), 'free-of-heap-start', n)
    st.mem[p.blk] = b.but(freed=True)
    return [(st, None)]


def need_arr(e, st, p, node, ty=CHAR):
    p = e.as_ptr(st, p)
    b = e.deref_block(st, p, node)
    if b is None:
        return None, None
    if b.kind == 'raw':
        e.typed(st, p, ty)
        b = st.mem[p.blk]
    if b.kind != 'arr' or e.tu.sizeof(b.ety) != 1:
        raise Unsupported('memory function on %s block' % b.kind)
    return p, b


def copy_bytes(e, st, d, s, cnt, node, overlap):
    cnt = asint(cnt)
    if cnt == 0 and isinstance(cnt, int):
        return [(st, d)]
    t, f = e.split(st, gt(cnt, 0))
    out = []
    if f is not None:
        out.append((f, d))
    if t is None:
        return out
    dp, db = need_arr(e, t, d, node)
    if db is None:
        return out
    sp, sb = need_arr(e, t, s, node)
    if sb is None:
        return out
    db = t.mem[dp.blk]
    e.oblige(t, And(ge(dp.off, 0), le(add(dp.off, cnt), db.size)), 'write-in-bounds', node)
    e.oblige(t, And(ge(sp.off, 0), le(add(sp.off, cnt), sb.size)), 'read-in-bounds', node)
    if not overlap and dp.blk == sp.blk:
        e.oblige(t, Or(le(add(dp.off, cnt), sp.off), le(add(sp.off, cnt), dp.off)), 'no-overlap', node)
    hints = db.hints
    nh = []
    # if the copied range ends in NUL remember it
    end = add(sp.off, sub(cnt, 1))
    lastb = sb.content.read(end)
    if sb.L is not None and dconst(add(sb.L, 1), add(sp.off, cnt)) == 0:
        nh.append(add(dp.off, sub(cnt, 1)))
    else:
        for hj in sb.hints[:3]:
            nh.append(add(dp.off, sub(hj, sp.off)))
    t.mem[dp.blk] = db.but(content=Copy(db.content, dp.off, sb.content, sp.off, cnt), L=None, hints=tuple(nh) + hints[:4])
    out.append((t, d))
    return e.merge_mem(out)


@model('memcpy', '__builtin_memcpy', '__builtin___memcpy_chk')
def _memcpy(e, st, a, n):
    return copy_bytes(e, st, a[0], a[1], a[2], n, False)


@model('memmove')
def _memmove(e, st, a, n):
    return copy_bytes(e, st, a[0], a[1], a[2], n, True)


@model('memset')
def _memset(e, st, a, n):
    p = e.as_ptr(st, a[0])
    cnt = asint(a[2])
    b = e.deref_block(st, p, n)
    if b is None:
        return []
    if b.kind in ('cell', 'parr', 'sarr') and a[1] == 0 and not p.path:
        st.mem[p.blk] = b.but(cells={}, default='zero')
        return [(st, p)]
    if b.kind == 'raw' and a[1] == 0:
        if dconst(b.size, cnt) == 0:
            st.mem[p.blk] = b.but(default='zero', content=Base(lambda k: 0))
            return [(st, p)]
    p, b = need_arr(e, st, p, n)
    e.oblige(st, And(ge(p.off, 0), le(add(p.off, cnt), b.size)), 'write-in-bounds', n)
    v = e.tobyte(asint(a[1]))
    st.mem[p.blk] = b.but(content=Fill(b.content, p.off, cnt, v), L=None, hints=((p.off,) if v == 0 else ()) + b.hints[:4])
    return [(st, p)]


@model('strdup', '__strdup')
def _strdup(e, st, a, n):
    r = cstr(e, st, a[0], n)
    if r is None:
        return []
    c, off, L = r
    out = []
    for s, p in do_alloc(e, st, add(L, 1), n):
        if p.blk is not None:
            b = s.mem[p.blk]
            if isinstance(off, int) and off == 0 and isinstance(c, Base):
                cc = c
            else:
                cc = Copy(e.uninit_content(p.blk), 0, c, off, add(L, 1))
            s.mem[p.blk] = b.but(kind='arr', ety=CHAR, content=cc, L=L)
        out.append((s, p))
    return out


@model('strndup')
def _strndup(e, st, a, n):
    p = e.as_ptr(st, a[0])
    r = cstr(e, st, p, n)
    if r is None:
        return []
    c, off, L = r
    cnt = asint(a[1])
    m = ite(le(L, cnt), L, cnt)
    if e.proves(st, le(cnt, L)):
        m = cnt
    out = []
    for s, q in do_alloc(e, st, add(m, 1), n):
        if q.blk is not None:
            b = s.mem[q.blk]
            s.mem[q.blk] = b.but(kind='arr', ety=CHAR, content=Store(Copy(e.uninit_content(q.blk), 0, c, off, m), m, 0), L=m)
        out.append((s, q))
    return out


@model('strcpy')
def _strcpy(e, st, a, n):
    r = cstr(e, st, a[1], n)
    if r is None:
        return []
    return copy_bytes(e, st, a[0], a[1], add(r[2], 1), n, False)


@model('strcat')
def _strcat(e, st, a, n):
    d = cstr(e, st, a[0], n)
    r = cstr(e, st, a[1], n)
    if r is None or d is None:
        return []
    q = Ptr(a[0].blk, add(d[1], d[2]))
    return [(s, a[0]) for s, _ in copy_bytes(e, st, q, a[1], add(r[2], 1), n, False)]


@model('strncpy')
def _strncpy(e, st, a, n):
    r = cstr(e, st, a[1], n)
    if r is None:
        return []
    c, off, L = r
    cnt = asint(a[2])
    out = []
    t, f = e.split(st, le(cnt, L))
    if t is not None:
        out += copy_bytes(e, t, a[0], a[1], cnt, n, False)
    if f is not None:
        for s, p in copy_bytes(e, f, a[0], a[1], add(L, 1), n, False):
            dp, db = need_arr(e, s, a[0], n)
            e.oblige(s, le(add(dp.off, cnt), db.size), 'write-in-bounds', n)
            s.mem[dp.blk] = db.but(content=Fill(db.content, add(dp.off, L), sub(cnt, L), 0), hints=(add(dp.off, L),) + db.hints[:4])
            out.append((s, a[0]))
    return out


@model('memcmp')
def _memcmp(e, st, a, n):
    p, q = e.as_ptr(st, a[0]), e.as_ptr(st, a[1])
    cnt = a[2]
    if not isinstance(cnt, int):
        raise Unsupported('memcmp of symbolic length')
    pb, qb = e.deref_block(st, p, n), e.deref_block(st, q, n)
    if pb is None or qb is None:
        return []
    e.oblige(st, And(ge(p.off, 0), le(add(p.off, cnt), pb.size)), 'read-in-bounds', n)
    e.oblige(st, And(ge(q.off, 0), le(add(q.off, cnt), qb.size)), 'read-in-bounds', n)
    m = And(*[eq(pb.content.read(add(p.off, j)), qb.content.read(add(q.off, j))) for j in range(cnt)])
    x = e.fresh('cmp')
    st.assume(x != 0)
    return [(st, ite(m, 0, x))]


# ---------------------------------------------------------------- ctype (C locale)
def ctype(pred):
    def f(e, st, a, n):
        v = asint(a[0])
        e.oblige(st, And(ge(v, -1), le(v, 255)), 'ctype-argument-range', n)
        return [(st, pred(v))]
    return f


def between(v, a, b):
    return And(ge(v, a), le(v, b))


def is_space(v): return Or(eq(v, 32), between(v, 9, 13))
def is_digit(v): return between(v, 48, 57)
def is_upper(v): return between(v, 65, 90)
def is_lower(v): return between(v, 97, 122)
def is_alpha(v): return Or(is_upper(v), is_lower(v))
def is_alnum(v): return Or(is_alpha(v), is_digit(v))
def is_xdigit(v): return Or(is_digit(v), between(v, 65, 70), between(v, 97, 102))
def is_punct(v): return Or(between(v, 33, 47), between(v, 58, 64), between(v, 91, 96), between(v, 123, 126))


for nm, p in (('isspace', is_space), ('isdigit', is_digit), ('isupper', is_upper), ('islower', is_lower),
              ('isalpha', is_alpha), ('isalnum', is_alnum), ('isxdigit', is_xdigit), ('ispunct', is_punct),
              ('tolower', lower), ('toupper', upper),
              ('iscntrl', lambda v: Or(between(v, 0, 31), eq(v, 127))),
              ('isprint', lambda v: between(v, 32, 126)), ('isgraph', lambda v: between(v, 33, 126)),
              ('isblank', lambda v: Or(eq(v, 32), eq(v, 9)))):
    MODELS[nm] = ctype(p)


# ---------------------------------------------------------------- formatted output
def parse_fmt(bs):
    """-> list of ('lit', bytes) | (conv, flags, width, prec, length)"""
    import re
    out, i = [], 0
    rx = re.compile(rb'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t)?([diouxXcsp%])')
    while i < len(bs):
        j = bs.find(b'%', i)
        if j < 0:
            out.append(('lit', bs[i:]))
            break
        if j > i:
            out.append(('lit', bs[i:j]))
        m = rx.match(bs, j)
        if not m:
            raise Unsupported('format')
        if m.group(5) == b'%':
            out.append(('lit', b'%'))
        else:
            out.append((m.group(5).decode(), m.group(1), m.group(2), m.group(3), m.group(4)))
        i = m.end()
    return out


def hexdig(v, up=False):
    return ite(lt(v, 10), add(v, 48), add(v, 55 if up else 87))


def small_dec(v):
    """decimal digits of a value known to be a byte"""
    lo, hi = rng(v)
    if isinstance(v, int) or lo is None or hi is None or lo < 0 or hi > 255:
        return None
    n = ite(lt(v, 10), 1, ite(lt(v, 100), 2, 3))

    def dig(k):
        r = 0
        for d, q in enumerate((1, 10, 100)):
            r = ite(eq(sub(sub(n, 1), k), d), add(48, mod(floordiv(v, q), 10)), r)
        return r
    return Base(dig), 0, n


def fmt_pieces(e, st, fmt, args, node):
    """-> list of (content, off, len) pieces"""
    bs = litbytes(e, st, fmt)
    if bs is None:
        raise Unsupported('non-literal format')
    pcs = []
    ai = 0
    for it in parse_fmt(bs):
        if it[0] == 'lit':
            pcs.append((lit_content(it[1]), 0, len(it[1])))
            continue
        conv, flags, width, prec, ln = it
        if prec == b'*' and conv == 's':
            pv = asint(args[ai])
            ai += 1
            p = e.as_ptr(st, args[ai])
            ai += 1
            r = cstr(e, st, p, node)
            if r is None:
                return None
            c, off, L = r
            m = pv if e.proves(st, And(ge(pv, 0), le(pv, L))) else ite(lt(pv, 0), L, ite(le(L, pv), L, pv))
            pcs.append((c, off, m))
            continue
        a = args[ai]
        ai += 1
        if conv == 's' and width is None and prec is None:
            r = cstr(e, st, a, node)
            if r is None:
                return None
            pcs.append(r)
        elif conv == 'c' and width is None:
            v = e.tobyte(asint(a))
            pcs.append((Base(lambda k, v=v: v), 0, 1))
        elif conv in 'diu' and not flags and width is None and prec is None:
            pcs.append(small_dec(asint(a)) or e.dec_piece(st, asint(a)))
        elif conv in 'xX':
            v = asint(a)
            w = int(width) if width else 0
            zero = b'0' in flags
            lo, hi = rng(v)
            if hi is None or lo is None or lo < 0 or hi > 0xFFFF:
                if e.proves(st, And(ge(v, 0), le(v, 0xFFFF))):
                    hi = 0xFFFF
                    if e.proves(st, le(v, 255)):
                        hi = 255
                    if e.proves(st, le(v, 15)):
                        hi = 15
                else:
                    raise Unsupported('%x of a wide value')
            nd = max(1, (hi.bit_length() + 3) // 4)
            if w and not zero and w > 1:
                raise Unsupported('%x width')
            # number of digits: minimal, padded to w
            n = 1
            for d in range(1, nd):
                n = ite(ge(v, 1 << (4 * d)), d + 1, n)
            if w:
                n = ite(lt(n, w), w, n)
            up = conv == 'X'

            def dig(k, v=v, n=n, nd=max(nd, w), up=up):
                r = 0
                for d in range(nd):
                    r = ite(eq(sub(sub(n, 1), k), d), hexdig(mod(floordiv(v, 1 << (4 * d)), 16), up), r)
                return r
            pcs.append((Base(dig), 0, n))
        else:
            raise Unsupported('format conversion %' + conv)
    return pcs


@model('snprintf')
def _snprintf(e, st, a, n):
    d, size = a[0], asint(a[1])
    pcs = fmt_pieces(e, st, a[2], a[3:], n)
    if pcs is None:
        return []
    total = 0
    for _, _, l in pcs:
        total = add(total, l)
    out = []
    if isinstance(size, int) and size == 0:
        return [(st, total)]
    t, f = e.split(st, lt(total, size))
    if t is not None:
        dp, db = need_arr(e, t, d, n)
        e.oblige(t, And(ge(dp.off, 0), le(add(dp.off, add(total, 1)), db.size)), 'write-in-bounds', n)
        c = db.content
        pos = dp.off
        for pc, po, pl in pcs:
            c = Copy(c, pos, pc, po, pl)
            pos = add(pos, pl)
        c = Store(c, pos, 0)
        t.mem[dp.blk] = db.but(content=c, L=None, hints=(pos,) + db.hints[:4])
        out.append((t, total))
    if f is not None:
        zs = f
        if not isinstance(size, int):
            zs, zf = e.split(f, gt(size, 0))
            if zf is not None:
                out.append((zf, total))
        if zs is not None:
            dp, db = need_arr(e, zs, d, n)
            e.oblige(zs, And(ge(dp.off, 0), le(add(dp.off, size), db.size)), 'write-in-bounds', n)
            # truncated: build the full text in a scratch content and copy size-1 bytes
            c = Base(lambda k: 0)
            pos = 0
            for pc, po, pl in pcs:
                c = Copy(c, pos, pc, po, pl)
                pos = add(pos, pl)
            cc = Store(Copy(db.content, dp.off, c, 0, sub(size, 1)), add(dp.off, sub(size, 1)), 0)
            zs.mem[dp.blk] = db.but(content=cc, L=None, hints=(add(dp.off, sub(size, 1)),) + db.hints[:4])
            out.append((zs, total))
    return out


@model('sprintf')
def _sprintf(e, st, a, n):
    return _snprintf(e, st, [a[0], 1 << 62, a[1]] + list(a[2:]), n)


# ---------------------------------------------------------------- misc: no effect on verified state
def opaque_int(lo, hi):
    def f(e, st, a, n):
        return [(st, e.fresh('ext', lo, hi, st))]
    return f


for nm in ('fprintf', 'printf', 'fputs', 'puts', 'perror', 'fputc', 'fflush', 'putc', 'putchar', '__fprintf_chk'):
    MODELS[nm] = opaque_int(-(1 << 31), (1 << 31) - 1)


@model('abs')
def _abs(e, st, a, n):
    return [(st, ite(lt(a[0], 0), neg(a[0]), a[0]))]


@model('__builtin_expect')
def _be(e, st, a, n):
    return [(st, a[0])]
