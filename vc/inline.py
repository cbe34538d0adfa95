"""Specifications of inline passes: the text is copied byte by byte except for spans that are rewritten."""
from .api import *


class First:
    """ghost function: first position >= j of a match of `pat` (bytes) in the string, -1 if there is none"""

    def __init__(self, e, name, pat, blk, L, st):
        self.e, self.pat, self.L = e, pat, L
        self.content = st.mem[blk].content
        rd = self.content.read
        I = z3.IntSort()
        self.F = z3.Function(name, I, I)
        RANGED_DECLS[name] = (-1, None)
        e.schemas[name] = [lambda a: [a >= -1, Or(eq(a, -1), And(ge(a, a.arg(0)), le(add(a, len(pat)), L), self.hit(a)))]]
        self.rd = rd

    def hit(self, t):
        return And(*[eq(self.rd(add(t, j)), b) for j, b in enumerate(self.pat)])

    def __call__(self, j):
        return self.F(Z(norm(j)))

    def none_before(self, j):
        f = self(j)
        return Forall(self.content.trigs(), lambda k: Implies(And(ge(k, j), Or(eq(f, -1), lt(k, f))), Not(self.hit(k))), 'first')


class Run:
    """ghost function: first position t in [j, L] with stop(t) (stop holds at L by definition)"""

    def __init__(self, e, name, stop, blk, st, cands=True):
        self.e, self.blk, self.name = e, blk, name
        b = st.mem[blk]
        self.L, self.content = b.L, b.content
        self.p = stop
        I = z3.IntSort()
        self.F = z3.Function(name, I, I)
        RANGED_DECLS[name] = (0, None)
        e.schemas[name] = [lambda a: [a >= 0, Implies(And(ge(a.arg(0), 0), le(a.arg(0), self.L)), And(ge(a, a.arg(0)), le(a, self.L), self.stop(a)))]]
        if cands:
            e.usercands.append(self.cands)

    def stop(self, t):
        return Or(eq(t, self.L), self.p(t))

    def __call__(self, j):
        return self.F(Z(norm(j)))

    def none_before(self, j):
        f = self(j)
        return Forall(self.content.trigs(), lambda k: Implies(And(ge(k, j), lt(k, f)), Not(self.stop(k))), self.name)

    def cands(self, L, h, M, U, blocks, put, s0):
        e = self.e
        for a in M:
            if not (a.kind == 'off' and a.tgt == self.blk or a.kind == 'int' and a.ty.bits > 8):
                continue
            try:
                x0 = norm(a.get(s0))
            except Exception:
                continue
            put('%s none from entry to %s' % (self.name, a.nice()),
                lambda s, a=a, x0=x0: Implies(And(ge(e.sk, x0), lt(e.sk, a.get(s))), Not(self.stop(e.sk))),
                lambda s, a=a, x0=x0: Forall(self.content.trigs(), lambda t: Implies(And(ge(t, x0), lt(t, a.get(s))), Not(self.stop(t))), self.name))


class Back:
    """ghost function: last position t < j with stop(t), -1 if there is none"""

    def __init__(self, e, name, stop, blk, st):
        self.e, self.blk, self.name = e, blk, name
        b = st.mem[blk]
        self.L, self.content = b.L, b.content
        self.stop = stop
        self.F = z3.Function(name, z3.IntSort(), z3.IntSort())
        RANGED_DECLS[name] = (-1, None)
        e.schemas[name] = [lambda a: [a >= -1, Implies(And(ge(a.arg(0), 0), le(a.arg(0), self.L)), And(lt(a, a.arg(0)), Or(eq(a, -1), self.stop(a))))]]
        e.usercands.append(self.cands)

    def __call__(self, j):
        return self.F(Z(norm(j)))

    def none_after(self, j):
        f = self(j)
        return Forall(self.content.trigs(), lambda k: Implies(And(lt(k, j), gt(k, f)), Not(self.stop(k))), self.name)

    def cands(self, L, h, M, U, blocks, put, s0):
        e = self.e
        for a in M:
            if not (a.kind == 'off' and a.tgt == self.blk or a.kind == 'int' and a.ty.bits > 8):
                continue
            try:
                x0 = norm(a.get(s0))
            except Exception:
                continue
            put('%s none from %s back to entry' % (self.name, a.nice()),
                lambda s, a=a, x0=x0: Implies(And(gt(e.sk, a.get(s)), le(e.sk, x0)), Not(self.stop(e.sk))),
                lambda s, a=a, x0=x0: Forall(self.content.trigs(), lambda t: Implies(And(gt(t, a.get(s)), le(t, x0)), Not(self.stop(t))), self.name))
            put('%s at most entry' % a.nice(), lambda s, a=a, x0=x0: le(a.get(s), x0))
            put('%s at least -1' % a.nice(), lambda s, a=a: ge(a.get(s), -1))


def rewriter(name, e, st, blk, spans, factor=None, extra=None, states=()):
    """spans(v) -> [(cond, [(len, bytes)], next position)], first match wins; otherwise the byte at v is copied.
       factor: lemma |output before v| <= factor*v, proved by induction and then assumed.
       states: [(name, initial value, delta(v, STATE))], a value carried along the segments; spans may read them through STATE[name](v)."""
    b = st.mem[blk]
    L, rd = b.L, b.content.read
    end = lambda v: ge(v, L)
    STATE = {}
    for x, init, d, *hi in states:
        hi = hi[0] if hi else 1
        fn = z3.Function(name + '.' + x, z3.IntSort(), z3.IntSort())
        e.schemas[name + '.' + x] = [lambda a, hi=hi: [a >= 0, a <= Z(hi)]]
        RANGED_DECLS[name + '.' + x] = (0, hi if isinstance(hi, int) else None)
        STATE[x] = lambda v, fn=fn: fn(Z(norm(v)))
        st.assume(eq(STATE[x](0), init))
    if states:
        sp0 = spans
        spans = lambda v: sp0(v, STATE)

        def scands(L_, h, M, U, blocks, put, s0):
            offs = any(i.kind == 'off' and i.tgt == blk for i in M)
            for i in M:
                if not (i.kind == 'off' and i.tgt == blk or not offs and i.kind == 'int' and i.ty.bits > 32):
                    continue
                for w in M:
                    if w.kind == 'int' and w is not i:
                        for x in STATE:
                            put('%s==%s(%s)' % (w.nice(), x, i.nice()), lambda s, w=w, x=x, i=i: eq(asint(w.get(s)), STATE[x](i.get(s))))
        e.usercands.append(scands)

    def cases(v):
        out, no = [], []
        for cond, ps, nx in spans(v):
            out.append((And(*(no + [cond])), ps, nx))
            no.append(Not(cond))
        out.append((And(*no) if no else True, [(1, lambda k: rd(v))], add(v, 1)))
        return out

    def pieces_(v):
        cs = cases(v)
        m = max(len(ps) for _, ps, _ in cs)
        res = []
        for i in range(m):
            n, alts = 0, []
            for c, ps, _ in reversed(cs):
                if i < len(ps):
                    n = ite(c, ps[i][0], n)
                    alts.append((c, ps[i][1]))
                else:
                    n = ite(c, 0, n)

            def f(k, alts=alts):
                r = 0
                for c, g in alts:
                    r = ite(c, g(k), r)
                return r
            res.append((ite(end(v), 0, n), f))
        return res

    def nxt(v):
        r = v
        for c, _, nx in reversed(cases(v)):
            r = ite(c, nx, r)
        return r
    T = Segments(name, e, blk, end, pieces_, nxt)
    inv = lambda v: And(ge(v, 0), le(v, L), *([le(T.pos(v), mul(factor, v))] if factor else []))
    s = st.copy().assume(eq(T.pos(0), 0))
    e.prove(s, inv(0), name + ':lemma:bounds:base')
    s = st.copy()
    v = e.fresh('lv', 0, None, s)
    s.assume(And(T.seg(v), inv(v), Not(end(v))))
    for i, (c, ps, nx) in enumerate(cases(v)):
        s1 = s.copy().assume(c)
        tot = 0
        for n, _ in ps:
            e.prove(s1, ge(n, 0), name + ':lemma:piece-length')
            tot = add(tot, n)
        e.prove(s1, And(gt(nx, v), le(nx, L)), name + ':lemma:advances')
        if factor:
            e.prove(s1, le(tot, mul(factor, sub(nx, v))), name + ':lemma:growth')

    def facts(v):
        g = T.seg(v)
        a, f = [], []
        if extra is not None:
            a, f = extra(v)
        for x, init, d, *hi in states:
            w = d(v, STATE)
            a = a + [Implies(And(g, Not(end(v))), eq(STATE[x](nxt(v)), w if hi else ite(w, 1, 0)))]
        return [Implies(g, inv(v)), Implies(And(g, Not(end(v))), inv(nxt(v)))] + a, f
    T.facts = facts
    if factor:
        st.assume(le(T.N, mul(factor, L)))
    T.begin(st)
    e.hints.append(T)
    e.heavy = (name + '.out', name + '.pos')      # not needed to prune paths
    return T


def cat(*ps):
    """pieces of a span: bytes literals and (offset-read, length) pairs"""
    out = []
    for p in ps:
        if isinstance(p, (bytes, str)):
            r, n = lit(p)
            out.append((n, r))
        else:
            out.append(p)
    return out
