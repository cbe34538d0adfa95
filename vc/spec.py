"""Specification streams: the output of a left-to-right transducer over an input sequence.

   pos(0)=0, pos(t+1)=pos(t)+len(state(t),in(t)), out(pos(t)+j)=byte_j(state(t),in(t)), state(t+1)=delta(state(t),in(t))

The same Python definition is evaluated on z3 terms (proof) and on ints (oracle)."""
import z3
from .terms import *
from .mem import *
from .frontend import *


class Chunk:
    """a run of output of variable length: n bytes f(0..n)"""

    def __init__(self, n, f):
        self.n, self.f = n, f


def _len(bs):
    return bs.n if isinstance(bs, Chunk) else len(bs)


class Transducer:
    def __init__(self, name, out, nstate=0, init=(), delta=None, look=None):
        """out(st, c, rd, t) -> [(cond, [bytes])...] first true wins; delta(st, c, rd, t) -> tuple; rd(k) reads the input at t+k"""
        self.name, self.outf, self.ns, self.init, self.delta = name, out, nstate, tuple(init), delta
        self.start = 0

    # ---- concrete
    def run(self, data, n=None, term=b'\0'):
        n = len(data) if n is None else n
        full = bytes(data) + term
        out = bytearray()
        st = self.init
        for t in range(n):
            rd = lambda k: full[t + k] if 0 <= t + k < len(full) else 0
            for c, bs in self.outf(st, full[t], rd, t):
                if c:
                    out += bytes(bs.f(q) for q in range(bs.n)) if isinstance(bs, Chunk) else bytes(bs)
                    break
            if self.delta:
                st = tuple(int(x) for x in self.delta(st, full[t], rd, t))
        self.final = st
        return bytes(out)

    # ---- symbolic
    def bind(self, eng, read, n, blk=None, base=0, prefix=''):
        """attach to an input read(k) (k absolute index in block blk; stream index 0 = absolute index base)"""
        self.e, self.read, self.n, self.blk, self.base = eng, read, n, blk, base
        nm = 'T_' + prefix + self.name
        I = z3.IntSort()
        self.POS, self.S = z3.Function(nm + '.pos', I, I), z3.Function(nm + '.out', I, I)
        RANGED_DECLS[nm + '.out'] = (0, 255)
        self.ST = [z3.Function('%s.st%d' % (nm, j), I, I) for j in range(self.ns)]
        self.maxlen = None
        alts = self._alts(z3.Int('t!'))
        self.maxlen = None if any(isinstance(b, Chunk) for _, b in alts) else max(len(b) for _, b in alts)
        self.minlen = min(0 if isinstance(b, Chunk) else len(b) for _, b in alts)
        eng.schemas[nm + '.pos'] = [self._ax]
        eng.schemas[nm + '.out'] = [lambda a: [a >= 0, a <= 255]]
        for f in self.ST:
            eng.schemas[f.name()] = [self._ax]
        self.lemmas(eng, nm)
        return self

    def st(self, t):
        return tuple(self.init) if isinstance(t, int) and t == 0 else tuple(f(Z(norm(t))) for f in self.ST)

    def rdat(self, t):
        return lambda k: self.read(add(add(t, self.base), k))

    def _alts(self, t):
        rd = self.rdat(t)
        return self.outf(self.st(t), rd(0), rd, t)

    def pos(self, t):
        t = norm(t)
        if isinstance(t, int) and t == 0:
            return 0
        return self.POS(Z(t))

    def out(self, k):
        return self.S(Z(norm(k)))

    def step(self, t):
        """axioms relating t and t+1"""
        g = And(ge(t, 0), lt(t, self.n))
        if g is False:
            return []
        r = []
        ln = None
        alts = self._alts(t)
        rd = self.rdat(t)
        prev = True
        length = 0
        items = []
        for c, bs in alts:
            cc = And(prev, c)
            items.append((cc, bs))
            prev = And(prev, Not(c))
        for c, bs in reversed(items):
            length = ite(c, _len(bs), length)
        p = self.pos(t)
        r.append(Implies(g, eq(self.pos(add(t, 1)), add(p, length))))
        for c, bs in items:
            if isinstance(bs, Chunk):
                r.append(Implies(And(g, c), ge(bs.n, 0)))
                continue
            for j, b in enumerate(bs):
                r.append(Implies(And(g, c), eq(self.out(add(p, j)), b)))
        if self.delta:
            ns = self.delta(self.st(t), rd(0), rd, t)
            t1 = norm(add(t, 1))
            for f, v in zip(self.ST, ns):
                r.append(Implies(g, eq(f(Z(t1)), asint(v))))
        return r

    def _ax(self, a):
        t = norm(a.arg(0))
        r = self.step(t) + self.step(norm(sub(t, 1)))
        p = self.pos(t)
        g = And(ge(t, 0), le(t, self.n))
        up = lambda d, k: True if self.maxlen is None else le(d, mul(self.maxlen, k))
        r += [Implies(g, And(ge(p, mul(self.minlen, t)), up(p, t)))]
        if not (isinstance(t, int) and t == 0):
            r.append(Implies(eq(t, 0), eq(self.POS(Z(t)), 0)))
            for f, v in zip(self.ST, self.init):
                r.append(Implies(eq(t, 0), eq(f(Z(t)), v)))
        # remaining output: what is still to come is bounded too
        N = self.pos(self.n)
        r += [Implies(g, And(ge(sub(N, p), mul(self.minlen, sub(self.n, t))), up(sub(N, p), sub(self.n, t))))]
        return r

    def chunks(self, st, t):
        """the bytes of the chunk written at t (defining equation of the stream, added where t is reached)"""
        prev = And(ge(t, 0), lt(t, self.n))
        p = self.pos(t)
        for c, bs in self._alts(t):
            if isinstance(bs, Chunk):
                g = And(prev, c)
                st.pc.append(Forall([(self.S, (), p)], lambda k, bs=bs, g=g: Implies(And(g, ge(k, 0), lt(k, bs.n)), eq(self.out(add(p, k)), bs.f(k))), 'chunk'))
            prev = And(prev, Not(c))

    def lemmas(self, eng, nm):
        """the pos bounds used above follow by induction: check the step"""
        from .engine import Ob
        t, p = z3.Int('lt!'), z3.Int('lp!')
        for c, bs in self._alts(t):
            ok = isinstance(bs, Chunk) or self.minlen <= len(bs) <= (len(bs) if self.maxlen is None else self.maxlen)
            eng.count_ok('lemma:%s.pos-bounds:step' % nm) if ok else eng.fail('lemma:%s.pos-bounds:step' % nm, 'len')

    def nonzero(self, st0=None):
        """lemma: every output byte of a NUL-free input is non-zero; proved per alternative, then usable as a schema"""
        e = self.e
        nm = self.S.name()
        t = z3.Int('lt!')
        c = self.rdat(t)(0)
        prev = And(ge(t, 0), lt(t, self.n), ne(c, 0))
        for cond, bs in self._alts(t):
            s = State() if st0 is None else st0.copy()
            s.assume(And(prev, cond))
            if isinstance(bs, Chunk):
                q = z3.Int('lq!')
                s.assume(And(ge(q, 0), lt(q, bs.n)))
                e.prove(s, ne(bs.f(q), 0), 'lemma:%s.bytes-non-zero' % nm)
                prev = And(prev, Not(cond))
                continue
            for b in bs:
                e.prove(s, And(gt(b, 0), le(b, 255)), 'lemma:%s.bytes-non-zero' % nm)
            prev = And(prev, Not(cond))
        e.schemas[nm].append(lambda a: [Implies(And(ge(a.arg(0), 0), lt(a.arg(0), self.pos(self.n))), ne(a, 0))])
        return self

    def lemma(self, name, f, st0=None):
        """lemma by induction over the stream: f(t) for all 0 <= t <= n (base and step proved, then usable as a schema)"""
        e = self.e
        s = State() if st0 is None else st0.copy()
        e.prove(s, f(0), 'lemma:%s:base' % name)
        t = z3.Int('li!' + name)
        s.assume(And(ge(t, 0), lt(t, self.n), ne(self.rdat(t)(0), 0), f(t)))
        for ax in self.step(t):
            s.assume(ax)
        e.prove(s, f(norm(add(t, 1))), 'lemma:%s:step' % name)
        for d in [self.POS] + self.ST:
            e.schemas[d.name()].append(lambda a: [Implies(And(ge(a.arg(0), 0), le(a.arg(0), self.n)), f(norm(a.arg(0))))])
        return self

    # ---- invariants
    def candidates(self, L, h, M, U, blocks, put, s0):
        def isnum(a):
            return a.ty is not None and a.ty.k == 'int' and a.ty.bits > 8
        Mn = [a for a in M if isnum(a)]
        Un = [a for a in U if isnum(a)]
        idx = []
        for a in Mn + Un:
            if a.kind == 'off' or (a.kind == 'const' and a.tgt is not None):
                if a.tgt != self.blk:
                    continue
            if a.kind == 'size':
                continue
            idx.append(a)

        def v0(a):
            try:
                return norm(a.get(s0))
            except Exception:
                return None
        nm = self.name
        for i in idx:
            for di in (0, -1, 1):
                def sidx(s, i=i, di=di):
                    return norm(add(sub(i.get(s), self.base), di))
                i0 = v0(i)
                if i0 is None:
                    continue
                P0 = self.pos(add(sub(i0, self.base), di)) if di == 0 else None
                if di == 0 and i in Mn:
                    for kk in ('inrange',):
                        put('%s:%s in input' % (nm, i.nice()), lambda s, i=i: And(ge(sub(i.get(s), self.base), 0), le(sub(i.get(s), self.base), self.n)))
                for w in Mn:
                    if w is i:
                        continue
                    if w.kind == 'off' and w.tgt == self.blk and self.blk not in blocks:
                        continue
                    w0 = v0(w)
                    if w0 is None:
                        continue
                    offs = {'%s' % norm(sub(w0, self.pos(sub(i0, self.base)))): norm(sub(w0, self.pos(sub(i0, self.base)))), '0': 0}
                    for tag, d in offs.items():
                        put('%s:%s==pos(%s%+d)+%s' % (nm, w.nice(), i.nice(), di, tag), lambda s, w=w, f=sidx, d=d: eq(w.get(s), add(self.pos(f(s)), d)))
                if i in Mn or h.mod:
                    for j, f in enumerate(self.ST):
                        for v in M:
                            if v is i or v.kind != 'int':
                                continue
                            put('%s:%s==st%d(%s%+d)' % (nm, v.nice(), j, i.nice(), di), lambda s, v=v, j=j, f=sidx: eq(v.get(s), self.st(f(s))[j] if self.ns else 0))
                        if i in Mn and di == 0:
                            put('%s:st%d(%s)==0 inside' % (nm, j, i.nice()), lambda s, j=j, f=sidx: Implies(lt(f(s), self.n), eq(self.st(f(s))[j], 0)))
                            for c in (0, 1, 2, 3):
                                put('%s:st%d(%s)==%d' % (nm, j, i.nice(), c), lambda s, j=j, f=sidx, c=c: eq(self.st(f(s))[j], c))
        for k in blocks:
            for w in Mn + Un:
                if w.kind == 'off' and w.tgt != k:
                    continue
                w0 = v0(w)
                if w0 is None:
                    continue
                bases = {'0': 0}
                if w in Mn and not isinstance(w0, int) or (isinstance(w0, int) and w0 != 0):
                    bases[str(w0)] = w0
                for b0 in getattr(self, 'outbases', ()):
                    bases[str(b0)] = b0
                for tag, d in bases.items():
                    L.put_forall(put, '%s:%s[%s..%s)==out' % (nm, k, tag, w.nice()), k, lambda s, w=w, d=d: (d, w.get(s)),
                                 lambda s, t, d=d: self.out(sub(t, d)),
                                 xtrigs=lambda s, d=d: [(self.S, (), neg(d))])


class Segments:
    """Specification stream of a program that cuts its input into consecutive segments.

       A segment starts at v (the first at `start`); end(v) says the segment at v is the last one; its output is the concatenation of pieces(v) = [(length, byte function)],
       and the next segment starts at next(v).  SEG marks the reachable starts, POS(v) is the length of the output before v, OUT the whole output, N its length:
           SEG(start), POS(start) = 0;  SEG(v), not end(v) => SEG(next v), POS(next v) = POS(v) + |pieces(v)|;  SEG(v), end(v) => N = POS(v) + |pieces(v)|
       The equations are used at the positions where a loop stands (defs)."""

    def __init__(self, name, eng, blk, end, pieces, nxt, start=0, facts=None):
        I = z3.IntSort()
        self.name, self.e, self.blk, self.endf, self.pieces, self.nxt, self.start, self.facts = name, eng, blk, end, pieces, nxt, start, facts
        self.POS, self.OUT, self.SEG = z3.Function(name + '.pos', I, I), z3.Function(name + '.out', I, I), z3.Function(name + '.seg', I, z3.BoolSort())
        self.N = z3.Int(name + '.N')
        RANGED_DECLS[name + '.out'] = (0, 255)
        RANGED_DECLS[name + '.N'] = (0, None)
        eng.schemas[name + '.out'] = [lambda a: [a >= 0, a <= 255]]
        eng.schemas[name + '.pos'] = [lambda a: [z3.Implies(self.SEG(a.arg(0)), z3.And(a >= 0, a <= self.N))]]

    def pos(self, v):
        return self.POS(Z(norm(v)))

    def out(self, k):
        return self.OUT(Z(norm(k)))

    def seg(self, v):
        return self.SEG(Z(norm(v)))

    def begin(self, st):
        st.assume(self.seg(self.start))
        st.assume(eq(self.pos(self.start), 0))
        st.assume(And(self.N >= 0, self.N <= 1 << 40))
        self.defs(st, self.start)
        return self

    def eqs(self, v):
        """-> (formulas, foralls) the defining equations at v"""
        g = self.seg(v)
        ps = self.pieces(v)
        p = self.pos(v)
        q = p
        fa, fs = [], []
        for n, f in ps:
            fs.append(Implies(g, ge(n, 0)))
            fa.append(Forall([(self.OUT, (), q)], lambda k, f=f, n=n, q=q: Implies(And(g, ge(k, 0), lt(k, n)), eq(self.out(add(q, k)), f(k))), self.name))
            q = add(q, n)
        en = self.endf(v)
        w = norm(self.nxt(v))
        fs += [Implies(And(g, en), eq(self.N, q)), Implies(And(g, Not(en)), And(self.seg(w), eq(self.pos(w), q), le(q, self.N)))]
        if self.facts is not None:
            a, b = self.facts(v)
            fs += a
            fa += b
        return fs, fa

    def defs(self, st, v):
        fs, fa = self.eqs(v)
        for f in fs:
            st.assume(f)
        st.pc.extend(fa)

    def candidates(self, L, h, M, U, blocks, put, s0):
        isnum = lambda a: a.ty is not None and a.ty.k == 'int' and a.ty.bits > 8
        nm = self.name
        x = z3.Int('taut!')
        offs = any(i.kind == 'off' and i.tgt == self.blk for i in M)
        for i in M:
            if not (isnum(i) and (i.kind == 'off' and i.tgt == self.blk or i.kind == 'int' and not offs)):
                continue
            put('%s:segment at %s' % (nm, i.nice()), lambda s, i=i: self.seg(i.get(s)))
            fs0, fa0 = self.eqs(i.get(h.rep))
            for j in range(len(fa0)):
                put('%s:def%d at %s' % (nm, j, i.nice()), lambda s: z3.Or(x > 0, x <= 0), lambda s, i=i, j=j: self.eqs(i.get(s))[1][j])
            put('%s:defs at %s' % (nm, i.nice()), lambda s: z3.Or(x > 0, x <= 0), lambda s, i=i: And(*self.eqs(i.get(s))[0]))
            for w in M:
                if w is i or not isnum(w) or w.kind == 'off' and w.tgt == self.blk:
                    continue
                put('%s:%s==pos(%s)' % (nm, w.nice(), i.nice()), lambda s, w=w, i=i: eq(w.get(s), self.pos(i.get(s))))
        for k in blocks:
            for w in M:
                if not isnum(w) or w.kind == 'off' and w.tgt != k:
                    continue
                L.put_forall(put, '%s:%s[0..%s)==out' % (nm, k, w.nice()), k, lambda s, w=w: (0, w.get(s)), lambda s, t: self.out(t), xtrigs=lambda s: [(self.OUT, (), 0)])
                put('%s:%s %s room' % (nm, k, w.nice()), lambda s, k=k, w=w: lt(w.get(s), s.mem[k].size))

    def post(self, s, v, name):
        """the returned heap string is exactly the stream"""
        e = self.e
        if isinstance(v, Ptr) and v.blk is None:
            e.prove(s, bool(s.ghost.get('oom')), name + ':returns-null-only-when-out-of-memory')
            return
        b = s.mem[v.blk]
        if b.freed:
            e.prove(s, False, name + ':returned-block-is-live')
            return
        k = z3.Int('k!post')
        s2 = s.copy().assume(And(ge(k, 0), lt(k, self.N)))
        e.prove(s, And(ge(v.off, 0), lt(add(v.off, self.N), b.size)), name + ':output-fits-its-block')
        e.prove(s2, eq(b.content.read(add(v.off, k)), self.out(k)), name + ':output-bytes-equal-specification')
        e.prove(s, eq(b.content.read(add(v.off, self.N)), 0), name + ':output-terminated')
        e.cover(s, name)
