"""VC generator: forward symbolic execution of the clang AST, loops cut by inductive invariants."""
import time, os, itertools
import z3
from .terms import *
from .mem import *
from .frontend import *

MAXLEN = 1 << 30


class Cand:
    """Invariant candidate. f(state) -> Bool term, or (with sk) a term with Skolem sk; assume(state) -> pc item."""
    __slots__ = ('key', 'f', 'asm')

    def __init__(self, key, f, asm=None):
        self.key, self.f, self.asm = key, f, asm


class Ob:
    __slots__ = ('name', 'status', 'info', 'n', 't')

    def __init__(self, name):
        self.name, self.status, self.info, self.n, self.t = name, 'ok', None, 0, 0.0


class Outcome:
    def __init__(self):
        self.normal, self.brk, self.cont, self.ret = [], [], [], []


class Head:
    def __init__(self, idx, shape, rep):
        self.idx, self.shape, self.rep = idx, shape, rep
        self.mod = set()
        self.entries = []
        self.pc = list(rep.pc)
        self.cands = []
        self.first = rep


def common_prefix(a, b):
    n = 0
    for x, y in zip(a, b):
        if x is y or (isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef) and x.eq(y)):
            n += 1
        else:
            break
    return a[:n]


def under(c):
    while True:
        yield c
        if not isinstance(c, Copy):
            return
        c = c.prev


class Engine:
    def __init__(self, tu, timeout_ms=10000, verbose=0):
        self.tu = tu
        self.mode = 'final'
        self.obs = {}
        self.contracts = {}
        self.hints = []          # Transducers / candidate generators
        self.uterms = []         # extra stable terms for templates
        self.schemas = {}
        self.keepalive = []
        self.growmerge = False
        self.handlecells = ()
        self.kcache = {}
        self.argc = {}
        self.timeout = timeout_ms
        self.verbose = verbose
        self.nq = 0
        self.tq = 0.0
        self.fresh_n = 0
        self.appc = {}
        self.schc = {}
        self.hcache = {}
        self.tagids = {}
        self.inlined = set()
        self.assumed = set()
        self.failures = []
        self.loops = {}
        self.litn = {}
        self.roots = set()
        self.fieldinit = {}
        self.curfn = '?'
        self.offs = ()
        self.scales = (2, 3, 4)
        self.mods = ()
        self.maxheads = 12
        self.terminates = True
        self.deadline = None
        self.usercands = []
        self.overflow_check = True
        self.sk = z3.Int('sk!')
        self.noinline = set()
        self.maxstates = 400
        self.rounds = 2
        self.variants = []
        self.vacuous = []
        self.covered = set()
        self.hintbytes = set()
        self.cross = {'agree': 0, 'unknown': 0, 'disagree': 0}
        self.statics = {}
        self.heavyc = {}

    # ------------------------------------------------------------ symbols
    def fresh(self, name, lo=None, hi=None, st=None):
        self.fresh_n += 1
        nm = '%s!%d' % (name, self.fresh_n)
        v = z3.Int(nm)
        if lo is not None or hi is not None:
            RANGED_DECLS[nm] = (lo, hi)
        if st is not None:
            if lo is not None:
                st.assume(v >= lo)
            if hi is not None:
                st.assume(v <= hi)
        return v

    def named(self, nm, ty=None, st=None):
        v = z3.Int(nm)
        if ty is not None and ty.k == 'int':
            lo, hi = self.range_of(ty)
            RANGED_DECLS[nm] = (lo, hi)
            if st is not None:
                st.assume(v >= lo)
                st.assume(v <= hi)
        return v

    @staticmethod
    def range_of(ty):
        if ty.bits == 1:
            return 0, 1
        if ty.signed:
            return -(1 << (ty.bits - 1)), (1 << (ty.bits - 1)) - 1
        return 0, (1 << ty.bits) - 1

    def bytefn(self, name, extra=0):
        f = z3.Function(name, *([z3.IntSort()] * (extra + 2)))
        RANGED_DECLS[name] = (0, 255)
        self.schemas.setdefault(name, []).append(lambda a: [a >= 0, a <= 255])
        return f

    def strfn(self, name, L):
        """content symbol of a NUL-terminated string of length L"""
        f = self.bytefn(name)
        Lz = Z(L)
        self.schemas[name].append(lambda a: [z3.Implies(z3.And(a.arg(0) >= 0, a.arg(0) < Lz), a != 0),
                                             z3.Implies(a.arg(0) == Lz, a == 0)])
        return f

    def cstring(self, st, name, minlen=0, maxlen=MAXLEN):
        """fresh NUL-terminated input string; returns Ptr; block named name"""
        L = z3.Int('len_' + name)
        RANGED_DECLS['len_' + name] = (minlen, maxlen)
        st.assume(L >= minlen)
        st.assume(L <= maxlen)
        f = self.strfn(name, L)
        b = Block('arr', size=add(L, 1), content=Base(lambda k: f(Z(k)), f), ety=CHAR, L=L, name=name)
        st.mem[name] = b
        self.roots.add(name)
        return Ptr(name, 0)

    def bytes_input(self, st, name, n, ety=UCHAR):
        f = self.bytefn(name)
        st.mem[name] = Block('arr', size=n, content=Base(lambda k: f(Z(k)), f), ety=ety, name=name)
        self.roots.add(name)
        return Ptr(name, 0)

    def family(self, name, nullable=False):
        """string family indexed by one term: returns (decl content(i,k), len(i), isnull(i))"""
        f = self.bytefn(name, 1)
        Lf = z3.Function('len_' + name, z3.IntSort(), z3.IntSort())
        self.schemas[name].append(lambda a: [
            z3.Implies(z3.And(a.arg(1) >= 0, a.arg(1) < Lf(a.arg(0))), a != 0),
            z3.Implies(a.arg(1) == Lf(a.arg(0)), a == 0)])
        self.schemas.setdefault('len_' + name, []).append(lambda a: [a >= 0, a <= MAXLEN])
        RANGED_DECLS['len_' + name] = (0, MAXLEN)
        N = z3.Function('null_' + name, z3.IntSort(), z3.BoolSort()) if nullable else None
        return f, Lf, N

    def family_block(self, st, fam, name, idx):
        f, Lf, N = fam
        idx = norm(idx)
        bid = '%s[%s]' % (name, idx)
        if bid not in st.mem:
            zi = Z(idx)
            L = Lf(zi)
            st.assume(L >= 0)
            st.assume(L <= MAXLEN)
            st.mem[bid] = Block('arr', size=add(L, 1), content=Base(lambda k: f(zi, Z(k)), f, (idx,)), ety=CHAR, L=L, name=bid)
        return Ptr(bid, 0)

    def string_array(self, st, name, n, nullable=True):
        """read-only array of n (possibly null) strings"""
        fam = self.family(name, nullable)

        def load(e, s, idx):
            p = e.family_block(s, fam, name, idx)
            if not nullable:
                return [(s, p)]
            t, f = e.split(s, fam[2](Z(norm(idx))))
            return ([(t, NULL)] if t is not None else []) + ([(f, p)] if f is not None else [])
        st.mem[name] = Block('parr', size=n, content=load, cells={}, ety=Ty('ptr', of=CHAR), name=name, ro=True)
        self.roots.add(name)
        return Ptr(name, 0), fam

    # ------------------------------------------------------------ solver
    def apps(self, e):
        """applications of symbols that have schemas/triggers inside e (memoised)"""
        i = e.get_id()
        r = self.appc.get(i)
        if r is not None:
            return r[1]
        stack = [e]
        while stack:
            x = stack[-1]
            xi = x.get_id()
            if xi in self.appc:
                stack.pop()
                continue
            ch = x.children()
            todo = [c for c in ch if c.get_id() not in self.appc]
            if todo:
                stack.extend(todo)
                continue
            acc = {}
            for c in ch:
                acc.update(self.appc[c.get_id()][1])
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
                acc[xi] = x
            self.appc[xi] = (x, acc)
            stack.pop()
        return self.appc[i][1]

    def args_of(self, i, a):
        r = self.argc.get(i)
        if r is None:
            r = self.argc[i] = ([asint(norm(x)) for x in a.children()], a)
        return r[0]

    def instantiate(self, fs, foralls):
        seen = set()
        out = []
        frontier = {}
        for f in fs:
            frontier.update(self.apps(f))
        fa = {}
        for q in foralls:
            for t in q.trigs:
                fa.setdefault(t[0].name(), []).append((q, t))
        done_inst = set()
        for rnd in range(self.rounds):
            new = []
            for i, a in frontier.items():
                if i in seen:
                    continue
                seen.add(i)
                nm = a.decl().name()
                ci = self.schc.get(i)
                if ci is None:
                    lst = []
                    for s in self.schemas.get(nm, ()):
                        for f in s(a):
                            f = asbool(f)
                            if f is not True:
                                lst.append(Z(f))
                    ci = self.schc[i] = (a, lst)
                new.extend(ci[1])
                for q, t in fa.get(nm, ()):
                    decl, extra, shift = t
                    if extra:
                        if not all(same(x, norm(y)) for x, y in zip(self.args_of(i, a), extra)):
                            continue
                    ck = (i, shift if isinstance(shift, int) else ('t', shift.get_id()), len(extra))
                    kc = self.kcache.get(ck)
                    if kc is None:
                        k = norm(sub(self.args_of(i, a)[len(extra)], shift))
                        kc = self.kcache[ck] = (k, k if isinstance(k, int) else ('t', k.get_id()), a, shift)
                    k = kc[0]
                    kk = (id(q), kc[1])
                    if kk in done_inst:
                        continue
                    done_inst.add(kk)
                    f = q.cache.get(kk[1])
                    if f is None:
                        f = asbool(q.body(k))
                        q.cache[kk[1]] = f = (k, Z(f) if f is not True else True)
                    if f[1] is not True:
                        new.append(f[1])
            if not new:
                break
            out.extend(new)
            frontier = {}
            for f in new:
                frontier.update(self.apps(f))
        return out

    def solve(self, pc, extra=(), timeout=None):
        """-> ('unsat',None) | ('sat',model) | ('unknown',reason)"""
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        fs, qs = [], []
        for p in pc:
            if isinstance(p, Forall):
                qs.append(p)
            elif p is False:
                return 'unsat', None
            elif p is not True:
                if z3.is_false(p):
                    return 'unsat', None
                fs.append(p)
        for p in extra:
            p = asbool(p)
            if p is False:
                return 'unsat', None
            if p is not True:
                fs.append(Z(p))
        t0 = time.time()
        insts = self.instantiate(fs, qs)
        s = z3.SimpleSolver()
        s.set('timeout', timeout or self.timeout)
        ctx, sv = s.ctx.ref(), s.solver
        for f in fs:
            z3.Z3_solver_assert(ctx, sv, f.ast)
        for f in insts:
            z3.Z3_solver_assert(ctx, sv, f.ast)
        r = s.check()
        dt = time.time() - t0
        self.nq += 1
        self.tq += dt
        if self.verbose > 2 or (self.verbose > 1 and dt > 1):
            print('   query %s %.2fs fs=%d inst=%d' % (r, dt, len(fs), len(insts)), flush=True)
        self.last = (fs, insts)
        if r == z3.unsat:
            return 'unsat', None
        if r == z3.sat:
            return 'sat', s.model()
        return 'unknown', s.reason_unknown()

    def proves(self, st, goal, timeout=None):
        g = asbool(goal)
        if g is True:
            return True
        if isinstance(g, z3.ExprRef):
            gi = g.get_id()
            if any(not isinstance(p, Forall) and p.get_id() == gi for p in st.pc):
                return True
        return self.solve(st.pc, [Not(g)], timeout)[0] == 'unsat'

    def feasible(self, st, cond=True, light=False):
        c = asbool(cond)
        if c is False:
            return False
        return self.solve(self.light(st.pc) if light else st.pc, [c])[0] != 'unsat'

    def oblige(self, st, cond, kind, node=None, assume=True):
        cond = asbool(cond)
        if self.mode == 'final':
            ln = self.tu.line(node) if isinstance(node, dict) else (node or '')
            name = '%s:%s:%s' % (self.curfn, kind, ln)
            self.prove(st, cond, name)
        if assume and cond is not True:
            st.assume(cond)

    def prove(self, st, cond, name):
        o = self.obs.get(name)
        if o is None:
            o = self.obs[name] = Ob(name)
        o.n += 1
        cond = asbool(cond)
        if cond is True:
            return True
        if isinstance(cond, z3.ExprRef):
            ci = cond.get_id()
            if any(not isinstance(p, Forall) and p.get_id() == ci for p in st.pc):
                return True     # assumed on this path
        t0 = time.time()
        r, m = self.solve(st.pc, [Not(cond)])
        o.t += time.time() - t0
        if r == 'unsat':
            if self.crosscheck:
                self.cvc5()
            return True
        if r == 'unknown':
            r2, m = self.retry()
            if r2 == 'unsat':
                return True
            r = r2
        if o.status != 'fail':
            o.status = 'fail' if r == 'sat' else 'unknown'
            o.info = self.model_info(m) if r == 'sat' else {'reason': str(m)}
            self.failures.append((name, o.status, o.info))
            for bs in (o.info or {}).get('bytes', {}).values():
                self.hintbytes |= set(bs.values())
            if self.verbose:
                print('  OBLIGATION FAILED', name, r, o.info)
                if self.verbose > 3:
                    for p in st.pc: print('     pc', p if not isinstance(p, Forall) else ('forall', p.name))
                    print('     goal', cond)
        return False

    def retry(self):
        """second attempt with another strategy and a longer timeout"""
        fs, insts = self.last
        s = z3.SolverFor('QF_UFLIA')
        s.set('timeout', self.timeout * 3)
        s.add(*fs)
        s.add(*insts)
        r = s.check()
        if r == z3.unsat:
            return 'unsat', None
        if r == z3.sat:
            return 'sat', s.model()
        return 'unknown', s.reason_unknown()

    def cvc5(self):
        """second opinion on a discharged obligation"""
        import subprocess
        fs, insts = self.last
        s = z3.Solver()
        s.add(*fs)
        s.add(*insts)
        try:
            p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=10000', '-'], input=('(set-logic ALL)\n' + s.to_smt2()).encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=20)
            r = p.stdout.decode().strip()
        except subprocess.TimeoutExpired:
            r = 'unknown'
        k = 'agree' if r == 'unsat' else 'disagree' if r == 'sat' else 'unknown'
        self.cross[k] += 1
        if k == 'disagree':
            self.vacuous.append('cvc5 disagrees with z3')

    def model_info(self, m):
        fs, insts = self.last
        vals, bys = {}, {}
        for d in m.decls():
            if d.arity() == 0:
                v = m[d]
                if z3.is_int_value(v):
                    vals[d.name()] = v.as_long()
        for f in fs:
            for a in self.apps(f).values():
                nm = a.decl().name()
                if RANGED_DECLS.get(nm) == (0, 255):
                    try:
                        k = m.eval(a.arg(a.num_args() - 1), model_completion=True).as_long()
                        bys.setdefault(nm, {})[k] = m.eval(a, model_completion=True).as_long()
                    except Exception:
                        pass
        return {'vars': dict(list(vals.items())[:60]), 'bytes': {k: dict(list(v.items())[:40]) for k, v in bys.items()}}

    def split(self, st, cond):
        """fork on cond; infeasible sides are None"""
        c = asbool(cond)
        if c is True:
            return st, None
        if c is False:
            return None, st
        t = st.copy().assume(c)
        f = st.copy().assume(Not(c))
        if self.lazy is not None and self.lazy(c):
            return t, f     # both sides kept unchecked
        tf = self.solve(self.light(t.pc), (), 2500)[0] != 'unsat'
        if not tf:
            return None, f
        ff = self.solve(self.light(f.pc), (), 2500)[0] != 'unsat'
        return t, (f if ff else None)

    heavy = None
    lazy = None

    def light(self, pc):
        """path pruning may ignore facts: leave out the ones about the given symbols (a kept infeasible path costs time only)"""
        if self.heavy is None:
            return pc
        out = []
        for p in pc:
            if isinstance(p, Forall):
                if any(t[0].name().startswith(self.heavy) for t in p.trigs):
                    continue
            elif not isinstance(p, bool):
                c = self.heavyc.get(p.get_id())
                if c is None:
                    c = self.heavyc[p.get_id()] = (any(a.decl().name().startswith(self.heavy) for a in self.apps(p).values()), p)
                if c[0]:
                    continue
            out.append(p)
        return out

    # ------------------------------------------------------------ memory
    def alloc_id(self, st, base):
        n = 0
        while '%s~%d' % (base, n) in st.mem:
            n += 1
        return '%s~%d' % (base, n)

    def deref_block(self, st, p, node):
        if isinstance(p, Ptr):
            if p.blk is None:
                self.oblige(st, False, 'null-dereference', node)
                return None
            b = st.mem.get(p.blk)
            if b is None:
                raise Unsupported('dangling block ' + p.blk)
            if b.freed:
                self.oblige(st, False, 'use-after-free', node)
                return None
            return b
        raise Unsupported('dereference of ' + repr(p))

    def typed(self, st, p, ty):
        """give a raw malloc block a type on first typed use"""
        b = st.mem.get(p.blk)
        if b is None or b.kind != 'raw' or ty.k in ('void',):
            return
        if ty.k == 'int':
            sz = self.tu.sizeof(ty)
            n = b.size if sz == 1 else self.divsize(st, b.size, sz)
            content = b.content
            if content is None:
                content = self.uninit_content(p.blk)
            st.mem[p.blk] = b.but(kind='arr', size=n, content=content, ety=ty)
        elif ty.k == 'struct':
            sz = self.tu.sizeof(ty)
            self.oblige(st, ge(b.size, sz), 'allocation-size', None)
            st.mem[p.blk] = b.but(kind='cell', size=None, cells={}, default=b.default)
        elif ty.k == 'ptr':
            sz = 8
            n = self.divsize(st, b.size, 8)
            st.mem[p.blk] = b.but(kind='parr', size=n, content=None, cells={}, ety=ty)
        else:
            raise Unsupported('typed use of raw block as %r' % ty)

    def divsize(self, st, size, sz):
        if isinstance(size, int):
            return size // sz
        c, m = linform(size)
        if all(e % sz == 0 for e, _ in m.values()):
            return unlin(c // sz, {k: (e // sz, a) for k, (e, a) in m.items()})
        return floordiv(size, sz)

    def uninit_content(self, name):
        f = self.bytefn('uninit_' + name)
        return Base(lambda k: f(Z(k)), f)

    def struct_cell_ty(self, ty, path):
        for x in path:
            if ty.k == 'struct':
                ty = dict(self.tu.fields(ty))[x]
            elif ty.k == 'arr':
                ty = ty.of
        return ty

    def load(self, st, p, ty, node):
        """-> list of (st, value)"""
        if isinstance(p, Chain):
            raise Unsupported('load through chain pointer')
        if isinstance(p, Opaque):
            p = self.materialise(st, p)
        b = self.deref_block(st, p, node)
        if b is None:
            return []
        if b.kind == 'raw':
            self.typed(st, p, ty)
            b = st.mem[p.blk]
        if b.kind == 'arr':
            if p.path:
                raise Unsupported('path into array block')
            if ty.k != 'int' or self.tu.sizeof(ty) != self.tu.sizeof(b.ety):
                raise Unsupported('type-punned load')
            self.oblige(st, And(ge(p.off, 0), lt(p.off, b.size)), 'read-in-bounds', node)
            v = b.content.read(p.off)
            if ty.bits == 8 and ty.signed:
                v = schar(v)
            return [(st, v)]
        if b.kind == 'parr':
            return self.load_parr(st, p, b, ty, node)
        # cell
        if ty.k == 'struct':
            cells = {}
            n = len(p.path)
            for k, v in b.cells.items():
                if k[:n] == p.path:
                    cells[k[n:]] = v
            if b.default not in ('zero',) and not isinstance(b.default, str):
                # materialise every field so the copy is a value
                for fn, fty in self.leafs(ty):
                    if fn not in cells:
                        for s2, v in self.load(st, Ptr(p.blk, 0, p.path + fn), fty, node):
                            cells[fn] = (v, fty)
            return [(st, StructVal(cells, b.default if isinstance(b.default, str) else 'uninit'))]
        if not same(p.off, 0):
            raise Unsupported('offset into cell block')
        c = b.cells.get(p.path)
        if c is not None:
            return [(st, c[0])]
        return self.default_cell(st, p, b, ty, node)

    def leafs(self, ty, pre=()):
        for fn, ft in self.tu.fields(ty):
            if ft.k == 'struct':
                yield from self.leafs(ft, pre + (fn,))
            elif ft.k == 'arr':
                continue
            else:
                yield pre + (fn,), ft

    def default_cell(self, st, p, b, ty, node):
        if b.default == 'zero':
            v = NULL if ty.k == 'ptr' else 0
            return [(st, v)]
        if b.default == 'uninit':
            self.oblige(st, False, 'uninitialised-read', node)
            return []
        # ('sym', prefix)
        init = self.fieldinit.get((b.default[1], p.path)) or self.fieldinit.get((b.default[1], '*'))
        nm = b.default[1] + '.' + '.'.join(map(str, p.path))
        if init is not None:
            res = []
            for s2, v in init(st, nm, ty):
                b2 = s2.mem[p.blk]
                s2.mem[p.blk] = b2.but(cells={**b2.cells, p.path: (v, ty)})
                res.append((s2, v))
            return res
        v = self.symval(st, nm, ty)
        st.mem[p.blk] = b.but(cells={**b.cells, p.path: (v, ty)})
        return [(st, v)]

    def symval(self, st, nm, ty):
        if ty.k == 'int':
            return self.named(nm, ty, st)
        if ty.k == 'ptr':
            return Opaque(nm, z3.Bool(nm + '?null'))
        raise Unsupported('symbolic value of type %r' % ty)

    def materialise(self, st, o):
        raise Unsupported('dereference of opaque pointer ' + o.name)

    def load_parr(self, st, p, b, ty, node):
        self.oblige(st, And(ge(p.off, 0), lt(p.off, b.size)), 'read-in-bounds', node)
        if callable(b.content):
            return b.content(self, st, p.off)
        if isinstance(p.off, int):
            c = b.cells.get((p.off,))
            if c is not None:
                return [(st, c[0])]
            return self.default_cell(st, Ptr(p.blk, 0, (p.off,)), b, ty, node)
        if isinstance(b.size, int) and b.size <= 256:
            res = []
            for j in range(b.size):
                s2 = st.copy().assume(eq(p.off, j))
                if self.feasible(s2):
                    res += self.load_parr(s2, Ptr(p.blk, j), b, ty, node)
            return res
        raise Unsupported('symbolic index into pointer array')

    def store(self, st, p, ty, v, node):
        if isinstance(p, Chain):
            raise Unsupported('store through chain pointer')
        b = self.deref_block(st, p, node)
        if b is None:
            return []
        if b.kind == 'raw':
            self.typed(st, p, ty)
            b = st.mem[p.blk]
        if b.ro:
            self.oblige(st, False, 'write-to-read-only', node)
        if b.kind == 'arr':
            if ty.k != 'int' or self.tu.sizeof(ty) != self.tu.sizeof(b.ety):
                raise Unsupported('type-punned store')
            self.oblige(st, And(ge(p.off, 0), lt(p.off, b.size)), 'write-in-bounds', node)
            v = asint(v)
            raw = v
            if self.tu.sizeof(b.ety) == 1 and ty.bits == 8:
                raw = self.tobyte(v)
            hints = b.hints
            if b.L is not None and not any(same(b.L, h) for h in hints):
                hints = (b.L,) + hints[:5]
            if isinstance(raw, int) and raw == 0:
                hints = (p.off,) + hints[:5]
            st.mem[p.blk] = b.but(content=Store(b.content, p.off, raw), L=None if not self.keeps_L(st, b, p.off, raw) else b.L, hints=hints)
            return [(st, v)]
        if b.kind == 'parr':
            if not isinstance(p.off, int):
                raise Unsupported('store at symbolic index of pointer array')
            self.oblige(st, And(ge(p.off, 0), lt(p.off, b.size)), 'write-in-bounds', node)
            st.mem[p.blk] = b.but(cells={**b.cells, (p.off,): (v, ty)})
            return [(st, v)]
        if isinstance(v, StructVal):
            n = len(p.path)
            cells = {k: x for k, x in b.cells.items() if k[:n] != p.path}
            for k, x in v.cells.items():
                cells[p.path + k] = x
            nb = b.but(cells=cells)
            if not p.path:
                nb = nb.but(default=v.default)
            elif v.default == 'zero' and b.default != 'zero':
                pass
            st.mem[p.blk] = nb
            return [(st, v)]
        if not same(p.off, 0):
            raise Unsupported('offset store into cell block')
        if self.handlefam is not None and ty.k == 'ptr' and (p.blk, p.path) in self.handlecells:
            v = self.to_handle(st, p, v, node)
        st.mem[p.blk] = b.but(cells={**b.cells, p.path: (v, ty)})
        return [(st, v)]

    def keeps_L(self, st, b, off, raw):
        return False

    def tobyte(self, v):
        u = sc_under(v)
        if u is not None:
            return u
        if isinstance(v, int):
            return v % 256
        lo, hi = rng(v)
        if lo is not None and hi is not None:
            if lo >= 0 and hi <= 255:
                return v
            if lo >= -128 and hi <= 127:
                return ite(lt(v, 0), add(v, 256), v)
        return mod(v, 256)

    # ------------------------------------------------------------ conversions
    def convert(self, st, v, ty):
        if not isinstance(v, (int, bool, z3.ExprRef)):
            return v
        if ty.bits == 1:
            return asbool(v) if not isinstance(v, bool) else v
        v = asint(v)
        lo, hi = self.range_of(ty)
        u = sc_under(v)
        if u is not None and ty.bits == 8:
            return v if ty.signed else u
        l, h = rng(v)
        if l is not None and h is not None and l >= lo and h <= hi:
            return v
        if isinstance(v, int):
            return wrap(v, ty.bits, ty.signed)
        if ty.bits == 8 and ty.signed and l is not None and l >= 0 and h is not None and h <= 255:
            return schar(v)
        c = And(ge(v, lo), le(v, hi))
        if self.proves(st, c, 3000):
            return v
        if not ty.signed and ty.bits == 64:
            # one conditional correction covers a single wrap of an in-range signed value
            if self.proves(st, And(ge(v, -(1 << 63)), le(v, hi)), 3000):
                return ite(lt(v, 0), add(v, 1 << 64), v)
            # otherwise any value (linear over-approximation of the wrap, exact for one wrap either way)
            u = self.fresh('wrap', 0, hi, st)
            st.assume(Implies(c, eq(u, v)))
            st.assume(Implies(And(lt(v, 0), ge(v, -(1 << 64))), eq(u, add(v, 1 << 64))))
            st.assume(Implies(And(gt(v, hi), lt(v, 1 << 65)), eq(u, sub(v, 1 << 64))))
            return u
        return wrap(v, ty.bits, ty.signed)

    def arith(self, st, op, a, b, ty, node):
        """-> list of (st, v)"""
        a, b = asint(a), asint(b)
        if op in ('+', '-', '*'):
            v = add(a, b) if op == '+' else sub(a, b) if op == '-' else mul(a, b)
            if ty.signed:
                lo, hi = self.range_of(ty)
                l, h = rng(v)
                if not (l is not None and h is not None and l >= lo and h <= hi) and self.overflow_check:
                    self.oblige(st, And(ge(v, lo), le(v, hi)), 'no-signed-overflow', node)
                return [(st, v)]
            return [(st, self.convert(st, v, ty))]
        if op in ('/', '%'):
            self.oblige(st, ne(b, 0), 'division-by-zero', node)
            if isinstance(a, int) and isinstance(b, int):
                if b == 0:
                    return []
                q = abs(a) // abs(b)
                q = q if (a >= 0) == (b >= 0) else -q
                return [(st, q if op == '/' else a - q * b)]
            if isinstance(b, int) and b > 0:
                l, _ = rng(a)
                if (l is not None and l >= 0) or self.proves(st, ge(a, 0), 3000):
                    return [(st, floordiv(a, b) if op == '/' else mod(a, b))]
                q = ite(ge(a, 0), floordiv(a, b), neg(floordiv(neg(a), b)))
                return [(st, q if op == '/' else sub(a, mul(q, b)))]
            if self.proves(st, And(ge(a, 0), gt(b, 0)), 3000):
                q = self.fresh('quot', 0, None, st)
                st.assume(And(le(mul(q, b), a), lt(a, add(mul(q, b), b)), le(q, a)))
                return [(st, q if op == '/' else sub(a, mul(q, b)))]
            raise Unsupported('division by non-literal')
        if op == '<<':
            if not isinstance(b, int):
                raise Unsupported('shift by non-literal')
            v = mul(a, 1 << b)
            if ty.signed:
                lo, hi = self.range_of(ty)
                self.oblige(st, And(ge(a, 0), le(v, hi)), 'no-shift-overflow', node)
                return [(st, v)]
            return [(st, self.convert(st, v, ty))]
        if op == '>>':
            if not isinstance(b, int):
                raise Unsupported('shift by non-literal')
            return [(st, floordiv(a, 1 << b))]
        if op in ('&', '|', '^'):
            if isinstance(a, int) and isinstance(b, int):
                return [(st, a & b if op == '&' else a | b if op == '|' else a ^ b)]
            if isinstance(a, int):
                a, b = b, a
            for x in (a, b):
                l, _ = rng(x)
                if not (l is not None and l >= 0) and not self.proves(st, ge(x, 0), 3000):
                    if isinstance(b, int) and b >= 0 and x is a and op == '&':
                        # two's complement: only the low bits matter
                        a = mod(a, 1 << b.bit_length())
                        break
                    raise Unsupported('bit operation on a possibly negative value')
            if op == '&':
                if isinstance(b, int):
                    if ty.bits and b == (1 << ty.bits) - 1:
                        return [(st, a)]
                    if b.bit_length() == ty.bits and not ty.signed:
                        inv = ((1 << ty.bits) - 1) ^ b
                        return [(st, sub(a, bit_and_const(a, inv)))]
                    return [(st, bit_and_const(a, b))]
                return [(st, self.bitwise(a, b, op))]
            if op == '|':
                # disjoint bit ranges: x | y = x + y
                la, ha = rng(a)
                lb, hb = rng(b)
                for x, y, hy in ((a, b, hb), (b, a, ha)):
                    if hy is not None:
                        k = 1 << hy.bit_length()
                        c, m = linform(x) if not isinstance(x, int) else (x, {})
                        if c % k == 0 and all(e % k == 0 for e, _ in m.values()):
                            return [(st, add(x, y))]
                if isinstance(b, int):
                    return [(st, sub(add(a, b), bit_and_const(a, b)))]
                return [(st, sub(add(a, b), self.bitwise(a, b, '&')))]
            if op == '^' and isinstance(b, int):
                return [(st, sub(add(a, b), mul(2, bit_and_const(a, b))))]
            if op == '^':
                return [(st, sub(add(a, b), mul(2, self.bitwise(a, b, '&'))))]
        raise Unsupported('operator ' + op)

    def bitwise(self, a, b, op):
        _, ha = rng(a)
        _, hb = rng(b)
        if ha is None or hb is None or min(ha, hb) >= 1 << 32:
            raise Unsupported('bitwise and of wide values')
        r = 0
        for j in range(min(ha, hb).bit_length()):
            r = add(r, ite(And(eq(mod(floordiv(a, 1 << j), 2), 1), eq(mod(floordiv(b, 1 << j), 2), 1)), 1 << j, 0))
        return r

    # ------------------------------------------------------------ pointers
    def ptr_null(self, p):
        """Bool: pointer is null"""
        if isinstance(p, Ptr):
            return p.blk is None
        if isinstance(p, Chain):
            return eq(p.idx, p.ch.n)
        if isinstance(p, Opaque):
            return p.null
        if isinstance(p, Fn):
            return False
        if isinstance(p, (int, bool, z3.ExprRef)):
            return eq(p, 0)
        raise Unsupported('null test of %r' % (p,))

    def ptr_eq(self, a, b):
        na = isinstance(a, Ptr) and a.blk is None
        nb = isinstance(b, Ptr) and b.blk is None
        if na or (isinstance(a, int) and a == 0):
            return self.ptr_null(b)
        if nb or (isinstance(b, int) and b == 0):
            return self.ptr_null(a)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.blk != b.blk or a.path != b.path:
                return False
            return eq(a.off, b.off)
        if isinstance(a, Chain) and isinstance(b, Chain) and a.ch is b.ch:
            return eq(a.idx, b.idx)
        if isinstance(a, Opaque) and isinstance(b, Opaque) and a.name == b.name:
            return True
        if self.handlefam is not None and isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            return ge(self.fresh('sameptr'), 0)       # handles name texts, not addresses: either answer is possible
        raise Unsupported('comparison of unrelated pointers %r %r' % (a, b))

    def truth(self, v):
        if isinstance(v, (int, bool, z3.ExprRef)):
            return asbool(v)
        return Not(self.ptr_null(v))

    def ptr_add(self, p, n, ty):
        if isinstance(p, Ptr):
            if p.blk is None:
                if isinstance(n, int) and n == 0:
                    return p
                raise Unsupported('arithmetic on null')
            return Ptr(p.blk, add(p.off, n), p.path)
        raise Unsupported('pointer arithmetic on %r' % (p,))

    # ------------------------------------------------------------ expressions
    def lval(self, e, st):
        """-> list of (st, Ptr/Chain-field, ty)"""
        k = e['kind']
        if k == 'DeclRefExpr':
            return [(st, self.var_ptr(st, e), self.tu.type_of(e))]
        if k == 'ParenExpr':
            return self.lval(e['inner'][0], st)
        if k == 'UnaryOperator' and e['opcode'] == '*':
            ty = self.tu.type_of(e)
            return [(s, self.as_ptr(s, p), ty) for s, p in self.ev(e['inner'][0], st)]
        if k == 'ArraySubscriptExpr':
            ty = self.tu.type_of(e)
            res = []
            for s, p in self.ev(e['inner'][0], st):
                for s2, i in self.ev(e['inner'][1], s):
                    res.append((s2, self.ptr_add(self.as_ptr(s2, p), asint(i), ty), ty))
            return res
        if k == 'MemberExpr':
            ty = self.tu.type_of(e)
            f = e['name']
            res = []
            if e.get('isArrow'):
                for s, p in self.ev(e['inner'][0], st):
                    res += self.member(s, p, f, ty, self.tu.type_of(e['inner'][0]).of, e)
            else:
                for s, p, bt in self.lval(e['inner'][0], st):
                    res += self.member(s, p, f, ty, bt, e)
            return res
        if k == 'StringLiteral':
            return [(st, self.strlit(st, e), self.tu.type_of(e))]
        if k == 'ImplicitCastExpr' and e.get('castKind') in ('NoOp', 'BitCast', 'LValueBitCast'):
            return self.lval(e['inner'][0], st)
        if k == 'CompoundLiteralExpr':
            ty = self.tu.type_of(e)
            bid = self.alloc_id(st, 'tmp:%s' % e['id'])
            res = []
            self.decl_block(st, bid, ty)
            for s in self.init_var(st, bid, (), ty, e['inner'][0], e):
                res.append((s, Ptr(bid, 0), ty))
            return res
        raise Unsupported('lvalue ' + k)

    handlefam = None

    def as_ptr(self, st, p):
        if isinstance(p, Opaque):
            return self.materialise(st, p)
        if isinstance(p, z3.ExprRef) and self.handlefam is not None:
            # a string known by its handle: the block of that member of the string family
            self.oblige(st, ne(p, 0), 'null-dereference', None)
            return self.family_block(st, self.handlefam, 'str', p)
        return p

    def member(self, st, p, f, ty, bty, node):
        if isinstance(p, Opaque):
            p = self.materialise(st, p)
        if isinstance(p, Chain):
            self.oblige(st, And(ge(p.idx, 0), lt(p.idx, p.ch.n)), 'null-dereference', node)
            return [(st, ('chain', p, f), ty)]
        b = self.deref_block(st, p, node)
        if b is None:
            return []
        if b.kind == 'raw':
            self.typed(st, p, bty)
            b = st.mem[p.blk]
        if b.kind == 'sarr':
            return [(st, ('sarr', p, f), ty)]
        if b.kind != 'cell':
            raise Unsupported('member of %s block' % b.kind)
        if not same(p.off, 0):
            raise Unsupported('member at offset')
        if ty.k == 'arr':
            return [(st, self.subarray(st, p, f, ty), ty)]
        return [(st, Ptr(p.blk, 0, p.path + (f,)), ty)]

    def subarray(self, st, p, f, ty):
        bid = '%s.%s' % (p.blk, '.'.join(map(str, p.path + (f,))))
        if bid not in st.mem:
            par = st.mem[p.blk]
            self.decl_block(st, bid, ty, default=par.default)
            if isinstance(par.default, tuple):
                self.roots.add(bid)
        return Ptr(bid, 0)

    def lload(self, st, lv, ty, node):
        if isinstance(lv, tuple) and lv[0] == 'chain':
            return lv[1].ch.load(self, st, lv[1].idx, lv[2], ty)
        return self.load(st, lv, ty, node)

    def lstore(self, st, lv, ty, v, node):
        if isinstance(lv, tuple) and lv[0] == 'chain':
            return lv[1].ch.store(self, st, lv[1].idx, lv[2], ty, v)
        return self.store(st, lv, ty, v, node)

    def var_ptr(self, st, e):
        d = e['referencedDecl']
        if d['kind'] == 'FunctionDecl':
            return Fn(d['name'])
        for fr in reversed(st.frames):
            bid = 'v:%s:%s:%s' % (fr, d['name'], d['id'])
            if bid in st.mem:
                return Ptr(bid, 0)
            break
        # static local or global
        gid = 'g:' + d['name'] + ':' + d['id']
        if gid in st.mem:
            return Ptr(gid, 0)
        g = self.tu.globals.get(d['id']) or self.statics.get(d['id']) or self.tu.globals.get(d['name'])
        if g is None:
            raise Unsupported('unknown variable ' + d['name'])
        ty = self.tu.type_of(g)
        isconst = 'const' in g['type']['qualType'] or d['name'] in getattr(self, 'const_globals', ())
        if g.get('init') and isconst:
            self.decl_block(st, gid, ty, n=self.init_count(g))
            r = self.init_var(st, gid, (), ty, g['inner'][-1], g)
            if len(r) != 1:
                raise Unsupported('forking initialiser')
            st.mem.update(r[0].mem)
            st.mem[gid] = st.mem[gid].but(ro=True)
        else:
            if isconst and not g.get('init'):
                raise Unsupported('const global without initialiser ' + d['name'])
            self.decl_block(st, gid, ty, default=('sym', 'g_' + d['name']))
            self.roots.add(gid)
        return Ptr(gid, 0)

    def init_count(self, g):
        return None

    def strlit(self, st, e):
        s = self.c_string(e['value'])
        bid = 'lit:%r' % s
        if bid not in st.mem:
            st.mem[bid] = Block('arr', size=len(s) + 1, content=lit_content(s + b'\0'), ety=CHAR, L=len(s), name=bid, ro=True)
        return Ptr(bid, 0)

    @staticmethod
    def c_string(v):
        assert v[0] == '"', v
        out = bytearray()
        i, n = 1, len(v) - 1
        esc = {'n': 10, 't': 9, 'r': 13, '0': 0, '\\': 92, '"': 34, "'": 39, 'a': 7, 'b': 8, 'f': 12, 'v': 11, '?': 63}
        while i < n:
            c = v[i]
            if c != '\\':
                out += c.encode('utf-8')
                i += 1
                continue
            c = v[i + 1]
            if c == 'x':
                j = i + 2
                while j < n and v[j] in '0123456789abcdefABCDEF' and j < i + 4:
                    j += 1
                out.append(int(v[i + 2:j], 16))
                i = j
            elif c in '01234567':
                j = i + 1
                while j < n and v[j] in '01234567' and j < i + 4:
                    j += 1
                out.append(int(v[i + 1:j], 8))
                i = j
            elif c in 'uU':
                w = 4 if c == 'u' else 8
                out += chr(int(v[i + 2:i + 2 + w], 16)).encode('utf-8')
                i += 2 + w
            else:
                out.append(esc[c])
                i += 2
        return bytes(out)

    def rv(self, e, st):
        return self.ev(e, st)

    def ev(self, e, st):
        """-> list of (state, value)"""
        k = e['kind']
        m = getattr(self, 'x_' + k, None)
        if m is None:
            raise Unsupported('expression ' + k)
        return m(e, st)

    def x_IntegerLiteral(self, e, st):
        return [(st, int(e['value']))]

    def x_FloatingLiteral(self, e, st):
        return [(st, Opaque('float', False))]

    def x_CharacterLiteral(self, e, st):
        v = e['value']
        return [(st, v if v < 128 or v > 255 else v - 256)]

    def x_ParenExpr(self, e, st):
        return self.ev(e['inner'][0], st)

    def x_ConstantExpr(self, e, st):
        return self.ev(e['inner'][0], st)

    def x_StringLiteral(self, e, st):
        return [(st, self.strlit(st, e))]

    def x_PredefinedExpr(self, e, st):
        return self.ev(e['inner'][0], st)

    def x_DeclRefExpr(self, e, st):
        d = e['referencedDecl']
        if d['kind'] == 'EnumConstantDecl':
            v = self.tu.enumconst.get(d['id'])
            if v is None:
                v = self.tu.enumconst[d['name']]
            return [(st, v)]
        if d['kind'] == 'FunctionDecl':
            return [(st, Fn(d['name']))]
        p = self.var_ptr(st, e)
        return self.load(st, p, self.tu.type_of(e), e)

    def x_UnaryExprOrTypeTraitExpr(self, e, st):
        if e.get('name') != 'sizeof':
            raise Unsupported('type trait ' + str(e.get('name')))
        if 'argType' in e:
            ty = self.tu.parse(e['argType']['qualType'])
        else:
            x = e['inner'][0]
            ty = self.tu.type_of(x)
            if ty.k == 'arr' and ty.n is None:
                raise Unsupported('sizeof variable array')
        return [(st, self.tu.sizeof(ty))]

    def x_ImplicitCastExpr(self, e, st):
        return self.cast(e, st)

    def x_CStyleCastExpr(self, e, st):
        return self.cast(e, st)

    def cast(self, e, st):
        ck = e['castKind']
        x = e['inner'][0]
        ty = self.tu.type_of(e)
        if ck == 'LValueToRValue':
            res = []
            for s, p, t in self.lval(x, st):
                res += self.lload(s, p, ty, e)
            return res
        if ck in ('ArrayToPointerDecay',):
            return [(s, p) for s, p, t in self.lval(x, st)]
        if ck == 'FunctionToPointerDecay':
            return self.ev(x, st)
        if ck in ('NoOp', 'BuiltinFnToFnPtr'):
            return self.ev(x, st)
        if ck == 'NullToPointer':
            return [(st, NULL)]
        if ck == 'BitCast':
            res = []
            for s, p in self.ev(x, st):
                if isinstance(p, Ptr) and p.blk is not None and ty.k == 'ptr':
                    self.typed(s, p, ty.of)
                res.append((s, p))
            return res
        if ck in ('IntegralCast',):
            return [(s, self.convert(s, v, ty)) for s, v in self.ev(x, st)]
        if ck == 'IntegralToBoolean':
            return [(s, asbool(v)) for s, v in self.ev(x, st)]
        if ck == 'PointerToBoolean':
            return [(s, self.truth(v)) for s, v in self.ev(x, st)]
        if ck == 'ToVoid':
            return [(s, 0) for s, v in self.ev(x, st)]
        if ck == 'IntegralToFloating':
            res = self.ev(x, st)
            if all(isinstance(v, int) and abs(v) < 1 << 24 for _, v in res):      # exact
                return res
            raise Unsupported('cast ' + ck)
        if ck == 'IntegralToPointer':
            res = []
            for s, v in self.ev(x, st):
                if isinstance(v, int) and v == 0:
                    res.append((s, NULL))
                else:
                    raise Unsupported('integer to pointer')
            return res
        raise Unsupported('cast ' + ck)

    def x_MemberExpr(self, e, st):
        res = []
        for s, p, t in self.lval(e, st):
            res += self.lload(s, p, t, e)
        return res

    def x_ArraySubscriptExpr(self, e, st):
        res = []
        for s, p, t in self.lval(e, st):
            res += self.lload(s, p, t, e)
        return res

    def x_UnaryOperator(self, e, st):
        op = e['opcode']
        x = e['inner'][0]
        ty = self.tu.type_of(e)
        if op == '!':
            return [(s, Not(self.truth(v))) for s, v in self.ev(x, st)]
        if op == '-':
            res = []
            for s, v in self.ev(x, st):
                res += self.arith(s, '-', 0, v, ty, e)
            return res
        if op == '+':
            return self.ev(x, st)
        if op == '~':
            res = []
            for s, v in self.ev(x, st):
                v = asint(v)
                if ty.signed:
                    res.append((s, sub(-1, v)))
                else:
                    res.append((s, sub((1 << ty.bits) - 1, v)))
            return res
        if op == '&':
            res = []
            for s, p, t in self.lval(x, st):
                if isinstance(p, tuple):
                    raise Unsupported('address of chain field')
                res.append((s, p))
            return res
        if op == '*':
            res = []
            for s, p, t in self.lval(e, st):
                res += self.lload(s, p, t, e)
            return res
        if op in ('++', '--'):
            res = []
            for s, p, t in self.lval(x, st):
                for s2, v in self.lload(s, p, t, e):
                    d = 1 if op == '++' else -1
                    if t.k == 'ptr':
                        nv = self.ptr_add(v, d, t.of)
                        outs = [(s2, nv)]
                    else:
                        if t.bits < 32:
                            outs = [(s2, self.convert(s2, add(asint(v), d), t))]
                        else:
                            outs = self.arith(s2, '+', v, d, t, e)
                    for s3, nv in outs:
                        for s4, _ in self.lstore(s3, p, t, nv, e):
                            res.append((s4, v if e.get('isPostfix') else nv))
            return res
        if op == '__extension__':
            return self.ev(x, st)
        raise Unsupported('unary ' + op)

    def pure(self, s0, s1):
        if s0.frames != s1.frames or s0.ghost != s1.ghost:
            return False
        m0, m1 = s0.mem, s1.mem
        for k, b in m1.items():
            b0 = m0.get(k)
            if b0 is b:
                continue
            if b0 is None:
                if k.startswith('lit:') or k.startswith('g:') or '[' in k:
                    continue
                return False
            return False
        return True

    def x_BinaryOperator(self, e, st):
        op = e['opcode']
        l, r = e['inner']
        if op in ('&&', '||'):
            res = []
            for s, a in self.ev(l, st):
                a = self.truth(a)
                if isinstance(a, bool):
                    if a == (op == '||'):
                        res.append((s, a))
                    else:
                        res += [(s2, self.truth(b)) for s2, b in self.ev(r, s)]
                    continue
                g = a if op == '&&' else Not(a)
                s1 = s.copy().assume(g)
                if not (self.lazy is not None and self.lazy(a)) and not self.feasible(s1, light=True):
                    res.append((s, op == '||'))
                    continue
                rs = self.ev(r, s1)
                if len(rs) == 1 and self.pure(s, rs[0][0]) and not any(isinstance(p, Forall) for p in rs[0][0].pc[len(s1.pc):]):
                    s2, b = rs[0]
                    b = self.truth(b)
                    ns = s.copy()
                    ns.mem = s2.mem
                    for p in s2.pc[len(s1.pc):]:
                        ns.assume(Implies(g, p))
                    res.append((ns, And(a, b) if op == '&&' else Or(a, b)))
                    continue
                s0 = s.copy().assume(Not(g))
                if self.feasible(s0):
                    res.append((s0, op == '||'))
                res += [(s2, self.truth(b)) for s2, b in rs]
            return res
        if op == '=':
            return self.assign(e, l, r, st)
        if op == ',':
            res = []
            for s, _ in self.ev(l, st):
                res += self.ev(r, s)
            return res
        res = []
        lt_, rt = self.tu.type_of(l), self.tu.type_of(r)
        ty = self.tu.type_of(e)
        for s, a in self.ev(l, st):
            for s2, b in self.ev(r, s):
                res += self.binop(s2, op, a, b, lt_, rt, ty, e)
        return res

    def binop(self, s, op, a, b, lt_, rt, ty, e):
        lp, rp = lt_.k == 'ptr', rt.k == 'ptr'
        if lp or rp:
            if op == '==':
                return [(s, self.ptr_eq(a, b))]
            if op == '!=':
                return [(s, Not(self.ptr_eq(a, b)))]
            if op in ('+', '-') and not (lp and rp):
                if rp:
                    a, b = b, a
                    lt_ = rt
                a = self.as_ptr(s, a)
                return [(s, self.ptr_add(a, asint(b) if op == '+' else neg(b), lt_.of))]
            a, b = self.as_ptr(s, a), self.as_ptr(s, b)
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)) or a.blk != b.blk or a.path != b.path:
                if op == '-' or op in ('<', '>', '<=', '>='):
                    self.oblige(s, False, 'pointers-into-same-object', e)
                    return []
                raise Unsupported('pointer op ' + op)
            if op == '-':
                return [(s, sub(a.off, b.off))]
            f = {'<': lt, '>': gt, '<=': le, '>=': ge}[op]
            return [(s, f(a.off, b.off))]
        if op in ('==', '!=', '<', '>', '<=', '>='):
            f = {'==': eq, '!=': ne, '<': lt, '>': gt, '<=': le, '>=': ge}[op]
            return [(s, f(a, b))]
        if ty.k == 'float':
            raise Unsupported('floating point')
        return self.arith(s, op, a, b, ty, e)

    def assign(self, e, l, r, st):
        res = []
        lk = l
        while lk['kind'] == 'ParenExpr':
            lk = lk['inner'][0]
        simple = lk['kind'] == 'DeclRefExpr'
        if simple:
            for s, v in self.ev(r, st):
                for s2, p, t in self.lval(l, s):
                    res += self.lstore(s2, p, t, v, e)
            return res
        for s, v in self.ev(r, st):
            for s2, p, t in self.lval(l, s):
                res += self.lstore(s2, p, t, v, e)
        return res

    def x_CompoundAssignOperator(self, e, st):
        op = e['opcode'][:-1]
        l, r = e['inner']
        ct = self.tu.parse(e['computeResultType']['qualType'])
        res = []
        for s, v in self.ev(r, st):
            for s2, p, t in self.lval(l, s):
                for s3, o in self.lload(s2, p, t, e):
                    if t.k == 'ptr':
                        outs = [(s3, self.ptr_add(self.as_ptr(s3, o), asint(v) if op == '+' else neg(v), t.of))]
                    else:
                        outs = self.arith(s3, op, self.convert(s3, o, ct), v, ct, e)
                        outs = [(x, self.convert(x, y, t)) for x, y in outs]
                    for s4, nv in outs:
                        res += self.lstore(s4, p, t, nv, e)
        return res

    def x_ConditionalOperator(self, e, st):
        c, a, b = e['inner']
        ty = self.tu.type_of(e)
        res = []
        for s, cv in self.ev(c, st):
            t, f = self.split(s, self.truth(cv))
            ra = self.ev(a, t) if t is not None else []
            rb = self.ev(b, f) if f is not None else []
            if ty.k == 'int' and len(ra) == 1 and len(rb) == 1 and self.pure(s, ra[0][0]) and self.pure(s, rb[0][0]) and \
                    not any(isinstance(p, Forall) for p in ra[0][0].pc[len(s.pc):] + rb[0][0].pc[len(s.pc):]):
                cond = self.truth(cv)
                ns = s.copy()
                ns.mem.update(ra[0][0].mem)
                ns.mem.update(rb[0][0].mem)
                for p in ra[0][0].pc[len(s.pc) + 1:]:
                    ns.assume(Implies(cond, p))
                for p in rb[0][0].pc[len(s.pc) + 1:]:
                    ns.assume(Implies(Not(cond), p))
                res.append((ns, ite(cond, ra[0][1], rb[0][1])))
                continue
            res += ra + rb
        return res

    def x_InitListExpr(self, e, st):
        raise Unsupported('initialiser list as a value')

    def x_StmtExpr(self, e, st):
        raise Unsupported('statement expression')

    def x_CallExpr(self, e, st):
        from . import libc
        callee, args = e['inner'][0], e['inner'][1:]
        res = []
        for s, f in self.ev(callee, st):
            if not isinstance(f, Fn):
                raise Unsupported('call through pointer')
            sts = [(s, [])]
            for a in args:
                nxt = []
                for s2, vs in sts:
                    for s3, v in self.ev(a, s2):
                        nxt.append((s3, vs + [v]))
                sts = nxt
            for s2, vs in sts:
                res += self.call(s2, f.name, vs, e)
        return res

    def call(self, st, name, args, node):
        from . import libc
        if name in self.contracts:
            self.used_contracts = getattr(self, 'used_contracts', set())
            self.used_contracts.add(name)
            return self.contracts[name](self, st, args, node)
        m = libc.MODELS.get(name)
        if m is not None:
            self.assumed.add('libc ' + name)
            return m(self, st, args, node)
        fd = self.tu.funcs.get(name)
        if fd is None:
            raise Unsupported('call to external function ' + name)
        return self.inline(st, fd, args, node)

    def inline(self, st, fd, args, node):
        name = fd['name']
        fr = (st.frames[-1] + '/' if st.frames else '') + name + '@' + self.site(node)
        if sum(1 for f in st.frames if f.split('/')[-1].split('@')[0] == name) >= 1:
            raise Unsupported('recursive call to ' + name)
        if len(st.frames) > 10:
            raise Unsupported('inlining too deep')
        self.inlined.add(name)
        res = []
        st.frames = st.frames + (fr,)
        params = [c for c in fd.get('inner', []) if c['kind'] == 'ParmVarDecl']
        if len(params) > len(args):
            raise Unsupported('%s takes %d arguments now' % (name, len(params)))
        for pd, v in zip(params, args):
            ty = self.tu.type_of(pd)
            if ty.k == 'arr':
                ty = Ty('ptr', of=ty.of)
            bid = 'v:%s:%s:%s' % (fr, pd['name'] if 'name' in pd else '?', pd['id'])
            if isinstance(v, StructVal):
                st.mem[bid] = Block('cell', cells=dict(v.cells), default=v.default, name=pd.get('name', '?'))
            else:
                st.mem[bid] = Block('cell', cells={(): (v, ty)}, name=pd.get('name', '?'))
        body = [c for c in fd['inner'] if c['kind'] == 'CompoundStmt'][0]
        self.collect_statics(body)
        old = self.curfn
        self.curfn = name
        o = self.exec_seq([body], [st])
        self.curfn = old
        rt = fd['type']['qualType'].split('(')[0].strip()
        pre = 'v:' + fr + ':'
        for s, v in o.ret + [(s, None) for s in o.normal]:
            if isinstance(v, tuple) and v[0] == 'goto':
                raise Unsupported('backward goto')
            s.frames = s.frames[:-1]
            for k in [k for k in s.mem if k.startswith(pre)]:
                del s.mem[k]
            res.append((s, v))
        return self.join_same(res)

    def site(self, node):
        b = node.get('range', {}).get('begin', {}) if isinstance(node, dict) else {}
        if 'expansionLoc' in b:
            return '%s+%s' % (b['expansionLoc'].get('offset', 0), b.get('spellingLoc', {}).get('offset', 0))
        return str(b.get('offset', 0))

    def join_same(self, res):
        """merge returned states that differ only in their path condition"""
        return res

    def collect_statics(self, n):
        if n.get('kind') == 'VarDecl' and n.get('storageClass') in ('static', 'extern'):
            self.statics[n['id']] = n
        for c in n.get('inner', []):
            self.collect_statics(c)

    # ------------------------------------------------------------ declarations
    def decl_block(self, st, bid, ty, default='uninit', n=None):
        if ty.k == 'arr':
            et = ty.of
            cnt = ty.n
            if et.k == 'int':
                if default == 'zero':
                    content = Base(lambda k: 0)
                else:
                    content = self.uninit_content(bid)
                st.mem[bid] = Block('arr', size=cnt, content=content, ety=et, name=bid)
            elif et.k in ('ptr', 'struct'):
                st.mem[bid] = Block('parr' if et.k == 'ptr' else 'sarr', size=cnt, cells={}, ety=et, default=default, name=bid)
            else:
                raise Unsupported('array of %r' % et)
        else:
            st.mem[bid] = Block('cell', cells={}, default=default, name=bid)

    def init_var(self, st, bid, path, ty, init, node):
        """-> list of states"""
        k = init['kind']
        if k == 'ParenExpr':
            return self.init_var(st, bid, path, ty, init['inner'][0], node)
        if ty.k == 'arr' and ty.of.k == 'int' and not path:
            if k == 'StringLiteral':
                s = self.c_string(init['value'])
                b = st.mem[bid]
                data = (s + b'\0' * ty.n)[:ty.n]
                st.mem[bid] = b.but(content=lit_content(data) if ty.n <= 300 else
                                    self.prefix_content(data), L=len(s) if len(s) < ty.n else None)
                return [st]
            if k == 'InitListExpr':
                vals = init.get('inner', [])
                if 'array_filler' in init:
                    vals = [x for x in init['array_filler'] if x.get('kind') != 'ImplicitValueInitExpr']
                content = Base(lambda k: 0)
                sts = [(st, content)]
                for j, x in enumerate(vals):
                    if x['kind'] == 'ImplicitValueInitExpr':
                        continue
                    nx = []
                    for s, c in sts:
                        for s2, v in self.ev(x, s):
                            v = asint(v)
                            nx.append((s2, Store(c, j, self.tobyte(v) if ty.of.bits == 8 else v)))
                    sts = nx
                for s, c in sts:
                    s.mem[bid] = s.mem[bid].but(content=c, L=None)
                return [s for s, _ in sts]
        if k == 'InitListExpr':
            vals = init.get('inner', [])
            if 'array_filler' in init:
                vals = [x for x in init['array_filler']]
                if vals and vals[0].get('kind') == 'ImplicitValueInitExpr':
                    vals = vals[1:]
            sts = [st]
            if ty.k == 'arr':
                items = [((j,), ty.of) for j in range(len(vals))]
            elif ty.k == 'struct':
                items = [((f,), t) for f, t in self.tu.fields(ty)]
            else:
                return self.init_var(st, bid, path, ty, vals[0], node)
            for s in sts:
                b = s.mem[bid]
                if not path and b.default == 'uninit':
                    s.mem[bid] = b.but(default='zero')
            for (p, t), x in zip(items, vals):
                nx = []
                for s in sts:
                    if x['kind'] == 'ImplicitValueInitExpr':
                        if t.k == 'int':
                            b = s.mem[bid]
                            s.mem[bid] = b.but(cells={**b.cells, path + p: (0, t)})
                        elif t.k == 'ptr':
                            b = s.mem[bid]
                            s.mem[bid] = b.but(cells={**b.cells, path + p: (NULL, t)})
                        nx.append(s)
                    elif t.k == 'arr':
                        sid = '%s.%s' % (bid, '.'.join(map(str, path + p)))
                        self.decl_block(s, sid, t, default='zero')
                        nx += self.init_var(s, sid, (), t, x, node)
                    else:
                        nx += self.init_var(s, bid, path + p, t, x, node)
                sts = nx
            return sts
        res = []
        for s, v in self.ev(init, st):
            if isinstance(v, StructVal):
                res += [x for x, _ in self.store(s, Ptr(bid, 0, path), ty, v, node)]
            else:
                b = s.mem[bid]
                s.mem[bid] = b.but(cells={**b.cells, path: (v, ty)})
                res.append(s)
        return res

    def prefix_content(self, data):
        data = bytes(data)
        n = len(data.rstrip(b'\0'))

        def fn(k):
            if isinstance(k, int):
                return data[k] if 0 <= k < len(data) else 0
            r = 0
            if n > 300:
                raise Unsupported('symbolic index into a long literal')
            for j in range(n - 1, -1, -1):
                r = ite(eq(k, j), data[j], r)
            return r
        return Base(fn)

    # ------------------------------------------------------------ statements
    def exec_seq(self, stmts, states):
        o = Outcome()
        cur = list(states)
        for s in stmts:
            if s.get('kind') == 'LabelStmt':
                x = s
                while x.get('kind') == 'LabelStmt':
                    here = [r for r in o.ret if isinstance(r[1], tuple) and r[1][0] == 'goto' and r[1][1] == x['declId']]
                    o.ret = [r for r in o.ret if not any(r is h for h in here)]
                    cur = cur + [a for a, _ in here]
                    x = x['inner'][-1]
                s = x
                if len(cur) > 1:
                    cur = self.merge(cur)
            if not cur:
                continue
            if len(cur) > self.maxstates:
                raise Unsupported('too many paths (%d)' % len(cur))
            cur = self.exec_stmt(s, cur, o)
        o.normal = cur
        return o

    def exec_stmt(self, n, states, o):
        """executes n on all states; returns normal successors, other outcomes go to o"""
        k = n.get('kind')
        if k is None or k == 'NullStmt':
            return states
        if k == 'CompoundStmt':
            o2 = self.exec_seq(n.get('inner', []), states)
            o.brk += o2.brk
            o.cont += o2.cont
            o.ret += o2.ret
            return o2.normal
        if k in ('ForStmt', 'WhileStmt', 'DoStmt'):
            return self.exec_loop(n, states, o)
        res = []
        for st in states:
            res += self.exec1(n, k, st, o)
        if k in ('IfStmt', 'SwitchStmt') and len(res) > 1:
            res = self.merge(res)
            if self.growmerge and len(res) > 1:
                res = self.merge_grow(res)
        return res

    def merge_grow(self, states):
        """merge a state in which a buffer was enlarged (realloc) with the one in which it was large enough: bytes beyond the old size count as uninitialised in both"""
        out = []
        for s in states:
            for j, g in enumerate(out):
                m = self.grown(g, s) or self.grown(s, g)
                if m is not None:
                    out[j] = m
                    break
            else:
                out.append(s)
        return out

    def grown(self, a, b):
        """b = a with one buffer grown -> merged state or None"""
        if a.frames != b.frames or a.ghost != b.ghost or a.ctx != b.ctx:
            return None
        only = (a.mem.keys() - b.mem.keys()) | (b.mem.keys() - a.mem.keys())
        if any(not k.startswith('v:') for k in only):
            return None
        ints, grow = [], None
        for k, x in a.mem.items():
            y = b.mem.get(k)
            if x is y or y is None:
                continue
            if x.kind != y.kind or x.freed != y.freed:
                return None
            if x.kind in ('cell', 'parr', 'sarr'):
                if x.cells.keys() != y.cells.keys():
                    return None
                for p, (v, ty) in x.cells.items():
                    w = y.cells[p][0]
                    if not self.same_val(v, w):
                        if not isinstance(v, (int, bool, z3.ExprRef)) or not isinstance(w, (int, bool, z3.ExprRef)) or ty.k != 'int':
                            return None
                        ints.append((k, p))
            elif x.content is not y.content or not same(asint(x.size), asint(y.size)):
                if grow is not None or x.L is not None or y.L is not None:
                    return None
                # y's content is x's content under some copies
                c, layers = y.content, []
                while c is not x.content:
                    if not isinstance(c, Copy) or len(layers) > 3:
                        return None
                    if same(c.dst, 0) and same(c.soff, 0) and any(c.src is z for z in under(x.content)) and same(asint(c.n), asint(x.size)):
                        layers.append((c, True))
                        c = c.src
                    else:
                        layers.append((c, False))
                        c = c.prev
                grow = (k, layers)
        if grow is None:
            return None
        base = common_prefix(a.pc, b.pc)
        sa, sb = a.pc[len(base):], b.pc[len(base):]
        if any(isinstance(f, Forall) for f in sa + sb):
            return None
        ca = And(*sa)
        r = b.copy()
        for k in only:
            r.mem.pop(k, None)
        for k, p in ints:
            x = r.mem[k]
            v, ty = x.cells[p]
            r.mem[k] = x.but(cells={**x.cells, p: (ite(ca, asint(a.mem[k].cells[p][0]), asint(v)), ty)})
        k, layers = grow
        x = r.mem[k]
        c = a.mem[k].content
        for l, g in reversed(layers):
            c = Copy(l.prev, l.dst, c, l.soff, l.n) if g else Copy(c, l.dst, l.src, l.soff, ite(ca, 0, asint(l.n)))
        r.mem[k] = x.but(size=ite(ca, asint(a.mem[k].size), asint(x.size)), content=c, hints=())
        r.pc = list(base)
        r.assume(Or(ca, And(*sb)))
        return r

    def merge(self, states):
        """merge states that differ only in their path condition"""
        groups = []
        for s in states:
            for g in groups:
                if self.same_store(g[0], s):
                    g.append(s)
                    break
            else:
                groups.append([s])
        out = []
        for g in groups:
            if len(g) == 1:
                out.append(g[0])
                continue
            base = g[0].pc
            for s in g[1:]:
                base = common_prefix(base, s.pc)
            suff = []
            ok = True
            for s in g:
                x = s.pc[len(base):]
                if any(isinstance(f, Forall) for f in x):
                    ok = False
                suff.append(And(*[f for f in x if not isinstance(f, Forall)]))
            if not ok:
                out += g
                continue
            s = g[0].copy()
            s.pc = list(base)
            s.assume(Or(*suff))
            out.append(s)
        return out

    def merge_ite(self, states):
        """merge states that differ in integer cells only: the value becomes an if-then-else on the path"""
        groups = []
        for s in states:
            for g in groups:
                if self.int_diff(g[0], s) is not None:
                    g.append(s)
                    break
            else:
                groups.append([s])
        out = []
        for g in groups:
            base = g[0].pc
            for s in g[1:]:
                base = common_prefix(base, s.pc)
            sufs = [s.pc[len(base):] for s in g]
            if len(g) == 1 or any(isinstance(f, Forall) for x in sufs for f in x):
                out += g
                continue
            conds = [And(*x) for x in sufs]
            r = g[-1].copy()
            for s, c in reversed(list(zip(g[:-1], conds[:-1]))):
                for k, p in self.int_diff(r, s):
                    b = r.mem[k]
                    v, ty = b.cells[p]
                    r.mem[k] = b.but(cells={**b.cells, p: (ite(c, asint(s.mem[k].cells[p][0]), asint(v)), ty)})
            r.pc = list(base)
            r.assume(Or(*conds))
            out.append(r)
        return out

    def int_diff(self, a, b):
        if a.frames != b.frames or a.mem.keys() != b.mem.keys() or a.ghost != b.ghost or a.ctx != b.ctx:
            return None
        d = []
        for k, x in a.mem.items():
            y = b.mem[k]
            if x is y:
                continue
            if x.kind != y.kind or x.freed != y.freed:
                return None
            if x.kind in ('cell', 'parr', 'sarr'):
                if x.cells.keys() != y.cells.keys():
                    return None
                for p, (v, ty) in x.cells.items():
                    w = y.cells[p][0]
                    if not self.same_val(v, w):
                        if not isinstance(v, (int, bool, z3.ExprRef)) or not isinstance(w, (int, bool, z3.ExprRef)) or ty.k != 'int':
                            return None
                        d.append((k, p))
            elif x.content is not y.content or not same(asint(x.size), asint(y.size)):
                return None
        return d

    def same_store(self, a, b):
        if a.frames != b.frames or a.mem.keys() != b.mem.keys() or a.ghost != b.ghost:
            return False
        for k, x in a.mem.items():
            y = b.mem[k]
            if x is y:
                continue
            if x.kind != y.kind or x.freed != y.freed:
                return False
            if x.kind in ('cell', 'parr', 'sarr'):
                if x.cells is not y.cells:
                    if x.cells.keys() != y.cells.keys():
                        return False
                    for p, c in x.cells.items():
                        d = y.cells[p]
                        if c is not d and not self.same_val(c[0], d[0]):
                            return False
            else:
                if x.content is not y.content or not same(asint(x.size), asint(y.size)):
                    return False
        return True

    @staticmethod
    def same_val(a, b):
        if a is b:
            return True
        if isinstance(a, (int, bool, z3.ExprRef)) and isinstance(b, (int, bool, z3.ExprRef)):
            return same(asint(a), asint(b))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.blk == b.blk and a.path == b.path and same(a.off, b.off)
        if isinstance(a, Chain) and isinstance(b, Chain):
            return a.ch is b.ch and same(a.idx, b.idx)
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return a.name == b.name
        if isinstance(a, Fn) and isinstance(b, Fn):
            return a.name == b.name
        return False

    def exec1(self, n, k, st, o):
        if k == 'DeclStmt':
            sts = [st]
            for d in n['inner']:
                if d['kind'] != 'VarDecl':
                    continue
                nx = []
                for s in sts:
                    nx += self.decl(d, s)
                sts = nx
            return sts
        if k == 'ReturnStmt':
            if n.get('inner'):
                for s, v in self.ev(n['inner'][0], st):
                    o.ret.append((s, v))
            else:
                o.ret.append((st, None))
            return []
        if k == 'IfStmt':
            inner = n['inner']
            cond, then = inner[0], inner[1]
            els = inner[2] if len(inner) > 2 else None
            ts, fs = [], []
            for s, c in self.ev(cond, st):
                t, f = self.split(s, self.truth(c))
                if t is not None:
                    ts.append(t)
                if f is not None:
                    fs.append(f)
            if len(ts) > 1:
                ts = self.merge(ts)
            if len(fs) > 1:
                fs = self.merge(fs)
            out = self.exec_stmt(then, ts, o) if ts else []
            if els is not None:
                out += self.exec_stmt(els, fs, o) if fs else []
            else:
                out += fs
            return out
        if k == 'BreakStmt':
            o.brk.append(st)
            return []
        if k == 'ContinueStmt':
            o.cont.append(st)
            return []
        if k == 'SwitchStmt':
            return self.exec_switch(n, st, o)
        if k in ('CaseStmt', 'DefaultStmt'):
            # reached by fallthrough
            return self.exec_stmt(n['inner'][-1], [st], o)
        if k == 'GotoStmt':
            o.ret.append((st, ('goto', n['targetLabelDeclId'])))
            return []
        if k == 'LabelStmt':
            raise Unsupported('label inside a nested statement')
        return [s for s, _ in self.ev(n, st)]

    def decl(self, d, st):
        if d.get('storageClass') in ('static', 'extern'):
            return [st]
        ty = self.tu.type_of(d)
        bid = 'v:%s:%s:%s' % (st.frames[-1], d['name'], d['id'])
        if ty.k == 'arr' and ty.n is None:
            raise Unsupported('variable-length array')
        for k in [k for k in st.mem if k.startswith(bid + '.')]:
            del st.mem[k]
        self.decl_block(st, bid, ty)
        if d.get('init'):
            init = [c for c in d['inner'] if c.get('kind') and not c['kind'].endswith('Attr')][-1]
            return self.init_var(st, bid, (), ty, init, d)
        return [st]

    def exec_switch(self, n, st, o):
        inner = n['inner']
        cond, body = inner[0], inner[-1]
        stmts = body.get('inner', [])
        out = []
        for s, v in self.ev(cond, st):
            v = asint(v)
            # flatten nested case labels
            seq = []    # (labels or None, stmt)
            labels_all = []
            for x in stmts:
                labs = []
                while x.get('kind') in ('CaseStmt', 'DefaultStmt'):
                    if x['kind'] == 'CaseStmt':
                        (cs, cv), = self.ev(x['inner'][0], s)
                        labs.append(cv)
                        labels_all.append(cv)
                    else:
                        labs.append('default')
                    x = x['inner'][-1]
                seq.append((labs, x))
            targets = []
            for j, (labs, x) in enumerate(seq):
                for lb in labs:
                    if lb == 'default':
                        c = And(*[ne(v, z) for z in labels_all])
                    else:
                        c = eq(v, lb)
                    targets.append((j, c))
            if not any('default' in l for l, _ in seq):
                targets.append((len(seq), And(*[ne(v, z) for z in labels_all])))
            for j, c in targets:
                c = asbool(c)
                if c is False:
                    continue
                s2 = s.copy().assume(c)
                if c is not True and not self.feasible(s2):
                    continue
                o2 = self.exec_seq([x for _, x in seq[j:]], [s2])
                o.cont += o2.cont
                o.ret += o2.ret
                out += o2.normal + o2.brk
        return out

    # ------------------------------------------------------------ loops
    def loop_parts(self, n):
        k = n['kind']
        if k == 'ForStmt':
            init, _, cond, inc, body = n['inner']
            return init, cond, inc, body
        if k == 'WhileStmt':
            return None, n['inner'][0], None, n['inner'][-1]
        return None, n['inner'][1], None, n['inner'][0]

    def exec_loop(self, n, states, o):
        from .loops import LoopExec
        return LoopExec(self, n).run(states, o)

    # ------------------------------------------------------------ bookkeeping
    crosscheck = False

    def cover(self, st, name):
        """reachability behind a postcondition"""
        if self.solve(st.pc)[0] == 'unsat':
            return
        self.covered.add(name)

    def tu_consts(self, fn):
        """integer literals of the function and of what was inlined: lengths worth trying concretely"""
        out = set()

        def walk(n):
            if n.get('kind') == 'IntegerLiteral':
                v = int(n['value'])
                if 1 < v < 100000:
                    out.add(v)
            if n.get('kind') == 'CharacterLiteral':
                pass
            for c in n.get('inner', []):
                walk(c)
        for f in {fn} | self.inlined:
            if f in self.tu.funcs:
                walk(self.tu.funcs[f])
        return out

    def count_ok(self, name):
        o = self.obs.get(name)
        if o is None:
            o = self.obs[name] = Ob(name)
        o.n += 1

    def fail(self, name, reason):
        o = self.obs.get(name)
        if o is None:
            o = self.obs[name] = Ob(name)
        o.n += 1
        if o.status == 'ok':
            o.status = 'unknown'
            o.info = {'reason': reason}
            self.failures.append((name, 'unknown', o.info))
            if self.verbose:
                print('  OBLIGATION FAILED', name, reason)

    def prove_batch(self, st, goals, name):
        gs = [g for g in goals if asbool(g) is not True]
        o = self.obs.get(name)
        if o is None:
            o = self.obs[name] = Ob(name)
        o.n += len(goals)
        if not gs:
            return
        t0 = time.time()
        if self.solve(st.pc, [Or(*[Not(g) for g in gs])])[0] != 'unsat':
            for g in gs:
                self.prove(st, g, name)
        o.t += time.time() - t0

    def run(self, st, fname, args):
        """verify fname from st; -> list of (state, return value)"""
        fd = self.tu.funcs.get(fname)
        if fd is None:
            raise Missing('function %s not found in %s' % (fname, self.tu.path))
        self.statics = {}
        return self.inline(st, fd, args, {'id': 'top00'})

    try_exact_len = True
    alloc_may_fail = True

    def merge_mem(self, outs):
        return outs

    def dec_piece(self, st, v):
        """decimal rendering of an int: shared uninterpreted digits function with length bounds"""
        if isinstance(v, int):
            b = str(v).encode()
            return lit_content(b), 0, len(b)
        D = z3.Function('decdig', z3.IntSort(), z3.IntSort(), z3.IntSort())
        Ln = z3.Function('declen', z3.IntSort(), z3.IntSort())
        if 'decdig' not in self.schemas:
            RANGED_DECLS['decdig'] = (45, 57)
            RANGED_DECLS['declen'] = (1, 20)
            self.schemas['decdig'] = [lambda a: [a >= 45, a <= 57, a != 46, a != 47]]
            self.schemas['declen'] = [lambda a: [a >= 1, a <= 20, z3.Implies(z3.And(a.arg(0) >= 0, a.arg(0) <= 9), a == 1)]]
            self.schemas['decdig'].append(lambda a: [z3.Implies(z3.And(a.arg(0) >= 0, a.arg(0) <= 9, a.arg(1) == 0), a == a.arg(0) + 48)])
        vz = Z(v)
        return Base(lambda k: D(vz, Z(k)), D, (v,)), 0, Ln(vz)
