"""Loop cut: shapes, modified-set discovery, Houdini invariant inference, final check of the invariants."""
import z3, time
from .terms import *
from .mem import *
from .frontend import *
from .engine import Cand, Outcome, Head, common_prefix


class Acc:
    """Accessor of an integer position in a state."""
    __slots__ = ('kind', 'blk', 'path', 'term', 'key', 'ty', 'tgt')

    def __init__(self, kind, blk=None, path=(), term=None, ty=None, tgt=None):
        self.kind, self.blk, self.path, self.term, self.ty, self.tgt = kind, blk, path, term, ty, tgt
        self.key = (kind, blk, path) if kind != 'const' else ('const', str(term))

    def get(self, st):
        if self.kind == 'const':
            return self.term
        b = st.mem[self.blk]
        if self.kind in ('int', 'handle'):
            return asint(b.cells[self.path][0])
        if self.kind == 'off':
            return b.cells[self.path][0].off
        if self.kind == 'idx':
            return b.cells[self.path][0].idx
        if self.kind == 'size':
            return b.size

    def nice(self):
        if self.kind == 'const':
            return str(self.term)
        nm = self.blk.split(':')[2] if self.blk.startswith('v:') else self.blk
        return nm + ('.' + '.'.join(map(str, self.path)) if self.path else '') + ('' if self.kind == 'int' else '#' + self.kind)


import os
WATCH = os.environ.get('VC_WATCH')


class LoopExec:
    def __init__(self, eng, node):
        self.e, self.n = eng, node
        self.init, self.cond, self.inc, self.body = eng.loop_parts(node)
        self.do = node['kind'] == 'DoStmt'
        self.decls = set()
        self.collect(self.body)
        if self.cond and self.cond.get('kind'):
            self.collect(self.cond)
        self.line = eng.tu.line(node)

    def collect(self, n):
        if n.get('kind') == 'VarDecl':
            self.decls.add(n['id'])
        for c in n.get('inner', []):
            self.collect(c)

    # one pass: from head states -> (back-edge states, exit states); returns go to o
    def cond_split(self, s):
        ts, fs = [], []
        if self.cond and self.cond.get('kind'):
            for s2, c in self.e.ev(self.cond, s):
                t, f = self.e.split(s2, self.e.truth(c))
                if t is not None:
                    ts.append(t)
                if f is not None:
                    fs.append(f)
        else:
            ts.append(s)
        return self.e.merge(ts) if len(ts) > 1 else ts, self.e.merge(fs) if len(fs) > 1 else fs

    def iterate(self, heads, o):
        back, ex = [], []
        if self.do:
            o2 = self.e.exec_seq([self.body], heads)
            o.ret += o2.ret
            ex += o2.brk
            for s in self.e.merge(o2.normal + o2.cont):
                ts, fs = self.cond_split(s)
                back += ts
                ex += fs
            return back, ex
        cur = []
        for s in heads:
            ts, fs = self.cond_split(s)
            cur += ts
            ex += fs
        o2 = self.e.exec_seq([self.body], cur)
        o.ret += o2.ret
        ex += o2.brk
        nxt = self.e.merge(o2.normal + o2.cont) if len(o2.normal) + len(o2.cont) > 1 else o2.normal + o2.cont
        if self.inc and self.inc.get('kind'):
            for s in nxt:
                back += [s2 for s2, _ in self.e.ev(self.inc, s)]
        else:
            back = nxt
        return back, ex

    def conjuncts(self, n):
        while n.get('kind') in ('ParenExpr', 'ImplicitCastExpr') and len(n.get('inner', [])) == 1:
            n = n['inner'][0]
        if n.get('kind') == 'BinaryOperator' and n.get('opcode') == '&&':
            return self.conjuncts(n['inner'][0]) + self.conjuncts(n['inner'][1])
        return [n]

    def try_unroll(self, states, o):
        """literal trip counts only"""
        if self.do or not (self.cond and self.cond.get('kind')):
            return None
        e = self.e
        snap = ({k: (v.n, v.status, v.info, v.t) for k, v in e.obs.items()}, list(e.failures))
        cur = [s.copy() for s in states]
        exits = []
        o2 = Outcome()
        ok = True
        guards = [g for g in self.conjuncts(self.cond) if g.get('kind') == 'BinaryOperator' and g.get('opcode') in ('<', '<=', '>', '>=')]

        def few(s):
            """a conjunct of the condition counts: its two sides start at most 8 apart"""
            for g in guards:
                try:
                    for s1, x in e.ev(g['inner'][0], s.copy()):
                        for s2, y in e.ev(g['inner'][1], s1):
                            if isinstance(x, Ptr) or isinstance(y, Ptr):
                                raise Unsupported('')
                            d = sub(asint(y), asint(x)) if g['opcode'][0] == '<' else sub(asint(x), asint(y))
                            c = le(d, 8)
                            if c is not True and (c is False or e.solve(s2.copy().assume(Not(c)).pc)[0] != 'unsat'):
                                raise Unsupported('')
                    return True
                except (Unsupported, AttributeError, TypeError):
                    continue
            return False
        symok = None
        for it in range(300):
            nxt = []
            for s in cur:
                cvs = [(s2, e.truth(c)) for s2, c in e.ev(self.cond, s)]
                if len({c for _, c in cvs if isinstance(c, bool)}) == 2:
                    # evaluating the condition itself forked
                    if symok is None:
                        symok = it == 0 and bool(guards) and all(few(x) for x in states)
                    if not (it < 9 and symok):
                        ok = False
                        break
                for s2, c in cvs:
                    if c is True:
                        nxt.append(s2)
                        continue
                    if c is False:
                        exits.append(s2)
                        continue
                    if symok is None:
                        symok = it == 0 and bool(guards) and all(few(x) for x in states)
                    if it < 9 and symok:
                        t, f = e.split(s2, c)
                        if t is not None:
                            nxt.append(t)
                        if f is not None:
                            exits.append(f)
                    else:
                        ok = False
            if not ok:
                break
            if not nxt:
                break
            ctx0 = [s.ctx for s in nxt]
            for s in nxt:
                s.ctx = s.ctx + ((self.line, 'u%d' % it),)
            o3 = e.exec_seq([self.body], nxt)
            for s in [x for x, _ in o3.ret] + o3.brk + o3.normal + o3.cont:
                s.ctx = ctx0[0]
            o2.ret += o3.ret
            exits += o3.brk
            ns = e.merge(o3.normal + o3.cont) if len(o3.normal + o3.cont) > 1 else o3.normal + o3.cont
            if len(ns) > 2:
                for s in ns:
                    self.gc(s, True)
                ns = e.merge_ite(ns)
            if self.inc and self.inc.get('kind'):
                cur = []
                for s in ns:
                    cur += [x for x, _ in e.ev(self.inc, s)]
            else:
                cur = ns
            if len(cur) > 60:
                ok = False
                break
            if not cur:
                break
        else:
            ok = False
        if not ok:
            keep, e.failures = snap
            for k in list(e.obs):
                if k not in keep:
                    del e.obs[k]
                else:
                    v = e.obs[k]
                    v.n, v.status, v.info, v.t = keep[k]
            return None
        o.ret += o2.ret
        return exits

    # -------------------------------------------------------- shapes
    def gc(self, s, drop):
        if drop:
            for k in [k for k in s.mem if k.startswith('v:')]:
                parts = k.split(':')
                did = parts[-1].split('.')[0]
                if did in self.decls and parts[1] == (s.frames[-1] if s.frames else ''):
                    del s.mem[k]
        live, todo = set(), [k for k in s.mem if k.startswith('v:') or k.startswith('g:') or k in self.e.roots]
        while todo:
            k = todo.pop()
            if k in live or k not in s.mem:
                continue
            live.add(k)
            b = s.mem[k]
            if b.cells:
                for v, _ in b.cells.values():
                    if isinstance(v, Ptr) and v.blk and v.blk not in live:
                        todo.append(v.blk)
            for k2 in s.mem:
                if k2.startswith(k + '.') and k2 not in live:
                    todo.append(k2)
        for k in [k for k in s.mem if k not in live and not k.startswith('lit:')]:
            b = s.mem[k]
            del s.mem[k]
        return s

    def shape(self, s):
        out = []
        for k, b in s.mem.items():
            if k.startswith('lit:') or k.startswith('g:') and b.ro:
                continue
            if b.kind == 'arr' and b.L is not None and not b.heap and not k.startswith('v:'):
                if '[' in k:
                    continue
            out.append((k, b.kind, b.freed))
            if b.cells:
                for p, (v, _) in b.cells.items():
                    if isinstance(v, Ptr):
                        out.append((k, p, 'P', v.blk, v.path))
                    elif isinstance(v, Chain):
                        out.append((k, p, 'C', v.ch.name, str(v.ch.n)))
                    elif isinstance(v, Opaque):
                        out.append((k, p, 'O', v.name))
                    elif isinstance(v, Fn):
                        out.append((k, p, 'F', v.name))
        for k, v in s.ghost.items():
            out.append(('ghost', k, v))
        return frozenset(out)

    def diff(self, h, s):
        """components where s differs from the representative"""
        d = set()
        r = h.rep
        for k, b in s.mem.items():
            a = r.mem.get(k)
            if a is b or a is None or k.startswith('lit:'):
                continue
            if b.kind in ('cell', 'parr', 'sarr'):
                if a.cells is b.cells:
                    continue
                for p in set(a.cells) | set(b.cells):
                    x, y = a.cells.get(p), b.cells.get(p)
                    if x is None or y is None:
                        d.add(('cell', k, p))
                    elif not self.e.same_val(x[0], y[0]):
                        d.add(('cell', k, p))
            else:
                if a.content is not b.content:
                    d.add(('content', k))
                if not same(asint(a.size), asint(b.size)):
                    d.add(('size', k))
        return d

    def arrive(self, s, heads, entry):
        """register an arrival; returns True if something new was learnt"""
        self.gc(s, not entry)
        sh = self.shape(s)
        h = heads.get(sh)
        if h is None:
            if len(heads) >= self.e.maxheads:
                raise Unsupported('too many loop shapes at line %s' % self.line)
            h = Head(len(heads), sh, s)
            heads[sh] = h
            if entry:
                h.entries.append(s)
            else:
                h.backrep = True
            return h, True
        if entry:
            h.entries.append(s)
        d = self.diff(h, s) - h.mod
        np = common_prefix(h.pc, s.pc)
        ch = False
        if d:
            h.mod |= d
            ch = True
        if len(np) != len(h.pc):
            h.pc = np
            ch = True
        return h, ch

    def abstract(self, h):
        """head state: representative with modified components replaced by named symbols"""
        e = self.e
        s = h.rep.copy()
        s.pc = list(h.pc)
        pre = 'h%s.%d.' % (self.tag, h.idx)
        for c in sorted(h.mod, key=str):
            if c[0] == 'cell':
                _, k, p = c
                b = s.mem[k]
                cell = b.cells.get(p)
                if cell is None:
                    if b.default == 'uninit':
                        continue
                    if isinstance(b.default, tuple) or b.default == 'zero':
                        # the arrival wrote a lazily symbolic/zero cell: type is known from the arrival
                        ty = h.celltys.get((k, p)) if hasattr(h, 'celltys') else None
                        raise Unsupported('cell %s%s first written inside a loop' % (k, p))
                v, ty = cell
                nm = pre + k.split(':')[2] + '.'.join(map(str, p)) if k.startswith('v:') else pre + k + '.' + '.'.join(map(str, p))
                if isinstance(v, (int, bool, z3.ExprRef)):
                    if ty.k == 'int' and ty.bits == 1:
                        nv = e.named(nm, ty, s)
                    elif ty.k == 'int':
                        nv = e.named(nm, ty, s)
                    elif ty.k == 'ptr' and e.handlefam is not None:
                        nv = e.named(nm + '#handle')
                    else:
                        raise Unsupported('loop-modified value of type %r' % ty)
                elif isinstance(v, Ptr):
                    if v.blk is None:
                        nv = v
                    else:
                        nv = Ptr(v.blk, e.named(nm + '#off'), v.path)
                elif isinstance(v, Chain):
                    nv = Chain(v.ch, e.named(nm + '#idx'))
                elif isinstance(v, Opaque):
                    nv = v
                else:
                    raise Unsupported('loop-modified %r' % (v,))
                s.mem[k] = b.but(cells={**b.cells, p: (nv, ty)})
            elif c[0] == 'content':
                b = s.mem[c[1]]
                f = e.bytefn(pre + c[1] + '#bytes') if self.e.tu.sizeof(b.ety) == 1 else z3.Function(pre + c[1] + '#elems', z3.IntSort(), z3.IntSort())
                s.mem[c[1]] = b.but(content=Base(lambda k, f=f: f(Z(k)), f), L=None, hints=((b.L,) if b.L is not None else ()) + b.hints[:2])
            elif c[0] == 'size':
                b = s.mem[c[1]]
                sz = e.named(pre + c[1] + '#size')
                s.assume(sz >= 0)
                s.mem[c[1]] = b.but(size=sz)
        return s

    # -------------------------------------------------------- candidates
    def accs(self, h):
        M, U = [], []
        s = h.rep
        ids = {id(0)}
        fr = s.frames[-1] if s.frames else ''
        for k, b in s.mem.items():
            if k.startswith('lit:'):
                continue
            if b.cells is not None:
                if k.startswith('v:') and k.split(':')[1] != fr and not any(k.split(':')[1] == f for f in s.frames):
                    continue
                outer = k.startswith('v:') and k.split(':')[1] != fr
                for p, (v, ty) in b.cells.items():
                    md = ('cell', k, p) in h.mod
                    if isinstance(v, (int, bool, z3.ExprRef)) and ty.k == 'int':
                        a = Acc('int', k, p, ty=ty)
                    elif isinstance(v, Ptr) and v.blk is not None and s.mem.get(v.blk) is not None and s.mem[v.blk].kind in ('arr', 'parr'):
                        a = Acc('off', k, p, ty=LONG, tgt=v.blk)
                    elif isinstance(v, Chain):
                        a = Acc('idx', k, p, ty=LONG, tgt=v.ch)
                    else:
                        continue
                    if md:
                        M.append(a)
                    else:
                        U.append(a)
            if b.kind == 'arr' or b.kind == 'parr':
                a = Acc('size', k, ty=LONG)
                (M if ('size', k) in h.mod else U).append(a)
                if b.L is not None and ('content', k) not in h.mod and not isinstance(b.L, int):
                    U.append(Acc('const', term=b.L, ty=LONG))
        for t in self.e.uterms:
            U.append(Acc('const', term=t, ty=LONG))
        # dedupe stable accessors by term
        seen, U2 = set(), []
        for a in U:
            t = a.get(s)
            if isinstance(t, bool):
                continue
            kk = t if isinstance(t, int) else ('t', norm(t).get_id() if not isinstance(norm(t), int) else norm(t))
            if kk in seen:
                continue
            seen.add(kk)
            U2.append(Acc('const', term=t, ty=a.ty, tgt=a.tgt))
        return M, U2

    def handles(self, h):
        """cells modified by the loop that hold a text handle"""
        return [Acc('handle', k, p, ty=ty) for k, b in h.rep.mem.items() if b.cells for p, (v, ty) in b.cells.items()
                if ('cell', k, p) in h.mod and ty.k == 'ptr' and isinstance(v, (int, z3.ExprRef))]

    def gen(self, h):
        e = self.e
        M, U = self.accs(h)
        s0 = (h.entries or [h.rep])[0]
        cs = {}

        def put(key, f, asm=None):
            if key not in cs:
                cs[key] = Cand(key, f, asm)

        def isnum(a):
            return a.ty is not None and a.ty.k == 'int' and a.ty.bits > 8
        Mn = [a for a in M if isnum(a)]
        Un = [a for a in U if isnum(a)]
        Mc = [a for a in M if not isnum(a)]
        z = Acc('const', term=0, ty=LONG)

        def v0(a):
            try:
                return norm(a.get(s0))
            except Exception:
                return None
        for a in Mn:
            put('%s>=0' % a.nice(), lambda s, a=a: ge(a.get(s), 0))
            put('%s>=1' % a.nice(), lambda s, a=a: ge(a.get(s), 1))
            x0 = v0(a)
            if x0 is not None:
                put('%s>=entry' % a.nice(), lambda s, a=a, x0=x0: ge(a.get(s), x0))
                put('%s<=entry' % a.nice(), lambda s, a=a, x0=x0: le(a.get(s), x0))
            if a.kind == 'idx':
                put('%s<=n' % a.nice(), lambda s, a=a: le(a.get(s), a.tgt.n))
            for c in (0, 1):
                for b in Un:
                    put('%s+%d<=%s' % (a.nice(), c, b.nice()), lambda s, a=a, b=b, c=c: le(add(a.get(s), c), b.get(s)))
                    put('%s>=%s+%d' % (a.nice(), b.nice(), c), lambda s, a=a, b=b, c=c: ge(a.get(s), add(b.get(s), c)))
            for b in Un:
                for c in e.offs:
                    put('%s+%d<=%s' % (a.nice(), c, b.nice()), lambda s, a=a, b=b, c=c: le(add(a.get(s), c), b.get(s)))
            for m in e.mods:
                put('%s%%%d' % (a.nice(), m), lambda s, a=a, m=m, x0=x0: eq(mod(sub(a.get(s), x0), m), 0))
        for i, a in enumerate(Mn):
            for j, b in enumerate(Mn):
                if i == j:
                    continue
                for c in (0, 1) + tuple(e.offs):
                    put('%s+%d<=%s' % (a.nice(), c, b.nice()), lambda s, a=a, b=b, c=c: le(add(a.get(s), c), b.get(s)))
                a0, b0 = v0(a), v0(b)
                if a0 is None or b0 is None:
                    continue
                if i < j:
                    put('%s-%s==entry' % (a.nice(), b.nice()), lambda s, a=a, b=b, d=sub(a0, b0): eq(sub(a.get(s), b.get(s)), d))
                    put('%s+%s==entry' % (a.nice(), b.nice()), lambda s, a=a, b=b, d=add(a0, b0): eq(add(a.get(s), b.get(s)), d))
                for c in e.scales:
                    put('%s-%d*%s==entry' % (a.nice(), c, b.nice()), lambda s, a=a, b=b, c=c, d=sub(a0, mul(c, b0)): eq(sub(a.get(s), mul(c, b.get(s))), d))
                    put('%s-%d*%s<=entry' % (a.nice(), c, b.nice()), lambda s, a=a, b=b, c=c, d=sub(a0, mul(c, b0)): le(sub(a.get(s), mul(c, b.get(s))), d))
        for a in M:
            x0 = v0(a)
            if isinstance(x0, int) and a.ty.k == 'int':
                put('%s==%d' % (a.nice(), x0), lambda s, a=a, x0=x0: eq(a.get(s), x0))
            if a.ty.k == 'int' and a.ty.bits == 1 or isinstance(a.ty, Ty) and a.kind == 'int':
                put('%s in 0..1' % a.nice(), lambda s, a=a: And(ge(a.get(s), 0), le(a.get(s), 1)))
        blocks = [k for (c, k) in [x for x in h.mod if x[0] == 'content']]
        A = Mn + Un
        for k in blocks:
            c0 = s0.mem[k].content
            for a in A:
                self.put_forall(put, 'frame<%s:%s' % (k, a.nice()), k, lambda s, a=a: (0, a.get(s)),
                                lambda s, t, c0=c0: c0.read(t), extra=c0)
                if a in Mn:
                    self.put_forall(put, 'frame>=%s:%s' % (k, a.nice()), k, lambda s, a=a, k=k: (a.get(s), s.mem[k].size),
                                    lambda s, t, c0=c0: c0.read(t), extra=c0)
                    self.put_nonzero(put, 'nz<%s:%s' % (k, a.nice()), k, lambda s, a=a: (0, a.get(s)))
                    put('nul@%s:%s' % (k, a.nice()), lambda s, a=a, k=k: eq(s.mem[k].content.read(a.get(s)), 0))
            x0s = [(a, v0(a)) for a in Mn]
            for a, x0 in x0s:
                if x0 is not None and not isinstance(x0, int):
                    self.put_forall(put, 'frame<%s:entry %s' % (k, a.nice()), k, lambda s, x0=x0: (0, x0), lambda s, t, c0=c0: c0.read(t), extra=c0)
            for a in Mn:
                if a.kind == 'off' and a.tgt == k or a.kind == 'int':
                    for b in Mn:
                        if b is not a and b.kind == 'int':
                            put('room %s:%s+%s' % (k, a.nice(), b.nice()), lambda s, a=a, b=b, k=k: eq(add(a.get(s), b.get(s)), s.mem[k].size))
        for hnt in e.hints:
            hnt.candidates(self, h, M, U, blocks, put, s0)
        for g in e.usercands:
            g(self, h, M, U, blocks, put, s0)
        hs = self.abstract(h)
        for k in list(cs):
            try:
                if asbool(cs[k].f(hs)) is True:
                    del cs[k]
            except (KeyError, AttributeError, Unsupported):
                del cs[k]
        return cs

    def put_forall(self, put, key, blk, rangef, valf, extra=None, xtrigs=None):
        """forall t in range: content(blk)[t] == valf(t)"""
        e = self.e

        def f(s):
            lo, hi = rangef(s)
            t = e.sk
            return Implies(And(ge(t, lo), lt(t, hi)), eq(s.mem[blk].content.read(t), valf(s, t)))

        def asm(s):
            lo, hi = rangef(s)
            c = s.mem[blk].content
            tr = c.trigs() + (extra.trigs() if extra is not None else []) + (xtrigs(s) if xtrigs else [])
            return Forall(tr, lambda t: Implies(And(ge(t, lo), lt(t, hi)), eq(c.read(t), valf(s, t))), key)
        put(key, f, asm)

    def put_nonzero(self, put, key, blk, rangef):
        e = self.e

        def f(s):
            lo, hi = rangef(s)
            t = e.sk
            return Implies(And(ge(t, lo), lt(t, hi)), ne(s.mem[blk].content.read(t), 0))

        def asm(s):
            lo, hi = rangef(s)
            c = s.mem[blk].content
            return Forall(c.trigs(), lambda t: Implies(And(ge(t, lo), lt(t, hi)), ne(c.read(t), 0)), key)
        put(key, f, asm)

    def filter(self, h, s):
        """drop candidates of h that do not hold in s; returns number dropped"""
        e = self.e
        live = list(h.cands)
        dropped = 0
        todo = []
        for c in live:
            try:
                f = asbool(c.f(s))
            except (KeyError, AttributeError, Unsupported):
                f = False
            if f is False:
                h.cands.remove(c)
                dropped += 1
            elif f is not True:
                todo.append((c, Z(f)))
        if todo and not e.feasible(s, light=True):
            return dropped
        while todo:
            r, m = e.solve(s.pc, [z3.Or(*[z3.Not(f) for _, f in todo])], timeout=4000 if len(todo) > 1 else e.timeout)
            if r == 'unsat':
                break
            if r == 'sat':
                bad = [c for c, f in todo if z3.is_false(m.eval(f, model_completion=True))]
                if not bad:
                    bad = self.singles(s, todo)
                elif any(':' in c.key for c in bad):
                    for bs in e.model_info(m)['bytes'].values():
                        e.hintbytes |= set(bs.values())
            else:
                bad = self.singles(s, todo)
                for c in bad:
                    h.cands.remove(c)
                dropped += len(bad)
                break
            if not bad:
                break
            bs = set(id(c) for c in bad)
            for c in bad:
                h.cands.remove(c)
                if WATCH and WATCH in c.key:
                    print('DROPPED', c.key, 'line', self.line, r, e.model_info(m) if m is not None else '')
                    print('   ', [f for f in s.pc[-12:] if not isinstance(f, Forall)])
                    if m is not None and os.environ.get('VC_MODEL'):
                        print('   MODEL', [(d.name(), m[d]) for d in m.decls() if d.arity() > 0 and d.name() in os.environ['VC_MODEL'].split()])
            dropped += len(bad)
            todo = [(c, f) for c, f in todo if id(c) not in bs]
        return dropped

    def singles(self, s, todo):
        if len(todo) > 8:
            mid = len(todo) // 2
            out = []
            for part in (todo[:mid], todo[mid:]):
                r, m = self.e.solve(s.pc, [z3.Or(*[z3.Not(f) for _, f in part])], timeout=4000)
                if r == 'unsat':
                    continue
                if r == 'sat':
                    bad = [c for c, f in part if z3.is_false(m.eval(f, model_completion=True))]
                    if bad:
                        bs = set(id(c) for c in bad)
                        rest = [(c, f) for c, f in part if id(c) not in bs]
                        out += bad + (self.singles(s, rest) if rest else [])
                        continue
                out += self.singles(s, part)
            return out
        bad = []
        for c, f in todo:
            if self.e.solve(s.pc, [z3.Not(f)], timeout=4000)[0] != 'unsat':
                bad.append(c)
        return bad

    def assume_all(self, h):
        s = self.abstract(h)
        for c in h.cands:
            if c.asm is not None:
                s.assume(c.asm(s))
            else:
                s.assume(c.f(s))
        s.ctx = s.ctx + ((self.line, h.idx),)
        return s

    # -------------------------------------------------------- driver
    def run(self, states, o):
        ex = self.run1(states, o)
        for s in ex if self.e.handlefam is not None else ():
            # locals of the loop body are out of scope
            for k in [k for k in s.mem if k.startswith('v:') and k.split(':')[-1].split('.')[0] in self.decls and k.split(':')[1] == (s.frames[-1] if s.frames else '')]:
                del s.mem[k]
        return ex

    def run1(self, states, o):
        e = self.e
        if self.init and self.init.get('kind'):
            states = e.exec_stmt(self.init, states, o)
        if not states:
            return []
        r = self.try_unroll(states, o)
        if r is not None:
            return r
        ctx = states[0].ctx
        # one set of head symbols per (call path, enclosing loop heads): no symbol is bound twice on one path
        self.tag = 'L%s#%d' % (self.line, e.tagids.setdefault((self.n['id'], states[0].frames, ctx), len(e.tagids)))
        if any(s.ctx != ctx or s.frames != states[0].frames for s in states):
            raise Unsupported('loop reached from two contexts at line %s' % self.line)
        saved = e.mode
        heads = {}
        for s in states:
            self.arrive(s, heads, True)
        for h in heads.values():
            # what the entries know beyond their common prefix: one of them was taken
            if 1 < len(h.entries) <= 6:
                n = len(h.pc)
                alts = [[c for c in s.pc[n:] if isinstance(c, z3.ExprRef)] for s in h.entries]
                if all(alts) and sum(map(len, alts)) <= 120:
                    h.pc = list(h.pc) + [z3.Or(*[z3.And(*a) for a in alts])]
        drop = e.hcache.setdefault((self.n['id'], states[0].frames, ctx), {})
        e.mode = 'explore'
        try:
            # phase 1: shapes and modified components (no invariants assumed yet: what inner loops drop here says nothing)
            keepcache, e.hcache = e.hcache, {}
            for rnd in range(40):
                changed = False
                for h in list(heads.values()):
                    hs = self.abstract(h)
                    hs.ctx = hs.ctx + ((self.line, h.idx),)
                    back, ex = self.iterate([hs], Outcome())
                    for b in back:
                        b.ctx = ctx
                        _, ch = self.arrive(b, heads, False)
                        changed |= ch
                if not changed:
                    break
            else:
                raise Unsupported('loop shape discovery does not converge at line %s' % self.line)
            e.hcache = keepcache
            # phase 2: Houdini
            for h in heads.values():
                dr = drop.setdefault(h.idx, set())
                h.cands = [c for k, c in self.gen(h).items() if k not in dr]
                n0 = len(h.cands)
                for s in h.entries:
                    self.filter(h, s)
                if e.verbose:
                    print('  loop L%s head %d: mod=%s cands=%d entry-ok=%d' % (self.line, h.idx, sorted(map(str, h.mod)), n0, len(h.cands)), flush=True)
            for rnd in range(60):
                nd = 0
                exits, rets = [], Outcome()
                arr = []
                for h in list(heads.values()):
                    hs = self.assume_all(h)
                    if not h.entries and not e.feasible(hs):
                        continue
                    back, ex = self.iterate([hs], rets)
                    exits += ex
                    for b in back:
                        b.ctx = ctx
                        arr.append(b)
                restart = False
                for b in arr:
                    n_h = len(heads)
                    h2, ch = self.arrive(b, heads, False)
                    if len(heads) > n_h:
                        h2.cands = list(self.gen(h2).values())
                        restart = True
                    elif ch:
                        for s in h2.entries:
                            pass
                        allc = self.gen(h2)
                        have = set(c.key for c in h2.cands)
                        restart = True
                    nd += self.filter(h2, b)
                if nd == 0 and not restart:
                    break
            else:
                raise Unsupported('invariant inference does not converge at line %s' % self.line)
            for h in heads.values():
                keep = set(c.key for c in h.cands)
                dr = drop[h.idx] if h.idx in drop else drop.setdefault(h.idx, set())
                dr |= set(k for k in self.gen(h) if k not in keep)
                if e.verbose:
                    print('  loop L%s head %d: %d invariants after %d rounds' % (self.line, h.idx, len(keep), rnd + 1), flush=True)
                    if e.verbose > 1:
                        print('     ', sorted(keep), flush=True)
        finally:
            e.mode = saved
        if saved != 'final':
            o.ret += rets.ret
            for s in exits:
                s.ctx = ctx
            for s, _ in rets.ret:
                s.ctx = ctx
            return exits
        # phase 3: emit obligations with the inferred invariants
        ninv = 0
        for h in heads.values():
            for s in h.entries:
                for c in h.cands:
                    e.count_ok('%s:loop-invariant-on-entry:%s' % (e.curfn, self.line))
        exits = []
        arrs = []
        rets = Outcome()
        for h in heads.values():
            hs = self.assume_all(h)
            if not h.entries and not e.feasible(hs):
                continue
            if not e.feasible(hs):
                if any(e.feasible(s) for s in h.entries):
                    e.vacuous.append('loop head at line %s' % self.line)
                    if e.verbose > 2:
                        for s in h.entries:
                            print('VAC entry', e.solve(s.pc)[0], [p if not isinstance(p, Forall) else ('forall', p.name) for p in s.pc])
                        print('VAC head', [p if not isinstance(p, Forall) else ('forall', p.name) for p in hs.pc])
            back, ex = self.iterate([hs], rets)
            exits += ex
            for b in back:
                b.ctx = ctx
                self.gc(b, True)
                h2 = heads.get(self.shape(b))
                if h2 is None:
                    raise Unsupported('new shape in final pass')
                arrs.append((h, hs, h2, b))
        for h, hs, h2, b in arrs:
            fs = [asbool(c.f(b)) for c in h2.cands]
            e.prove_batch(b, fs, '%s:loop-invariant-preserved:%s' % (e.curfn, self.line))
        if e.terminates:
            self.termination(heads, arrs)
        o.ret += rets.ret
        for s in exits:
            s.ctx = ctx
        for s, _ in rets.ret:
            s.ctx = ctx
        e.loops[(e.curfn, self.line)] = {h.idx: sorted(c.key for c in h.cands) for h in heads.values()}
        return exits

    def termination(self, heads, arrs):
        e = self.e
        name = '%s:loop-terminates:%s' % (e.curfn, self.line)
        if not arrs:
            return
        # only cycles between heads need a ranking function
        reach = {h.idx: {h.idx} for h in heads.values()}
        for _ in range(len(heads) + 1):
            for h, hs, h2, b in arrs:
                for r in reach.values():
                    if h.idx in r:
                        r.add(h2.idx)
        comps = {}
        for a in arrs:
            h, _, h2, _ = a
            if h.idx in reach[h2.idx]:
                comps.setdefault(frozenset(i for i in reach[h2.idx] if h.idx in reach[i]), []).append(a)
        for comp, as_ in comps.items():
            if not self.ranked([h for h in heads.values() if h.idx in comp], as_):
                e.fail(name, 'no ranking function found')
                return
        e.count_ok(name)

    def cond_ranks(self, n):
        """differences of the two sides of the comparisons in the loop condition"""
        k = n.get('kind')
        if k in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr'):
            yield from self.cond_ranks(n['inner'][0])
        elif k == 'BinaryOperator' and n['opcode'] in ('&&', ','):
            for c in n['inner']:
                yield from self.cond_ranks(c)
        elif k == 'BinaryOperator' and n['opcode'] in ('<', '<=', '>', '>=', '!='):
            a, b = n['inner']

            def val(s, x):
                saved, self.e.mode = self.e.mode, 'explore'
                try:
                    r = self.e.ev(x, s.copy())
                finally:
                    self.e.mode = saved
                if len(r) != 1 or not isinstance(r[0][1], (int, z3.ArithRef)):
                    raise KeyError('rank')
                return r[0][1]
            yield lambda s: sub(val(s, b), val(s, a))
            yield lambda s: sub(val(s, a), val(s, b))

    def ranked(self, hs_, arrs):
        e = self.e
        M, U = self.accs(hs_[0])
        Mn = [a for a in M if a.ty.k == 'int' and a.ty.bits > 8]
        bounds = [a for a in U + Mn if a.ty is not None and a.ty.k == 'int' and a.ty.bits > 8]
        ranks = [(lambda s, a=a: a.get(s)) for a in Mn]
        ranks += [(lambda s, a=a, b=b: sub(b.get(s), a.get(s))) for a in Mn for b in bounds if b is not a]
        ranks += [(lambda s, a=a: sub(a.tgt.n, a.get(s))) for a in Mn if a.kind == 'idx']
        ranks += e.variants
        # a last pass that only clears a flag: distance plus one while the flag is set
        ranks += [(lambda s, a=a, b=b, d=d: add(sub(b.get(s), a.get(s)), ite(gt(d.get(s), 0), 1, 0))) for a in Mn for b in bounds if b is not a for d in M if d.kind == 'int' and d is not a and d is not b]
        if self.cond and self.cond.get('kind'):
            ranks += list(self.cond_ranks(self.cond))
        for r in ranks:
            for h, hs, h2, b in arrs:
                try:
                    x, y = r(hs), r(b)
                except (KeyError, AttributeError, Unsupported):
                    break
                g = And(lt(y, x), ge(x, -1))
                if g is False or not e.proves(b, g, 3000):
                    break
            else:
                return True
        return False
