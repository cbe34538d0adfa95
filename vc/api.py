"""What a spec module uses."""
import z3
from .terms import *
from .mem import *
from .frontend import *
from .engine import Engine, Cand, MAXLEN
from .spec import Transducer, Chunk, Segments
from . import libc
from .libc import is_space, is_digit, is_upper, is_lower, is_alpha, is_alnum, is_xdigit, is_punct, lower, upper, between, inset, hexdig
from .harness import strings


class Task:
    def __init__(self, file, fn, run, kind='contract', budget=300):
        self.file, self.fn, self.run, self.kind, self.budget = file, fn, run, kind, budget


class Registry:
    def __init__(self):
        self.tasks, self.conc = [], []

    def task(self, file, fn, budget=300):
        def d(f):
            self.tasks.append(Task(file, fn, f, budget=budget))
            return f
        return d

    def concrete(self, driver, cases, oracle, share=1.0, bound='', env=None, known=None, extra=()):
        self.conc.append(dict(driver=driver, cases=cases, oracle=oracle, share=share, bound=bound, env=env, known=known, extra=extra))


def post_string(e, s, v, T, name, what='output'):
    """the returned heap string is exactly the spec stream T, NUL-terminated, inside its block"""
    if isinstance(v, Ptr) and v.blk is None:
        e.prove(s, bool(s.ghost.get('oom')), name + ':returns-null-only-when-out-of-memory')
        return
    b = s.mem[v.blk]
    if b.freed:
        e.prove(s, False, name + ':returned-block-is-live')
        return
    k = z3.Int('k!post')
    n = T.pos(T.n)
    s2 = s.copy().assume(And(ge(k, 0), lt(k, n)))
    e.prove(s, And(ge(v.off, 0), lt(add(v.off, n), b.size)), name + ':%s-fits-its-block' % what)
    e.prove(s2, eq(b.content.read(add(v.off, k)), T.out(k)), name + ':%s-bytes-equal-specification' % what)
    e.prove(s, eq(b.content.read(add(v.off, n)), 0), name + ':%s-terminated' % what)
    e.cover(s, name)


def post_equal_fn(e, s, v, n, f, name):
    """returned string has length n and byte k equals f(k)"""
    b = s.mem[v.blk]
    if b.freed:
        e.prove(s, False, name + ':returned-block-is-live')
        return
    k = z3.Int('k!post')
    s2 = s.copy().assume(And(ge(k, 0), lt(k, n)))
    e.prove(s, And(ge(v.off, 0), lt(add(v.off, n), b.size)), name + ':output-fits-its-block')
    e.prove(s2, eq(b.content.read(add(v.off, k)), f(k)), name + ':output-bytes-equal-specification')
    e.prove(s, eq(b.content.read(add(v.off, n)), 0), name + ':output-terminated')
    e.cover(s, name)


def string_contract(T, name):
    """callee contract: returns a fresh heap string equal to the stream T (T must have its non-zero lemma), or NULL when out of memory"""
    def f(e, st, args, node):
        out = []
        N = T.pos(T.n)
        for s, p in libc.do_alloc(e, st, add(N, 1), node):
            if p.blk is not None:
                s.mem[p.blk] = s.mem[p.blk].but(kind='arr', ety=CHAR, L=N, content=Base(lambda k: ite(eq(k, N), 0, T.out(k)), T.S))
            out.append((s, p))
        return out
    return f


def pieces(*ps):
    """concatenation of (read, len) pieces -> (length, byte function)"""
    total = 0
    items = []
    for r, n in ps:
        items.append((total, r, n))
        total = add(total, n)

    def f(k):
        v = 0
        for off, r, n in reversed(items):
            v = ite(And(ge(k, off), lt(k, add(off, n))), r(sub(k, off)), v)
        return v
    return total, f


def lit(s):
    s = s.encode() if isinstance(s, str) else bytes(s)
    c = lit_content(s)
    return c.read, len(s)


def blkstr(st, name, off=0):
    b = st.mem[name]
    return (lambda k: b.content.read(add(k, off))), sub(b.L, off)


def caller_passes(e, st, p, blk):
    return isinstance(p, Ptr) and p.blk == blk and same(p.off, 0)


def scans(e, *preds, blocks=None):
    """candidate invariants: every byte of an input string between where a cursor started and where it is satisfies the predicate"""
    def cands(L, h, M, U, blks, put, s0):
        for a in M:
            if a.kind == 'off':
                tgt = a.tgt
            elif a.kind == 'int' and a.ty.bits > 8:
                tgt = None
            else:
                continue
            for bn in ([tgt] if tgt else list(h.rep.mem)):
                b = h.rep.mem.get(bn)
                if b is None or b.kind != 'arr' or b.L is None or bn.startswith('lit:') or (blocks and bn not in blocks):
                    continue
                if L.e.tu.sizeof(b.ety) != 1 or ('content', bn) in h.mod:
                    continue
                try:
                    x0 = norm(a.get(s0))
                except Exception:
                    continue
                for i, p in enumerate(preds):
                    for lo, nm in ((x0, 'entry'), (0, '0')):
                        if nm == '0' and same(x0, 0):
                            continue
                        put('scan%d %s %s from %s' % (i, a.nice(), bn, nm),
                            lambda s, a=a, bn=bn, p=p, lo=lo: Implies(And(ge(e.sk, lo), lt(e.sk, a.get(s))), p(s.mem[bn].content.read(e.sk))),
                            lambda s, a=a, bn=bn, p=p, lo=lo: Forall(s.mem[bn].content.trigs(), lambda t: Implies(And(ge(t, lo), lt(t, a.get(s))), p(s.mem[bn].content.read(t))), 'scan'))
    e.usercands.append(cands)
