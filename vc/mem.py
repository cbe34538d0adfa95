"""Memory model: blocks with a size and a functional content; (block, offset) pointers."""
from .terms import *
import z3


class Unsupported(Exception):
    pass


class Base:
    """Content given by an index function. decl: z3 function symbol (trigger) or None; shift: index k -> decl(k+shift)."""
    __slots__ = ('fn', 'decl', 'extra')

    def __init__(self, fn, decl=None, extra=()):
        self.fn, self.decl, self.extra = fn, decl, tuple(extra)

    def read(self, k):
        return self.fn(norm(k))

    def trigs(self, shift=0):
        return [(self.decl, self.extra, shift)] if self.decl is not None else []


class Store:
    __slots__ = ('prev', 'idx', 'val')

    def __init__(self, prev, idx, val):
        self.prev, self.idx, self.val = prev, norm(idx), val

    def read(self, k):
        d = dconst(k, self.idx)
        if d == 0:
            return self.val
        if d is not None:
            return self.prev.read(k)
        return ite(eq(k, self.idx), self.val, self.prev.read(k))

    def trigs(self, shift=0):
        return self.prev.trigs(shift)


class Copy:
    __slots__ = ('prev', 'dst', 'src', 'soff', 'n')

    def __init__(self, prev, dst, src, soff, n):
        self.prev, self.dst, self.src, self.soff, self.n = prev, norm(dst), src, norm(soff), norm(n)

    def read(self, k):
        rel = sub(k, self.dst)
        c = And(ge(rel, 0), lt(rel, self.n))
        if c is True:
            return self.src.read(add(rel, self.soff))
        if c is False:
            return self.prev.read(k)
        return ite(c, self.src.read(add(rel, self.soff)), self.prev.read(k))

    def trigs(self, shift=0):
        return self.prev.trigs(shift) + self.src.trigs(add(shift, sub(self.soff, self.dst)))


class Fill:
    __slots__ = ('prev', 'dst', 'n', 'val')

    def __init__(self, prev, dst, n, val):
        self.prev, self.dst, self.n, self.val = prev, norm(dst), norm(n), val

    def read(self, k):
        rel = sub(k, self.dst)
        c = And(ge(rel, 0), lt(rel, self.n))
        return ite(c, self.val, self.prev.read(k)) if c is not True else self.val

    def trigs(self, shift=0):
        return self.prev.trigs(shift)


def lit_content(bs):
    bs = bytes(bs)

    def fn(k):
        if isinstance(k, int):
            return bs[k] if 0 <= k < len(bs) else 0
        if len(bs) > 300:
            raise Unsupported('symbolic index into a long literal')
        # one case per run of equal or consecutive values
        runs = []
        for j, v in enumerate(bs):
            if runs and (v == runs[-1][2] and runs[-1][3] in (None, 0) or v == runs[-1][2] + 1 and runs[-1][3] in (None, 1)):
                runs[-1][3] = v - runs[-1][2]
                runs[-1][1], runs[-1][2] = j, v
            else:
                runs.append([j, j, v, None])
        r = 0
        for lo, hi, v, d in reversed(runs):
            r = ite(eq(k, lo) if lo == hi else And(ge(k, lo), le(k, hi)), v if d != 1 else add(k, v - hi), r)
        return r
    return Base(fn)


class Ptr:
    __slots__ = ('blk', 'off', 'path')

    def __init__(self, blk, off=0, path=()):
        self.blk, self.off, self.path = blk, norm(off), path

    def __repr__(self):
        return '&%s%s+%s' % (self.blk, self.path, self.off)


NULL = Ptr(None)


class Chain:
    """Pointer to node idx of a linked list of n nodes; NULL iff idx == n."""
    __slots__ = ('ch', 'idx')

    def __init__(self, ch, idx):
        self.ch, self.idx = ch, norm(idx)

    def __repr__(self):
        return '&%s[%s]' % (self.ch.name, self.idx)


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class Opaque:
    """A pointer never dereferenced by verified code; null is a Bool term."""
    __slots__ = ('name', 'null')

    def __init__(self, name, null):
        self.name, self.null = name, null

    def __repr__(self):
        return 'opaque:' + self.name


class StructVal:
    __slots__ = ('cells', 'default')

    def __init__(self, cells, default='uninit'):
        self.cells, self.default = cells, default


class Block:
    __slots__ = ('kind', 'size', 'content', 'cells', 'freed', 'ety', 'default', 'heap', 'L', 'hints', 'name', 'ro')

    def __init__(self, kind, size=None, content=None, cells=None, ety=None, default='uninit', heap=False, L=None,
                 hints=(), name='', freed=False, ro=False):
        self.kind, self.size, self.content, self.cells = kind, size, content, cells
        self.ety, self.default, self.heap, self.L, self.hints = ety, default, heap, L, tuple(hints)
        self.name, self.freed, self.ro = name, freed, ro

    def but(self, **kw):
        b = Block.__new__(Block)
        for s in Block.__slots__:
            setattr(b, s, kw[s] if s in kw else getattr(self, s))
        return b


class Forall:
    """forall k. body(k), instantiated at every application of a trigger symbol in a query."""
    __slots__ = ('trigs', 'body', 'name', 'cache')

    def __init__(self, trigs, body, name=''):
        self.trigs, self.body, self.name, self.cache = trigs, body, name, {}


class State:
    __slots__ = ('mem', 'pc', 'ctx', 'frames', 'trace', 'ghost')

    def __init__(self):
        self.mem, self.pc, self.ctx, self.frames, self.trace, self.ghost = {}, [], (), (), (), {}

    def copy(self):
        s = State.__new__(State)
        s.mem, s.pc, s.ctx, s.frames, s.trace, s.ghost = dict(self.mem), list(self.pc), self.ctx, self.frames, self.trace, dict(self.ghost)
        return s

    def assume(self, f):
        if isinstance(f, Forall):
            self.pc.append(f)
            return self
        f = asbool(f)
        if f is not True:
            self.pc.append(Z(f))
        return self
