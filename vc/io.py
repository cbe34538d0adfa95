"""Ghost model of a child process connected by two pipes: every schedule of short writes, short reads, EINTR and failures."""
import z3
from .terms import *
from .mem import *
from .frontend import *
from . import libc

G = 'g:!io'


def setup(e, st, reqlen, req, name, eintr_write=False):
    """req(k): byte k of the request that the child must receive; the child's output is the unconstrained stream OUT"""
    OUT = e.bytefn('OUT')
    I = lambda v: (v, LONG)
    st.mem[G] = Block('cell', cells={('sent',): I(0), ('rcv',): I(0), ('wfail',): I(0), ('wclosed',): I(0), ('eof',): I(0)}, name=G)
    e.roots.add(G)
    n = [0]

    def g(s, f):
        return s.mem[G].cells[(f,)][0]

    def setg(s, **kw):
        b = s.mem[G]
        c = dict(b.cells)
        for k, v in kw.items():
            c[(k,)] = (v, LONG)
        s.mem[G] = b.but(cells=c)

    fds = {}

    def pipe(e, s, a, node):
        out = []
        p = e.as_ptr(s, a[0])
        j = s.ghost.get('npipes', 0)
        ok = s.copy()
        r, w = z3.Int('pipe%d.r' % j), z3.Int('pipe%d.w' % j)
        for x in (r, w):
            ok.assume(And(x >= 3, x < 1 << 20))
        allf = ok.ghost.get('fds', ())
        for x in (r, w):
            for y in allf:
                ok.assume(x != y)
            allf = allf + (x,)
        ok.ghost['fds'] = allf
        ok.ghost['npipes'] = j + 1
        b = ok.mem[p.blk]
        ok.mem[p.blk] = b.but(content=Store(Store(b.content, p.off, r), add(p.off, 1), w))
        out.append((ok, 0))
        s.ghost['oom'] = True
        out.append((s, -1))
        return out

    def fork(e, s, a, node):
        c = s.copy()
        c.ghost['child'] = True
        f = s.copy()
        f.ghost['oom'] = True
        s.assume(z3.Int('pid') > 0)
        return [(s, z3.Int('pid')), (c, 0), (f, -1)]

    def close(e, s, a, node):
        fd = asint(a[0])
        w = z3.Int('pipe0.w')
        if not s.ghost.get('child'):
            setg(s, wclosed=ite(eq(fd, w), 1, g(s, 'wclosed')))
        return [(s, 0)]

    def write(e, s, a, node):
        fd, p, cnt = asint(a[0]), e.as_ptr(s, a[1]), asint(a[2])
        b = e.deref_block(s, p, node)
        e.oblige(s, eq(fd, z3.Int('pipe0.w')), 'request-goes-to-the-child', node)
        e.oblige(s, eq(g(s, 'wclosed'), 0), 'write-before-close', node)
        e.oblige(s, And(ge(p.off, 0), le(add(p.off, cnt), b.size)), 'read-in-bounds', node)
        sent = g(s, 'sent')
        e.oblige(s, And(ge(cnt, 0), le(add(sent, cnt), reqlen)), 'never-sends-more-than-the-request', node)
        if e.mode == 'final':
            k = z3.Int('k!w')
            s2 = s.copy().assume(And(ge(k, 0), lt(k, cnt)))
            e.prove(s2, eq(b.content.read(add(p.off, k)), req(add(sent, k))), '%s:bytes-sent-are-the-next-request-bytes' % name)
        r = e.fresh('wrote', -1, None)
        s.assume(And(r >= -1, le(r, cnt)))
        ok, bad = s.copy().assume(r > 0), s.copy().assume(r <= 0)
        setg(ok, sent=add(sent, r))
        setg(bad, wfail=1)
        return [(ok, r), (bad, r)]

    def read(e, s, a, node):
        fd, p, cnt = asint(a[0]), e.as_ptr(s, a[1]), asint(a[2])
        libc.need_arr(e, s, p, node)
        b = s.mem[p.blk]
        e.oblige(s, eq(fd, z3.Int('pipe1.r')), 'reply-comes-from-the-child', node)
        e.oblige(s, eq(g(s, 'wclosed'), 1), 'child-sees-end-of-input-before-reading-its-output', node)
        e.oblige(s, And(ge(p.off, 0), ge(cnt, 1), le(add(p.off, cnt), b.size)), 'write-in-bounds', node)
        rcv = g(s, 'rcv')
        r = e.fresh('got', -1, None)
        out = []
        ok = s.copy().assume(And(r > 0, le(r, cnt), add(rcv, r) <= 1 << 40))
        ok.mem[p.blk] = b.but(content=Copy(b.content, p.off, Base(lambda k: OUT(Z(k)), OUT), rcv, r), L=None, hints=())
        setg(ok, rcv=add(rcv, r))
        out.append((ok, r))
        z = s.copy()
        setg(z, eof=1)
        out.append((z, 0))
        er = s.copy()
        er.ghost['ioerr'] = True
        er.mem['g:!errno'] = Block('cell', cells={(): (e.fresh('errno', 1, 200, er), INT)}, name='errno')
        # EINTR leaves nothing behind; any other error is reported
        ei = s.copy()
        ei.mem['g:!errno'] = Block('cell', cells={(): (4, INT)}, name='errno')
        er.assume(ne(er.mem['g:!errno'].cells[()][0], 4))
        out += [(ei, -1), (er, -1)]
        return out

    def errno(e, s, a, node):
        if 'g:!errno' not in s.mem:
            s.mem['g:!errno'] = Block('cell', cells={(): (e.fresh('errno', 0, 200, s), INT)}, name='errno')
        return [(s, Ptr('g:!errno', 0))]
    st.mem['g:!errno'] = Block('cell', cells={(): (0, INT)}, name='errno')

    def noret(e, s, a, node):
        return []

    def zero(e, s, a, node):
        return [(s, e.fresh('ext', -1, 1 << 20, s))]
    e.contracts.update({'pipe': pipe, 'fork': fork, 'close': close, 'write': write, 'read': read, '__errno_location': errno,
                        '_exit': noret, 'dup2': zero, 'waitpid': zero})
    e.assumed |= {'POSIX pipe/fork/write/read/close (any short count, EINTR on read, any error)'}

    def cands(L, h, M, U, blocks, put, s0):
        put('rcv bounded', lambda s: le(g(s, 'rcv'), 1 << 40))
        for k in blocks:
            for w in M:
                if w.ty is not None and w.ty.k == 'int' and w.ty.bits > 8 and w.kind == 'int':
                    L.put_forall(put, 'OUT:%s[0..%s)' % (k, w.nice()), k, lambda s, w=w: (0, w.get(s)), lambda s, t: OUT(Z(t)), xtrigs=lambda s: [(OUT, (), 0)])
    e.usercands.append(cands)
    return OUT, g
