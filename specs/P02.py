"""P02: AST filters run in order on the current document; a failing filter never loses or corrupts the document."""
from vc.api import *
from vc import io
from specs.P01 import rcases as _rc
R = Registry()
ONE, ALL = 'run_single_ast_filter', 'apex_run_ast_filters'
ASSUME = ['apex_cmark_to_pandoc_json / apex_pandoc_json_to_cmark are used through assumed contracts here: they return null or a fresh value and leave their argument alone']


@R.task('src/filters_ast.c', ONE)
def _(e):
    e.terminates = False
    st = State()
    cmd, tgt, js = (e.cstring(st, x) for x in ('cmd', 'target', 'json'))
    st.assume(ge(st.mem['cmd'].L, 1))
    r, n = blkstr(st, 'json')
    OUT, g = io.setup(e, st, n, r, ONE)

    def setenv(e, s, a, node):
        e.oblige(s, libc.litbytes(e, s, a[0]) == b'APEX_TARGET_FORMAT' and caller_passes(e, s, a[1], 'target') and a[2] != 0, 'target-format-exported', node)
        s.ghost['env'] = True
        return [(s, 0)]

    def execl(e, s, a, node):
        ok = bool(s.ghost.get('child')) and libc.litbytes(e, s, a[0]) == b'/bin/sh' and libc.litbytes(e, s, a[2]) == b'-c' and caller_passes(e, s, a[3], 'cmd')
        e.oblige(s, ok, 'the-configured-command-is-run', node)
        e.oblige(s, Or(bool(s.ghost.get('env')), eq(s.mem['target'].L, 0)), 'target-format-exported-before-the-filter-starts', node)
        return [(s, -1)]
    status = z3.Int('status')

    def waitpid(e, s, a, node):
        ok, bad = s.copy(), s
        ok.assume(And(status >= -(1 << 31), status < 1 << 31))
        p = e.as_ptr(ok, a[1])
        b = ok.mem[p.blk]
        ok.mem[p.blk] = b.but(cells={**b.cells, p.path: (status, INT)})
        ok.ghost['reaped'] = True
        bad.ghost['ioerr'] = True
        return [(ok, z3.Int('pid')), (bad, -1)]
    e.contracts.update(execl=execl, waitpid=waitpid, setenv=setenv)
    good = And(eq(mod(status, 128), 0), eq(mod(floordiv(status, 256), 256), 0))
    for s, v in e.run(st, ONE, [cmd, tgt, js]):
        e.prove(s, not s.ghost.get('child'), ONE + ':the-child-never-returns')
        if isinstance(v, Ptr) and v.blk is None:
            e.prove(s, Or(bool(s.ghost.get('oom') or s.ghost.get('ioerr')), Not(good)), ONE + ':null-only-on-failure')
            continue
        e.prove(s, And(bool(s.ghost.get('reaped')), good), ONE + ':result-only-from-a-filter-that-exited-with-success')
        e.prove(s, Or(eq(g(s, 'sent'), n), eq(g(s, 'wfail'), 1)), ONE + ':whole-request-sent')
        e.prove(s, eq(g(s, 'eof'), 1), ONE + ':reads-to-end-of-output')
        post_equal_fn(e, s, v, g(s, 'rcv'), lambda k: OUT(Z(k)), ONE)


@R.task('src/filters_ast.c', ALL)
def _(e):
    st = State()
    st.mem['node:doc'] = Block('cell', cells={('empty',): (e.fresh('docempty', 0, 1, st), INT)}, name='doc')
    e.roots.add('node:doc')
    n = e.fresh('count', 0, MAXLEN, st)
    e.uterms.append(n)
    arr, fam = e.string_array(st, 'cmds', n)
    st.mem['opt'] = Block('cell', cells={}, default=('sym', 'opt'), name='opt', ro=True)
    e.roots.add('opt')
    strict = z3.Int('strict')
    st.assume(And(strict >= 0, strict <= 1))
    e.fieldinit[('opt', ('ast_filter_commands',))] = lambda s, nm, ty: [(s, arr)]
    e.fieldinit[('opt', ('ast_filter_count',))] = lambda s, nm, ty: [(s, n)]
    e.fieldinit[('opt', ('ast_filter_strict',))] = lambda s, nm, ty: [(s, strict)]
    for f in ('ast_filter_commands', 'ast_filter_count', 'ast_filter_strict'):
        e.load(st, Ptr('opt', 0, (f,)), Ty('ptr'), None)
    tgt = e.cstring(st, 'target')
    P = Ty('ptr', of=Ty('void'))
    G = 'g:!f'
    st.mem[G] = Block('cell', cells={('cur',): (Ptr('node:doc'), P), ('next',): (0, LONG), ('json',): (NULL, P), ('out',): (NULL, P), ('fail',): (0, INT)}, name=G)
    e.roots.add(G)

    def g(s, f):
        return s.mem[G].cells[(f,)][0]

    def setg(s, **kw):
        b = s.mem[G]
        c = dict(b.cells)
        for k, v in kw.items():
            c[(k,)] = (v, c[(k,)][1])
        s.mem[G] = b.but(cells=c)

    def live(s, p):
        return isinstance(p, Ptr) and p.blk is not None and p.blk in s.mem and not s.mem[p.blk].freed

    def skipped(s, lo, hi):
        """every command between lo and hi is null or empty"""
        if e.mode == 'final':
            j = z3.Int('j!skip')
            s2 = s.copy().assume(And(ge(j, lo), lt(j, hi)))
            e.prove(s2, Or(fam[2](j), eq(fam[1](j), 0)), ALL + ':no-configured-filter-is-skipped')

    def cands(L, h, M, U, blocks, put, s0):
        put('failed only when not strict', lambda s: Or(eq(g(s, 'fail'), 0), eq(strict, 0)))
        for a in M:
            if a.kind == 'int' and a.ty.bits > 8 and a.blk != G:
                def rng_(s, t, a=a):
                    return Implies(And(ge(t, g(s, 'next')), lt(t, a.get(s))), Or(fam[2](Z(t)), eq(fam[1](Z(t)), 0)))
                put('skipped commands are empty:' + a.nice(), lambda s, f=rng_: f(s, e.sk),
                    lambda s, f=rng_: Forall([(fam[1], (), 0), (fam[2], (), 0)], lambda t: f(s, t), 'skipped'))
    e.usercands.append(cands)

    def tojson(e, s, a, node):
        e.oblige(s, live(s, a[0]) and a[0].blk == g(s, 'cur').blk, 'filters-see-the-current-document', node)
        out = []
        for x, p in libc.do_alloc(e, s, e.fresh('jl', 1, MAXLEN, s), node):
            if p.blk is not None:
                e.typed(x, p, CHAR)
                setg(x, json=p)
            else:
                setg(x, fail=1, json=NULL)
                x.ghost.pop('oom', None)
                # the failing step consumes the filter it was prepared for
                setg(x, next=add(idxof(x), 1))
            out.append((x, p))
        return out

    def idxof(s):
        """index of the command being handled = the local loop counter is not visible; take the first non-empty command at or after next"""
        i = e.fresh('cmdidx', 0, None, s)
        nx = g(s, 'next')
        s.assume(And(ge(i, nx), lt(i, n), Not(fam[2](i)), gt(fam[1](i), 0)))
        s.assume(Forall([(fam[1], (), 0), (fam[2], (), 0)], lambda t: Implies(And(ge(t, nx), lt(t, i)), Or(fam[2](Z(t)), eq(fam[1](Z(t)), 0))), 'first'))
        return i

    def run1(e, s, a, node):
        p = a[0]
        ok = isinstance(p, Ptr) and p.blk and p.blk.startswith('cmds[') and same(p.off, 0)
        e.oblige(s, bool(ok), 'runs-a-configured-command', node)
        if not ok:
            return []
        i = norm(s.mem[p.blk].content.extra[0])
        e.oblige(s, And(ge(i, g(s, 'next')), lt(i, n)), 'filters-run-once-in-order', node)
        skipped(s, g(s, 'next'), i)
        e.oblige(s, isinstance(a[2], Ptr) and a[2].blk is not None and a[2].blk == g(s, 'json').blk and live(s, a[2]), 'filter-input-is-the-current-document', node)
        e.oblige(s, caller_passes(e, s, a[1], 'target'), 'filter-gets-the-target-format', node)
        setg(s, next=add(i, 1), json=NULL)
        out = []
        for x, q in libc.do_alloc(e, s, e.fresh('ol', 1, MAXLEN, s), node):
            x.ghost.pop('oom', None)
            if q.blk is not None:
                e.typed(x, q, CHAR)
                setg(x, out=q)
            else:
                setg(x, fail=1, out=NULL)
            out.append((x, q))
        return out

    def fromjson(e, s, a, node):
        e.oblige(s, isinstance(a[0], Ptr) and a[0].blk is not None and a[0].blk == g(s, 'out').blk and live(s, a[0]), 'filter-output-is-what-is-parsed', node)
        setg(s, out=NULL)
        bad = s.copy()
        setg(bad, fail=1)
        bid = e.alloc_id(s, 'node:new')
        em = e.fresh('empty', 0, 1, s)
        s.mem[bid] = Block('cell', cells={('empty',): (em, INT)}, name='new', heap=True)
        cur = g(s, 'cur')
        cem = s.mem[cur.blk].cells[('empty',)][0]
        t, f = e.split(s, And(eq(em, 1), eq(cem, 0)))
        out = [(bad, NULL)]
        if t is not None:
            t.ghost['rej'] = bid
            out.append((t, Ptr(bid)))
        if f is not None:
            setg(f, cur=Ptr(bid))
            out.append((f, Ptr(bid)))
        return out

    def child(e, s, a, node):
        e.oblige(s, live(s, a[0]), 'use-after-free', node)
        return [(s, Opaque('child', eq(s.mem[a[0].blk].cells[('empty',)][0], 1)))]

    def nfree(e, s, a, node):
        p = a[0]
        e.oblige(s, live(s, p), 'double-free', node)
        e.oblige(s, p.blk != 'node:doc', 'the-callers-document-is-not-freed', node)
        e.oblige(s, p.blk != g(s, 'cur').blk, 'the-current-document-is-not-freed', node)
        s.mem[p.blk] = s.mem[p.blk].but(freed=True)
        if s.ghost.get('rej') == p.blk:
            s.ghost.pop('rej')
        return [(s, None)]
    e.contracts.update({'apex_cmark_to_pandoc_json': tojson, ONE: run1, 'apex_pandoc_json_to_cmark': fromjson, 'cmark_node_first_child': child, 'cmark_node_free': nfree})
    for s, v in e.run(st, ALL, [Ptr('node:doc'), Ptr('opt'), tgt]):
        if isinstance(v, Ptr) and v.blk is None:
            e.prove(s, And(eq(strict, 1), eq(g(s, 'fail'), 1)), ALL + ':null-only-in-strict-mode-after-a-failure')
            continue
        e.prove(s, live(s, v) and v.blk == g(s, 'cur').blk, ALL + ':returns-the-result-of-the-last-successful-filter')
        e.prove(s, Or(eq(strict, 0), eq(g(s, 'fail'), 0)), ALL + ':strict-mode-aborts-on-failure')
        skipped(s, g(s, 'next'), n)
        e.cover(s, ALL)


def rcases(rng, size, hb, consts):
    for fn, a in _rc(rng, size, hb, consts):
        seed, t, _, _, rep = a
        yield ONE, [seed, t, rep, rng.choice([0, 0, 0, 1 << 8, 9, 255 << 8, 127 << 8, 1])]


def roracle(fn, a):
    seed, t, rep, status = a
    return [t, rep if status == 0 else None, b'html', b'some command']


def acases(rng, size, hb, consts):
    # script per filter: 0 command null, 1 empty, 2 serialise fails, 3 run fails, 4 parse fails, 5 new empty doc, 6 new non-empty doc
    import itertools
    for strict in (0, 1):
        for dempty in (0, 1):
            yield ALL, [strict, dempty, b'']
            for n in (1, 2, 3, 4):
                for sc in itertools.product(range(7), repeat=n):
                    if n < 4 or rng.random() < .15:
                        yield ALL, [strict, dempty, bytes(sc)]
    for _ in range(1000 * size):
        yield ALL, [rng.randint(0, 1), rng.randint(0, 1), bytes(rng.choice((0, 1, 2, 3, 4, 5, 6, 6, 6, 6)) for _ in range(rng.randint(4, 12)))]


def aoracle(fn, a):
    strict, dempty, sc = a
    cur, emp, log = 0, {0: dempty}, []
    fail = False
    for i, c in enumerate(sc):
        if c < 2:
            continue
        log.append('J%d' % cur)
        if c >= 3:
            log.append('R%d' % i)
        if c >= 4:
            log.append(':%d' % cur)
            log.append('P%d' % i)
        if c in (2, 3, 4):
            if strict:
                fail = True
                break
            continue
        new = i + 1
        emp[new] = c == 5
        if emp[new] and not emp[cur]:
            log.append('F%d' % new)
            continue
        if cur:
            log.append('F%d' % cur)
        cur = new
    return [-1 if fail else cur, ','.join(log).encode()]


R.concrete('filters_run', rcases, roracle, bound='requests and replies up to 40 kB with pseudo-random short writes, short reads, EINTR and exit statuses')
R.concrete('filters_all', acases, aoracle, bound='all outcome scripts of up to 3 filters, random ones up to 12')
