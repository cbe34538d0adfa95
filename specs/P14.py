"""P14: page breaks, pauses, end-of-block and index markers."""
from vc.api import *
from vc.inline import Run, Back, rewriter, cat
R = Registry()
F = 'src/extensions/special_markers.c'
FN = 'apex_process_special_markers'
BREAK = ('\n\n<div class="mkpagebreak manualbreak" title="Page break created by marker" data-description="PAGE (Marker)" '
         'style="page-break-after:always"><span style="display:none">&nbsp;</span></div>\n\n')
EOB = '\n\n\u200b\n\n'
ASSUME = ['atoi is a function of the text it is given, with values in the range of int']


@R.task(F, FN, budget=500)
def _(e):
    st = State()
    e.alloc_may_fail = False
    e.growmerge = True
    p = e.cstring(st, 'text')
    b = st.mem['text']
    L, rd = b.L, b.content.read
    I = z3.IntSort()
    blank = lambda t: inset(rd(t), b' \t')
    NB = Run(e, 'nonblank', lambda t: Not(blank(t)), 'text', st)
    DG = Run(e, 'digits', lambda t: Not(is_digit(rd(t))), 'text', st)
    BK = Back(e, 'before', lambda t: Not(blank(t)), 'text', st)
    NUM = z3.Function('number', I, I)
    e.schemas['number'] = [lambda a: [a >= -(1 << 31), a < 1 << 31]]
    RANGED_DECLS['number'] = (-(1 << 31), (1 << 31) - 1)
    at = lambda v, s: And(*[eq(rd(add(v, j)), c) for j, c in enumerate(s.encode())])

    def atoi(e, s, a, node):
        q = e.as_ptr(s, a[0])
        e.oblige(s, And(q.blk == 'text', ge(q.off, 0), le(q.off, L)), 'number-in-bounds', node)
        return [(s, NUM(Z(norm(q.off))))]
    e.contracts['atoi'] = atoi

    atstart = lambda v: Or(eq(v, 0), eq(BK(v), -1), eq(rd(BK(v)), 10))

    def spans(v):
        a = NB(add(v, 1))
        start = atstart(v)
        stop = Or(eq(a, L), eq(rd(a), 10))
        d = DG(add(v, 10))
        c, off, n = e.dec_piece(st, NUM(Z(norm(add(v, 10)))))
        return [(And(eq(rd(v), 94), start, stop), cat(EOB), ite(eq(rd(a), 10), add(a, 1), a)),
                (at(v, '<!--BREAK-->'), cat(BREAK), add(v, 12)),
                (And(at(v, '<!--PAUSE:'), at(d, '-->')), cat('<div class="autoscroll-pause" data-pause="', (n, c.read), '"></div>'), add(d, 3)),
                (at(v, '{::pagebreak /}'), cat(BREAK), add(v, 15)),
                (at(v, '{index}'), cat('<!--INDEX-->'), add(v, 7))]

    def extra(v):
        return [], [NB.none_before(add(v, 1)), DG.none_before(add(v, 10)), BK.none_after(v)]
    T = rewriter('marked', e, st, 'text', spans, None, extra)

    def c(L_, h, M, U, blocks, put, s0):
        for i in M:
            if i.kind == 'off' and i.tgt == 'text':
                for w in M:
                    if w.kind == 'int' and w.ty.bits > 8:
                        put('%s leaves room for the rest after %s' % (w.nice(), i.nice()), lambda s, i=i, w=w: ge(w.get(s), add(mul(7, sub(L, i.get(s))), 1)))

    def flags(L_, h, M, U, blocks, put, s0):
        for w in M:
            if w.kind == 'int':
                for i in M + U:
                    if i.kind in ('off', 'const') and i.tgt == 'text':
                        put('%s: %s starts a line' % (w.nice(), i.nice()), lambda s, i=i, w=w: eq(asint(w.get(s)), ite(atstart(i.get(s)), 1, 0)))
    e.usercands += [c, flags]
    for s, v in e.run(st, FN, [p]):
        T.post(s, v, FN)


@R.task(F, FN)
def _(e):
    for s, v in e.run(State(), FN, [NULL]):
        e.prove(s, e.ptr_null(v), FN + ':no-text')
        e.cover(s, FN)


# ---------------------------------------------------------------- concrete side
import re
RX = re.compile(rb'<!--BREAK-->|<!--PAUSE:([0-9]*)-->|\{::pagebreak /\}|\{index\}')


def ref(t):
    if t is None:
        return None
    out, i = b'', 0
    while i < len(t):
        if t[i:i + 1] == b'^':
            m = re.compile(rb'\^[ \t]*(\n|\Z)').match(t, i)
            if m and re.search(rb'(\A|\n)[ \t]*\Z', t[:i]):
                out += EOB.encode()
                i = m.end()
                continue
        m = RX.match(t, i)
        if m:
            if m.group(1) is not None:
                n = int(m.group(1) or b'0')
                if n > 0x7fffffff:
                    return False
                out += b'<div class="autoscroll-pause" data-pause="%d"></div>' % n
            else:
                out += b'<!--INDEX-->' if m.group(0) == b'{index}' else BREAK.encode()
            i = m.end()
            continue
        out += t[i:i + 1]
        i += 1
    return out


def oracle(fn, a):
    r = ref(a[0])
    return None if r is False else [r]


def cases(rng, size, hb, consts):
    yield FN, [None]
    frag = [b'^', b' ', b'\t', b'\n', b'<!--', b'-->', b'<!--BREAK-->', b'<!--PAUSE:', b'<!--PAUSE:5-->', b'<!--PAUSE:-->', b'<!--PAUSE:2147483647-->', b'<!--PAUSE:007-->', b'<!--PAUSE:x-->', b'{::pagebreak /}', b'{::pagebreak', b'{index}', b'{index', b'}',
            b'text', b'word ' * 10, b'x' * 200, b'\n^\n', b'\n  ^ \n', b'12', b'<!--BREAK--', b'<!--break-->', b'\xc3\xa9']
    for t in [b''] + frag:
        yield FN, [t]
        yield FN, [t + b' tail']
    for _ in range(3000 * size):
        yield FN, [b''.join(rng.choice(frag) for _ in range(rng.randint(0, 10)))]


R.concrete('markers', cases, oracle, bound='texts of up to 10 fragments: markers complete, truncated, indented, at either end')
