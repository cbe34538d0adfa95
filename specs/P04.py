"""P04: the AST JSON reader decodes exactly the text that was encoded and never reads outside its input."""
from vc.api import *
from specs.P01 import ESC
from specs import P03
import json as _json
R = Registry()
F = 'src/ast_json.c'
P = Ty('ptr', of=Ty('char'))
ASSUME = ['the block/inline object parsers (parse_inlines_array, parse_block_object, parse_blocks_array, apex_pandoc_json_to_cmark) are covered by the bounded round trip only, not proved']


def cursor(e, st, blk, off):
    st.mem['cur'] = Block('cell', cells={('s',): (Ptr(blk, off), P)}, name='cur')
    e.roots |= {'cur', blk}
    return Ptr('cur')


def pos(s):
    return s.mem['cur'].cells[('s',)][0]


def anystring(e, st):
    e.cstring(st, 'json')
    o = e.fresh('at', 0, None, st)
    st.assume(le(o, st.mem['json'].L))
    e.uterms.append(o)
    return o


def inside(e, s, name, o, strict=False):
    p = pos(s)
    e.prove(s, p.blk == 'json' and not s.mem['json'].freed, name + ':cursor-stays-on-the-input')
    e.prove(s, And((gt if strict else ge)(p.off, o), le(p.off, s.mem['json'].L)), name + ':cursor-moves-forward-and-stays-inside-the-input')


@R.task(F, 'json_parse_string')
def roundtrip(e):
    """'"' ESC(text) '"' decodes to text"""
    nm = 'json_parse_string'
    st = State()
    e.cstring(st, 'text')
    t = st.mem['text']
    T = ESC().bind(e, t.content.read, t.L, 'text').nonzero(st)
    N = T.pos(T.n)
    tail = e.bytefn('tail')
    size = e.fresh('size', 0, None, st)
    st.assume(And(ge(size, add(N, 3)), le(size, 8 * MAXLEN)))
    st.mem['json'] = Block('arr', size=size, ety=CHAR, name='json', ro=True,
                           content=Base(lambda k: ite(eq(k, 0), 34, ite(le(k, N), T.out(sub(k, 1)), ite(eq(k, add(N, 1)), 34, ite(eq(k, sub(size, 1)), 0, tail(Z(k)))))), None))
    cur = cursor(e, st, 'json', 0)

    def cands(L, h, M, U, blocks, put, s0):
        offs = [a for a in M if a.kind == 'off' and a.tgt == 'json']
        for a in M:
            if a.kind == 'int' and a.ty.bits > 8:
                for o in offs:
                    put('%s has decoded %s' % (o.nice(), a.nice()), lambda s, a=a, o=o: And(eq(o.get(s), add(1, T.pos(a.get(s)))), ge(a.get(s), 0), le(a.get(s), T.n)))
                for b in blocks:
                    if h.rep.mem[b].heap:
                        L.put_forall(put, 'decoded %s %s' % (b, a.nice()), b, lambda s, a=a: (0, a.get(s)), lambda s, k: t.content.read(k))
    e.usercands.append(cands)
    for s, v in e.run(st, nm, [cur]):
        if isinstance(v, Ptr) and v.blk is None:
            e.prove(s, bool(s.ghost.get('oom')), nm + ':an-encoded-string-always-decodes')
            continue
        post_equal_fn(e, s, v, T.n, lambda k: t.content.read(k), nm + ':decoded')
        e.prove(s, eq(pos(s).off, add(N, 2)), nm + ':cursor-after-the-closing-quote')


@R.task(F, 'json_parse_string')
def _(e):
    nm = 'json_parse_string'
    st = State()
    o = anystring(e, st)
    for s, v in e.run(st, nm, [cursor(e, st, 'json', o)]):
        ok = not (isinstance(v, Ptr) and v.blk is None)
        inside(e, s, nm, o, ok)
        if ok:
            e.prove(s, not s.mem[v.blk].freed and same(v.off, 0), nm + ':result-is-live')
        e.cover(s, nm)


def string_c(e, s, a, node):
    """contract of json_parse_string on arbitrary input"""
    p = pos(s)
    e.oblige(s, And(ge(p.off, 0), le(p.off, s.mem['json'].L)), 'cursor-inside-the-input', node)
    bad = s.copy()
    out = []
    for x, q in libc.do_alloc(e, s, e.fresh('sl', 1, MAXLEN, s), node):
        if q.blk is not None:
            e.typed(x, q, CHAR)
            move(e, x, 1)
            out.append((x, q))
    move(e, bad, 0)
    out.append((bad, NULL))
    return out


def move(e, s, least):
    p = pos(s)
    o = e.fresh('cur', 0, None, s)
    s.assume(And(ge(o, add(p.off, least)), le(o, s.mem['json'].L)))
    s.mem['cur'] = s.mem['cur'].but(cells={('s',): (Ptr('json', o), P)})


@R.task(F, 'json_skip_value')
def _(e):
    nm = 'json_skip_value'
    st = State()
    o = anystring(e, st)
    cur = cursor(e, st, 'json', o)
    e.contracts['json_parse_string'] = string_c
    fd = e.tu.funcs.get(nm)
    if fd is None:
        raise Missing('function %s not found in %s' % (nm, e.tu.path))

    def rec(e, s, a, node):
        p = pos(s)
        e.oblige(s, And(ge(p.off, 0), le(p.off, s.mem['json'].L)), 'cursor-inside-the-input', node)
        bad = s.copy()
        move(e, s, 0)
        move(e, bad, 0)
        return [(s, 1), (bad, 0)]
    e.contracts[nm] = rec
    e.statics = {}
    for s, v in e.inline(st, fd, [cur], {'id': 'top00'}):
        inside(e, s, nm, o)
        e.cover(s, nm)


@R.task(F, 'json_match_char')
def _(e):
    nm = 'json_match_char'
    st = State()
    o = anystring(e, st)
    b = st.mem['json'].content.read
    ch = e.fresh('ch', 1, 127, st)
    scans(e, is_space)
    for s, v in e.run(st, nm, [cursor(e, st, 'json', o), ch]):
        p = pos(s)
        t, f = e.split(s, e.truth(v))
        k = z3.Int('k!post')
        if t is not None:
            q = sub(pos(t).off, 1)
            e.prove(t, And(ge(q, o), le(add(q, 1), t.mem['json'].L), eq(b(q), ch)), nm + ':consumes-the-character')
            e.prove(t.copy().assume(And(ge(k, o), lt(k, q))), is_space(b(k)), nm + ':skips-only-white-space')
            e.cover(t, nm)
        if f is not None:
            q = pos(f).off
            e.prove(f, And(ge(q, o), le(q, f.mem['json'].L), Not(eq(b(q), ch)), Not(is_space(b(q)))), nm + ':stops-at-the-first-other-character')
            e.prove(f.copy().assume(And(ge(k, o), lt(k, q))), is_space(b(k)), nm + ':skips-only-white-space')


@R.task(F, 'json_parse_int')
def _(e):
    nm = 'json_parse_int'
    st = State()
    o = anystring(e, st)
    scans(e, is_digit)
    for s, v in e.run(st, nm, [cursor(e, st, 'json', o)]):
        inside(e, s, nm, o)
        e.prove(s, Not(is_digit(s.mem['json'].content.read(pos(s).off))), nm + ':consumes-every-digit')
        e.cover(s, nm)


# ---- bounded side
TREES = {}


def chop(n):
    """what a round trip keeps: all but the one final newline of a code block"""
    ty, at, ks = n
    if ty == 'C' and at[0].endswith(b'\n'):
        at = (at[0][:-1],) + at[1:]
    if ty == 'O' and at[0] == 0:
        at = (1,)
    return (ty, at, tuple(map(chop, ks)))


def doc(d, rng):
    blocks = [P03.want_block(k) for k in d[2]]

    def divs(bs):
        # a Div is transparent: any run of blocks may be wrapped
        if rng.random() < .2:
            i = rng.randint(0, len(bs))
            j = rng.randint(i, len(bs))
            return bs[:i] + [{'t': 'Div', 'c': [['', ['x'], [['k', 'v']]], divs(bs[i:j])]}] + bs[j:]
        return bs
    blocks = divs(blocks)

    def style(x):
        if isinstance(x, dict):
            ks = list(x)
            if rng.random() < .3:
                ks.reverse()
            return {k: style(x[k]) for k in ks}
        return [style(y) for y in x] if isinstance(x, list) else x
    top = rng.choice([{'pandoc-api-version': [1, 23, 1], 'meta': {}, 'blocks': blocks}, {'blocks': blocks, 'meta': {'a': {'t': 'MetaString', 'c': 'x}]"'}}}, {'blocks': blocks},
                      {'meta': {'n': [1, -2, 3.5e3, True, None, [], {}]}, 'blocks': blocks}])
    sep = rng.choice([(',', ':'), (', ', ': '), (' ,\n', '\t:\r\n ')])
    return _json.dumps(style(top), ensure_ascii=rng.random() < .5, separators=sep, indent=rng.choice([None, None, 2])).encode('utf-8')


def cases(rng, size, hb, consts):
    TREES.clear()

    def rd(d):
        j = doc(d, rng)
        TREES[j] = P03.ser(chop(d))
        return 'read', [j]

    def rt(d):
        b = P03.ser(d)
        TREES[b] = P03.ser(chop(d))
        return 'round', [b]
    T = P03.T
    for x in list(range(1, 0x80)) + [0x80, 0xff, 0x100, 0x7ff, 0x800, 0xfff, 0x1000, 0x20ac, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0x40000, 0x100000]:
        t = chr(x).encode('utf-8')
        for d in (T('D', kids=[T('P', kids=[T('t', t)])]), T('D', kids=[T('P', kids=[T('t', b'ab' + t + b'cd')])]), T('D', kids=[T('C', t, b'x')])):
            yield rt(d)
            yield rd(d)
    for n in sorted(set(consts) | {60, 64, 128, 256, 1024, 4096, 20000}):
        for dl in range(-6, 3):
            if 0 <= n + dl < 60000:
                for t in (b'x' * (n + dl), b'"' * (n + dl), b'x' * max(0, n + dl - 4) + '\U0001f600'.encode()):
                    d = T('D', kids=[T('P', kids=[T('t', t)])])
                    yield rt(d)
                    yield rd(d)
    for _ in range(1500 * size):
        d = P03.strip_links(T('D', kids=P03.rblocks(rng, 2)))
        yield rt(d)
        yield rd(d)
    good = [doc(P03.strip_links(T('D', kids=P03.rblocks(rng, 2, links=True))), rng) for _ in range(60)]
    al = [b'{', b'}', b'[', b']', b'"', b',', b':', b'\\', b'u', b'0', b' ', b'-', b'1', b'\\ud83d', b'\\u00', b'Str', b'"t"', b'"c"']
    for _ in range(1500 * size):
        j = bytearray(rng.choice(good))
        for _ in range(rng.randint(1, 3)):
            k = rng.random()
            i = rng.randint(0, len(j))
            if k < .4:
                del j[i:]
            elif k < .7:
                del j[i:i + rng.randint(1, 6)]
            else:
                j[i:i] = rng.choice(al)
        j = bytes(j)
        if j not in TREES and 0 not in j:
            yield 'read', [j]


def oracle(fn, a):
    w = TREES.get(a[0])
    return [w] if w is not None else (lambda got: None)


R.concrete('astjson', cases, oracle, bound='random trees of depth up to 4 texts up to 20 kB, documents re-serialised by Python in several styles; damaged documents for crashes only')
