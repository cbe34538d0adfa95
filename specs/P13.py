"""P13: ==highlight== and ++insert++."""
from vc.api import *
from vc.inline import Run, rewriter, cat
R = Registry()
HF, IF = 'src/extensions/highlight.c', 'src/extensions/insert.c'
HL, INS = 'apex_process_highlights', 'apex_process_inserts'
ASSUME = ['in apex_process_inserts, what parse_ial_content and attributes_to_html make of an attribute list is an arbitrary function of its text']


class Ctx:
    pass


def code_states(rd, L):
    """backtick tracking: (fence, inline)"""
    tick3 = lambda v: And(eq(rd(v), 96), eq(rd(add(v, 1)), 96), eq(rd(add(v, 2)), 96))
    tick = lambda v: eq(rd(v), 96)
    fence = lambda v, S: ite(tick3(v), eq(S['fence'](v), 0), ne(S['fence'](v), 0))
    inl = lambda v, S: ite(And(tick(v), Not(tick3(v)), eq(S['fence'](v), 0)), eq(S['inline'](v), 0), ne(S['inline'](v), 0))
    return fence, inl


def spanrule(ch, rd, L):
    """(opens(v), stop(t)) for a span delimited by two bytes ch"""
    hl = ch == 61
    prev = lambda v, cs: And(gt(v, 0), inset(rd(sub(v, 1)), cs))
    opens = lambda v: And(eq(rd(v), ch), eq(rd(add(v, 1)), ch), Not(inset(rd(add(v, 2)), b'\0\n\r \t}+' + bytes([ch]))), Not(prev(v, b'{+' + bytes([ch]))))
    closes = lambda t: And(eq(rd(t), ch), eq(rd(add(t, 1)), ch), Not(inset(rd(add(t, 2)), b'=+' if hl else b'+')), Not(inset(rd(sub(t, 1)), b' \t+')))
    stop = lambda t: Or(inset(rd(t), b'\n\r'), closes(t))
    return opens, closes, stop


def base(e):
    st = State()
    e.alloc_may_fail = False
    p = e.cstring(st, 'text')
    b = st.mem['text']
    return st, p, b.L, b.content.read


@R.task(HF, HL, budget=400)
def _(e):
    st, p, L, rd = base(e)
    fence, inl = code_states(rd, L)
    opens, closes, stop = spanrule(61, rd, L)
    C = Run(e, 'close', stop, 'text', st)
    SP = Run(e, 'spaces', lambda t: ne(rd(t), 32), 'text', st)
    DG = Run(e, 'digits', lambda t: Not(is_digit(rd(t))), 'text', st)
    ws = lambda t: inset(rd(t), b' \t')
    lst = lambda t: ite(inset(rd(t), b'-*+'), ws(add(t, 1)), And(is_digit(rd(t)), eq(rd(DG(t)), 46), ws(add(DG(t), 1))))
    four = lambda v: And(*[eq(rd(add(v, k)), 32) for k in range(4)])
    licb = lambda v: ite(eq(rd(v), 9), Not(lst(add(v, 1))), And(four(v), Not(lst(SP(add(v, 4))))))
    ind = lambda v, S: ite(Or(eq(v, 0), eq(rd(sub(v, 1)), 10)), licb(v), ne(S['indent'](v), 0))

    def spans(v, S):
        c = C(add(v, 2))
        ok = And(Not(fence(v, S)), Not(inl(v, S)), Not(ind(v, S)), opens(v), lt(c, L), closes(c))
        return [(ok, cat('<mark>', (sub(sub(c, v), 2), lambda k: rd(add(add(v, 2), k))), '</mark>'), add(c, 2))]

    def extra(v):
        s4, t1 = add(v, 4), add(v, 1)
        return [], [C.none_before(add(v, 2)), SP.none_before(s4), DG.none_before(t1), DG.none_before(SP(s4))]
    T = rewriter('marked', e, st, 'text', spans, 3, extra, states=[('fence', 0, fence), ('inline', 0, inl), ('indent', 0, ind)])
    for s, v in e.run(st, HL, [p]):
        T.post(s, v, HL)


@R.task(IF, INS, budget=400)
def _(e):
    st, p, L, rd = base(e)
    I = z3.IntSort()
    fence, inl = code_states(rd, L)
    opens, closes, stop = spanrule(43, rd, L)
    C = Run(e, 'close', stop, 'text', st)
    WS = Run(e, 'blanks', lambda t: Not(inset(rd(t), b' \t')), 'text', st)
    BR = Run(e, 'brace', lambda t: eq(rd(t), 125), 'text', st, False)
    fam = e.family('str')
    ATT, HTML = z3.Function('attrs', I, I, I), z3.Function('attrhtml', I, I)
    for f in ('attrs', 'attrhtml'):
        e.schemas[f] = [lambda a: [a >= 0]]
        RANGED_DECLS[f] = (0, None)

    def spans(v, S):
        c = C(add(v, 2))
        ok = And(Not(fence(v, S)), Not(inl(v, S)), opens(v), lt(c, L), closes(c))
        text = (sub(sub(c, v), 2), lambda k: rd(add(add(v, 2), k)))
        w = WS(add(c, 2))
        z = BR(add(w, 1))
        at = ATT(Z(norm(add(w, 1))), Z(norm(sub(sub(z, w), 1))))
        h = HTML(at)
        ial = And(ok, eq(rd(w), 123), lt(z, L), ne(at, 0), ne(h, 0))
        return [(ial, cat('<ins markdown="span"', (ite(gt(fam[1](h), 0), 1, 0), lambda k: 32), (fam[1](h), lambda k: fam[0](h, Z(norm(k)))), '>', text, '</ins>'), add(z, 1)),
                (ok, cat('<ins>', text, '</ins>'), add(c, 2))]

    def extra(v):
        w = WS(add(C(add(v, 2)), 2))
        return [], [C.none_before(add(v, 2)), WS.none_before(add(C(add(v, 2)), 2)), BR.none_before(add(w, 1))]
    T = rewriter('inserted', e, st, 'text', spans, None, extra, states=[('fence', 0, fence), ('inline', 0, inl)])

    def parse(e, s, a, node):
        q = e.as_ptr(s, a[0])
        e.oblige(s, q.blk == 'text', 'attributes-come-from-the-text', node)
        n = asint(a[1])
        e.oblige(s, And(ge(q.off, 0), ge(n, 0), le(add(q.off, n), L)), 'attributes-in-bounds', node)
        return [(s, ATT(Z(norm(q.off)), Z(norm(n))))]

    def html(e, s, a, node):
        e.oblige(s, ne(a[0], 0), 'null-attributes', node)
        h = HTML(Z(a[0]))
        t, f = e.split(s, ne(h, 0))
        out = [(f, NULL)] if f is not None else []
        if t is not None:
            n = fam[1](h)
            for s2, q in libc.do_alloc(e, t, add(n, 1), node):
                s2.mem[q.blk] = s2.mem[q.blk].but(kind='arr', ety=CHAR, L=n, content=Base(lambda k: fam[0](h, Z(norm(k))), fam[0], (h,)))
                out.append((s2, q))
        return out
    e.contracts.update(parse_ial_content=parse, attributes_to_html=html, apex_free_attributes=lambda e, s, a, node: [(s, None)])
    e.growmerge = True

    def c(L_, h, M, U, blocks, put, s0):
        for i in M:
            if i.kind == 'off' and i.tgt == 'text':
                for w in M:
                    if w.kind == 'int' and w.ty.bits > 8:
                        put('%s leaves room for the rest after %s' % (w.nice(), i.nice()), lambda s, i=i, w=w: ge(w.get(s), add(mul(3, sub(L, i.get(s))), 1)))
    e.usercands.append(c)
    for s, v in e.run(st, INS, [p]):
        T.post(s, v, INS)


@R.task(HF, HL)
def _(e):
    for s, v in e.run(State(), HL, [NULL]):
        e.prove(s, e.ptr_null(v), HL + ':no-text')
        e.cover(s, HL)


@R.task(IF, INS)
def _(e):
    for s, v in e.run(State(), INS, [NULL]):
        e.prove(s, e.ptr_null(v), INS + ':no-text')
        e.cover(s, INS)


# ---------------------------------------------------------------- concrete side
import re
ATTR = [b'.a', b'#i .b', b': .cls', b'', b'k="v"', b'.' + b'q' * 300, b'!', b'!x', b'?', b'\n']


def listmark(t):
    return re.match(rb'[-*+][ \t]|[0-9]+\.[ \t]', t) is not None


def ref(t, hl):
    if t is None:
        return None
    ch = b'=' if hl else b'+'
    two = ch * 2
    out, i, fence, inl, ind = b'', 0, False, False, False
    at = lambda k: t[k:k + 1]
    while i < len(t):
        if hl and (i == 0 or at(i - 1) == b'\n'):
            r = t[i:]
            ind = not listmark(r[1:]) if r[:1] == b'\t' else r[:4] == b'    ' and not listmark(r.lstrip(b' '))
        if at(i) == b'`':
            if t[i:i + 3] == b'```':
                fence = not fence
            elif not fence:
                inl = not inl
        n = at(i + 2)
        if not fence and not inl and not ind and t[i:i + 2] == two and n not in (b'', b'\n', b'\r', b' ', b'\t', b'}', b'+', ch) and (i == 0 or at(i - 1) not in (b'{', b'+', ch)):
            c = i + 2
            while c < len(t) and at(c) not in (b'\n', b'\r'):
                if t[c:c + 2] == two and at(c + 2) not in ((b'=', b'+') if hl else (b'+',)) and at(c - 1) not in (b' ', b'\t', b'+'):
                    break
                c += 1
            if t[c:c + 2] == two:
                x = t[i + 2:c]
                i = c + 2
                if hl:
                    out += b'<mark>' + x + b'</mark>'
                    continue
                m = re.compile(rb'[ \t]*\{([^}]*)\}').match(t, i)
                if m and m.group(1)[:1] not in (b'!', b'?'):
                    a = m.group(1) and b'data="%s %s"' % (m.group(1), m.group(1))
                    out += b'<ins markdown="span"' + (b' ' + a if a else b'') + b'>' + x + b'</ins>'
                    i = m.end()
                else:
                    out += b'<ins>' + x + b'</ins>'
                continue
        out += at(i)
        i += 1
    return out


def oracle(fn, a):
    return [ref(a[0], fn == HL)]


def cases(fn):
    def f(rng, size, hb, consts):
        yield fn, [None]
        c = b'=' if fn == HL else b'+'
        frag = [c * 2, c, c * 3, b'`', b'```', b'{', b'}', b'a', b' ', b'\n', b'    ', b'\t', b'- ', b'12. ', b'\r', b'\xc3\xa9', b'word ', b'+', b'=', b'\n    ', b'\n\t', b'x' * 40]
        good = [c * 2 + x + c * 2 for x in (b'a', b'two words', b'=', b'', b' a', b'a ', b'`')]
        if fn == INS:
            good += [c * 2 + b'a' + c * 2 + sp + b'{' + k + b'}' for k in ATTR for sp in (b'', b' ')]
        for t in [b''] + good + frag:
            yield fn, [t]
        for _ in range(2500 * size):
            yield fn, [b''.join(rng.choice(good if rng.random() < .4 else frag) for _ in range(rng.randint(0, 10)))]
    return f


R.concrete('highlights', cases(HL), oracle, share=.5, bound='texts of up to 10 fragments of marks, code, list markers and indentation')
R.concrete('inserts', cases(INS), oracle, share=.5, bound='texts of up to 10 fragments of inserts, code and 10 attribute lists')
