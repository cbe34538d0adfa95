"""P12: Critic Markup."""
from vc.api import *
from vc.inline import First, rewriter, cat
R = Registry()
F = 'src/extensions/critic.c'
FN = 'apex_process_critic_markup_text'
KINDS = {'add': (b'{++', b'++}'), 'del': (b'{--', b'--}'), 'sub': (b'{~~', b'~~}'), 'hi': (b'{==', b'==}'), 'com': (b'{>>', b'<<}')}
ACCEPT, REJECT, MARKUP = 0, 1, 2
ASSUME = []


def task(mode):
    def run(e):
        nm = '%s(%s)' % (FN, ('accept', 'reject', 'markup')[mode])
        st = State()
        e.alloc_may_fail = False
        p = e.cstring(st, 'text')
        b = st.mem['text']
        L, rd = b.L, b.content.read
        CL = {k: First(e, 'close_' + k, m[1], 'text', L, st) for k, m in KINDS.items()}
        SEP = First(e, 'separator', b'~>', 'text', L, st)

        def spans(v):
            out = []
            c3 = add(v, 3)
            for k, (o, _) in KINDS.items():
                cl = CL[k](c3)
                cond = And(*[eq(rd(add(v, j)), x) for j, x in enumerate(o)] + [ge(sub(L, v), 6), ne(cl, -1)])
                text = (sub(cl, c3), lambda j, c3=c3: rd(add(c3, j)))
                nx = add(cl, 3)
                if k != 'sub':
                    show = {ACCEPT: k in ('add', 'hi'), REJECT: k in ('del', 'hi')}
                    if mode == MARKUP:
                        a, z = {'add': ('<ins class="critic">', '</ins>'), 'del': ('<del class="critic">', '</del>'), 'hi': ('<mark class="critic">', '</mark>'), 'com': ('<span class="critic comment">', '</span>')}[k]
                        ps = cat(a, text, z)
                    else:
                        ps = [text] if show[mode] else []
                    out.append((cond, ps, nx))
                    continue
                sp = SEP(c3)
                two = And(ne(sp, -1), lt(sp, cl))
                old = (sub(sp, c3), lambda j, c3=c3: rd(add(c3, j)))
                new = (sub(sub(cl, sp), 2), lambda j, sp=sp: rd(add(add(sp, 2), j)))
                if mode == ACCEPT:
                    out += [(And(cond, two), [new], nx), (cond, [text], nx)]
                elif mode == REJECT:
                    out += [(And(cond, two), [old], nx), (cond, [], nx)]
                else:
                    out += [(And(cond, two, gt(sp, c3)), cat('<del class="critic break">', old, '</del><ins class="critic break">', new, '</ins>'), nx),
                            (And(cond, two), cat('<ins class="critic">', new, '</ins>'), nx), (cond, cat('<ins class="critic">', text, '</ins>'), nx)]
            return out

        def extra(v):
            c3 = add(v, 3)
            return [], [f.none_before(c3) for f in list(CL.values()) + [SEP]]
        T = rewriter('critic', e, st, 'text', spans, 8, extra)
        for s, v in e.run(st, FN, [p, mode]):
            T.post(s, v, nm)
    return run


for m in (ACCEPT, REJECT, MARKUP):
    R.task(F, FN, budget=300)(task(m))


@R.task(F, FN)
def _(e):
    for s, v in e.run(State(), FN, [NULL, e.fresh('mode')]):
        e.prove(s, e.ptr_null(v), FN + ':no-text')
        e.cover(s, FN)


# ---------------------------------------------------------------- concrete side
def ref(t, mode):
    if t is None:
        return None
    out, i = b'', 0
    while i < len(t):
        for k, (o, c) in KINDS.items():
            if t.startswith(o, i):
                j = t.find(c, i + 3)
                if j >= 0:
                    x = t[i + 3:j]
                    old = new = None
                    if k == 'sub':
                        old, s, new = x.partition(b'~>')
                        if not s:
                            old, new = None, x
                        if mode == ACCEPT:
                            r = new
                        elif mode == REJECT:
                            r = old or b''
                        elif old:
                            r = b'<del class="critic break">%s</del><ins class="critic break">%s</ins>' % (old, new)
                        else:
                            r = b'<ins class="critic">%s</ins>' % new
                    elif mode == MARKUP:
                        r = {'add': b'<ins class="critic">%s</ins>', 'del': b'<del class="critic">%s</del>', 'hi': b'<mark class="critic">%s</mark>', 'com': b'<span class="critic comment">%s</span>'}[k] % x
                    else:
                        r = x if k in (('add', 'hi'), ('del', 'hi'))[mode] else b''
                    out += r
                    i = j + 3
                    break
        else:
            out += t[i:i + 1]
            i += 1
    return out


def oracle(fn, a):
    return [ref(a[0], a[1])]


def cases(rng, size, hb, consts):
    yield FN, [None, 2]
    frag = [b'{++', b'++}', b'{--', b'--}', b'{~~', b'~~}', b'{==', b'==}', b'{>>', b'<<}', b'~>', b'{', b'}', b'text', b' ', b'\n', b'\xc3\xa9', b'x' * 50, b'%s', b'<b>', b'-', b'=', b'~', b'+', b'>']
    good = [b'{++a++}', b'{--b--}', b'{~~a~>b~~}', b'{~~a~>~~}', b'{~~~>b~~}', b'{~~x~~}', b'{==h==}', b'{>>c<<}', b'{>><<}', b'{====}', b'{++++}', b'{----}']
    for t in [b''] + good + frag:
        for m in range(3):
            yield FN, [t, m]
    for _ in range(3000 * size):
        yield FN, [b''.join(rng.choice(good if rng.random() < .4 else frag) for _ in range(rng.randint(0, 10))), rng.randint(0, 2)]


R.concrete('critic', cases, oracle, bound='texts of up to 10 fragments of Critic Markup, complete, empty, nested and unclosed, in the three modes')
