"""P01: what an external plugin receives is exactly one JSON object carrying the document; what it prints comes back unchanged."""
from vc.api import *
from vc import io
R = Registry()
NAME = 'apex_run_external_plugin_command'


def esc(s, c, rd, t):
    bs = lambda ch: [92, ord(ch)]
    H = lambda v: hexdig(v, True)
    return [(eq(c, 34), bs('"')), (eq(c, 92), bs('\\')), (eq(c, 10), bs('n')), (eq(c, 13), bs('r')), (eq(c, 9), bs('t')),
            (lt(c, 32), [92, ord('u'), 48, 48, H(floordiv(c, 16)), H(mod(c, 16))]), (True, [c])]


ESC = lambda: Transducer('esc', esc)


def escaper(fn):
    def go(e):
        st = State()
        p = e.cstring(st, 'text')
        b = st.mem['text']
        T = ESC().bind(e, b.content.read, b.L, 'text')
        e.hints.append(T)
        for s, v in e.run(st, fn, [p]):
            post_string(e, s, v, T, fn)
    return go


R.task('src/plugins_env.c', 'apex_json_escape')(escaper('apex_json_escape'))


@R.task('src/plugins_env.c', NAME)
def _(e):
    e.terminates = False        # progress is the child's and the kernel's
    st = State()
    cmd, phase, pid, text = (e.cstring(st, x) for x in ('cmd', 'phase', 'plugin_id', 'text'))
    st.assume(ge(st.mem['cmd'].L, 1))
    b = st.mem['text']
    T = ESC().bind(e, b.content.read, b.L, 'text').nonzero(st)
    e.contracts['apex_json_escape'] = string_contract(T, 'apex_json_escape')
    reqlen, req = pieces(lit('{ "version": 1, "plugin_id": "'), blkstr(st, 'plugin_id'), lit('", "phase": "'), blkstr(st, 'phase'),
                         lit('", "text": "'), (T.out, T.pos(T.n)), lit('" }\n'))
    OUT, g = io.setup(e, st, reqlen, req, NAME)

    def execl(e, s, a, node):
        ok = bool(s.ghost.get('child')) and libc.litbytes(e, s, a[0]) == b'/bin/sh' and libc.litbytes(e, s, a[2]) == b'-c' and caller_passes(e, s, a[3], 'cmd')
        e.oblige(s, ok, 'the-configured-command-is-run', node)
        return [(s, -1)]
    e.contracts['execl'] = execl
    for s, v in e.run(st, NAME, [cmd, phase, pid, text, e.fresh('timeout', -(1 << 31), (1 << 31) - 1, st)]):
        e.prove(s, not s.ghost.get('child'), NAME + ':the-child-never-returns')
        if isinstance(v, Ptr) and v.blk is None:
            e.prove(s, bool(s.ghost.get('oom') or s.ghost.get('ioerr')), NAME + ':null-only-on-failure')
            continue
        e.prove(s, Or(eq(g(s, 'sent'), reqlen), eq(g(s, 'wfail'), 1)), NAME + ':whole-request-sent')
        e.prove(s, eq(g(s, 'eof'), 1), NAME + ':reads-to-end-of-output')
        post_equal_fn(e, s, v, g(s, 'rcv'), lambda k: OUT(Z(k)), NAME)


ALPHA = [bytes([x]) for x in (1, 7, 8, 9, 10, 11, 12, 13, 15, 16, 31, 32, 34, 47, 92, 65, 127, 128, 0xc3, 0xa9, 0xff)]


def ecases(fn):
    def cases(rng, size, hb, consts):
        al = ALPHA + [bytes([x]) for x in hb if x]
        for x in range(1, 256):
            yield fn, [bytes([x])]
            yield fn, [b'a' + bytes([x]) + b'b']
        for s in strings(rng, al, 3000 * size):
            yield fn, [s]
        for n in list(consts) + [255, 256, 1000, 4096, 20000]:
            for d in (-1, 0, 1):
                for c in (b'\x01', b'"', b'x'):
                    yield fn, [c * max(0, n + d)]
    return cases


def oracle(fn, args):
    return [ESC().run(args[0])]


def rcases(rng, size, hb, consts):
    """fn seed text id phase reply: the driver feeds short writes/reads drawn from the seed"""
    al = ALPHA
    def one(t, rep, pid=b'id', ph=b'pre_parse'):
        return NAME, [rng.randint(1, 1 << 30), t, pid, ph, rep]
    for n in [0, 1, 2, 3, 5000] + sorted(set(consts) | {4095, 4096, 4097, 8191, 8192, 8193, 12288, 16384, 40000}):
        for d in (-1, 0, 1):
            yield one(b'x', b'y' * max(0, n + d))
            yield one(b'"x' * (max(0, n + d) // 2), b'ok')
    for _ in range(600 * size):
        t = b''.join(rng.choice(al) for _ in range(rng.randint(0, 60)))
        yield one(t, bytes(rng.randint(1, 255) for _ in range(rng.choice([0, 1, 5, 100, 5000]))), rng.choice([b'', b'a', b'my-plugin']), rng.choice([b'pre_parse', b'post_render', b'x']))


def roracle(fn, args):
    _, t, pid, ph, rep = args
    req = b'{ "version": 1, "plugin_id": "' + pid + b'", "phase": "' + ph + b'", "text": "' + ESC().run(t) + b'" }\n'
    return [req, rep, b'some command']


R.concrete('plugins_env', ecases('apex_json_escape'), oracle, bound='all strings up to length 2 over 21 byte classes, random strings up to 160 bytes, lengths around every integer literal')
R.concrete('plugins_run', rcases, roracle, bound='requests and replies up to 40 kB with pseudo-random short writes, short reads and EINTR')
