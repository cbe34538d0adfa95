"""Concrete side: compile the real source into a line-protocol driver (ASan/UBSan) and compare with the oracle."""
import os, subprocess, tempfile, hashlib, random, select, time
from .frontend import REPO, FrontEndError

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class DriverError(Exception):
    pass


_built = {}


def build(driver, scratch, extra=()):
    src = os.path.join(HERE, 'drivers', driver + '.c')
    key = (src, scratch)
    if key in _built:
        return _built[key]
    exe = os.path.join(scratch, driver)
    cmd = ['gcc', '-std=gnu99', '-O1', '-g', '-w', '-Werror=implicit-function-declaration', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
           '-no-pie', '-DAPEX_HAVE_LIBYAML=1', '-D_GNU_SOURCE', '-I' + REPO, '-I' + REPO + '/include', '-I' + REPO + '/src',
           '-I' + REPO + '/src/extensions', '-I/usr/include/cmark-gfm', '-I' + os.path.join(HERE, 'drivers'), src] + list(extra) + \
          ['-o', exe, '-Wl,--unresolved-symbols=ignore-all', '-lcmark-gfm-extensions', '-lcmark-gfm', '-lyaml', '-lm']
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise DriverError('driver %s does not build: %s' % (driver, p.stdout.decode(errors='replace')[-1500:]))
    _built[key] = exe
    return exe


def enc(a):
    if a is None:
        return 'NULL'
    if isinstance(a, (bytes, bytearray)):
        return a.hex() or '-'
    return '#%d' % a


def dec(t):
    if t == 'NULL':
        return None
    if t.startswith('#'):
        return int(t[1:])
    return b'' if t == '-' else bytes.fromhex(t)


class Mismatch:
    def __init__(self, fn, args, expected, got, detail=''):
        self.fn, self.args, self.expected, self.got, self.detail = fn, args, expected, got, detail

    def desc(self):
        def s(x):
            r = repr(x)
            return r if len(r) < 400 else r[:400] + '...'
        return '%s(%s): expected %s, got %s %s' % (self.fn, ', '.join(s(a) for a in self.args), s(self.expected), s(self.got), self.detail[-1500:])


def run_cases(exe, cases, oracle, limit_s, maxbad=5, env=None, cwd=None):
    """cases: iterable of (fn, args). oracle(fn,args) -> expected list | callable(result)->str|None | None(skip).
       returns (n_run, mismatches)"""
    bad = []
    n = 0
    t_end = time.time() + limit_s
    it = iter(cases)
    e = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=1', LC_ALL='C', **(env or {}))
    pend = []
    done = False
    while not done and len(bad) < maxbad:
        batch = []
        for c in it:
            batch.append(c)
            if len(batch) >= 4000:
                break
        if len(batch) < 4000:
            done = True
        while batch and len(bad) < maxbad:
            inp = ''.join('%s %s\n' % (f, ' '.join(enc(a) for a in args)) for f, args in batch).encode()
            try:
                p = subprocess.run([exe], input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd, timeout=max(30, limit_s * 2))
                outl = p.stdout.decode().split('\n')
                rc, err = p.returncode, p.stderr.decode(errors='replace')
            except subprocess.TimeoutExpired as x:
                outl = (x.stdout or b'').decode().split('\n')
                rc, err = -99, 'timeout'
            k = 0
            for (f, args), ln in zip(batch, outl[:-1]):
                if ln == '!HANG':
                    break
                k += 1
                n += 1
                got = [dec(t) for t in ln.split()]
                ex = oracle(f, args)
                if ex is None:
                    continue
                if callable(ex):
                    why = ex(got)
                    if why:
                        bad.append(Mismatch(f, args, why, got))
                elif ex != got:
                    bad.append(Mismatch(f, args, ex, got))
                if len(bad) >= maxbad:
                    break
            if k < len(batch) and len(bad) < maxbad:
                f, args = batch[k]
                ex = oracle(f, args)
                why = 'hang (no answer in 10 s)' if '!HANG' in outl else 'crash (exit %s)' % rc
                bad.append(Mismatch(f, args, ex if not callable(ex) else 'no crash', why, err))
                n += 1
                batch = batch[k + 1:]
                if time.time() > t_end:
                    break
                continue
            batch = []
        if time.time() > t_end:
            break
    return n, bad


# ---- input generators
def strings(rng, alpha, count, maxlen=40, exhaustive=2):
    """short strings over an alphabet: exhaustive up to a length, then random"""
    alpha = [a if isinstance(a, bytes) else bytes([a]) for a in alpha]
    yield b''
    level = [b'']
    for _ in range(exhaustive):
        level = [x + a for x in level for a in alpha]
        for x in level:
            yield x
    for _ in range(count):
        n = rng.randint(0, maxlen) if rng.random() < .8 else rng.randint(0, maxlen * 4)
        yield b''.join(rng.choice(alpha) for _ in range(n))
