"""P05: an embedded image is exactly the file: base64 of its bytes, its media type by extension, the rest of the page untouched."""
from vc.api import *
import base64 as _b64
R = Registry()
F = 'src/apex.c'
TAB = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
ASSUME = ['stdio file reading (fopen/fseek/ftell/fread/fclose) is a ghost contract: any failure, any short read, any content']


def b64len(n):
    return mul(4, floordiv(add(n, 2), 3))


def b64chr(v):
    return ite(lt(v, 26), add(v, 65), ite(lt(v, 52), add(v, 71), ite(lt(v, 62), sub(v, 4), ite(eq(v, 62), 43, 47))))


def b64at(rd, n):
    """character k of the encoding of rd(0..n)"""
    def f(k):
        g, j = mul(3, floordiv(k, 4)), mod(k, 4)
        b1 = rd(g)
        b2 = ite(lt(add(g, 1), n), rd(add(g, 1)), 0)
        b3 = ite(lt(add(g, 2), n), rd(add(g, 2)), 0)
        c0 = floordiv(b1, 4)
        c1 = add(mul(16, mod(b1, 4)), floordiv(b2, 16))
        c2 = add(mul(4, mod(b2, 16)), floordiv(b3, 64))
        c3 = mod(b3, 64)
        return ite(eq(j, 0), b64chr(c0), ite(eq(j, 1), b64chr(c1), ite(eq(j, 2), ite(lt(add(g, 1), n), b64chr(c2), 61), ite(lt(add(g, 2), n), b64chr(c3), 61))))
    return f


@R.task(F, 'apex_base64_encode')
def _(e):
    nm = 'apex_base64_encode'
    st = State()
    n = e.fresh('len', 1, MAXLEN, st)
    p = e.bytes_input(st, 'data', n)
    rd = st.mem['data'].content.read
    f = b64at(rd, n)
    e.uterms.append(n)

    def cands(L, h, M, U, blocks, put, s0):
        ints = [a for a in M if a.ty is not None and a.ty.k == 'int' and a.ty.bits > 8]
        for i in ints:
            if i.kind == 'off' and i.tgt != 'data':
                continue
            put('%s in data' % i.nice(), lambda s, i=i: And(ge(i.get(s), 0), le(i.get(s), n)))
            put('%s at a group' % i.nice(), lambda s, i=i: Or(eq(mod(i.get(s), 3), 0), eq(i.get(s), n)))
            put('%s whole group' % i.nice(), lambda s, i=i: eq(mod(i.get(s), 3), 0))
            for o in ints:
                if o is i or (o.kind == 'off' and o.tgt == 'data'):
                    continue
                put('%s=4*ceil(%s/3)' % (o.nice(), i.nice()), lambda s, i=i, o=o: eq(o.get(s), b64len(i.get(s))))
                put('3%s=4%s' % (o.nice(), i.nice()), lambda s, i=i, o=o: eq(mul(3, o.get(s)), mul(4, i.get(s))))
        for b in blocks:
            if h.rep.mem[b].heap:
                for o in ints:
                    if o.kind == 'off' and o.tgt != b:
                        continue
                    L.put_forall(put, 'b64 %s<%s' % (b, o.nice()), b, lambda s, o=o: (0, o.get(s)), lambda s, k: f(k))
    e.usercands.append(cands)
    for s, v in e.run(st, nm, [p, n]):
        if isinstance(v, Ptr) and v.blk is None:
            e.prove(s, bool(s.ghost.get('oom')), nm + ':null-only-when-out-of-memory')
            continue
        post_equal_fn(e, s, v, b64len(n), f, nm)


STOP = b'?#/ '
MIME = [(b'jpg', b'image/jpeg'), (b'jpeg', b'image/jpeg'), (b'png', b'image/png'), (b'gif', b'image/gif'), (b'webp', b'image/webp'),
        (b'svg', b'image/svg+xml'), (b'bmp', b'image/bmp'), (b'ico', b'image/x-icon')]


def mime(path):
    d = path.rfind(b'.')
    if d < 0:
        return b'image/png'
    x = path[d + 1:]
    for i, c in enumerate(x):
        if c in STOP:
            x = x[:i]
            break
    return dict(MIME).get(x.lower(), b'image/png')


def mime_case(dot):
    def go(e):
        nm = 'apex_detect_mime_type'
        st = State()
        p = e.cstring(st, 'path')
        b = st.mem['path']
        rd = b.content.read
        scans(e, lambda c: And(Not(inset(c, STOP)), ne(c, 0)), blocks=['path'])
        if not dot:
            st.pc.append(Forall(b.content.trigs(), lambda k: Implies(And(ge(k, 0), lt(k, b.L)), ne(rd(k), 46)), 'no dot'))
        else:
            D, X = e.fresh('dot', 0, None, st), e.fresh('end', 0, None, st)
            st.assume(And(lt(D, b.L), eq(rd(D), 46), gt(X, D), le(X, b.L), Or(inset(rd(X), STOP), eq(X, b.L))))
            st.pc.append(Forall(b.content.trigs(), lambda k: Implies(And(gt(k, D), lt(k, b.L)), ne(rd(k), 46)), 'last dot'))
            st.pc.append(Forall(b.content.trigs(), lambda k: Implies(And(gt(k, D), lt(k, X)), And(Not(inset(rd(k), STOP)), ne(rd(k), 0))), 'extension'))
            e.uterms.extend([D, X])
        for s, v in e.run(st, nm, [p]):
            got = libc.litbytes(e, s, v)
            e.prove(s, got is not None, nm + ':returns-a-constant')
            if got is None:
                continue
            if not dot:
                e.prove(s, got == b'image/png', nm + ':default-without-extension')
            else:
                other = Not(And(eq(sub(X, D), 4), *[eq(lower(rd(add(D, 1 + j))), c) for j, c in enumerate(b'jpe')]))     # .jpe is left open
                for x, m in MIME:
                    is_x = And(eq(sub(X, D), len(x) + 1), *[eq(lower(rd(add(D, 1 + j))), c) for j, c in enumerate(x)])
                    e.prove(s, Implies(is_x, got == m), nm + ':type-of-' + x.decode())
                    other = And(other, Not(is_x))
                e.prove(s, Implies(other, got == b'image/png'), nm + ':default-type')
            e.cover(s, nm)
    return go


R.task(F, 'apex_detect_mime_type')(mime_case(False))
R.task(F, 'apex_detect_mime_type')(mime_case(True))


def resolved(st, a, base):
    """contract of apex_resolve_image_path as pieces, with the condition under which the path is used as it is"""
    fa = blkstr(st, a)
    asis = eq(fa[0](0), 47)
    if base is not None:
        asis = Or(asis, eq(st.mem[base].L, 0))
    return asis, fa


def path_case(withbase):
    def go(e):
        nm = 'apex_resolve_image_path'
        st = State()
        a = e.cstring(st, 'file')
        b = e.cstring(st, 'base') if withbase else NULL
        asis, fa = resolved(st, 'file', 'base' if withbase else None)
        n1, f1 = pieces(fa)
        n2, f2 = pieces(blkstr(st, 'base'), lit('/'), fa) if withbase else (n1, f1)
        if not withbase:
            asis = True
        n = ite(asis, n1, n2)
        for s, v in e.run(st, nm, [a, b]):
            if isinstance(v, Ptr) and v.blk is None:
                e.prove(s, bool(s.ghost.get('oom')), nm + ':null-only-when-out-of-memory')
                continue
            post_equal_fn(e, s, v, n, lambda k: ite(asis, f1(k), f2(k)), nm)
    return go


R.task(F, 'apex_resolve_image_path')(path_case(True))
R.task(F, 'apex_resolve_image_path')(path_case(False))


@R.task(F, 'apex_read_and_encode_image')
def _(e):
    nm = 'apex_read_and_encode_image'
    st = State()
    p = e.cstring(st, 'path')
    size = e.fresh('filesize', -1, 1 << 40, st)
    FB = e.bytefn('FILE')

    def fail(s):
        s.ghost['oom'] = True
        return s

    def fopen(e, s, a, node):
        e.oblige(s, caller_passes(e, s, a[0], 'path'), 'opens-the-given-file', node)
        return [(fail(s.copy()), NULL), (s, Opaque('FILE', False))]

    def fread(e, s, a, node):
        q, sz, cnt = e.as_ptr(s, a[0]), asint(a[1]), asint(a[2])
        e.oblige(s, eq(sz, 1), 'reads-bytes', node)
        b = s.mem[q.blk]
        e.oblige(s, And(ge(q.off, 0), le(add(q.off, cnt), b.size)), 'write-in-bounds', node)
        r = e.fresh('nread', 0, None, s)
        s.assume(And(le(r, cnt), le(r, size)))
        if b.kind == 'raw':
            e.typed(s, q, UCHAR)
            b = s.mem[q.blk]
        s.mem[q.blk] = b.but(content=Copy(b.content, q.off, Base(lambda k: FB(Z(k)), FB), 0, r), L=None, hints=())
        s.ghost['nread'] = r
        return [(s, r)]

    def b64(e, s, a, node):
        q, n = e.as_ptr(s, a[0]), asint(a[1])
        b = s.mem[q.blk]
        e.oblige(s, not b.freed, 'use-after-free', node)
        e.oblige(s, And(eq(q.off, 0), eq(n, size), le(n, b.size)), 'encodes-the-whole-file', node)
        k = z3.Int('k!f')
        if e.mode == 'final' and b.kind == 'arr':
            e.prove(s.copy().assume(And(ge(k, 0), lt(k, n))), eq(b.content.read(k), FB(k)), nm + ':encodes-the-bytes-of-the-file')
        t, z = e.split(s, gt(n, 0))
        out = []
        if t is not None:
            N = b64len(n)
            f = b64at(lambda k: FB(Z(k)), n)
            for x, r in libc.do_alloc(e, t, add(N, 1), node):
                if r.blk is not None:
                    x.ghost['enc'] = r.blk
                    x.mem[r.blk] = x.mem[r.blk].but(kind='arr', ety=CHAR, L=N, content=Base(lambda k: ite(eq(k, N), 0, f(k))))
                out.append((x, r))
        if z is not None:
            z.ghost['empty'] = True
            out.append((z, NULL))
        return out
    e.contracts.update(fopen=fopen, fread=fread, apex_base64_encode=b64, fclose=lambda e, s, a, n: [(s, 0)], fseek=lambda e, s, a, n: [(s, e.fresh('sk', -1, 0, s))],
                       ftell=lambda e, s, a, n: [(s, size)])
    for s, v in e.run(st, nm, [p]):
        if isinstance(v, Ptr) and v.blk is None:
            e.prove(s, Or(bool(s.ghost.get('oom')), bool(s.ghost.get('empty')), lt(size, 0), gt(size, 10 << 20), lt(s.ghost.get('nread', 0), size)), nm + ':null-only-on-failure-or-an-empty-or-oversized-file')
            continue
        e.prove(s, v.blk == s.ghost.get('enc') and not s.mem[v.blk].freed, nm + ':returns-the-encoding')
        e.prove(s, le(size, 10 << 20), nm + ':only-files-up-to-the-limit')
        e.cover(s, nm)


def embed(e, st, statok):
    nm = 'apex_embed_images'
    e.cstring(st, 'html')
    e.cstring(st, 'dir')
    def stat(e, s, a, node):
        bad = s.copy()
        if not statok:
            return [(bad, -1)]
        p = e.as_ptr(s, a[1])
        b = s.mem[p.blk]
        s.mem[p.blk] = b.but(cells=dict(b.cells, **{})) if b.cells is None else b.but(cells={**b.cells, tuple(p.path) + ('st_mode',): (e.fresh('mode', 0, (1 << 32) - 1, s), Ty('int', bits=32, signed=False))})
        return [(s, 0), (bad, -1)]
    e.contracts['stat'] = stat

    def anystr(e, s, a, node):
        n = e.fresh('dl', 1, 1 << 24, s)
        out = []
        for x, r in libc.do_alloc(e, s, add(n, 1), node):
            if r.blk is not None:
                c = e.bytefn('any%d' % e.fresh_n)
                e.fresh_n += 1
                x.mem[r.blk] = x.mem[r.blk].but(kind='arr', ety=CHAR, L=n, content=Base(lambda k: ite(eq(k, n), 0, c(Z(k))), None))
                x.pc.append(Forall([(c, (), 0)], lambda k: Implies(And(ge(k, 0), lt(k, n)), ne(c(Z(k)), 0)), 'string'))
            out.append((x, r))
        return out
    e.contracts['apex_resolve_image_path'] = anystr
    e.contracts['apex_read_and_encode_image'] = anystr
    e.contracts['apex_detect_mime_type'] = anystr
    return nm


@R.task(F, 'apex_embed_images', budget=200)
def ident(e):
    st = State()
    nm = embed(e, st, False)
    st.mem['opt'] = Block('cell', cells={('embed_images',): (1, INT)}, default='sym', name='opt')
    e.roots.add('opt')
    e.alloc_may_fail = False
    rd = st.mem['html'].content.read

    def cands(L, h, M, U, blocks, put, s0):
        for b in blocks:
            if h.rep.mem[b].heap:
                for o in M:
                    if o.kind == 'off' and o.tgt == b or o.kind == 'int' and o.ty.bits > 8:
                        L.put_forall(put, 'same %s<%s' % (b, o.nice()), b, lambda s, o=o: (0, o.get(s)), lambda s, k: rd(k))
    e.usercands.append(cands)
    for s, v in e.run(st, nm, [Ptr('html', 0), Ptr('opt', 0), Ptr('dir', 0)]):
        if isinstance(v, Ptr) and v.blk is None:
            e.prove(s, bool(s.ghost.get('oom')), nm + ':null-only-when-out-of-memory')
            continue
        post_equal_fn(e, s, v, st.mem['html'].L, st.mem['html'].content.read, nm)


@R.task(F, 'apex_embed_images', budget=400)
def safe(e):
    """with images of any size embedded: never writes outside its buffer, never loses the terminator, never reads outside the page"""
    st = State()
    nm = embed(e, st, True)
    st.mem['opt'] = Block('cell', cells={('embed_images',): (1, INT)}, default='sym', name='opt')
    e.roots.add('opt')
    e.alloc_may_fail = False
    n = st.mem['html'].L

    def cands(L, h, M, U, blocks, put, s0):
        rd = [a for a in M if a.kind == 'off' and a.tgt == 'html' or a.kind == 'int' and a.ty.bits > 8]
        wr = [a for a in M if a.kind == 'off' and a.tgt != 'html' or a.kind == 'int' and a.ty.bits > 8]
        for r in rd:
            for w in wr:
                if w is not r:
                    put('%s grows with %s' % (w.nice(), r.nice()), lambda s, w=w, r=r: And(ge(w.get(s), 0), le(w.get(s), mul(1 << 26, r.get(s)))))
                    put('%s+%s covers the rest' % (w.nice(), r.nice()), lambda s, w=w, r=r: gt(add(w.get(s), r.get(s)), n))
    e.usercands.append(cands)
    for s, v in e.run(st, nm, [Ptr('html', 0), Ptr('opt', 0), Ptr('dir', 0)]):
        e.prove(s, v.blk is not None and not s.mem[v.blk].freed, nm + ':result-is-live')
        e.cover(s, nm)


def img(html, data):
    """reference: replace the src of <img ...> tags naming the readable file f in the base directory"""
    out = b''
    i = 0
    while i < len(html):
        if html[i:i + 4] != b'<img':
            out += html[i:i + 1]
            i += 1
            continue
        end = html.find(b'>', i)
        if end < 0:
            out += html[i:i + 1]
            i += 1
            continue
        a, q = html.find(b'src="', i), b'"'
        if a < 0 or a > end:
            a, q = html.find(b"src='", i), b"'"
        if 0 <= a < end:
            ue = html.find(q, a + 5)
            if 0 <= ue < end and html[a + 5:ue] == b'f' and data:
                out += html[i:a] + b'src="data:image/png;base64,' + _b64.b64encode(data) + b'"' + html[ue + 1:end + 1]
                i = end + 1
                continue
        out += html[i:end + 1]
        i = end + 1
    return out


TOK = [b'<img', b'<img ', b'src="', b"src='", b'f', b'f', b'"', b"'", b'>', b' ', b'x', b'<', b'src="f"', b"src='f'", b'<img src="f">', b'<img alt="a" src="f" class="z"/>', b'<img src="http://a/f">',
       b'<img src="data:f">', b'<img src="g.png">', b'<img src="//f">', b'</p>\n', b'\xc3\xa9', b'<image src="f">']


def cases(rng, size, hb, consts):
    r = lambda n: bytes(rng.randint(0, 255) for _ in range(n))
    for n in list(range(0, 70)) + [255, 256, 257, 1000, 3071, 3072, 3073]:
        for _ in range(3):
            d = r(n)
            if d:
                yield 'apex_base64_encode', [d]
            yield 'apex_read_and_encode_image', [d]
    for x in range(256):
        for t in (b'', b'\xff', b'\0\0', b'\xaa\x55\xaa'):
            yield 'apex_base64_encode', [bytes([x]) + t]
            yield 'apex_base64_encode', [t + bytes([x])]
    for _ in range(400 * size):
        yield 'apex_base64_encode', [r(rng.randint(1, 300))]
    ext = [b'jpg', b'jpeg', b'png', b'gif', b'webp', b'svg', b'bmp', b'ico', b'JPG', b'WebP', b'Svg', b'tiff', b'', b'jpgx', b'gi', b'gifv', b'a', b'bm', b'icon', b'sv', b'web', b'webpx', b'pn', b'svgz']
    for x in ext:
        for pre in (b'', b'a', b'/x.y/a', b'a.png', b'.'):
            for post in (b'', b'?v=1', b'#x', b'/z', b' ', b'?a#b', b'.', b'!', b'?x.gif', b'\xc3'):
                yield 'apex_detect_mime_type', [pre + b'.' + x + post]
                yield 'apex_detect_mime_type', [pre + x + post]
    for a in (b'', b'a', b'/', b'/a/b', b'a/b', b'../x', b'./y', b'a//', b'~/x'):
        for b in (None, b'', b'd', b'/d', b'd/', b'x' * 300):
            yield 'apex_resolve_image_path', [a, b]
    for en in (0, 1):
        for n in (0, 1, 2, 3, 50, 700, 760, 765, 768, 769, 770, 771, 772, 900, 5000):
            for h in (b'<img src="f">', b'<p><img src="f"></p>' + b'tail ' * 100, b'a<img alt="x" src=\'f\' />b<img src="f">' + b'z' * 2000, b'<img src="f"' , b'<img src="f">' * 30, b'x' * 3000 + b'<img src="f">' + b'y' * 3000):
                yield 'apex_embed_images', [h, r(n), en]
        for _ in range(600 * size):
            yield 'apex_embed_images', [b''.join(rng.choice(TOK) for _ in range(rng.randint(0, 25))), r(rng.choice([0, 1, 2, 3, 4, 100, 1000])), en]
    for k in range(960, 1060):      # the point where a data URL just fills the first buffer
        yield 'apex_embed_images', [b'<img src="f"> rest of the page', r(k), 1]


def oracle(fn, args):
    if fn == 'apex_base64_encode':
        return [_b64.b64encode(args[0])]
    if fn == 'apex_read_and_encode_image':
        return [_b64.b64encode(args[0]) or None]
    if fn == 'apex_detect_mime_type':
        x = args[0].rpartition(b'.')[2].lower()
        if args[0].count(b'.') and x[:3] == b'jpe' and (len(x) == 3 or x[3] in STOP):
            return None
        return [mime(args[0])]
    if fn == 'apex_resolve_image_path':
        a, b = args
        return [a if a[:1] == b'/' or not b else b + b'/' + a]
    return [img(args[0], args[1]) if args[2] else args[0]]


R.concrete('apex_img', cases, oracle, bound='base64 of every byte in every group position and lengths to 3073; extensions x prefixes x suffixes; pages of up to 25 fragments with an image file of up to 5000 bytes, and the sizes around the first buffer')
