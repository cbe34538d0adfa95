"""Mechanical front end: clang's own AST of the real file, dumped on every run."""
import json, os, re, subprocess, bisect

REPO = os.environ.get('APEX_REPO', '/repo')
CLANG = ['clang', '-std=gnu99', '-fsyntax-only', '-w', '-D__NO_CTYPE', '-D_GNU_SOURCE', '-DAPEX_HAVE_LIBYAML=1']


def unsupported(msg):
    from .mem import Unsupported
    return Unsupported(msg)


class FrontEndError(Exception):
    pass


class Missing(FrontEndError):
    """the function is not in the translation unit"""


class Ty:
    __slots__ = ('k', 'bits', 'signed', 'of', 'n', 'rec', 'name')

    def __init__(self, k, bits=0, signed=False, of=None, n=None, rec=None, name=''):
        self.k, self.bits, self.signed, self.of, self.n, self.rec, self.name = k, bits, signed, of, n, rec, name

    def __repr__(self):
        if self.k == 'int':
            return ('i' if self.signed else 'u') + str(self.bits)
        if self.k == 'ptr':
            return repr(self.of) + '*'
        if self.k == 'arr':
            return '%r[%s]' % (self.of, self.n)
        if self.k == 'struct':
            return 'struct ' + str(self.name)
        return self.k


VOID = Ty('void')
INTS = {
    'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False),
    'short': (16, True), 'unsigned short': (16, False), 'int': (32, True), 'unsigned int': (32, False),
    'unsigned': (32, False), 'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True),
    'unsigned long long': (64, False), '_Bool': (1, False), 'bool': (1, False), '__int128': (128, True),
    'unsigned __int128': (128, False),
}
CHAR, UCHAR, INT, ULONG, LONG = (Ty('int', 8, True), Ty('int', 8, False), Ty('int', 32, True),
                                 Ty('int', 64, False), Ty('int', 64, True))


class TU:
    def __init__(self, path, extra=()):
        self.path = path
        cmd = CLANG + ['-I' + REPO + '/include', '-I/usr/include/cmark-gfm', '-I' + REPO + '/src'] + list(extra) + \
            ['-Xclang', '-ast-dump=json', path]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0:
            raise FrontEndError('clang failed on %s: %s' % (path, p.stderr.decode()[-2000:]))
        root = json.loads(p.stdout)
        self.src = open(path, 'rb').read()
        self.nl = [i for i, c in enumerate(self.src) if c == 10]
        self.funcs, self.protos, self.typedefs, self.records, self.recnames = {}, {}, {}, {}, {}
        self.enumconst, self.globals = {}, {}
        self._tdnodes = {}
        for n in root['inner']:
            self._top(n)

    def _top(self, n):
        k = n.get('kind')
        if k == 'FunctionDecl':
            name = n.get('name')
            if any(c.get('kind') == 'CompoundStmt' for c in n.get('inner', [])):
                self.funcs[name] = n
            self.protos[name] = n
        elif k == 'TypedefDecl':
            self._tdnodes[n['name']] = n
        elif k == 'RecordDecl':
            self._record(n)
        elif k == 'EnumDecl':
            self._enum(n)
        elif k == 'VarDecl':
            if n['name'] not in self.globals or n.get('init'):
                self.globals[n['name']] = n
            self.globals[n['id']] = n

    def _record(self, n):
        self.records[n['id']] = n
        if n.get('completeDefinition'):
            if n.get('name'):
                self.recnames[n['name']] = n
            r = n.get('range', {}).get('begin', {})
            for c in n.get('inner', []):
                if c.get('kind') == 'RecordDecl':
                    self._record(c)
                if c.get('kind') == 'EnumDecl':
                    self._enum(c)

    def _enum(self, n):
        v = -1
        for c in n.get('inner', []):
            if c.get('kind') != 'EnumConstantDecl':
                continue
            x = None
            for i in c.get('inner', []):
                if i.get('kind') == 'ConstantExpr':
                    x = int(i['value'])
            v = x if x is not None else v + 1
            self.enumconst[c['id']] = v
            self.enumconst[c['name']] = v

    def line(self, n):
        b = n.get('range', {}).get('begin', {})
        if 'expansionLoc' in b:
            b = b['expansionLoc']
        off = b.get('offset')
        if off is None:
            return 0
        return bisect.bisect_left(self.nl, off) + 1

    # -- types
    def type_of(self, n):
        t = n['type']
        return self.parse(t['qualType'])

    def parse(self, q):
        c = getattr(self, '_tc', None)
        if c is None:
            c = self._tc = {}
        r = c.get(q)
        if r is None:
            r = c[q] = self._parse(q)
        return r

    def _parse(self, q):
        q = q.strip()
        q = re.sub(r'\b(const|volatile|restrict|__restrict|extern|static|register|inline|_Noreturn)\b', '', q).strip()
        if '(*)' in q or '(*const)' in q or '(*restrict' in q:
            return Ty('ptr', of=Ty('func', name=q))
        m = re.match(r'^(.*?)((\s*\[[^\]]*\])+)$', q)
        if m and not q.endswith(')'):
            base = self.parse(m.group(1))
            dims = re.findall(r'\[([^\]]*)\]', m.group(2))
            for d in reversed(dims):
                base = Ty('arr', of=base, n=int(d) if d.strip().isdigit() else None)
            return base
        if q.endswith('*'):
            return Ty('ptr', of=self.parse(q[:-1]))
        if q.endswith(')'):
            return Ty('func', name=q)
        q = ' '.join(q.split())
        if q == 'void':
            return VOID
        if q in INTS:
            b, s = INTS[q]
            return Ty('int', b, s, name=q)
        if q in ('float', 'double', 'long double'):
            return Ty('float', name=q)
        if q.startswith('enum '):
            return Ty('int', 32, False, name=q)
        if q.startswith('struct ') or q.startswith('union '):
            nm = q.split(' ', 1)[1]
            return Ty('struct', rec=nm, name=nm)
        if q in self._tdnodes:
            return self._from_td(self._tdnodes[q])
        if q == '__builtin_va_list' or q.startswith('struct __va_list'):
            return Ty('struct', rec='__va_list', name='__va_list')
        return Ty('opaque', name=q)

    def _from_td(self, n):
        inner = n.get('inner', [])
        rid = self._find_rec(inner)
        q = n['type']['qualType']
        if rid and '*' not in q and '[' not in q and '(' not in q.replace('(unnamed', ''):
            rec = self.records.get(rid)
            if rec is not None and not rec.get('name'):
                return Ty('struct', rec=rid, name=n['name'])
        if q.startswith('enum'):
            return Ty('int', 32, False, name=n['name'])
        return self.parse(q)

    def _find_rec(self, inner):
        for c in inner:
            if c.get('kind') == 'RecordType':
                return c['decl']['id']
            r = self._find_rec(c.get('inner', []))
            if r:
                return r
        return None

    def record(self, ty):
        r = self.records.get(ty.rec)
        if r is None or not r.get('completeDefinition'):
            r = self.recnames.get(ty.rec, r)
        if r is None and '(unnamed' in str(ty.rec):
            raise unsupported('unnamed record ' + ty.rec)
        return r

    def fields(self, ty):
        r = self.record(ty)
        if r is None or not r.get('completeDefinition'):
            raise unsupported('incomplete type ' + str(ty.name))
        return [(c['name'], self.type_of(c)) for c in r.get('inner', []) if c.get('kind') == 'FieldDecl']

    def sizeof(self, ty):
        return self._sa(ty)[0]

    def _sa(self, ty):
        if ty.k == 'int':
            b = max(1, ty.bits // 8)
            return b, b
        if ty.k in ('ptr',):
            return 8, 8
        if ty.k == 'float':
            b = {'float': 4, 'double': 8}.get(ty.name, 16)
            return b, b
        if ty.k == 'arr':
            s, a = self._sa(ty.of)
            return s * ty.n, a
        if ty.k == 'struct':
            r = self.record(ty)
            off, al = 0, 1
            for _, f in self.fields(ty):
                s, a = self._sa(f)
                if r.get('tagUsed') == 'union':
                    off = max(off, s)
                else:
                    off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        if ty.k == 'void':
            return 1, 1
        raise unsupported('sizeof ' + repr(ty))


_cache = {}


def load(rel, extra=()):
    p = rel if rel.startswith('/') else os.path.join(REPO, rel)
    k = (p, tuple(extra))
    if k not in _cache:
        if not os.path.exists(p):
            raise FrontEndError('no such file ' + p)
        _cache[k] = TU(p, extra)
    return _cache[k]
