"""Term layer: Python ints/bools are literals, everything else is a z3 Int/Bool term."""
import z3

_lin = {}      # ast id -> (expr, const, {id: (coef, expr)})
_sc = {}       # ast id of a signed-char view -> (expr, underlying byte)
_rng = {}


def isint(x):
    return isinstance(x, int) and not isinstance(x, bool)


def lit(x):
    return isinstance(x, (int, bool))


def Z(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def ZB(x):
    x = asbool(x)
    return z3.BoolVal(x) if isinstance(x, bool) else x


def asint(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, z3.BoolRef):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def asbool(x):
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return x != 0
    if isinstance(x, z3.BoolRef):
        return x
    if z3.is_app_of(x, z3.Z3_OP_ITE):
        a, b = x.arg(1), x.arg(2)
        if z3.is_int_value(a) and z3.is_int_value(b):
            va, vb = a.as_long() != 0, b.as_long() != 0
            if va and not vb:
                return x.arg(0)
            if vb and not va:
                return z3.Not(x.arg(0))
            return va
    return Not(eq(x, 0))


def linform(t):
    """-> (const, {id: (coef, atom)})"""
    if isinstance(t, (int, bool)):
        return int(t), {}
    i = t.get_id()
    r = _lin.get(i)
    if r is not None:
        return r[1], r[2]
    c, m = _linform(t)
    _lin[i] = (t, c, m)
    return c, m


def _addto(m, k, e, a):
    if k in m:
        n = m[k][0] + e
        if n:
            m[k] = (n, a)
        else:
            del m[k]
    elif e:
        m[k] = (e, a)


def _linform(t):
    if z3.is_int_value(t):
        return t.as_long(), {}
    d = t.decl().kind()
    if d == z3.Z3_OP_ADD or d == z3.Z3_OP_SUB:
        c, m = 0, {}
        for j, a in enumerate(t.children()):
            s = -1 if (d == z3.Z3_OP_SUB and j > 0) else 1
            c2, m2 = linform(a)
            c += s * c2
            for k, (e, at) in m2.items():
                _addto(m, k, s * e, at)
        return c, m
    if d == z3.Z3_OP_UMINUS:
        c2, m2 = linform(t.arg(0))
        return -c2, {k: (-e, a) for k, (e, a) in m2.items()}
    if d == z3.Z3_OP_MUL and t.num_args() == 2:
        a, b = t.arg(0), t.arg(1)
        if z3.is_int_value(b):
            a, b = b, a
        if z3.is_int_value(a):
            v = a.as_long()
            if v == 0:
                return 0, {}
            c2, m2 = linform(b)
            return v * c2, {k: (v * e, x) for k, (e, x) in m2.items()}
    return 0, {t.get_id(): (1, t)}


_unlin = {}


def unlin(c, m):
    if not m:
        return c
    ks = sorted(m)
    key = (c, tuple((k, m[k][0]) for k in ks))
    r = _unlin.get(key)
    if r is None:
        r = _unlin[key] = (_unlin_(c, m, ks), [a for _, a in m.values()])
    return r[0]


def _unlin_(c, m, ks):
    parts = []
    for k in ks:
        e, a = m[k]
        parts.append(a if e == 1 else z3.IntVal(e) * a)
    r = parts[0] if len(parts) == 1 else z3.Sum(parts)
    if c:
        r = r + z3.IntVal(c)
    return r


def norm(t):
    t = asint(t)
    if isinstance(t, int):
        return t
    c, m = linform(t)
    if c == 0 and len(m) == 1:
        (e, a), = m.values()
        if e == 1:
            return a
    return unlin(c, m)


def add(a, b):
    a, b = asint(a), asint(b)
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    ca, ma = linform(a)
    cb, mb = linform(b)
    m = dict(ma)
    for k, (e, at) in mb.items():
        _addto(m, k, e, at)
    return unlin(ca + cb, m)


def neg(a):
    a = asint(a)
    if isinstance(a, int):
        return -a
    c, m = linform(a)
    return unlin(-c, {k: (-e, x) for k, (e, x) in m.items()})


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    a, b = asint(a), asint(b)
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    if isinstance(b, int):
        a, b = b, a
    if isinstance(a, int):
        if a == 0:
            return 0
        c, m = linform(b)
        return unlin(a * c, {k: (a * e, x) for k, (e, x) in m.items()})
    return Z(a) * Z(b)


def dconst(a, b):
    """a - b when it is a literal, else None"""
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    ca, ma = linform(a)
    cb, mb = linform(b)
    if len(ma) != len(mb):
        return None
    for k, (e, _) in ma.items():
        x = mb.get(k)
        if x is None or x[0] != e:
            return None
    return ca - cb


def schar(v):
    """signed view of a byte value 0..255"""
    if isinstance(v, int):
        return v - 256 if v >= 128 else v
    lo, hi = rng(v)
    if lo is not None and lo >= 0 and hi is not None and hi <= 127:
        return v
    t = z3.If(v >= 128, v - 256, v)
    _sc[t.get_id()] = (t, v)
    return t


def sc_under(t):
    if isinstance(t, (int, bool)):
        return None
    r = _sc.get(t.get_id())
    return r[1] if r else None


def eq(a, b):
    a, b = asint(a), asint(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(b, int):
        a, b = b, a
    if isinstance(a, int):
        u = sc_under(b)
        if u is not None:
            if not -128 <= a <= 127:
                return False
            return eq(u, a % 256)
        lo, hi = rng(b)
        if (lo is not None and a < lo) or (hi is not None and a > hi):
            return False
        if z3.is_app_of(b, z3.Z3_OP_ITE) and z3.is_int_value(b.arg(1)) and z3.is_int_value(b.arg(2)):
            x, y = b.arg(1).as_long() == a, b.arg(2).as_long() == a
            if x and y:
                return True
            if x:
                return b.arg(0)
            if y:
                return z3.Not(b.arg(0))
            return False
    else:
        ua, ub = sc_under(a), sc_under(b)
        if ua is not None and ub is not None:
            return eq(ua, ub)
    d = dconst(a, b)
    if d is not None:
        return d == 0
    return Z(a) == Z(b)


def le(a, b):
    a, b = asint(a), asint(b)
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    d = dconst(a, b)
    if d is not None:
        return d <= 0
    la, ha = rng(a)
    lb, hb = rng(b)
    if ha is not None and lb is not None and ha <= lb:
        return True
    if la is not None and hb is not None and la > hb:
        return False
    return Z(a) <= Z(b)


def lt(a, b):
    return le(add(a, 1), b)


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def ne(a, b):
    return Not(eq(a, b))


def Not(a):
    a = asbool(a)
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def And(*xs):
    out = []
    for x in xs:
        x = asbool(x)
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        x = asbool(x)
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    a, b = asbool(a), asbool(b)
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    return a == b


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (int, bool)) or isinstance(b, (int, bool)):
        return isinstance(a, (int, bool)) and isinstance(b, (int, bool)) and a == b
    return a.eq(b)


def ite(c, a, b):
    c = asbool(c)
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
        if same(a, b):
            return a
        return Or(And(c, a), And(Not(c), b))
    a, b = asint(a), asint(b)
    if same(a, b):
        return a
    return z3.If(c, Z(a), Z(b))


def rng(t):
    """cheap syntactic interval (lo, hi), None = unknown"""
    if isinstance(t, (int, bool)):
        return int(t), int(t)
    if isinstance(t, z3.BoolRef):
        return 0, 1
    i = t.get_id()
    r = _rng.get(i)
    if r is None:
        r = (t, _rng0(t))
        _rng[i] = r
    return r[1]


RANGED_DECLS = {}   # decl name -> (lo, hi)


def _rng0(t):
    if z3.is_int_value(t):
        v = t.as_long()
        return v, v
    k = t.decl().kind()
    if k == z3.Z3_OP_UNINTERPRETED:
        return RANGED_DECLS.get(t.decl().name(), (None, None))
    if k == z3.Z3_OP_ITE:
        u = _sc.get(t.get_id())
        if u:
            return -128, 127
        a, b = rng(t.arg(1)), rng(t.arg(2))
        lo = min(a[0], b[0]) if a[0] is not None and b[0] is not None else None
        hi = max(a[1], b[1]) if a[1] is not None and b[1] is not None else None
        return lo, hi
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        c, m = linform(t)
        if len(m) == 1 and t.get_id() in m:
            return None, None
        lo = hi = c
        for e, a in m.values():
            l, h = rng(a)
            if e < 0:
                l, h = h, l
            lo = lo + e * l if lo is not None and l is not None else None
            hi = hi + e * h if hi is not None and h is not None else None
        return lo, hi
    if k == z3.Z3_OP_MOD and z3.is_int_value(t.arg(1)):
        return 0, abs(t.arg(1).as_long()) - 1
    if k == z3.Z3_OP_IDIV and z3.is_int_value(t.arg(1)):
        d = t.arg(1).as_long()
        l, h = rng(t.arg(0))
        if d > 0:
            return (l // d if l is not None else None), (h // d if h is not None else None)
    return None, None


def _split(a, c):
    """a = c*q + K*x + r with K | c, 0 <= r < K  ->  (q, K, x, r), or None if nothing simplifies"""
    k0, m = linform(a)
    q, low = k0 // c, k0 % c
    rest = []
    for e, t in m.values():
        q, low = add(q, mul(e // c, t)), low
        if e % c:
            rest.append((e % c, t))
    import math
    for K in sorted({math.gcd(e, c) for e, _ in rest} - {1}, reverse=True):
        x, r = 0, low % K
        x = add(x, (low - low % K) // K)
        for e, t in rest:
            if e % K == 0:
                x = add(x, mul(e // K, t))
            else:
                r = add(r, mul(e, t))
        l, h = rng(r)
        if l is not None and h is not None and l >= 0 and h < K:
            return q, K, x, r
    r = low
    for e, t in rest:
        r = add(r, mul(e, t))
    l, h = rng(r)
    if l is not None and h is not None and l >= 0 and h < c:
        return q, c, 0, r
    if not (isinstance(q, int) and q == 0):
        return q, 1, r, 0
    return None


def floordiv(a, c):
    """mathematical floor division by a positive literal"""
    if isinstance(a, int):
        return a // c
    if c == 1:
        return a
    p = _split(a, c)
    if p is not None:
        q, K, x, r = p
        return add(q, floordiv(x, c // K) if K > 1 else _fd(x, c))
    return Z(a) / z3.IntVal(c)


def _fd(x, c):
    return x // c if isinstance(x, int) else Z(x) / z3.IntVal(c)


def mod(a, c):
    if isinstance(a, int):
        return a % c
    l, h = rng(a)
    if l is not None and h is not None and l >= 0 and h < c:
        return a
    p = _split(a, c)
    if p is not None:
        q, K, x, r = p
        if K == c:
            return r
        if K > 1:
            return add(mul(K, mod(x, c // K)), r)
        return x % c if isinstance(x, int) else Z(x) % z3.IntVal(c)
    return Z(a) % z3.IntVal(c)


def bit_and_const(x, mask):
    """x & mask, x >= 0, mask literal >= 0"""
    if isinstance(x, int):
        return x & mask
    r = 0
    b = 0
    m = mask
    while m:
        while m & 1 == 0:
            m >>= 1
            b += 1
        n = 0
        while m & 1:
            m >>= 1
            n += 1
        r = add(r, mul(mod(floordiv(x, 1 << b), 1 << n), 1 << b))
        b += n
    return r


def wrap(x, bits, signed):
    if isinstance(x, int):
        x &= (1 << bits) - 1
        if signed and x >> (bits - 1):
            x -= 1 << bits
        return x
    m = mod(x, 1 << bits)
    if signed:
        return ite(ge(m, 1 << (bits - 1)), sub(m, 1 << bits), m)
    return m
