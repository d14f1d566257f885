"""Hash-consed value terms (the value-number domain) and their normal forms.

A term denotes the value an expression has on some control path.  Integer terms are kept as
polynomials over atoms, byte strings / strings / sequences as flat concatenations, element-wise
loops as binders (tab / fold / wloop) with canonical bound variables, conditionals as ordered
decision diagrams, so that two differently written computations of the same value normally end
up as the *same* term object.
"""
from math import gcd

_T = {}
_uid = [0]


class T:
    __slots__ = ('op', 'args', 'ty', 'uid', 'lvl', 'fv', '__weakref__')

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        raise TypeError


ANY = ('any',)
SLICE = ('slice',)
INT = ('int', None, None)
BOOL = ('bool',)
NONE = ('none',)
BYTES = ('bytes', None)
STR = ('str', None)


def seq_of(t):
    return ('seq', t)


def _scan(a, acc):
    if isinstance(a, T):
        if a.lvl > acc[0]:
            acc[0] = a.lvl
        if a.fv:
            acc[1] = acc[1] | a.fv if acc[1] else a.fv
    elif type(a) is tuple:
        for x in a:
            _scan(x, acc)


EMPTY = frozenset()


def _key(a):
    if isinstance(a, T):
        return a.uid
    if type(a) is tuple:
        return tuple([_key(x) for x in a])
    return (type(a).__name__, a)


def mk(op, args=(), ty=ANY):
    key = (op, _key(args))
    if op in ('sym', 'attr', 'res', 'bv'):
        key += (ty,)
    t = _T.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.ty = op, args, ty
        _uid[0] += 1
        t.uid = _uid[0]
        acc = [0, EMPTY]
        _scan(args, acc)
        t.lvl, t.fv = acc
        if op == 'sym':
            t.fv = frozenset((t,))
        elif op in BINDERS:
            t.lvl = max(t.lvl, args[0])
        _T[key] = t
    return t


BINDERS = {'tab', 'filt', 'fold', 'wloop', 'lead', 'ffirst'}


# ----------------------------------------------------------------------------- facts context
class _Ctx:
    facts = None


CTX = _Ctx()


def free(f, *a):
    """f(*a) without path facts: what a shared term's type may depend on"""
    old, CTX.facts = CTX.facts, None
    try:
        return f(*a)
    finally:
        CTX.facts = old


def free_len(x):
    """the length of a string when it is known without path facts, or None"""
    n = free(length, x)
    return cval(n) if is_const(n) else None


# ----------------------------------------------------------------------------- constants
def C(v):
    if v is True or v is False:
        return mk('const', (v,), BOOL)
    if v is None:
        return mk('const', (None,), NONE)
    ty = type(v)
    if ty is int:
        return mk('const', (v,), ('int', v, v))
    if ty is bytes:
        return mk('const', (v,), ('bytes', len(v)))
    if ty is str:
        return mk('const', (v,), ('str', len(v)))
    if ty is float:
        return mk('const', (v,), ('float',))
    if v is Ellipsis:
        return mk('const', ('...',), ANY)
    raise TypeError(f'no constant for {v!r}')


TRUE, FALSE, NONEV = C(True), C(False), C(None)
ZERO, ONE = C(0), C(1)
_fresh = [0]


def sym(name, ty=ANY):
    return mk('sym', (name,), ty)


def fresh(prefix, ty=ANY):
    _fresh[0] += 1
    return mk('sym', (f'%{prefix}{_fresh[0]}',), ty)


def is_const(t):
    return t.op == 'const'


def cval(t):
    return t.args[0]


def is_int(t):
    return t.ty[0] == 'int' or t.op == 'intsub'


def host(o, ty=('host',)):
    return mk('host', (o,), ty)


# ----------------------------------------------------------------------------- ranges
def _mulb(a, b):
    if a == 0 or b == 0:
        return 0
    if a is None or b is None:
        return None
    return a * b


def irng(t):
    """intrinsic + fact-refined bounds of an integer term"""
    if t.op == 'const':
        v = int(t.args[0]) if t.ty[0] in ('int', 'bool') else None
        return v, v
    if t.op == 'intsub':
        return irng(t.args[1])
    if t.op == 'poly':
        c, ms = t.args
        lo = hi = c
        for m, k in ms:
            l, h = mono_rng(m)
            if k < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or h is None else hi + k * h
        return lo, hi
    lo, hi = (t.ty[1], t.ty[2]) if t.ty[0] == 'int' else (None, None)
    f = CTX.facts
    if f is not None:
        b = f.bounds.get(t)
        if b:
            if b[0] is not None and (lo is None or b[0] > lo):
                lo = b[0]
            if b[1] is not None and (hi is None or b[1] < hi):
                hi = b[1]
    if t.op == 'fd' and f is not None:
        l, h = irng(t.args[0])
        c = t.args[1]
        if l is not None and (lo is None or l // c > lo):
            lo = l // c
        if h is not None and (hi is None or h // c < hi):
            hi = h // c
    elif t.op == 'fromb' and f is not None and not t.args[1]:
        h = irng(length(t.args[2]))[1]
        if h is not None and h < 4096 and (hi is None or (1 << 8 * h) - 1 < hi):
            hi = (1 << 8 * h) - 1
    elif t.op == 'len' and f is not None and t.args[0].op == 'dec':
        l, h = irng(t.args[0].args[0])
        if l is not None and h is not None and -(1 << 2048) < l and h < 1 << 2048:
            hi = max(len(str(l)), len(str(h)))
            lo = len(str(l)) if l >= 0 else lo
    elif t.op == 'ndig':
        if lo == 0:
            l = irng(t.args[1])[0]
            if l is not None and l > 0:
                lo = 1
    elif t.op == 'bitlen' and f is not None:
        l, h = irng(t.args[0])
        if l is not None and h is not None and l >= 0:
            lo, hi = max(lo or 0, l.bit_length()), h.bit_length()
        elif l is not None and l >= 0:
            lo = max(lo or 0, l.bit_length())
    return lo, hi


def mono_rng(m):
    if len(m) == 1:
        return irng(m[0])
    lo, hi = 1, 1
    i = 0
    while i < len(m):
        j = i
        while j < len(m) and m[j] is m[i]:
            j += 1
        l, h = irng(m[i])
        if (j - i) % 2 == 0:       # even power
            e = j - i
            if l is not None and h is not None:
                c = (l ** e, h ** e)
                l, h = (0 if l <= 0 <= h else min(c)), max(c)
            elif l is not None and l >= 0:
                l, h = l ** e, None
            else:
                l, h = 0, None
        else:
            e = j - i
            l = None if l is None else l ** e
            h = None if h is None else h ** e
        if lo is not None and lo >= 0 and l is not None and l >= 0:
            lo, hi = lo * l, (None if hi is None or h is None else hi * h)
        elif None not in (lo, hi, l, h):
            c = (lo * l, lo * h, hi * l, hi * h)
            lo, hi = min(c), max(c)
        else:
            lo = hi = None
        i = j
    return lo, hi


# ----------------------------------------------------------------------------- integers
def to_int(t):
    """strip int-subclass wrappers, coerce bool constants"""
    while t.op == 'intsub':
        t = t.args[1]
    if t.op == 'const' and t.ty[0] == 'bool':
        return C(int(t.args[0]))
    return t


def lin(t):
    t = to_int(t)
    if t.op == 'const':
        return t.args[0], {}
    if t.op == 'poly':
        return t.args[0], dict(t.args[1])
    return 0, {(t,): 1}


def _skey(m):
    return tuple([a.uid for a in m])


def from_lin(c, d):
    d = {m: k for m, k in d.items() if k}
    # c*floordiv(a, c) -> a - mod(a, c)
    for m, k in list(d.items()):
        if len(m) == 1 and m[0].op == 'fd' and k % m[0].args[1] == 0:
            a, q = m[0].args
            del d[m]
            f = k // q
            ca, da = lin(a)
            c2, d2 = lin(imod(a, C(q)))
            c += f * (ca - c2)
            for mm, kk in da.items():
                d[mm] = d.get(mm, 0) + f * kk
            for mm, kk in d2.items():
                d[mm] = d.get(mm, 0) - f * kk
            return from_lin(c, d)
    if not d:
        return C(c)
    f = CTX.facts
    if f is not None and f.fixed:
        for m in d:
            if any(a in f.fixed for a in m):
                r = C(c)
                for mm, k in d.items():
                    p = C(k)
                    for a in mm:
                        v = f.fixed.get(a)
                        p = imul(p, a if v is None else v)
                    r = iadd(r, p)
                return r
    if c == 0 and len(d) == 1:
        (m, k), = d.items()
        if k == 1 and len(m) == 1:
            return m[0]
    ms = tuple(sorted(d.items(), key=lambda mk_: _skey(mk_[0])))
    lo = hi = c
    for m, k in ms:
        l, h = _imono(m)
        if k < 0:
            l, h = h, l
        lo = None if lo is None or l is None else lo + k * l
        hi = None if hi is None or h is None else hi + k * h
    return mk('poly', (c, ms), ('int', lo, hi))


def _imono(m):
    f, CTX.facts = CTX.facts, None
    try:
        return mono_rng(m)
    finally:
        CTX.facts = f


def iadd(*ts):
    c, d = 0, {}
    for t in ts:
        c1, d1 = lin(t)
        c += c1
        for m, k in d1.items():
            d[m] = d.get(m, 0) + k
    return from_lin(c, d)


def ineg(t):
    c, d = lin(t)
    return from_lin(-c, {m: -k for m, k in d.items()})


def isub(a, b):
    return iadd(a, ineg(b))


def imul(a, b):
    c1, d1 = lin(a)
    c2, d2 = lin(b)
    d = {}
    p1 = list(d1.items()) + ([((), c1)] if c1 else [])
    p2 = list(d2.items()) + ([((), c2)] if c2 else [])
    for m, k in p1:
        for n, j in p2:
            mm = tuple(sorted(m + n, key=lambda x: x.uid))
            d[mm] = d.get(mm, 0) + k * j
    c = d.pop((), 0)
    # merge pow2 factors
    out = {}
    for m, k in d.items():
        ps = [a for a in m if a.op == 'pow2']
        if len(ps) > 1:
            e = iadd(*[a.args[0] for a in ps])
            m2 = tuple(a for a in m if a.op != 'pow2')
            p = pow2(e)
            cc, dd = lin(p)
            if cc and not dd:
                if m2:
                    out[m2] = out.get(m2, 0) + k * cc
                else:
                    c += k * cc
            else:
                for m3, k3 in dd.items():
                    mm = tuple(sorted(m2 + m3, key=lambda x: x.uid))
                    out[mm] = out.get(mm, 0) + k * k3
        else:
            out[m] = out.get(m, 0) + k
    return from_lin(c, out)


def pow2(e):
    """2**e for e >= 0 (e an integer term)"""
    c, d = lin(e)
    if not d:
        return C(1 << c) if 0 <= c < 4096 else mk('pow2', (C(c),), ('int', 1, None))
    lo, _ = irng(from_lin(0, d))
    if c > 0 and lo is not None and lo >= 0:
        return imul(C(1 << c), pow2(from_lin(0, d)))
    return mk('pow2', (from_lin(c, d),), ('int', 1, None))


def ifd(a, b):
    """floor division; b non-zero"""
    b = to_int(b)
    a = to_int(a)
    if is_const(b):
        n = cval(b)
        if n == 0:
            return mk('fdx', (a, b), INT)
        if n < 0:
            return ifd(ineg(a), C(-n))
        if n == 1:
            return a
        if is_const(a):
            return C(cval(a) // n)
        c, d = lin(a)
        qd, rd = {}, {}
        for m, k in d.items():
            q, r = divmod(k, n)
            if r == 0:
                qd[m] = q
            else:
                rd[m] = k
        qc, rc = divmod(c, n)
        q = from_lin(qc, qd)
        rest = from_lin(rc, rd)
        lo, hi = irng(rest)
        if lo is not None and hi is not None and lo // n == hi // n:
            return iadd(q, C(lo // n))
        # common factor
        if rd:
            g = n
            for k in rd.values():
                g = gcd(g, k)
            if g > 1:
                rest = from_lin(rc // g, {m: k // g for m, k in rd.items()})
                n //= g
                if n == 1:
                    return iadd(q, rest)
        if rest.op == 'fd':
            return iadd(q, ifd(rest.args[0], C(rest.args[1] * n)))
        if rest.op == 'mod' and rest.args[1] % n == 0:
            # (a mod kn) // n  ==  (a // n) mod k
            return iadd(q, imod(ifd(rest.args[0], C(n)), C(rest.args[1] // n)))
        if rest.op == 'fromb' and n % 256 == 0 and not rest.args[1]:
            # the low bytes vanish
            w = free_len(rest.args[2])
            if w is not None and 2 <= w <= 64:
                k = 0
                while n % 256 == 0:
                    n //= 256
                    k += 1
                b = rest.args[2]
                k = min(k, w)
                return iadd(q, ifd(fromb(rest.args[0], False, sl(b, ZERO, C(w - k)) if rest.args[0] == 'big' else sl(b, C(k), C(w))), C(n)))
        l, h = (None, None)
        f, CTX.facts = CTX.facts, None
        try:
            l, h = irng(rest)
        finally:
            CTX.facts = f
        return iadd(q, mk('fd', (rest, n), ('int', None if l is None else l // n,
                                             None if h is None else h // n)))
    if b.op == 'pow2':
        # (x * 2**e) // 2**e
        c, d = lin(a)
        q, r = {}, {}
        for m, k in d.items():
            if b in m:
                mm = list(m)
                mm.remove(b)
                q[tuple(mm)] = k
            else:
                r[m] = k
        if q and (c == 0 or r):
            pass
        if q and not r and c == 0:
            cc = q.pop((), 0)
            return from_lin(cc, q)
    return mk('fdx', (a, b), INT)


def imod(a, b):
    a, b = to_int(a), to_int(b)
    if is_const(b):
        n = cval(b)
        if n == 0:
            return mk('modx', (a, b), INT)
        if n < 0:
            return ineg(imod(ineg(a), C(-n)))
        if n == 1:
            return ZERO
        if is_const(a):
            return C(cval(a) % n)
        c, d = lin(a)
        rd = {}
        for m, k in d.items():
            r = k % n
            if r:
                # keep small negative coefficients canonical: use residue in [0, n)
                rd[m] = r
        rest = from_lin(c % n, rd)
        if is_const(rest):
            return C(cval(rest) % n)
        raw = from_lin(c, {m: k for m, k in d.items() if k % n})
        lo, hi = irng(raw)
        if lo is not None and hi is not None and lo // n == hi // n:
            return isub(raw, C((lo // n) * n))
        lo, hi = irng(rest)
        if lo is not None and hi is not None and lo // n == hi // n:
            return isub(rest, C((lo // n) * n))
        if rest.op == 'mod' and (rest.args[1] % n == 0):
            return imod(rest.args[0], C(n))
        # factor common powers:  (g*x) mod (g*m) = g*(x mod m)
        c0, d0 = lin(rest)
        g = n
        for k in d0.values():
            g = gcd(g, k)
        g = gcd(g, c0)
        if g > 1:
            return imul(C(g), imod(from_lin(c0 // g, {m: k // g for m, k in d0.items()}), C(n // g)))
        # inner mods with compatible modulus
        for m, k in d0.items():
            if len(m) == 1 and m[0].op == 'mod' and m[0].args[1] % n == 0:
                return imod(iadd(from_lin(c0, {x: y for x, y in d0.items() if x != m}),
                                 imul(C(k), m[0].args[0])), C(n))
        if rest.op == 'fromb' and not rest.args[1] and n & (n - 1) == 0:
            # only the low bytes matter
            w, k = free_len(rest.args[2]), (n.bit_length() + 6) // 8
            if w is not None and 2 <= w <= 64 and k < w:
                b = rest.args[2]
                return imod(fromb(rest.args[0], False, sl(b, C(w - k), C(w)) if rest.args[0] == 'big' else sl(b, ZERO, C(k))), C(n))
        hi = n - 1
        f, CTX.facts = CTX.facts, None
        try:
            l, h = irng(rest)
            if l is not None and l >= 0 and h is not None and h < hi:
                hi = h
        finally:
            CTX.facts = f
        return mk('mod', (rest, n), ('int', 0, hi))
    return mk('modx', (a, b), INT)


def ishl(a, k):
    a, k = to_int(a), to_int(k)
    if is_const(k):
        return imul(a, C(1 << cval(k))) if cval(k) >= 0 else mk('shlx', (a, k), INT)
    if a is ZERO:
        return ZERO
    return imul(a, pow2(k))


def ishr(a, k):
    a, k = to_int(a), to_int(k)
    if is_const(k):
        return ifd(a, C(1 << cval(k))) if cval(k) >= 0 else mk('shrx', (a, k), INT)
    return ifd(a, pow2(k))


def _runs(m):
    runs, i = [], 0
    while m >> i:
        if (m >> i) & 1:
            j = i
            while (m >> j) & 1:
                j += 1
            runs.append((i, j - i))
            i = j
        else:
            i += 1
    return runs


def iand(a, b):
    a, b = to_int(a), to_int(b)
    if is_const(a) and is_const(b):
        return C(cval(a) & cval(b))
    if is_const(a):
        a, b = b, a
    if is_const(b):
        m = cval(b)
        if m == 0:
            return ZERO
        if m < 0:
            return isub(a, iand(a, C(~m)))
        runs = _runs(m)
        if len(runs) <= 8:
            return iadd(*[imul(C(1 << s), imod(ifd(a, C(1 << s)), C(1 << k))) for s, k in runs])
    # symbolic mask 2**e - 1
    for x, y in ((a, b), (b, a)):
        p = iadd(y, ONE)
        if p.op == 'pow2':
            return mk('modp2', (x, p.args[0]), ('int', 0, None))
    if a is b:
        return a
    if a.uid > b.uid:
        a, b = b, a
    lo, hi = None, None
    l1, h1 = free(irng, a)
    l2, h2 = free(irng, b)
    if (l1 is not None and l1 >= 0) or (l2 is not None and l2 >= 0):
        lo = 0
    return mk('band', (a, b), ('int', lo, None))


def _bits_pow2_div(t):
    """largest s such that 2**s divides every coefficient of t"""
    c, d = lin(t)
    g = abs(c)
    for k in d.values():
        g = gcd(g, k)
    return (g & -g) if g else 1 << 4096


def ior(a, b):
    a, b = to_int(a), to_int(b)
    if is_const(a) and is_const(b):
        return C(cval(a) | cval(b))
    if is_const(a):
        a, b = b, a
    if is_const(b):
        m = cval(b)
        if m >= 0 and len(_runs(m)) <= 8:
            return isub(iadd(a, b), iand(a, b))
    for x, y in ((a, b), (b, a)):
        lo, hi = irng(x)
        if lo is not None and lo >= 0 and hi is not None and _bits_pow2_div(y) > hi:
            return iadd(x, y)
    if a is b:
        return a
    if a.uid > b.uid:
        a, b = b, a
    l1, _ = free(irng, a)
    l2, _ = free(irng, b)
    return mk('bor', (a, b), ('int', 0 if l1 is not None and l2 is not None and l1 >= 0 and l2 >= 0
                              else None, None))


def ixor(a, b):
    a, b = to_int(a), to_int(b)
    if is_const(a) and is_const(b):
        return C(cval(a) ^ cval(b))
    # flatten
    parts, k = {}, 0

    def add(t):
        nonlocal k
        if is_const(t):
            k ^= cval(t)
        elif t.op == 'bxor':
            for x in t.args:
                add(x)
        elif t in parts:
            del parts[t]
        else:
            parts[t] = 1
    add(a)
    add(b)
    ps = sorted(parts, key=lambda t: t.uid)
    if not ps:
        return C(k)
    if len(ps) == 1 and k >= 0 and 0 < len(_runs(k)) <= 2 and k < 256:
        return isub(iadd(ps[0], C(k)), imul(C(2), iand(ps[0], C(k))))
    if k == 0 and len(ps) == 1:
        return ps[0]
    if len(ps) > 1 and k == 0:
        # disjoint addition
        acc = ps[0]
        ok = len(ps) == 2
        if ok:
            for x, y in ((ps[0], ps[1]), (ps[1], ps[0])):
                lo, hi = irng(x)
                if lo is not None and lo >= 0 and hi is not None and _bits_pow2_div(y) > hi:
                    return iadd(x, y)
    lo = 0 if k >= 0 and all((free(irng, p)[0] or -1) >= 0 or free(irng, p)[0] == 0 for p in ps) else None
    return mk('bxor', tuple(ps) + ((C(k),) if k else ()), ('int', lo, None))


def iinvert(a):
    return isub(C(-1), a)


def ipow(a, b):
    a, b = to_int(a), to_int(b)
    if is_const(a) and is_const(b) and 0 <= cval(b) < 2000:
        return C(cval(a) ** cval(b))
    if is_const(a) and cval(a) >= 2 and cval(a) & (cval(a) - 1) == 0:
        return pow2(imul(C(cval(a).bit_length() - 1), b))
    if is_const(a) and cval(a) in (0, 1) and decide(ge0(b)):
        return ONE if a is ONE else mk_ite(eq0(b), ONE, ZERO)
    if is_const(a) and not is_const(b):
        c, d = lin(b)
        if 0 < c < 500 and decide(ge0(from_lin(0, d))):
            return imul(C(cval(a) ** c), ipow(a, from_lin(0, d)))
    if is_const(b) and 0 <= cval(b) <= 4:
        r = ONE
        for _ in range(cval(b)):
            r = imul(r, a)
        return r
    lo, _ = free(irng, a)
    return mk('pow', (a, b), ('int', None if lo is None or lo < 0 else 1 if lo > 0 else 0, None))


def ndig(c, v):
    """number of digits of v >= 0 in base c (0 for v == 0)"""
    if is_const(v):
        n, x = 0, cval(v)
        while x > 0:
            n, x = n + 1, x // c
        return C(n)
    return mk('ndig', (c, v), ('int', 1 if (free(irng, v)[0] or 0) > 0 else 0, None))


def fold(n, i, mus, inits, bodies):
    """first component of the state after n simultaneous steps mus := bodies(i, mus)"""
    if is_const(n) and cval(n) <= 0:
        return inits[0]
    if is_const(n) and cval(n) <= 16:
        st = tuple(inits)
        for j in range(cval(n)):
            m = dict(zip(mus, st))
            m[i] = C(j)
            st = tuple([subst(b, m) for b in bodies])
        return st[0]
    # canonical order of the state: depth first from the first component
    order, seen = [], set()
    pos = {m: k for k, m in enumerate(mus)}

    def visit(k):
        if k in seen:
            return
        seen.add(k)
        order.append(k)
        for m in sorted((pos[x] for x in bodies[k].fv if x in pos)):
            visit(m)
    visit(0)
    mus, inits, bodies = [[x[k] for k in order] for x in (mus, inits, bodies)]
    lv = max(b.lvl for b in bodies) + 1
    for _ in range(3):
        m = {i: bv(lv, 0, ('int', 0, None))}
        for k, mu in enumerate(mus):
            m[mu] = bv(lv, k + 1, mu.ty)
        bs = tuple([subst(b, m) for b in bodies])
        l2 = max(b.lvl for b in bs) + 1
        if l2 == lv:
            break
        lv = l2
    return mk('fold', (lv, n, tuple(inits), bs), mus[0].ty)


def _rb_fold(t, a):
    lv, n, inits, bs = a
    i = fresh('i', ('int', 0, None))
    m = {bv(lv, 0, ('int', 0, None)): i}
    tys = [None] * len(bs)
    acc = set()
    for b in bs:
        _collect_bv(b, acc)
    for x in acc:
        if x.args[0] == lv and x.args[1]:
            tys[x.args[1] - 1] = x.ty
    if tys[0] is None:
        tys[0] = t.ty
    mus = []
    for k, ty in enumerate(tys):
        mu = fresh('mu', ty or ANY)
        mus.append(mu)
        if ty is not None:
            m[bv(lv, k + 1, ty)] = mu
    return fold(n, i, mus, list(inits), [subst(b, m) for b in bs])


# ----------------------------------------------------------------------------- booleans
def mk_not(t):
    if t.op == 'const':
        return C(not t.args[0])
    if t.op == 'not':
        return t.args[0]
    if t.op == 'ite':
        a, x, y = t.args
        return mk_ite(a, mk_not(x), mk_not(y))
    return mk('not', (t,), BOOL)


def _quot(c, d):
    """c + k*x - k*mod(x, q)  as  (c, k*q, x // q), or None"""
    for m, k in d.items():
        if len(m) == 1 and m[0].op == 'mod' and len(d) > 1:
            x, q = m[0].args
            cx, dx = lin(x)
            if len(dx) == len(d) - 1 and all(d.get(mm) == -k * kk for mm, kk in dx.items()):
                F = ifd(x, C(q))
                if F.op == 'fd':
                    return c + k * cx, -k * q, F
    return None


def ge0(t):
    """literal for t >= 0"""
    c, d = lin(t)
    if not d:
        return C(c >= 0)
    q = _quot(c, d)
    if q:
        c, k, F = q
        # k*F + c >= 0
        return ge0(isub(F, C(-(c // k)))) if k > 0 else ge0(isub(C(c // -k), F))
    lo, hi = irng(from_lin(c, d))
    if lo is not None and lo >= 0:
        return TRUE
    if hi is not None and hi < 0:
        return FALSE
    if len(d) == 1:
        (m, k), = d.items()
        if len(m) == 1 and m[0].op == 'fd':
            # k*(x // n) + c >= 0
            x, n = m[0].args
            return ge0(isub(x, C(n * -(c // k)))) if k > 0 else ge0(isub(C(n * (c // -k + 1) - 1), x))
        if len(m) == 1 and m[0].op == 'bitlen':
            x = m[0].args[0]
            l, _ = irng(x)
            if l is not None and l >= 0:
                t = -(c // k) if k > 0 else c // -k
                if t < 5000:
                    return ge0(isub(x, C(1 << (t - 1)))) if k > 0 else ge0(isub(C((1 << t) - 1), x))
    g = 0
    for k in d.values():
        g = gcd(g, k)
    if g > 1:
        c //= g
        d = {m: k // g for m, k in d.items()}
    ms = sorted(d.items(), key=lambda x: _skey(x[0]))
    if ms[0][1] < 0:
        # t >= 0  <=>  not (-t-1 >= 0)
        return mk_not(mk('ge0', (from_lin(-c - 1, {m: -k for m, k in d.items()}),), BOOL))
    return mk('ge0', (from_lin(c, d),), BOOL)


def lt(a, b):
    return ge0(isub(isub(b, a), ONE))


def le(a, b):
    return ge0(isub(b, a))


def eq0(t):
    c, d = lin(t)
    if not d:
        return C(c == 0)
    q = _quot(c, d)
    if q:
        c, k, F = q
        return FALSE if c % k else eq0(iadd(F, C(c // k)))
    lo, hi = irng(from_lin(c, d))
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return FALSE
    g = 0
    for k in d.values():
        g = gcd(g, k)
    if c % g:
        return FALSE
    c //= g
    d = {m: k // g for m, k in d.items()}
    ms = sorted(d.items(), key=lambda x: _skey(x[0]))
    if ms[0][1] < 0:
        c = -c
        d = {m: -k for m, k in d.items()}
    # boundary forms:  x == lo  with x >= lo becomes an ordering atom
    p = from_lin(c, d)
    lo, hi = irng(p)
    if lo == 0:
        return mk_not(ge0(isub(p, ONE)))
    if hi == 0:
        return ge0(p)
    return mk('eq0', (p,), BOOL)


def top(t):
    return t.args[0] if t.op == 'ite' else (t if t.ty == BOOL and t.op not in ('const', 'not') else
                                            (t.args[0] if t.op == 'not' else None))


def mk_ite(a, x, y):
    if a.op == 'const':
        return x if a.args[0] else y
    if x is y:
        return x
    if a.op == 'not':
        return mk_ite(a.args[0], y, x)
    if a.op == 'ite':
        b, p, q = a.args
        return mk_ite(b, mk_ite(p, x, y), mk_ite(q, x, y))
    # order
    tops = [t for t in (_itop(x), _itop(y)) if t is not None]
    m = min([a] + tops, key=lambda t: t.uid)
    if m is not a:
        return _node(m, mk_ite(a, _cof(x, m, True), _cof(y, m, True)),
                     mk_ite(a, _cof(x, m, False), _cof(y, m, False)))
    return _node(a, _cof(x, a, True), _cof(y, a, False))


def _itop(t):
    if t.op == 'ite':
        return t.args[0]
    if t.ty == BOOL:
        if t.op == 'not':
            return t.args[0]
        if t.op != 'const':
            return t
    return None


def _cof(t, a, v):
    if t is a:
        return C(v)
    if t.op == 'not' and t.args[0] is a:
        return C(not v)
    if t.op == 'ite' and t.args[0] is a:
        return t.args[1] if v else t.args[2]
    return t


def _related(a, v, b):
    """the truth of ordering atom b when ordering atom a (over the same linear form) has truth v, or None"""
    if b.op not in ('ge0', 'eq0'):
        return None
    ca, da = lin(a.args[0])
    cb, db = lin(b.args[0])
    if len(da) != len(db) or da != db:
        return None
    # d = da:  interval of d under a
    if a.op == 'ge0':
        lo, hi = (-ca, None) if v else (None, -ca - 1)
    elif v:
        lo = hi = -ca
    else:
        if b.op == 'eq0' and ca == cb:
            return False
        return None
    t = -cb
    if b.op == 'ge0':
        if lo is not None and lo >= t:
            return True
        if hi is not None and hi < t:
            return False
    else:
        if lo is not None and lo > t or hi is not None and hi < t:
            return False
        if lo == hi == t:
            return True
    return None


_prune = {}


def prune(t, a, v):
    """t simplified by ordering atom a having truth v (decision nodes and literals only)"""
    if t.op == 'ite':
        k = (t, a, v)
        r = _prune.get(k)
        if r is None:
            b, x, y = t.args
            d = v if b is a else _related(a, v, b)
            if d is not None:
                r = prune(x if d else y, a, v)
            else:
                x2, y2 = prune(x, a, v), prune(y, a, v)
                r = t if x2 is x and y2 is y else _node(b, x2, y2)
            _prune[k] = r
        return r
    if t.ty == BOOL and t.op != 'const':
        b, pol = lits_of(t)
        d = v if b is a else _related(a, v, b)
        if d is not None:
            return C(d == pol)
    return t


def _node(a, x, y):
    if x is y:
        return x
    if a.op in ('ge0', 'eq0'):
        x2, y2 = prune(x, a, True), prune(y, a, False)
        if x2 is y2:
            return x2
        if prune(x, a, False) is y2:
            return x
        if prune(y, a, True) is x2:
            return y
        x, y = x2, y2
    if x is TRUE and y is FALSE:
        return a
    if x is FALSE and y is TRUE:
        return mk_not(a)
    return mk('ite', (a, x, y), join_ty(x.ty, y.ty))


def join_ty(a, b):
    if a == b:
        return a
    if a[0] == b[0]:
        k = a[0]
        if k == 'int':
            return ('int', None if a[1] is None or b[1] is None else min(a[1], b[1]),
                    None if a[2] is None or b[2] is None else max(a[2], b[2]))
        if k in ('bytes', 'str'):
            return (k, None)
        if k == 'seq':
            return ('seq', join_ty(a[1], b[1]))
        if k == 'opt':
            return ('opt', join_ty(a[1], b[1]))
    if a[0] == 'none' and b[0] in ('obj', 'bytes', 'str', 'int', 'any', 'opt'):
        return b if b[0] == 'opt' else ('opt', b)
    if b[0] == 'none':
        return join_ty(b, a)
    if a[0] == 'opt' and a[1] == b:
        return a
    if b[0] == 'opt' and b[1] == a:
        return b
    return ANY


def mk_and(*ts):
    r = TRUE
    for t in reversed(ts):
        r = mk_ite(t, r, FALSE)
    return r


def mk_or(*ts):
    r = FALSE
    for t in reversed(ts):
        r = mk_ite(t, TRUE, r)
    return r


def lits_of(t):
    """a literal -> (atom, polarity)"""
    return (t.args[0], False) if t.op == 'not' else (t, True)


DISJOINT = {'int': 'number', 'bool': 'number', 'float': 'number', 'bytes': 'bytes', 'str': 'str',
            'none': 'none', 'seq': 'seq', 'tuple': 'tuple', 'fn': 'fn'}


_DEC, _HEX = set('0123456789-'), set('0123456789abcdef')


def alphabet(t):
    """a set of characters every character of the string belongs to, or None"""
    if t.op == 'const':
        return set(cval(t)) if t.ty[0] == 'str' else None
    if t.op == 'dec':
        return _DEC
    if t.op == 'hex':
        return _HEX
    if t.op in ('sl', 'rev', 'rep', 'ch'):
        return alphabet(t.args[0])
    if t.op == 'cat':
        r = set()
        for p in t.args[1:]:
            q = alphabet(p)
            if q is None:
                return None
            r |= q
        return r
    return None


def mk_eq(a, b):
    if a is b and a.ty[0] != 'float':
        return TRUE
    if is_const(a) and is_const(b):
        return C(cval(a) == cval(b))
    if a.op == 'ite':
        return mk_ite(a.args[0], mk_eq(a.args[1], b), mk_eq(a.args[2], b))
    if b.op == 'ite':
        return mk_ite(b.args[0], mk_eq(a, b.args[1]), mk_eq(a, b.args[2]))
    if a.op == 'natout' and b.op == 'natout' and a.args[0] == b.args[0] == 'ec_pubkey_serialize' and \
            a.args[2] == b.args[2] != 33:
        # the two serializations of a point stand for each other
        return mk_eq(mk('natout', (a.args[0], a.args[1], 33), ('bytes', 33)),
                     mk('natout', (b.args[0], b.args[1], 33), ('bytes', 33)))
    ka, kb = a.ty[0], b.ty[0]
    if is_int(a) and is_int(b):
        return eq0(isub(a, b))
    if ka == 'str' and kb == 'str' and (is_const(a) or is_const(b)):
        c, o = (a, b) if is_const(a) else (b, a)
        al = alphabet(o)
        if al is not None and not set(cval(c)) <= al:
            return FALSE
        if o.op == 'sl' and len(cval(c)) == 1 and length(o) is ONE:
            return mk_eq(c, elem(o.args[0], o.args[1]))
        if cval(c) == '-' and (o.op == 'ch' and o.args[1] is ZERO or o.op == 'sl' and o.args[1] is ZERO and
                               o.args[2] is ONE) and o.args[0].op == 'dec':
            return mk_not(ge0(o.args[0].args[0]))
    if ka == 'bool' and kb == 'bool':
        if is_const(a):
            a, b = b, a
        if is_const(b):
            return a if cval(b) else mk_not(a)
    if ka == 'bool' and is_int(b) and is_const(b):
        return a if cval(b) == 1 else (mk_not(a) if cval(b) == 0 else FALSE)
    if kb == 'bool' and is_int(a):
        return mk_eq(b, a)
    da, db = DISJOINT.get(ka), DISJOINT.get(kb)
    if da and db and da != db:
        return FALSE
    if ka == 'none' and kb == 'obj' or kb == 'none' and ka == 'obj':
        return FALSE
    if a.op == 'tuple' and b.op == 'tuple' and a.args[0].op == 'items' and b.args[0].op == 'items':
        x, y = a.args[0].args, b.args[0].args
        if len(x) != len(y):
            return FALSE
        return mk_and(*[mk_eq(p, q) for p, q in zip(x, y)])
    if ka in ('bytes', 'str') and ka == kb:
        la, lb = length(a), length(b)
        d = eq0(isub(la, lb))
        if d is FALSE:
            return FALSE
        if is_const(la) and cval(la) == 0:
            return d
        if is_const(lb) and cval(lb) == 0:
            return d
        if ka == 'bytes' and d is TRUE and is_const(la) and cval(la) == 1:
            return eq0(isub(elem(a, ZERO), elem(b, ZERO)))
        # strip common constant-length prefixes / suffixes
        if (a.op == 'cat' or b.op == 'cat'):
            r = _eq_cat(a, b)
            if r is not None:
                return r
        if a.op == 'tob' and b.op == 'tob' and a.args[:2] == b.args[:2]:
            pass
    if a.uid > b.uid:
        a, b = b, a
    return mk('eq', (a, b), BOOL)


def _eq_cat(a, b):
    pa, pb = list(cat_parts(a)), list(cat_parts(b))
    changed = False
    while pa and pb:
        if pa[0] is pb[0]:
            pa.pop(0), pb.pop(0)
            changed = True
            continue
        x, y = pa[0], pb[0]
        if is_const(x) and is_const(y):
            n = min(len(cval(x)), len(cval(y)))
            if cval(x)[:n] != cval(y)[:n]:
                return FALSE
            pa[0:1] = [C(cval(x)[n:])] if len(cval(x)) > n else []
            pb[0:1] = [C(cval(y)[n:])] if len(cval(y)) > n else []
            changed = True
            continue
        break
    while pa and pb:
        if pa[-1] is pb[-1]:
            pa.pop(), pb.pop()
            changed = True
            continue
        x, y = pa[-1], pb[-1]
        if is_const(x) and is_const(y):
            n = min(len(cval(x)), len(cval(y)))
            if cval(x)[-n:] != cval(y)[-n:]:
                return FALSE
            pa[-1:] = [C(cval(x)[:-n])] if len(cval(x)) > n else []
            pb[-1:] = [C(cval(y)[:-n])] if len(cval(y)) > n else []
            changed = True
            continue
        break
    kind = kind_of(a)
    if changed:
        return mk_eq(cat(kind, pa), cat(kind, pb))
    for x, y in ((a, b), (b, a)):
        if x.op == 'const' and y.op == 'cat':
            v = cval(x)
            for j in (1, -1):
                n = length(y.args[j])
                if is_const(n):
                    n = cval(n)
                    if n > len(v):
                        return FALSE
                    if j == 1:
                        return mk_and(mk_eq(y.args[1], C(v[:n])), mk_eq(cat(kind, y.args[2:]), C(v[n:])))
                    m = len(v) - n
                    return mk_and(mk_eq(cat(kind, y.args[1:-1]), C(v[:m])), mk_eq(y.args[-1], C(v[m:])))
    return None


# ----------------------------------------------------------------------------- sequences
EMPTYOF = {'b': None, 's': None, 'q': None}


def kind_of(t):
    k = t.ty[0]
    return {'bytes': 'b', 'str': 's', 'seq': 'q', 'opt': None}.get(k)


def empty(kind):
    return C(b'') if kind == 'b' else C('') if kind == 's' else items(())


def items(vs):
    ty = None
    for v in vs:
        ty = v.ty if ty is None else join_ty(ty, v.ty)
    return mk('items', tuple(vs), ('seq', ty or ANY))


def tup(vs):
    return mk('tuple', (items(vs),), ('tuple',))


def tup_seq(seq):
    return mk('tuple', (seq,), ('tuple',))


def cat_parts(t):
    return t.args[1:] if t.op == 'cat' else (t,)


def provable(lit):
    if lit is TRUE:
        return True
    if lit is FALSE:
        return False
    f = CTX.facts
    if f is not None:
        return f.implies(lit) is True
    return False


def decide(lit):
    if lit is TRUE:
        return True
    if lit is FALSE:
        return False
    f = CTX.facts
    return f.implies(lit) if f is not None else None


def cat(kind, parts):
    out = []
    for p in parts:
        for q in cat_parts(p):
            if q.op == 'const' and not q.args[0] and kind != 'q':
                continue
            if q.op == 'items' and not q.args:
                continue
            if out:
                m = _merge(kind, out[-1], q)
                if m is not None:
                    out[-1] = m
                    continue
            out.append(q)
    if not out:
        return empty(kind)
    if len(out) == 1:
        return out[0]
    if kind == 'q':
        ty = out[0].ty
        for p in out[1:]:
            ty = join_ty(ty, p.ty)
    else:
        n = 0
        for p in out:
            ln = p.ty[1] if p.ty[0] in ('bytes', 'str') else None
            n = None if n is None or ln is None else n + ln
        ty = ('bytes' if kind == 'b' else 'str', n)
    return mk('cat', (kind,) + tuple(out), ty)


def _merge(kind, a, b):
    if a.op == 'const' and b.op == 'const':
        return C(a.args[0] + b.args[0])
    if a.op == 'items' and b.op == 'items':
        return items(a.args + b.args)
    if a.op == 'sl' and b.op == 'sl' and a.args[0] is b.args[0]:
        x, l1, h1 = a.args
        _, l2, h2 = b.args
        if h1 is l2 and provable(le(l1, h1)) and provable(le(h1, h2)):
            return sl(x, l1, h2)
    if a.op == 'hex' and b.op == 'hex':
        return hexof(cat('b', [a.args[0], b.args[0]]))
    if kind == 'b':
        sa, sb = _revspan(a), _revspan(b)
        if sa and sb and sa[0] is sb[0] and sa[1] is sb[2]:
            return rev(sl(sa[0], sb[1], sa[2]))
    if a.op == 'rep' and a.args[0] is b:
        return rep(b, iadd(a.args[1], ONE))
    if b.op == 'rep' and b.args[0] is a:
        return rep(a, iadd(b.args[1], ONE))
    if a.op == 'rep' and b.op == 'rep' and a.args[0] is b.args[0]:
        return rep(a.args[0], iadd(a.args[1], b.args[1]))
    return None


def hexof(b):
    if is_const(b):
        return C(bytes(cval(b)).hex())
    n = free_len(b)
    return mk('hex', (b,), ('str', 2 * n if n is not None else None))


def _isbytelen(n, v):
    for w in walk(n):
        if w.op == 'bitlen' and w.args[0] is v:
            return n is ifd(iadd(w, C(7)), C(8)) or n is iadd(ifd(w, C(8)), ONE)
    return False


def expand_ints(t):
    """integers read from short byte strings as sums of bytes (a second normal form, tried on disagreement)"""
    m = {}
    for w in walk(t):
        if w.op == 'fromb' and not has_any_bv(w):
            n = length(w.args[2])
            if not is_const(n) and CTX.facts is not None:
                k = CTX.facts.value_of(n)
                n = n if k is None else C(k)
            if is_const(n) and 1 <= cval(n) <= 8:
                e, signed, b = w.args
                n = cval(n)
                r = iadd(*[imul(C(1 << (8 * (i if e == 'little' else n - 1 - i))), elem(b, C(i))) for i in range(n)])
                if signed:
                    r = isub(r, imul(C(1 << (8 * n)), ifd(elem(b, C(n - 1 if e == 'little' else 0)), C(128))))
                m[w] = r
    return subst(t, m) if m else t


def has_any_bv(t):
    return any(s.op == 'bv' for s in walk(t))


def _revspan(t):
    if t.op == 'rev':
        b = t.args[0]
        if b.op == 'sl':
            return b.args
        return b, ZERO, length(b)
    if t.op == 'sl' and isub(t.args[2], t.args[1]) is ONE:
        return t.args
    return None


MAXLEN = 2 ** 63 - 1
LENS = {'sha256': 32, 'sha512': 64, 'sha1': 20, 'ripemd160': 20, 'md5': 16}


def length(t):
    k = t.ty[0]
    if k in ('bytes', 'str') and t.ty[1] is not None:
        return C(t.ty[1])
    op = t.op
    if op == 'cat':
        return iadd(*[length(p) for p in t.args[1:]])
    if op == 'items':
        return C(len(t.args))
    if op == 'tuple':
        return length(t.args[0])
    if op == 'tob':
        return t.args[1]
    if op == 'tab':
        return t.args[1]
    if op == 'rep':
        return imul(length(t.args[0]), t.args[1])
    if op in ('rev', 'bytesof'):
        return length(t.args[0])
    if op == 'aes':
        return length(t.args[3])
    if op == 'hex':
        return imul(C(2), length(t.args[0]))
    if op == 'join':
        q = t.args[1]
        if q.op == 'tab':
            lv, n, body = q.args
            return ssum(_tab_raw(n, body, lv, length))
        if q.op == 'map1':
            pass
    if op == 'ite':
        a, x, y = t.args
        lx, ly = length(x), length(y)
        return mk_ite(a, lx, ly)
    if op == 'sl':
        b, lo, hi = t.args
        if provable(ge0(lo)) and provable(le(lo, hi)) and provable(le(hi, length(b))):
            return isub(hi, lo)
        l, h = free(lambda: irng(isub(hi, lo)))
        hb = free(lambda: irng(length(b)))[1]
        if h is None or (hb is not None and hb < h and False):
            h = hb
        return mk('len', (t,), ('int', 0, MAXLEN if h is None or h > MAXLEN else max(h, 0)))
    if op == 'res' and t.args and isinstance(t.args[-1], T) and k == 'bytes':
        pass
    return mk('len', (t,), ('int', 1 if op == 'dec' else 0, MAXLEN))


def _tab_raw(n, body, lv, fn):
    """tab(n, fn(body)) keeping the bound variable of an existing tab body"""
    i = fresh('i', ('int', 0, None))
    b = subst(body, {bv(lv, 0, ('int', 0, None)): i})
    return tab(n, i, fn(b))


def bv(level, k, ty):
    return mk('bv', (level, k), ty)


def _mul1(t):
    return t


def half(x):
    """x / 2 when that is evidently whole"""
    c, d = lin(x)
    if c % 2 or any(k % 2 for k in d.values()):
        return None
    return from_lin(c // 2, {m: k // 2 for m, k in d.items()})


def sl(b, lo, hi):
    """b[max(lo,0):max(hi,0)]"""
    kind = kind_of(b)
    n = length(b)
    if lo is not ZERO and decide(le(lo, ZERO)):
        lo = ZERO
    if hi is not n and decide(le(n, hi)):
        hi = n
    if lo is ZERO and hi is n:
        return b
    if CTX.facts is not None and not is_const(isub(hi, lo)):
        w = CTX.facts.value_of(isub(hi, lo))
        if w is not None:
            hi = iadd(lo, C(w))
    if decide(le(hi, lo)) or decide(le(hi, ZERO)) or decide(le(n, lo)):
        return empty(kind or 'b')
    if is_const(lo) and is_const(hi):
        l, h = max(cval(lo), 0), max(cval(hi), 0)
        if b.op == 'const':
            return C(cval(b)[l:h])
        if b.op == 'items':
            return items(b.args[l:h])
    if b.op == 'sl':
        x, l1, h1 = b.args
        if decide(ge0(lo)) and decide(ge0(l1)):
            nl = iadd(l1, lo)
            nh = iadd(l1, hi)
            d = decide(le(nh, h1))
            if d:
                return sl(x, nl, nh)
            if d is False or hi is n:
                return sl(x, nl, h1)
    if b.op == 'cat':
        parts = b.args[1:]
        # drop leading parts before lo, trailing after hi
        off = ZERO
        start = None
        i = 0
        ok = True
        while i < len(parts):
            ln = length(parts[i])
            end = iadd(off, ln)
            d = decide(le(end, lo))
            if d:
                off = end
                i += 1
                continue
            break
        if True:
            rest = parts[i:]
            j = len(rest)
            end = n
            while j > 0:
                ln = length(rest[j - 1])
                st = isub(end, ln)
                d = decide(le(hi, st))
                if d:
                    end = st
                    j -= 1
                    continue
                break
            rest = rest[:j]
            nlo = isub(lo, off)
            nhi = isub(hi, off)
            if len(rest) == 1:
                return sl(rest[0], nlo, nhi)
            if len(rest) < len(parts):
                return sl(cat(kind, rest), nlo, nhi)
            # cut inside first / last part
            f, l = rest[0], rest[-1]
            lf = length(f)
            if decide(le(nlo, lf)) and decide(le(lf, nhi)) and nlo is not ZERO:
                return cat(kind, [sl(f, nlo, lf), sl(cat(kind, rest[1:]), ZERO, isub(nhi, lf))])
            before = isub(end, length(l))
            if hi is not n and decide(le(before, hi)) and decide(le(lo, before)):
                return cat(kind, [sl(cat(kind, rest[:-1]), nlo, isub(before, off)),
                                  sl(l, ZERO, isub(hi, before))])
    if b.op == 'tob' and is_const(b.args[1]) and is_const(lo) and is_const(hi):
        e, w, v = b.args
        l, h, w = cval(lo), min(cval(hi), cval(w)), cval(w)
        lo_rng, hi_rng = irng(v)
        if e == 'little':
            return tob(e, C(h - l), ifd(v, C(1 << (8 * l)))) if h - l < w else b
        return tob(e, C(h - l), ifd(v, C(1 << (8 * (w - h)))))
    if b.op == 'hex':
        l, h = half(lo), half(hi)
        if l is not None and h is not None:
            return hexof(sl(b.args[0], l, h))
    if b.op == 'dec' and lo is ONE and hi is n and decide(ge0(b.args[0])) is False:
        return mk('dec', (ineg(b.args[0]),), STR)
    if b.op == 'rev' and is_const(n):
        return rev(sl(b.args[0], isub(n, hi), isub(n, lo)))
    if b.op == 'tab':
        lv, m, body = b.args
        if decide(ge0(lo)) and decide(le(hi, m)) and decide(le(lo, hi)):
            i = fresh('i', ('int', 0, None))
            return tab(isub(hi, lo), i, subst(body, {bv(lv, 0, ('int', 0, None)): iadd(lo, i)}))
    if b.op == 'rep' and is_const(length(b.args[0])) and cval(length(b.args[0])) == 1 \
            and decide(ge0(lo)) and decide(le(hi, n)) and decide(le(lo, hi)):
        return rep(b.args[0], isub(hi, lo))
    ty = b.ty
    if kind in ('b', 's'):
        ty = (b.ty[0], _free_width(b, lo, hi))
    return mk('sl', (b, lo, hi), ty)


def _free_width(b, lo, hi):
    """the length of b[lo:hi] when it is known without path facts (terms are shared between paths)"""
    f, CTX.facts = CTX.facts, None
    try:
        d = isub(hi, lo)
        return cval(d) if is_const(d) and ge0(lo) is TRUE and le(hi, length(b)) is TRUE else None
    finally:
        CTX.facts = f


def elem(b, i):
    """b[i] for 0 <= i < len(b) (validity checked by the caller)"""
    k = kind_of(b)
    if b.op == 'tuple':
        return elem(b.args[0], i)
    if b.op == 'const' and is_const(i) and 0 <= cval(i) < len(cval(b)):
        v = cval(b)[cval(i)]
        return C(v)
    if b.op == 'items' and is_const(i) and 0 <= cval(i) < len(b.args):
        return b.args[cval(i)]
    if b.op == 'cat':
        off = ZERO
        for p in b.args[1:]:
            ln = length(p)
            end = iadd(off, ln)
            d = decide(lt(i, end))
            if d:
                return elem(p, isub(i, off))
            if d is None:
                break
            off = end
    if b.op == 'sl':
        x, lo, hi = b.args
        if decide(ge0(lo)):
            return elem(x, iadd(lo, i))
    if b.op == 'rev':
        return elem(b.args[0], isub(isub(length(b), ONE), i))
    if b.op == 'rep' and is_const(length(b.args[0])) and cval(length(b.args[0])) == 1:
        return elem(b.args[0], ZERO)
    if b.op == 'tab':
        lv, n, body = b.args
        return subst(body, {bv(lv, 0, ('int', 0, None)): i})
    if b.op == 'bytesof':
        return elem(b.args[0], i)
    if b.op == 'ite':
        a, x, y = b.args
        return mk_ite(a, elem(x, i), elem(y, i))
    if b.op == 'tob' and is_const(i) and (is_const(b.args[1]) or b.args[0] == 'little' and cval(i) == 0):
        e, w, v = b.args
        j = cval(i) if e == 'little' else cval(w) - 1 - cval(i)
        if 0 <= j <= 128:
            return imod(ifd(v, C(1 << (8 * j))), C(256))
    if k == 'b':
        return mk('byte', (b, i), ('int', 0, 255))
    if k == 's':
        return mk('ch', (b, i), ('str', 1))
    ety = b.ty[1] if b.ty[0] == 'seq' else ANY
    return mk('item', (b, i), ety)


def tob(endian, size, v):
    """integer v (assumed in range modulo 2**(8*size)) as `size` bytes"""
    v = to_int(v)
    if not is_const(size):
        l, h = irng(size)
        if l is not None and l == h:
            size = C(l)
    if is_const(size):
        n = cval(size)
        if n == 0:
            return C(b'')
        if is_const(v):
            return C((cval(v) % (1 << (8 * n))).to_bytes(n, endian))
        if n == 1:
            endian = 'little'
            if v.op == 'byte':
                return sl(v.args[0], v.args[1], iadd(v.args[1], ONE))
        if v.op == 'mod' and v.args[1] % (1 << (8 * n)) == 0:
            v = v.args[0]
    if v.op == 'fromb':
        e2, signed, b = v.args
        if length(b) is size:
            return b if e2 == endian else rev(b)
    return mk('tob', (endian, size, v), ('bytes', cval(size) if is_const(size) else None))


def fromb(endian, signed, b):
    n = length(b)
    if b.op == 'const':
        return C(int.from_bytes(cval(b), endian, signed=signed))
    if is_const(n):
        w = cval(n)
        if w == 0:
            return ZERO
        if w == 1 and not signed:
            return elem(b, ZERO)
        if w == 1:
            endian = 'little'
    if b.op == 'rev':
        return fromb('big' if endian == 'little' else 'little', signed, b.args[0])
    if b.op == 'tob' and (b.args[0] == endian or (is_const(n) and cval(n) == 1)):
        v = b.args[2]
        lo, hi = irng(v)
        if not signed and lo is not None and lo >= 0:
            if _isbytelen(n, v):
                return v
        if is_const(n):
            w = 8 * cval(n)
            if signed:
                if lo is not None and hi is not None and lo >= -(1 << (w - 1)) and hi < 1 << (w - 1):
                    return v
            elif lo is not None and hi is not None and lo >= 0 and hi < 1 << w:
                return v
    # leading (big) / trailing (little) constant zero bytes vanish
    lo = hi = None
    n = free_len(b)
    if n is not None:
        w = 8 * n
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed and w else (0, (1 << w) - 1)
    elif not signed:
        lo = 0
    return mk('fromb', (endian, signed, b), ('int', lo, hi))


def rev(b):
    if b.op == 'const':
        return C(cval(b)[::-1])
    if b.op == 'rev':
        return b.args[0]
    if b.op == 'items':
        return items(b.args[::-1])
    if b.op == 'cat':
        return cat(b.args[0], [rev(p) for p in reversed(b.args[1:])])
    if b.op == 'tob':
        e, w, v = b.args
        return tob('big' if e == 'little' else 'little', w, v)
    if b.ty[0] in ('bytes', 'str') and b.ty[1] in (0, 1):
        return b
    if b.op == 'rep' and is_const(length(b.args[0])) and cval(length(b.args[0])) == 1:
        return b
    if b.op == 'tab':
        lv, n, body = b.args
        i = fresh('i', ('int', 0, None))
        return tab(n, i, subst(body, {bv(lv, 0, ('int', 0, None)): isub(isub(n, ONE), i)}))
    if b.op == 'join' and b.args[1].op == 'tab' and b.args[1].args[2].ty[0] in ('bytes', 'str') \
            and b.args[1].args[2].ty[1] == 1:
        return join(b.args[0], rev(b.args[1]))
    if b.op == 'bytesof' and b.args[0].op == 'tab':
        return bytes_of(rev(b.args[0]))
    return mk('rev', (b,), b.ty)


def rep(b, n):
    n = to_int(n)
    k = kind_of(b)
    if is_const(n):
        c = max(0, cval(n))
        if c == 0:
            return empty(k)
        if b.op == 'const' and c * len(cval(b)) <= 100000:
            return C(cval(b) * c)
        if b.op == 'items':
            return items(b.args * c)
        if c == 1:
            return b
    lb = length(b)
    if b.op == 'const' and len(set(cval(b))) == 1 and len(cval(b)) > 1:
        return rep(C(cval(b)[:1]), imul(n, C(len(cval(b)))))
    return mk('rep', (b, n), (b.ty[0], None) if k != 'q' else b.ty)


def tab(n, i, body):
    """sequence [body(i) for i in range(n)]; i a fresh symbol"""
    if is_const(n) and cval(n) <= 0:
        return items(())
    if body.op == 'item' and body.args[1] is i and i not in body.args[0].fv \
            and length(body.args[0]) is n:
        return body.args[0]
    if is_const(n) and cval(n) <= (2 if body.op == 'ite' else 16):
        return items([subst(body, {i: C(j)}) for j in range(cval(n))])
    lv = body.lvl + 1
    b = subst(body, {i: bv(lv, 0, ('int', 0, None))})
    if b.lvl + 1 != lv:
        lv2 = b.lvl + 1
        b = subst(b, {bv(lv, 0, ('int', 0, None)): bv(lv2, 0, ('int', 0, None))})
        lv = lv2
    return mk('tab', (lv, n, b), ('seq', b.ty))


def filt(n, i, pred, body):
    if pred is TRUE:
        return tab(n, i, body)
    if pred is FALSE:
        return items(())
    lv = max(body.lvl, pred.lvl) + 1
    m = {i: bv(lv, 0, ('int', 0, None))}
    return mk('filt', (lv, n, subst(pred, m), subst(body, m)), ('seq', body.ty))


def join(kind, seq, sep=None):
    if seq.op == 'tuple':
        seq = seq.args[0]
    if sep is not None and length(sep) is not ZERO:
        if seq.op == 'items':
            out = []
            for j, v in enumerate(seq.args):
                if j:
                    out.append(sep)
                out.append(v)
            return cat(kind, out)
        return mk('joinsep', (kind, sep, seq), ('bytes' if kind == 'b' else 'str', None))
    if seq.op == 'items':
        return cat(kind, seq.args)
    if seq.op == 'cat':
        return cat(kind, [join(kind, p) for p in seq.args[1:]])
    if seq.op == 'tab':
        lv, n, body = seq.args
        if body.op == 'const' or not _has_bv(body, lv):
            return rep(body, n)
        # a table of single bytes/chars of the same string
        if body.op in ('sl',) and body.args[1] is bv(lv, 0, ('int', 0, None)) \
                and isub(body.args[2], body.args[1]) is ONE and not _has_bv(body.args[0], lv):
            return sl(body.args[0], ZERO, n)
        if body.op == 'ch' and body.args[1] is bv(lv, 0, ('int', 0, None)) \
                and not _has_bv(body.args[0], lv):
            return sl(body.args[0], ZERO, n)
    if seq.op == 'rep':
        return rep(join(kind, seq.args[0]), seq.args[1])
    return mk('join', (kind, seq), ('bytes' if kind == 'b' else 'str', None))


def bytes_of(seq):
    """bytes(iterable of ints already known to be in range)"""
    if seq.op == 'tuple':
        seq = seq.args[0]
    if seq.op == 'items':
        return cat('b', [tob('little', ONE, v) for v in seq.args])
    if seq.op == 'cat':
        return cat('b', [bytes_of(p) for p in seq.args[1:]])
    if seq.op == 'tab':
        lv, n, body = seq.args
        i = bv(lv, 0, ('int', 0, None))
        if body.op == 'byte' and body.args[1] is i and not _has_bv(body.args[0], lv):
            return sl(body.args[0], ZERO, n)
        if body.op == 'byte' and not _has_bv(body.args[0], lv) \
                and iadd(body.args[1], i) is isub(n, ONE) and length(body.args[0]) is n:
            return rev(body.args[0])
        if not _has_bv(body, lv):
            return rep(tob('little', ONE, body), n)
    if seq.op == 'rep':
        return rep(bytes_of(seq.args[0]), seq.args[1])
    return mk('bytesof', (seq,), ('bytes', None))


def seq_of_bytes(b):
    """the sequence of ints / chars of a byte string / string"""
    n = length(b)
    i = fresh('i', ('int', 0, None))
    return tab(n, i, elem(b, i))


def _has_bv(t, lv):
    return bv(lv, 0, ('int', 0, None)) in subterms_bv(t)


_bvcache = {}


def subterms_bv(t):
    r = _bvcache.get(t)
    if r is None:
        acc = set()
        _collect_bv(t, acc)
        r = frozenset(acc)
        _bvcache[t] = r
    return r


def _collect_bv(a, acc):
    if isinstance(a, T):
        if a.op == 'bv':
            acc.add(a)
        elif a in _bvcache:
            acc |= _bvcache[a]
        else:
            for x in a.args:
                _collect_bv(x, acc)
    elif type(a) is tuple:
        for x in a:
            _collect_bv(x, acc)


def _descending(body, lv):
    """powers in the body decrease with the bound index"""
    i = bv(lv, 0, ('int', 0, None))
    for m, k in (lin(body)[1] if is_int(body) else {}).items():
        for a in m:
            if a.op in ('pow2', 'pow'):
                e = lin(a.args[-1])[1].get((i,), 0)
                if e:
                    return e < 0
    return False


def ssum(seq):
    if seq.op == 'tuple':
        seq = seq.args[0]
    if seq.op == 'items':
        return iadd(*seq.args) if seq.args else ZERO
    if seq.op == 'cat':
        return iadd(*[ssum(p) for p in seq.args[1:]])
    if seq.op == 'tab':
        lv, n, body = seq.args
        if _descending(body, lv):
            j = fresh('i', ('int', 0, None))
            return ssum(tab(n, j, subst(body, {bv(lv, 0, ('int', 0, None)): isub(isub(n, ONE), j)})))
        c, d = lin(body) if is_int(body) else (0, None)
        if d is not None:
            i = bv(lv, 0, ('int', 0, None))
            parts = []
            if c:
                parts.append(imul(C(c), n))
            for m, k in d.items():
                dep = [a for a in m if i in subterms_bv(a)]
                ind = [a for a in m if i not in subterms_bv(a)]
                f = C(k)
                for a in ind:
                    f = imul(f, a)
                if not dep:
                    parts.append(imul(f, n))
                    continue
                if len(dep) == 1 and dep[0] is i:
                    parts.append(imul(f, ifd(imul(n, isub(n, ONE)), C(2))))
                    continue
                b = ONE
                for a in dep:
                    b = imul(b, a)
                j = fresh('i', ('int', 0, None))
                s = tab(n, j, subst(b, {i: j}))
                lo, hi = free(irng, b)
                parts.append(imul(f, mk('sum', (s,), ('int', 0 if lo is not None and lo >= 0
                                                      else None, None))))
            return iadd(*parts) if parts else ZERO
    return mk('sum', (seq,), INT if seq.ty[1][0] == 'int' else ANY)


def zero_test(t, i):
    """b when the literal says b[i] == 0"""
    a, pol = lits_of(t)
    if a.op == 'eq0' and pol and a.args[0].op == 'byte':
        x = a.args[0]
    elif a.op == 'ge0' and not pol and a.args[0].op == 'poly' and iadd(a.args[0], ONE).op == 'byte':
        x = iadd(a.args[0], ONE)
    else:
        return None
    return x.args[0] if x.args[1] is i else None


def call_all(n, i, body):
    """all(body(i) for i in range(n)) as a literal"""
    if body is TRUE:
        return TRUE
    if body is FALSE:
        return le(n, ZERO)
    if is_const(n) and cval(n) <= 16:
        return mk_and(*[subst(body, {i: C(j)}) for j in range(cval(n))])
    z = zero_test(body, i)
    if z is not None and i not in z.fv and length(z) is n:
        return eq0(fromb('big', False, z))
    return mk('all', (tab(n, i, body),), BOOL)


# ----------------------------------------------------------------------------- substitution
def subst(t, m):
    if not m:
        return t
    hassym = all(k.op == 'sym' for k in m)
    memo = {}
    keys = frozenset(m)

    def go(t):
        r = m.get(t)
        if r is not None:
            return r
        if hassym and not (t.fv & keys):
            return t
        r = memo.get(t)
        if r is None:
            if t.op in ('const', 'sym', 'bv', 'host', 'ref'):
                r = t
            else:
                na = goa(t.args)
                r = t if na == t.args and all(x is y for x, y in zip(na, t.args)) else rebuild(t, na)
            memo[t] = r
        return r

    def goa(a):
        out = []
        for x in a:
            if isinstance(x, T):
                out.append(go(x))
            elif type(x) is tuple:
                out.append(goa(x))
            else:
                out.append(x)
        return tuple(out)
    return go(t)


def rebuild(t, a):
    op = t.op
    if op == 'poly':
        c, ms = a
        parts = [C(c)]
        for m, k in ms:
            p = C(k)
            for x in m:
                p = imul(p, x)
            parts.append(p)
        return iadd(*parts)
    fn = REBUILD.get(op)
    if fn is not None:
        return fn(t, a)
    if op in BINDERS:
        return rebind(t, a)
    return mk(op, a, t.ty)


def canonical_order(q):
    """sorting forgets the order: of a sequence and its reverse the one that prints first"""
    if q.op == 'items':
        return items(sorted(q.args, key=repr))
    if q.op == 'tab':
        r = rev(q)
        if r.op == 'tab' and repr(r) < repr(q):
            return r
    return q


def rebind(t, a):
    """re-close a binder after substitution (levels may have shrunk or grown)"""
    lv = a[0]
    inner = [0, EMPTY]
    for x in a[1:]:
        _scan(x, inner)
    # level is determined by the bound bodies only
    nl = bodies_level(t.op, a) + 1
    if nl != lv:
        mp = {}
        acc = set()
        for x in a[1:]:
            _collect_bv(x, acc)
        for b in acc:
            if b.args[0] == lv:
                mp[b] = bv(nl, b.args[1], b.ty)
        a = (nl,) + tuple(_substa(x, mp) for x in a[1:])
    return mk(t.op, a, t.ty)


def _substa(x, mp):
    if isinstance(x, T):
        return subst(x, mp)
    if type(x) is tuple:
        return tuple(_substa(y, mp) for y in x)
    return x


def bodies_level(op, a):
    if op == 'tab':
        return a[2].lvl
    if op == 'filt':
        return max(a[2].lvl, a[3].lvl)
    if op in ('lead', 'ffirst'):
        return a[2].lvl
    if op == 'fold':
        return max([0] + [x.lvl for x in a[3]])
    if op == 'wloop':
        return max([a[2].lvl] + [x.lvl for x in a[3]])
    raise KeyError(op)


def _rb_tab(t, a):
    lv, n, body = a
    i = fresh('i', ('int', 0, None))
    return tab(n, i, subst(body, {bv(lv, 0, ('int', 0, None)): i}))


def _rb_filt(t, a):
    lv, n, p, body = a
    i = fresh('i', ('int', 0, None))
    m = {bv(lv, 0, ('int', 0, None)): i}
    return filt(n, i, subst(p, m), subst(body, m))


def lead(n, i, pred):
    """number of leading indices in range(n) satisfying pred"""
    if pred is TRUE:
        return n
    if pred is FALSE or pred.op != 'const' and provable(le(n, ZERO)):
        return ZERO
    if CTX.facts is not None and CTX.facts.implies(call_all(n, i, pred)):
        return n
    lv = pred.lvl + 1
    return mk('lead', (lv, n, subst(pred, {i: bv(lv, 0, ('int', 0, None))})), ('int', 0, None))


def _rb_lead(t, a):
    lv, n, p = a
    i = fresh('i', ('int', 0, None))
    return lead(n, i, subst(p, {bv(lv, 0, ('int', 0, None)): i}))


REBUILD = {
    'fd': lambda t, a: ifd(a[0], C(a[1])),
    'mod': lambda t, a: imod(a[0], C(a[1])),
    'fdx': lambda t, a: ifd(a[0], a[1]),
    'modx': lambda t, a: imod(a[0], a[1]),
    'pow2': lambda t, a: pow2(a[0]),
    'pow': lambda t, a: ipow(a[0], a[1]),
    'band': lambda t, a: iand(a[0], a[1]),
    'bor': lambda t, a: ior(a[0], a[1]),
    'bxor': lambda t, a: _xorall(a),
    'not': lambda t, a: mk_not(a[0]),
    'ge0': lambda t, a: ge0(a[0]),
    'eq0': lambda t, a: eq0(a[0]),
    'eq': lambda t, a: mk_eq(a[0], a[1]),
    'ite': lambda t, a: mk_ite(a[0], a[1], a[2]),
    'cat': lambda t, a: cat(a[0], a[1:]),
    'items': lambda t, a: items(a),
    'len': lambda t, a: length(a[0]),
    'sl': lambda t, a: sl(a[0], a[1], a[2]),
    'byte': lambda t, a: elem(a[0], a[1]),
    'ch': lambda t, a: elem(a[0], a[1]),
    'item': lambda t, a: elem(a[0], a[1]),
    'tob': lambda t, a: tob(a[0], a[1], a[2]),
    'fromb': lambda t, a: fromb(a[0], a[1], a[2]),
    'rev': lambda t, a: rev(a[0]),
    'rep': lambda t, a: rep(a[0], a[1]),
    'join': lambda t, a: join(a[0], a[1]),
    'joinsep': lambda t, a: join(a[0], a[2], a[1]),
    'bytesof': lambda t, a: bytes_of(a[0]),
    'sum': lambda t, a: ssum(a[0]),
    'tab': _rb_tab,
    'filt': _rb_filt,
    'lead': _rb_lead,
    'ndig': lambda t, a: ndig(a[0], a[1]),
    'fold': _rb_fold,
}

REBUILD['hex'] = lambda t, a: hexof(a[0])
REBUILD['sorted'] = lambda t, a: mk('sorted', (canonical_order(a[0]),), t.ty)


def _xorall(a):
    r = ZERO
    for x in a:
        r = ixor(r, x)
    return r


def renorm(t):
    """re-normalise a term under the current facts"""
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        f = CTX.facts
        if f is not None:
            s = f.eqsub.get(t)
            if s is not None:
                memo[t] = s
                return s
            if t.ty[0] == 'int' and t in f.fixed:
                return f.fixed[t]
        if t.op in ('const', 'sym', 'bv', 'host', 'ref'):
            r = t
        elif t.op in BINDERS or t.op in ('ge0', 'eq0'):
            na = goa(t.args) if t.op not in BINDERS else t.args[:1] + goa(t.args[1:])
            r = rebuild(t, na)
        else:
            r = rebuild(t, goa(t.args))
        if t.ty == BOOL and f is not None and r.op not in ('const', 'ite'):
            v = f.implies(r)
            if v is not None:
                r = C(v)
        memo[t] = r
        return r

    def goa(a):
        return tuple([go(x) if isinstance(x, T) else goa(x) if type(x) is tuple else x for x in a])
    return go(t)


def walk(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            stack.extend(x.args)
        elif type(x) is tuple:
            stack.extend(x)


# ----------------------------------------------------------------------------- display
def show(t, d=0):
    if not isinstance(t, T):
        if type(t) is tuple:
            return '(' + ', '.join(show(x, d + 1) for x in t) + ')'
        if type(t) is int and t.bit_length() > 256:
            return hex(t)
        return repr(t) if not hasattr(t, 'name') else str(t.name)
    if d > 12:
        return '...'
    op, a = t.op, t.args
    if op == 'const':
        r = repr(a[0])
        return r if len(r) < 60 else r[:57] + '...'
    if op == 'sym':
        return str(a[0])
    if op == 'poly':
        c, ms = a
        s = []
        for m, k in ms:
            x = '*'.join(show(y, d + 1) for y in m)
            s.append(x if k == 1 else f'{k}*{x}')
        if c:
            s.append(str(c))
        return '(' + ' + '.join(s) + ')'
    if op == 'ge0':
        return f'{show(a[0], d + 1)} >= 0'
    if op == 'eq0':
        return f'{show(a[0], d + 1)} == 0'
    if op == 'eq':
        return f'{show(a[0], d + 1)} == {show(a[1], d + 1)}'
    if op == 'not':
        return f'not({show(a[0], d + 1)})'
    if op == 'attr':
        return f'{show(a[0], d + 1)}.{a[1]}'
    if op == 'bv':
        return f'β{a[0]}.{a[1]}'
    if op == 'cat':
        return '⟨' + ' ‖ '.join(show(x, d + 1) for x in a[1:]) + '⟩'
    if op == 'sl':
        return f'{show(a[0], d + 1)}[{show(a[1], d + 1)}:{show(a[2], d + 1)}]'
    if op in ('byte', 'ch', 'item'):
        return f'{show(a[0], d + 1)}[{show(a[1], d + 1)}]'
    if op == 'tob':
        return f'{a[0][0]}e{show(a[1])}({show(a[2], d + 1)})'
    if op == 'fromb':
        return f'int.{a[0]}{"s" if a[1] else ""}({show(a[2], d + 1)})'
    if op == 'len':
        return f'len({show(a[0], d + 1)})'
    if op == 'host':
        return f'<{getattr(a[0], "name", a[0])}>'
    return f'{op}(' + ', '.join(show(x, d + 1) for x in a) + ')'
