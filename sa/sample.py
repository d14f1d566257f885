"""Separation test for disagreeing normal forms (random interpretation, Gulwani and Necula).

Two terms with different normal forms need not denote different values.  Before an alarm is
raised, the two terms are *interpreted* under random valuations of their symbols that satisfy
the path facts; uninterpreted operations (hash functions, the native library, unmodelled
methods) are interpreted as random functions.  Only terms of the analysis are evaluated -
nothing of the analysed package is run.  A valuation under which the terms differ confirms the
disagreement; a disagreement never separated stays undecided and raises no alarm.
"""
import base64
import datetime
import hashlib
import random
import time
import re
import unicodedata
from .rx import accepts
from .terms import *
from . import terms as TT


class Stuck(Exception):
    pass


class Obj_(tuple):
    """an opaque value"""


def rv(v):
    return v


def mend_key(E, x):
    n = E.rng.choice((33, 65))
    return E.rng.choice((b'\2', b'\3') if n == 33 else (b'\4',)) + (x[1:n] + E.rbytes(n))[:n - 1]


def mend_der(E, x):
    n = max(len(x), E.rng.choice((8, 9, 70, 71, 72)))
    return b'0' + (x[1:] + E.rbytes(n))[:n - 1]


# what the curve library takes at all: keys of 33 and 65 bytes, DER sequences with room for two numbers
SHAPED = {'ec_pubkey_parse': (lambda b: len(b) == 33 and b[0] in (2, 3) or len(b) == 65 and b[0] in (4, 6, 7), mend_key),
          'ecdsa_signature_parse_der': (lambda b: len(b) >= 8 and b[0] == 0x30, mend_der)}


class Ev:
    def __init__(self, rng, ints, blobs, strs):
        self.rng = rng
        self.tab = {}          # leaf key -> value
        self.term = {}         # leaf key -> a term with this key
        self.ints, self.blobs, self.strs = ints, blobs, strs
        self.touched = None
        self.folds = {}
        self.virtual = frozenset()
        self.real = False
        self.fns = {}
        self.langs = {}

    # ------------------------------------------------------------ random values of a type
    def rint(self, lo=None, hi=None):
        r = self.rng
        for _ in range(20):
            k = r.random()
            if k < 0.45 and self.ints:
                v = r.choice(self.ints) + r.choice((-1, 0, 0, 0, 1))
            elif k < 0.6:
                v = r.randrange(-3, 20)
            elif k < 0.75:
                v = r.getrandbits(r.choice((4, 8, 9, 16, 31, 32, 33, 64, 128, 256)))
            elif k < 0.85:
                v = (1 << r.choice((7, 8, 15, 16, 31, 32, 63, 64, 255, 256))) + r.choice((-1, 0, 1))
            else:
                v = -r.getrandbits(r.choice((3, 8, 16, 33)))
            if (lo is None or v >= lo) and (hi is None or v <= hi):
                return v
        if lo is not None and hi is not None:
            if hi - lo > 4 and r.random() < 0.5:
                return r.choice((lo, lo + 1, hi, hi - 1))
            return r.randint(lo, hi)
        if lo is not None:
            return lo + r.randrange(0, 300)
        return (hi or 0) - r.randrange(0, 300)

    def rlen(self):
        r = self.rng
        k = r.random()
        small = [v for v in self.ints if 0 <= v <= 70000]
        if k < 0.5 and small:
            v = r.choice(small) + r.choice((-1, 0, 0, 1))
            return max(0, v)
        if k < 0.9:
            return r.randrange(0, 8)
        return r.randrange(0, 90)

    def rbytes(self, n=None):
        r = self.rng
        if n is None:
            if self.blobs and r.random() < 0.15:
                return r.choice(self.blobs)
            n = self.rlen()
        k = r.random()
        if k < 0.1:
            return bytes(n)
        if k < 0.15:
            return b'\xff' * n
        if n > 200:
            b = bytearray(r.randbytes(200) + bytes(n - 200))
        else:
            b = bytearray(r.randbytes(n))
        if b and k < 0.6:
            small = [v for v in self.ints if 0 <= v <= 255] or [0]
            for _ in range(r.randrange(1, 4)):
                b[r.randrange(len(b))] = r.choice(small)
            if r.random() < 0.4:
                b[0] = r.choice(small)
            if r.random() < 0.2:
                b[-1] = r.choice(small)
        return bytes(b)

    def rstr(self, n=None):
        r = self.rng
        if n is None:
            if self.strs and r.random() < 0.35:
                s = r.choice(self.strs)
                if r.random() < 0.3:
                    s = s + self.rstr(r.randrange(0, 3))
                return s
            n = self.rlen() if r.random() < 0.3 else r.randrange(0, 9)
        k = r.random()
        if k < 0.3:
            al = '0123456789'
        elif k < 0.55:
            al = '0123456789abcdef'
        elif k < 0.6:
            al = '0123456789ABCDEFabcdef'
        elif k < 0.85:
            al = 'abcdefghijklmnopqrstuvwxyz ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789/\'-_.:$\n'
        else:
            al = 'a1\u00b2\u212a\u00df\u0660\u3000e\u0301\U0001f600\x00é \U0001d400\uff21\u0130\u2167\ufb00\u00a8\u1e9e\u03a3\u0149'
        return ''.join(r.choice(al) for _ in range(min(n, 300))) + ('0' * (n - 300) if n > 300 else '')

    def rand(self, ty, d=0):
        k = ty[0]
        if k == 'int':
            return self.rint(ty[1], ty[2])
        if k == 'bool':
            return self.rng.random() < 0.5
        if k == 'bytes':
            return self.rbytes(ty[1])
        if k == 'str':
            return self.rstr(ty[1])
        if k == 'none':
            return None
        if k == 'float':
            return self.rng.choice((0.0, 1.0, 1.5, float(self.rng.randrange(1000)), self.rng.random()))
        if k == 'seq':
            return tuple(self.rand(ty[1], d + 1) for _ in range(self.rng.choice((0, 1, 1, 2, 2, 3, 4))))
        if k == 'opt':
            return None if self.rng.random() < 0.3 else self.rand(ty[1], d)
        if k == 'union':
            return self.rand(self.rng.choice(ty[1]), d)
        if k == 'any':
            return self.rng.choice((None, self.rint(), self.rbytes(), self.rstr(), self.rng.random() < 0.5,
                                    Obj_(('obj', 'object', self.rng.getrandbits(20)))))
        return Obj_((k,) + tuple(str(x) for x in ty[1:]) + (self.rng.getrandbits(20),))

    # ------------------------------------------------------------ leaves
    def leaf(self, key, t):
        if self.touched is not None:
            self.touched.append(key)
        if key not in self.tab:
            self.tab[key] = self.rand(t.ty)
            self.term[key] = t
        return self.tab[key]

    # ------------------------------------------------------------ evaluation
    def clear(self):
        self.memo = {}
        self.folds = {}

    def run(self, t):
        self.clear()
        self.budget = 150000
        return self.ev(t, {})

    def ev(self, t, env):
        if not isinstance(t, T):
            if type(t) is tuple:
                return tuple(self.ev(x, env) for x in t)
            return t
        op = t.op
        if op == 'const':
            return t.args[0]
        key = t
        if env:
            if op == 'bv':
                r = env.get(t.args)
                if r is None:
                    raise Stuck('bv')
                return r
            fb = freebv(t)
            if not fb:
                env = {}
            elif len(fb) <= 3:
                key = (t,) + tuple([hk(env.get(x)) for x in fb])
            else:
                key = None
        if key is not None:
            r = self.memo.get(key, self)
            if r is not self:
                return r
        self.budget -= 1
        if self.budget < 0:
            raise Stuck('budget')
        r = self.ev1(t, op, t.args, env)
        if not env:
            ty = t.ty
            if ty[0] in ('bytes', 'str'):
                if ty[1] is not None and isinstance(r, (bytes, str)) and len(r) != ty[1]:
                    raise Stuck('width')
            elif ty[0] == 'int' and type(r) is int:
                if ty[1] is not None and r < ty[1] or ty[2] is not None and r > ty[2]:
                    raise Stuck('range')
        if key is not None:
            self.memo[key] = r
        return r

    def fnapp(self, t, env):
        if t.op == 'app' and self.fns and t.args[0].op == 'sym' and t.args[0].args[0] in self.fns:
            return self.fns[t.args[0].args[0]](*[self.ev(x, env) for x in t.args[1:]])
        if t.op == 'natout' and t.args[0] == 'ec_pubkey_serialize' and t.args[2] != 33:
            # both serializations hold the x coordinate, and either decides the other
            v = self.ev(mk('natout', (t.args[0], t.args[1], 33), ('bytes', 33)), env)
            if t.args[2] != 65 or type(v) is not bytes:
                raise Stuck('serialization')
            return b'\x04' + v[1:] + hashlib.sha256(v).digest()
        a = tuple(self.ev(x, env) for x in t.args)
        if t.op == 'nat' and a[0] in SHAPED and type(a[1]) is bytes and not SHAPED[a[0]][0](a[1]):
            return 0
        return self.leaf((t.op, hk(a)), t)

    def ev1(self, t, op, a, env):
        ev = self.ev
        if op == 'bv':
            k = env.get((a[0], a[1]))
            if k is None:
                raise Stuck('bv')
            return k
        if op in ('sym', 'ref', 'host', 'poison'):
            if op == 'host':
                return Obj_(('host', getattr(a[0], 'name', str(a[0]))))
            return self.leaf((op,) + (a[0],), t)
        if op == 'poly':
            r = a[0]
            for m, k in a[1]:
                p = k
                for x in m:
                    p *= self.i(x, env)
                r += p
            return r
        if op == 'ite':
            return ev(a[1] if ev(a[0], env) else a[2], env)
        if op == 'not':
            return not ev(a[0], env)
        if op == 'ge0':
            return self.i(a[0], env) >= 0
        if op == 'eq0':
            return self.i(a[0], env) == 0
        if op == 'eq':
            x, y = ev(a[0], env), ev(a[1], env)
            return same(x, y)
        f = EVAL.get(op) or ALWAYS.get(op)
        if self.real and op in REAL:
            f = REAL[op]
        if f is not None:
            try:
                return f(self, t, a, env)
            except (ValueError, IndexError, OverflowError, ZeroDivisionError, TypeError, AttributeError, KeyError):
                return self.fnapp(t, env)
        return self.fnapp(t, env)

    def i(self, t, env):
        v = self.ev(t, env)
        if type(v) is bool:
            return int(v)
        if type(v) is not int:
            raise Stuck(f'int expected: {t.op}')
        if v.bit_length() > 300000:
            raise Stuck('huge')
        return v

    def seq(self, t, env):
        v = self.ev(t, env)
        if type(v) not in (tuple, bytes, str):
            raise Stuck('sequence expected')
        return v

    def each(self, lv, n, env):
        n = self.i(n, env)
        for j in range(n):
            if j > 5000:
                raise Stuck('long loop')
            e = dict(env)
            e[(lv, 0)] = j
            yield e


_free = {}


def freebv(t):
    """bound variables occurring free in a term, as a sorted tuple of (level, index)"""
    r = _free.get(t)
    if r is None:
        if t.op == 'bv':
            r = (t.args,)
        elif t.op in ('const', 'sym', 'ref', 'host'):
            r = ()
        else:
            acc = set()
            if t.op in TT.BINDERS:
                lv = t.args[0]
                inside, outside = [], [t.args[1]]
                for x in t.args[2:]:
                    inside.append(x)
                if t.op == 'fold':
                    outside.append(t.args[2])
                    inside = [t.args[3]]
                _freea(outside, acc)
                a2 = set()
                _freea(inside, a2)
                acc |= {x for x in a2 if x[0] != lv}
            else:
                _freea(t.args, acc)
            r = tuple(sorted(acc))
        _free[t] = r
    return r


def _freea(a, acc):
    if isinstance(a, T):
        acc.update(freebv(a))
    elif type(a) in (tuple, list):
        for x in a:
            _freea(x, acc)


def hk(v):
    """hashable, type-distinguishing key"""
    if type(v) is bool:
        return ('bool', v)
    if isinstance(v, (tuple, list)):
        return (type(v).__name__,) + tuple(hk(x) for x in v)
    if type(v) in (bytes, str) and len(v) > 200:
        return (type(v).__name__, hashlib.md5(v if type(v) is bytes else v.encode('utf8', 'surrogatepass')).digest())
    try:
        hash(v)
        return v
    except TypeError:
        return repr(v)


def same(x, y):
    if type(x) is not type(y) and {type(x), type(y)} != {int, bool}:
        return False
    return x == y


def lang(f):
    return f


def _len(E, t, a, env):
    if a[0] in E.virtual:
        n = E.leaf(lenkey(E, a[0], env), t)
        if n > 1 << 40:
            raise Stuck('huge')
        return n
    return len(E.seq(a[0], env))


def lenkey(E, x, env):
    return ('len', x.op) + tuple(hk(E.ev(y, env)) for y in x.args)


def only_lengths(ts):
    """byte strings and sequences the terms depend on through their length alone"""
    uses, seen = {}, set()

    def args(a):
        for x in a:
            if isinstance(x, T):
                yield x
            elif type(x) is tuple:
                yield from args(x)
    for t in ts:
        if isinstance(t, T):
            uses.setdefault(t, set()).add('top')
        for w in walk(t, seen):
            for x in args(w.args):
                uses.setdefault(x, set()).add(w.op)
    return frozenset(x for x, u in uses.items() if u == {'len'} and x.ty[0] in ('bytes', 'str', 'seq')
                     and (x.op == 'sym' or x.op == 'attr' or x.op == 'item' and x.args[0].op in ('sym', 'attr')
                          and uses[x.args[0]] <= {'len', 'item'}))


def _sl(E, t, a, env):
    b = E.ev(a[0], env)
    lo, hi = E.i(a[1], env), E.i(a[2], env)
    return b[max(lo, 0):max(hi, 0)]


def _elem(E, t, a, env):
    b, i = E.ev(a[0], env), E.i(a[1], env)
    if type(b) not in (bytes, str, tuple) or not 0 <= i < len(b):
        raise IndexError
    return b[i]


def _tob(E, t, a, env):
    n, v = E.i(a[1], env), E.i(a[2], env)
    if n > 100000:
        raise Stuck('huge')
    return (v % (1 << (8 * n))).to_bytes(n, a[0])


def _cat(E, t, a, env):
    kind = a[0]
    r = b'' if kind == 'b' else '' if kind == 's' else ()
    for p in a[1:]:
        v = E.ev(p, env)
        if type(v) is not type(r) or isinstance(v, Obj_):
            raise Stuck('cat')
        r += v
    if len(r) > 400000:
        raise Stuck('huge')
    return r


def _rep(E, t, a, env):
    b, n = E.ev(a[0], env), E.i(a[1], env)
    if len(b) * n > 200000:
        raise Stuck('huge')
    return b * n


def _join(E, t, a, env):
    q = E.seq(a[1], env)
    e = b'' if a[0] == 'b' else ''
    return e.join(q)


def _joinsep(E, t, a, env):
    return E.ev(a[1], env).join(E.seq(a[2], env))


def _all(E, t, a, env):
    q = a[0]
    if q.op == 'tab':
        lv, n, b = q.args
        return all(E.ev(b, e) for e in E.each(lv, n, env))
    return all(E.seq(q, env))


def _tab(E, t, a, env):
    return tuple(E.ev(a[2], e) for e in E.each(a[0], a[1], env))


def _filt(E, t, a, env):
    return tuple(E.ev(a[3], e) for e in E.each(a[0], a[1], env) if E.ev(a[2], e))


def _lead(E, t, a, env):
    k = 0
    for e in E.each(a[0], a[1], env):
        if not E.ev(a[2], e):
            break
        k += 1
    return k


def _ndig(E, t, a, env):
    n, v = 0, E.i(a[1], env)
    while v > 0:
        n, v = n + 1, v // a[0]
    return n


def _fold(E, t, a, env):
    lv, n, inits, bodies = a
    n = E.i(n, env)
    if n > 5000:
        raise Stuck('long loop')
    outer = _outer.get(t)
    if outer is None:
        acc = set()
        TT._collect_bv((inits, bodies), acc)
        outer = _outer[t] = tuple(sorted({x.args for x in acc if x.args[0] != lv}))
    key = (inits, bodies, tuple([hk(env.get(x)) for x in outer]))
    states = E.folds.get(key)
    if states is None:
        states = E.folds[key] = [tuple([E.ev(x, env) for x in inits])]
    while len(states) <= n:
        e = dict(env)
        e[(lv, 0)] = len(states) - 1
        for k, x in enumerate(states[-1]):
            e[(lv, k + 1)] = x
        states.append(tuple([E.ev(b, e) for b in bodies]))
    return states[max(n, 0)][0]


_outer = {}


def _flat(E, t, a, env):
    r = ()
    for x in E.ev(a[0], env):
        r += x
    return r


def _lookup(E, t, a, env):
    k = E.ev(a[1], env)
    for p, q in a[0]:
        if same(p, k):
            return E.ev(q, env) if isinstance(q, T) else q
    raise KeyError


def _inset(E, t, a, env):
    v = E.ev(a[0], env)
    return any(same(v, E.ev(x, env) if isinstance(x, T) else x) for x in a[1])


def _parseint(E, t, a, env):
    return int(E.ev(a[0], env), E.i(a[1], env))


def _isint(E, t, a, env):
    try:
        int(E.ev(a[0], env), E.i(a[1], env))
        return True
    except ValueError:
        return False


def _unhex(E, t, a, env):
    return bytes.fromhex(E.ev(a[0], env))


def _ishex(E, t, a, env):
    try:
        bytes.fromhex(E.ev(a[0], env))
        return True
    except ValueError:
        return False


def _m(E, t, a, env):
    n = a[0]
    args = [E.ev(x, env) for x in a[1:]]
    k, _, m = n.partition('.')
    s = args[0]
    if n in ('str.partition', 'bytes.partition', 'str.rpartition', 'bytes.rpartition') and len(args) == 3:
        return getattr(s, m)(args[1])[args[2]]
    if k in ('str', 'bytes') and m in ('find', 'rfind', 'isdigit', 'isascii', 'upper', 'lower', 'strip', 'lstrip',
                                       'rstrip', 'split', 'casefold', 'title', 'capitalize', 'swapcase', 'isalpha',
                                       'isalnum', 'isspace', 'isupper', 'islower', 'isdecimal', 'isnumeric',
                                       'startswith', 'endswith', 'replace', 'count', 'splitlines'):
        r = getattr(s, m)(*args[1:])
        return tuple(r) if type(r) is list else r
    if n == 'zfill':
        return s.zfill(args[1])
    raise KeyError


def _encode(E, t, a, env):
    s = E.ev(a[0], env)
    if len(a) > 2:
        return s.encode(a[1] if isinstance(a[1], str) else E.ev(a[1], env), a[2])
    return s.encode(a[1] if isinstance(a[1], str) else E.ev(a[1], env))


def _decode(E, t, a, env):
    s = E.ev(a[0], env)
    e = a[1] if isinstance(a[1], str) else E.ev(a[1], env)
    return s.decode(e, a[2]) if len(a) > 2 else s.decode(e)


def able(enc, meth):
    def f(E, t, a, env):
        e = enc or (a[1] if isinstance(a[1], str) else E.ev(a[1], env))
        try:
            getattr(E.ev(a[0], env), meth)(e)
            return True
        except UnicodeError:
            return False
    return f


def _powmod(E, t, a, env):
    return pow(E.i(a[0], env), E.i(a[1], env), E.i(a[2], env))


def _pow(E, t, a, env):
    x, y = E.i(a[0], env), E.i(a[1], env)
    if y < 0 or x.bit_length() * y > 100000:
        raise Stuck('huge')
    return x ** y


def _pow2(E, t, a, env):
    e = E.i(a[0], env)
    if e > 100000:
        raise Stuck('huge')
    return 1 << e


def _fmt(E, t, a, env):
    return format(E.ev(a[1], env), E.ev(a[0], env))


def _isinst(E, t, a, env):
    v = E.ev(a[0], env)
    n = getattr(a[1], 'name', a[1])
    if type(v) in (int, bool, bytes, str, tuple, float) or v is None:
        k = [c.__name__ for c in type(v).__mro__]
        return n in k
    raise KeyError


def _rng(E, t, a, env):
    return tuple(range(*[E.i(x, env) for x in a]))


def _b64(E, t, a, env):
    return base64.b64decode(E.ev(a[0], env), validate=a[1])


def _aes(E, t, a, env):
    d = E.ev(a[3], env)
    k = hashlib.sha256(repr((E.ev(a[1], env), E.ev(a[2], env))).encode()).digest()
    return bytes(x ^ k[i % 32] for i, x in enumerate(d))


def _isb64(E, t, a, env):
    try:
        _b64(E, t, a, env)
        return True
    except ValueError:
        return False


EVAL = {
    'b64enc': lambda E, t, a, env: base64.b64encode(E.ev(a[0], env)),
    'b64str': lambda E, t, a, env: E.ev(a[0], env).decode(),
    'b64dec': _b64, 'aes': _aes, 'isb64': _isb64,
    'intsub': lambda E, t, a, env: E.ev(a[1], env),
    'fd': lambda E, t, a, env: E.i(a[0], env) // a[1],
    'mod': lambda E, t, a, env: E.i(a[0], env) % a[1],
    'fdx': lambda E, t, a, env: E.i(a[0], env) // E.i(a[1], env),
    'modx': lambda E, t, a, env: E.i(a[0], env) % E.i(a[1], env),
    'modp2': lambda E, t, a, env: E.i(a[0], env) % (1 << E.i(a[1], env)),
    'pow2': _pow2, 'pow': _pow, 'powmod': _powmod,
    'band': lambda E, t, a, env: E.i(a[0], env) & E.i(a[1], env),
    'bor': lambda E, t, a, env: E.i(a[0], env) | E.i(a[1], env),
    'bxor': lambda E, t, a, env: _xors([E.i(x, env) for x in a]),
    'bitlen': lambda E, t, a, env: E.i(a[0], env).bit_length(),
    'shlx': lambda E, t, a, env: E.i(a[0], env) << E.i(a[1], env),
    'shrx': lambda E, t, a, env: E.i(a[0], env) >> E.i(a[1], env),
    'len': _len,
    'cat': _cat, 'items': lambda E, t, a, env: tuple(E.ev(x, env) for x in a),
    'tuple': lambda E, t, a, env: E.seq(a[0], env),
    'sl': _sl, 'byte': _elem, 'ch': _elem, 'item': _elem, 'tob': _tob,
    'fromb': lambda E, t, a, env: int.from_bytes(E.ev(a[2], env), a[0], signed=a[1]),
    'rev': lambda E, t, a, env: E.seq(a[0], env)[::-1],
    'rep': _rep, 'join': _join, 'joinsep': _joinsep,
    'bytesof': lambda E, t, a, env: bytes(E.seq(a[0], env)),
    'sum': lambda E, t, a, env: sum(E.seq(a[0], env)),
    'all': _all, 'tab': _tab, 'filt': _filt, 'lead': _lead, 'ndig': _ndig, 'fold': _fold, 'flat': _flat,
    'boxed': lambda E, t, a, env: E.seq(a[0], env),
    'hex': lambda E, t, a, env: E.ev(a[0], env).hex(),
    'unhex': _unhex, 'ishex': _ishex, 'parseint': _parseint, 'isintstr': _isint,
    'dec': lambda E, t, a, env: str(E.i(a[0], env)),
    'inlang': lambda E, t, a, env: accepts(a[0], E.ev(a[1], env)),
    'rematch': lambda E, t, a, env: getattr(re.compile(a[0], a[1]), a[2])(E.ev(a[3], env)) is not None,
    'regroup': lambda E, t, a, env: getattr(re.compile(a[0], a[1]), a[2])(E.ev(a[4], env)).group(a[3]),
    'lookup': _lookup, 'inset': _inset, 'm': _m, 'encode': _encode, 'decode': _decode,
    'dtm': lambda E, t, a, env: (datetime.datetime(1970, 1, 1) + datetime.timedelta(
        seconds=E.i(a[0], env) + (7200 if a[1] == 'local' else 0))).strftime(a[2]),
    'uninorm': lambda E, t, a, env: unicodedata.normalize(a[0], E.ev(a[1], env)),
    'utf8dec': lambda E, t, a, env: E.ev(a[0], env).decode('utf-8'),
    'utf8able': able('utf-8', 'encode'), 'latin1able': able('latin-1', 'encode'), 'decodable': able(None, 'decode'),
    'substr': lambda E, t, a, env: E.ev(a[0], env) in E.ev(a[1], env),
    'inseq': lambda E, t, a, env: any(same(E.ev(a[0], env), x) for x in E.seq(a[1], env)),
    'indexof': lambda E, t, a, env: E.seq(a[1], env).index(E.ev(a[0], env)),
    'countof': lambda E, t, a, env: E.seq(a[1], env).count(E.ev(a[0], env)),
    'sorted': lambda E, t, a, env: tuple(sorted(E.seq(a[0], env))),
    'chr': lambda E, t, a, env: chr(E.i(a[0], env)), 'ord': lambda E, t, a, env: ord(E.ev(a[0], env)),
    'slt': lambda E, t, a, env: E.ev(a[0], env) < E.ev(a[1], env),
    'fmt': _fmt, 'isnone': lambda E, t, a, env: E.ev(a[0], env) is None,
    'some': lambda E, t, a, env: E.ev(a[0], env), 'truthy': lambda E, t, a, env: bool(E.ev(a[0], env)),
    'R': lambda E, t, a, env: ('R',) + tuple(E.ev(x, env) for x in a),
    'range': _rng, 'isinst': _isinst,
    'alt': lambda E, t, a, env: E.ev(a[0], env),
}


def _xors(vs):
    r = 0
    for v in vs:
        r ^= v
    return r


# ------------------------------------------------------------------ directed valuations
def assign(E, t, v, d=0):
    """try to change leaves so that t evaluates to v"""
    if d > 12:
        return False
    op, a = t.op, t.args
    r = E.rng
    if op == 'const':
        return False
    if op == 'intsub':
        return assign(E, a[1], v, d + 1)
    if op == 'poly':
        ms = [(m, k) for m, k in a[1] if len(m) == 1]
        r.shuffle(ms)
        for m, k in ms:
            try:
                x = E.ev(m[0], {})
                cur = E.ev(t, {})
            except Stuck:
                return False
            if type(x) is not int or type(cur) is not int:
                continue
            if (v - cur) % k == 0:
                if assign(E, m[0], x + (v - cur) // k, d + 1):
                    return True
        return False
    if op == 'len':
        if a[0] in E.virtual and type(v) is int and v >= 0:
            k = lenkey(E, a[0], {})
            E.leaf(k, t)
            E.tab[k] = v
            return True
        b = E.ev(a[0], {})
        if type(v) is not int or v < 0 or v > 80000:
            return False
        if type(b) is bytes:
            nb = b[:v] if v <= len(b) else b + E.rbytes(v - len(b))
            return assign(E, a[0], nb, d + 1)
        if type(b) is str:
            return assign(E, a[0], b[:v] if v <= len(b) else b + E.rstr(v - len(b)), d + 1)
        if type(b) is tuple and a[0].ty[0] == 'seq' and v < 1200:
            some = [E.rand(a[0].ty[1]) for _ in range(min(max(0, v - len(b)), 12))]
            nb = b[:v] if v <= len(b) else b + tuple(r.choice(some) for _ in range(v - len(b)))
            return assign(E, a[0], nb, d + 1)
        return False
    if op in ('byte', 'ch', 'item'):
        b, i = E.ev(a[0], {}), E.ev(a[1], {})
        if type(b) not in (bytes, str, tuple) or not 0 <= i < len(b):
            return False
        if op == 'byte':
            if type(v) is not int or not 0 <= v < 256:
                return False
            return assign(E, a[0], b[:i] + bytes([v]) + b[i + 1:], d + 1)
        if op == 'ch':
            return type(v) is str and len(v) == 1 and assign(E, a[0], b[:i] + v + b[i + 1:], d + 1)
        return assign(E, a[0], b[:i] + (v,) + b[i + 1:], d + 1)
    if op == 'sl':
        b, lo, hi = E.ev(a[0], {}), E.ev(a[1], {}), E.ev(a[2], {})
        if type(b) is not type(v):
            return False
        lo, hi = max(lo, 0), max(hi, 0)
        return assign(E, a[0], b[:lo] + v + b[max(hi, lo):], d + 1)
    if op == 'cat':
        if type(v) not in (bytes, str, tuple):
            return False
        ok = True
        pos = 0
        ps = a[1:]
        lens = []
        for p in ps:
            lens.append(len(E.ev(p, {})))
        diff = len(v) - sum(lens)
        if diff:
            c = [j for j, p in enumerate(ps) if p.op != 'const' and p.ty[1] is None and lens[j] + diff >= 0]
            if not c:
                return False
            lens[r.choice(c)] += diff
        for p, n in zip(ps, lens):
            x = v[pos:pos + n]
            pos += n
            if E.ev(p, {}) != x:
                ok = assign(E, p, x, d + 1) and ok
                E.clear()
        return ok
    if op == 'tob':
        if type(v) is not bytes or len(v) != E.ev(a[1], {}):
            return False
        return assign(E, a[2], int.from_bytes(v, a[0]), d + 1)
    if op == 'fromb':
        n = len(E.ev(a[2], {}))
        try:
            return assign(E, a[2], v.to_bytes(n, a[0], signed=a[1]), d + 1)
        except (OverflowError, AttributeError):
            return False
    if op == 'rev':
        return type(v) in (bytes, str, tuple) and assign(E, a[0], v[::-1], d + 1)
    if op == 'mod':
        x = E.ev(a[0], {})
        return type(v) is int and 0 <= v < a[1] and assign(E, a[0], x - x % a[1] + v, d + 1)
    if op == 'fd':
        x = E.ev(a[0], {})
        return type(v) is int and assign(E, a[0], v * a[1] + (x % a[1] if r.random() < 0.5 else 0), d + 1)
    if op == 'hex':
        try:
            return assign(E, a[0], bytes.fromhex(v), d + 1)
        except (ValueError, TypeError):
            return False
    if op == 'unhex':
        return type(v) is bytes and assign(E, a[0], v.hex(), d + 1)
    if op == 'dec':
        try:
            return str(int(v)) == v and assign(E, a[0], int(v), d + 1)
        except (ValueError, TypeError):
            return False
    if op == 'parseint':
        return E.ev(a[1], {}) == 10 and assign(E, a[0], str(v), d + 1)
    if op == 'encode':
        try:
            return assign(E, a[0], v.decode('ascii'), d + 1)
        except (ValueError, AttributeError):
            return False
    if op == 'uninorm':
        return type(v) is str and unicodedata.normalize(a[0], v) == v and assign(E, a[1], v, d + 1)
    if op in ('decode', 'utf8dec'):
        try:
            return assign(E, a[0], v.encode(), d + 1)
        except (ValueError, AttributeError):
            return False
    if op == 'aes' and type(v) is bytes:
        cur, e = E.ev(t, {}), E.ev(a[3], {})
        return len(v) == len(e) and assign(E, a[3], bytes(x ^ y ^ z for x, y, z in zip(e, cur, v)), d + 1)
    if op == 'b64dec' and type(v) is bytes:
        return assign(E, a[0], base64.b64encode(v), d + 1)
    if op == 'b64enc' or op == 'b64str':
        try:
            return assign(E, a[0], base64.b64decode(v, validate=True) if op == 'b64enc' else v.encode('ascii'), d + 1)
        except (ValueError, TypeError, AttributeError):
            return False
    if op == 'bitlen':
        if type(v) is not int or not 0 <= v < 3000:
            return False
        return assign(E, a[0], 0 if v == 0 else (1 << (v - 1)) | r.getrandbits(v - 1) if v > 1 else 1, d + 1)
    if op == 'ite':
        return assign(E, a[1] if E.ev(a[0], {}) else a[2], v, d + 1)
    if op == 'tuple':
        return assign(E, a[0], v, d + 1)
    if op == 'items':
        if type(v) is not tuple or len(v) != len(a):
            return False
        ok = True
        for x, y in zip(a, v):
            if not same(E.ev(x, {}), y):
                ok = assign(E, x, y, d + 1) and ok
        return ok
    if op == 'sum':
        q = a[0]
        if q.op == 'tab' and type(v) is int:
            return False
        return False
    if op == 'bytesof' and type(v) is bytes:
        return assign(E, a[0], tuple(v), d + 1)
    if op == 'm' and a[0] in ('str.upper', 'str.lower', 'str.strip'):
        return assign(E, a[1], v, d + 1)
    if op == 'some' or op == 'alt':
        return assign(E, a[0], v, d + 1)
    if t.ty == BOOL and type(v) is bool:
        return fix(E, t, v, d + 1)
    if op == 'nat' and a[0] in SHAPED and v == 1:
        x = E.ev(a[1], {})
        ok, mend = SHAPED[a[0]]
        if type(x) is not bytes or not ok(x) and not assign(E, a[1], mend(E, x), d + 1):
            return False
        E.clear()
        if not ok(E.ev(a[1], {})):
            return False
    if op == 'natout' and a[0] == 'ec_pubkey_serialize' and a[2] == 65:
        return type(v) is bytes and len(v) == 65 and assign(
            E, mk('natout', (a[0], a[1], 33), ('bytes', 33)), r.choice((b'\2', b'\3')) + v[1:33], d + 1)
    # a leaf
    tr, E.touched = E.touched, []
    E.clear()
    try:
        E.ev(t, {})
        key = E.touched[-1] if E.touched else None
    finally:
        E.touched = tr
    if key is None or E.term.get(key) is None or (op != 'sym' and key[0] != op):
        return False
    ty = E.term[key].ty
    if ty[0] == 'int':
        if type(v) is not int or (ty[1] is not None and v < ty[1]) or (ty[2] is not None and v > ty[2]):
            return False
    elif ty[0] == 'bytes':
        if type(v) is not bytes or (ty[1] is not None and len(v) != ty[1]):
            return False
    elif ty[0] == 'str':
        if type(v) is not str or (ty[1] is not None and len(v) != ty[1]):
            return False
    elif ty[0] == 'bool' and type(v) is not bool:
        return False
    E.tab[key] = v
    E.clear()
    return True


def fix(E, t, want, d=0):
    """try to make a literal true/false"""
    r = E.rng
    op, a = t.op, t.args
    if d > 12:
        return False
    if op == 'not':
        return fix(E, a[0], not want, d + 1)
    if op == 'ge0':
        g = r.choice((0, 0, 0, 1, 2, 5, r.randrange(300)))
        return assign(E, a[0], g if want else -1 - g, d + 1)
    if op == 'eq0':
        return assign(E, a[0], 0 if want else r.choice((1, -1, 2, 255, -256)), d + 1)
    if op in ('eq', 'same', 'eqany'):
        x, y = (a[0], a[1]) if r.random() < 0.5 else (a[1], a[0])
        if want:
            return assign(E, x, E.ev(y, {}), d + 1) or assign(E, y, E.ev(x, {}), d + 1)
        return False
    if op == 'ite':
        c, p, q = a
        if p.op == 'const' and p.args[0] is want or q.op == 'const' and q.args[0] is want:
            k = p.op == 'const' and p.args[0] is want
            if r.random() < 0.5:
                return fix(E, c, k, d + 1)
        if r.random() < 0.3:
            return fix(E, c, not E.ev(c, {}), d + 1)
        return fix(E, p if E.ev(c, {}) else q, want, d + 1)
    if op == 'all':
        q = a[0]
        if q.op == 'tab':
            lv, n, b = q.args
            n = E.ev(n, {})
            if type(n) is int and 0 < n < 5000:
                for j in range(n):
                    bad = bool(E.ev(b, {(lv, 0): j}))
                    if bad != want:
                        s = subst(b, {TT.bv(lv, 0, ('int', 0, None)): C(j)})
                        return fix(E, s, want, d + 1)
        return False
    if op == 'isnone':
        if want:
            return assign(E, a[0], None, d + 1)
        ty = a[0].ty
        return assign(E, a[0], E.rand(ty[1] if ty[0] == 'opt' else ty), d + 1)
    if op == 'truthy':
        return assign(E, a[0], E.rand(a[0].ty), d + 1)
    if op == 'isb64':
        return assign(E, a[0], base64.b64encode(E.rbytes()) if want else b'%%', d + 1)
    if op == 'ishex':
        return assign(E, a[0], E.rbytes().hex() if want else 'zz', d + 1)
    if op == 'isintstr':
        return assign(E, a[0], str(E.rint()) if want else r.choice(('x', '\u00b2', '')), d + 1)
    if op == 'm' and a[0] == 'str.isdigit':
        return assign(E, a[1], str(abs(E.rint())) if want else 'x1', d + 1)
    if op == 'm' and a[0] == 'str.isascii':
        return assign(E, a[1], E.rstr() if want else '\u00e9', d + 1)
    if op == 'inlang':
        uni = a[1].ty[0] == 'str'
        ls = [(l, w) for l, w in E.langs.get(a[1], ()) if l is not a[0]] + [(a[0], want)]
        v = best = None
        for k in range(120):
            l, w = r.choice(ls)
            x = member(l, r, w, uni)
            if x is not None and accepts(a[0], x) == want:
                best = x
                if all(accepts(l, x) == w for l, w in ls):
                    v = x
                    break
        v = best if v is None else v
        return v is not None and assign(E, a[1], v, d + 1)
    if op == 'inset':
        if want:
            v = r.choice(a[1])
            return assign(E, a[0], E.ev(v, {}) if isinstance(v, T) else v, d + 1)
        return False
    if op == 'substr':
        if want:
            x, c = E.ev(a[0], {}), E.ev(a[1], {})
            if type(x) is type(c) and type(x) in (bytes, str):
                k = r.randrange(len(c) + 1)
                return assign(E, a[1], c[:k] + x + c[k:], d + 1)
        return False
    if op in ('nat', ):
        return False
    if op in EVAL:
        return False
    return assign_leaf_bool(E, t, want)


_live = {}


def member(lang, rng, want, uni):
    """a random word inside (outside) a regular language, or None"""
    live = _live.get((lang, want))
    if live is None:
        live = {i for i, s in enumerate(lang) if s[0] is want or bool(s[0]) == want}
        more = True
        while more:
            more = False
            for i, s in enumerate(lang):
                if i not in live and any(n in live for _, n in s[1]):
                    live.add(i)
                    more = True
        _live[lang, want] = live
    if 0 not in live:
        return None
    q, out = 0, []
    for step in range(80):
        if bool(lang[q][0]) == want and rng.random() < 0.3:
            break
        tr = lang[q][1]
        ways = [(lo, (tr[j + 1][0] - 1 if j + 1 < len(tr) else lo if lo > 127 else 126 if uni else 255), n)
                for j, (lo, n) in enumerate(tr) if n in live]
        if not ways:
            break
        lo, hi, q = rng.choice(ways)
        out.append(rng.choice((lo, hi, rng.randint(lo, max(lo, min(hi, lo + 40))))))
    if bool(lang[q][0]) != want:
        return None
    try:
        return ''.join(map(chr, out)) if uni else bytes(out)
    except ValueError:
        return None


def assign_leaf_bool(E, t, want):
    if t.ty != BOOL:
        return False
    tr, E.touched = E.touched, []
    E.clear()
    try:
        E.ev(t, {})
        key = E.touched[-1] if E.touched else None
    finally:
        E.touched = tr
    if key is None or key[0] != t.op:
        return False
    E.tab[key] = want
    E.clear()
    return True


def constants(ts):
    ints, blobs, strs = set(), set(), set()
    seen = set()
    for t in ts:
        for w in walk(t, seen):
            if w.op == 'const':
                v = w.args[0]
                if type(v) is int:
                    ints.add(v)
                elif type(v) is bytes:
                    blobs.add(v)
                    if len(v) == 1:
                        ints.add(v[0])
                elif type(v) is str:
                    strs.add(v)
            elif w.op == 'poly':
                ints.add(abs(w.args[0]))
                for m, k in w.args[1]:
                    ints.add(abs(k))
            elif w.op in ('fd', 'mod'):
                ints.add(w.args[1])
            elif w.op in ('inset', 'lookup'):
                for x in (w.args[1] if w.op == 'inset' else [p for p, q in w.args[0]]):
                    if type(x) is int:
                        ints.add(x)
                    elif type(x) is str:
                        strs.add(x)
                    elif type(x) is bytes:
                        blobs.add(x)
    return sorted(ints), sorted(blobs), sorted(strs)


def _real(f):
    return lambda E, t, a, env: f(*[E.ev(x, env) for x in a])


def _cash(k):
    def f(s):
        from . import seeds
        return seeds.cash_decode(s)[k]
    return f


def _b58(name):
    def f(s):
        from . import seeds
        return getattr(seeds, name)(s)
    return f


def _repr(v):
    if v is not None and type(v) not in (int, bool, str, bytes, float):
        raise TypeError
    return repr(v)


def _titems(E, t, a, env):
    """as many items as the template has push markers"""
    tpl = E.ev(mk('template', a, ('bytes', None)), env)
    b = E.ev(a[0], env)
    return tuple(E.leaf(('titems', hk(b), j), mk('titem', a, ('bytes', None))) for j in range(tpl.count(0x4c)))


REAL = {'cashok': _real(lambda s: _cash(0)(s) is not None), 'cashprefix': _real(_cash(0)), 'cashkind': _real(_cash(1)),
        'cashhash': _real(_cash(2)), 'b58ok': _real(lambda s: _b58('b58_decode')(s) is not None),
        'b58d': _real(_b58('b58_decode')), 'b58e': _real(_b58('b58'))}


def b2t(bits):
    k = (bits >> 24) - 3
    w = bits & 0xffffff
    return min(w << 8 * k if k > 0 else w >> -8 * k, (1 << 256) - 1)


def t2b(t):
    if t < 0 or t >> 256:
        raise ValueError
    size = (t.bit_length() + 7) // 8
    w = t << 8 * (3 - size) if size <= 3 else t >> 8 * (size - 3)
    if w & 0x800000:
        w >>= 8
        size += 1
    return w | size << 24


ALWAYS = {'breprtail': _real(lambda b: repr(b)[1:]), 'repr': _real(_repr), 'titems': _titems,
          'b2t': _real(b2t), 't2b': _real(t2b), 'workof': _real(lambda b: max(4295032833, (1 << 256) // (b2t(b) + 1)))}


def separate(lits, x, y, seed=1, seconds=2.0, want=25, implied=(), seeds=None):
    """('separated', valuation) | ('equal', n) | ('unsatisfied', best)"""
    rng = random.Random(seed)
    lits = [(a, p) for a, p in lits]
    tx, ty = isinstance(x, T), isinstance(y, T)
    if tx != ty:
        tx = ty = False
    ints, blobs, strs = constants([a for a, _ in lits] + ([x, y] if tx else []))
    virtual = only_lengths([a for a, _ in lits] + ([x, y] if tx else []))
    t_end = time.time() + seconds
    named = {}
    if seeds is not None:
        for t in [a for a, _ in lits] + ([x, y] if tx else []):
            for w in t.fv:
                named[w.args[0]] = w
    agreed = 0
    best = None
    if seeds is not None:
        r = seeded(rng, lits, x if tx else None, y, (ints, blobs, strs), named, implied, seeds, seconds * 3)
        if r[0] == 'separated':
            return r
        agreed = r[1]
        t_end = time.time() + seconds
    langs = {}
    for a, p in lits:
        if a.op == 'inlang':
            langs.setdefault(a.args[1], []).append((a.args[0], p))
    for attempt in range(100000):
        if time.time() > t_end or agreed >= want:
            break
        E = Ev(rng, ints, blobs, strs)
        E.langs = langs
        steps = 60 + 4 * len(lits)
        if seeds is not None and rng.random() < 0.5:
            for name, v in seeds(rng).items():
                for k in (name, '$' + name):
                    if k in named:
                        E.tab[('sym', k)] = v
                        E.term[('sym', k)] = named[k]
            steps = 4
        elif virtual and rng.random() < 0.5:
            E.virtual = virtual
        for step in range(steps):
            bad = []
            E.clear()
            E.budget = 150000
            try:
                for a, p in lits:
                    v = E.ev(a, {})
                    if bool(v) != p:
                        bad.append((a, p))
            except Stuck as e:
                bad = None
                break
            except RecursionError:
                bad = None
                break
            if not bad:
                break
            if best is None or len(bad) < best[0]:
                best = (len(bad), bad[0])
            if time.time() > t_end:
                break
            a, p = bad[0] if rng.random() < 0.7 else rng.choice(bad)
            done = False
            try:
                if rng.random() < 0.85:
                    done = fix(E, a, p)
            except (Stuck, RecursionError):
                done = False
            except (TypeError, ValueError, IndexError, AttributeError, OverflowError):
                done = False
            if not done:
                E.clear()
                E.touched = []
                try:
                    E.ev(a, {})
                except (Stuck, RecursionError):
                    pass
                keys = [k for k in E.touched if k in E.term]
                E.touched = None
                if not keys:
                    bad = None
                    break
                k = rng.choice(keys)
                E.tab[k] = E.rand(E.term[k].ty)
        if bad is None or bad:
            continue
        if implied and not consistent(E, implied):
            best = (0, 'a conclusion drawn on the path fails')
            continue
        if not tx:
            return 'separated', dict(E.tab)
        try:
            E.clear()
            E.budget = 150000
            a, b = E.ev(x, {}), E.ev(y, {})
        except (Stuck, RecursionError):
            continue
        if not equal(a, b):
            return 'separated', dict(E.tab)
        agreed += 1
    if agreed:
        return 'equal', agreed
    return 'unsatisfied', best


def seeded(rng, lits, x, y, consts, named, implied, seeds, seconds):
    """evaluate the path condition on structured valuations, cheapest literals first"""
    order = sorted(lits, key=lambda l: sum(1 for _ in walk(l[0])))
    t_end = time.time() + seconds
    agreed = 0
    for attempt in range(4000):
        if time.time() > t_end or agreed >= 25:
            break
        E = Ev(rng, *consts)
        for name, v in seeds(rng).items():
            if callable(v):
                E.fns[name] = v
            for k in (name, '$' + name):
                if k in named:
                    E.tab[('sym', k)] = v
                    E.term[('sym', k)] = named[k]
        E.clear()
        E.real = True
        E.budget = 150000
        ok = True
        try:
            for a, p in order:
                if bool(E.ev(a, {})) != p:
                    ok = False
                    break
        except (Stuck, RecursionError, TypeError, ValueError, IndexError, AttributeError, OverflowError):
            ok = False
        if not ok or implied and not consistent(E, implied):
            continue
        if x is None:
            return 'separated', dict(E.tab)
        try:
            E.budget = 150000
            a, b = E.ev(x, {}), E.ev(y, {})
        except (Stuck, RecursionError):
            continue
        if not equal(a, b):
            return 'separated', dict(E.tab)
        agreed += 1
    return 'equal', agreed


def seeded_all(ms, seeds, seed, seconds):
    """each structured valuation against every disagreement at once; (index, valuation) of one separated, or None"""
    rng = random.Random(seed + 1)
    jobs, named, everything = [], {}, []
    for i, m in enumerate(ms):
        x, y = m['terms']
        both = isinstance(x, T) and isinstance(y, T)
        lits = sorted(m['facts'].lits.items(), key=lambda l: l[0].size if hasattr(l[0], 'size') else len(l[0].fv))
        jobs.append((i, lits, x if both else None, y, list(m['facts'].log.items())))
        for t in [a for a, _ in lits] + ([x, y] if both else []):
            everything.append(t)
            for w in t.fv:
                named[w.args[0]] = w
    consts = constants(everything)
    t_end = time.time() + seconds
    agreed = [0] * len(jobs)
    while time.time() < t_end:
        E = Ev(rng, *consts)
        for name, v in seeds(rng).items():
            if callable(v):
                E.fns[name] = v
            for k in (name, '$' + name):
                if k in named:
                    E.tab[('sym', k)] = v
                    E.term[('sym', k)] = named[k]
        E.clear()
        E.real = True
        for i, lits, x, y, implied in jobs:
            if agreed[i] >= 25:
                continue
            E.budget = 150000
            try:
                if not all(bool(E.ev(a, {})) == p for a, p in lits):
                    continue
            except (Stuck, RecursionError, TypeError, ValueError, IndexError, AttributeError, OverflowError):
                continue
            if implied and not consistent(E, implied):
                continue
            if x is None:
                return i, dict(E.tab)
            try:
                E.budget = 150000
                a, b = E.ev(x, {}), E.ev(y, {})
            except (Stuck, RecursionError):
                continue
            if not equal(a, b):
                return i, dict(E.tab)
            agreed[i] += 1
    return None


def consistent(E, implied):
    """does the valuation also satisfy what the analysis concluded from the path condition?"""
    for a, p in implied:
        try:
            E.budget = 150000
            if bool(E.ev(a, {})) != p:
                E.failed = (a, p)
                return False
        except (Stuck, RecursionError, TypeError, ValueError, KeyError, IndexError, AttributeError, OverflowError):
            pass
    return True


def equal(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(equal(p, q) for p, q in zip(a, b))
    return same(a, b)


def witness(tab, limit=12):
    """printable valuation of the symbols"""
    out = []
    for k, v in tab.items():
        if k[0] == 'sym' and not str(k[1]).startswith('%'):
            s = v.hex() if type(v) is bytes else repr(v)
            out.append(f'{k[1]}={s if len(s) < 200 else s[:200] + "..."}')
    return out[:limit]
