"""Models of the library modules the package uses."""
import base64 as _b64
import codecs
import binascii as _ba
import datetime as _dt
import math as _math
import os.path as _osp
import re as _re
import struct as _st
import unicodedata as _ud
from .core import *
from .terms import *
from . import terms as TT
from .interp import BC, bcls
from .models import (B, FLOAT, arg, bytes_like, content, fold, int_bytes, is_bytes, isnum, lift, meth, METHODS,
                     norm_index, slice_seq, slice_bounds, tohex, fromhex, to_bytes_obj, setitem, eq_terms,
                     const_args, bytes_like, iter_obj, order)
from . import models
from . import rx

ANYT = ANY


def cstr(E, v):
    v = E.res(v)
    while v.op == 'ite':
        v = v.args[1] if E.branch(v.args[0]) else v.args[2]
    if not is_const(v):
        raise Undecided('library argument not constant')
    return cval(v)


# ============================================================================= struct
SIZES = {'b': 1, 'B': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8, 'Q': 8, '?': 1, 'c': 1}


def parse_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    end, std = 'little', False
    if fmt[:1] in '<>=!@' and fmt:
        end = {'<': 'little', '>': 'big', '!': 'big', '=': 'little', '@': 'little'}[fmt[0]]
        std = fmt[0] != '@'
        fmt = fmt[1:]
    out = []
    for n, c in _re.findall(r'(\d*)([a-zA-Z?])', fmt):
        k = int(n) if n else 1
        if c == 's':
            out.append(('s', k))
        elif c == 'x':
            out.append(('x', k))
        elif c in SIZES:
            if not std and c in 'lL':
                raise Undecided('native struct sizes')
            out.extend([(c, SIZES[c])] * k)
        else:
            raise Undecided(f'struct code {c}')
    if not std:
        off = 0
        for c, w in out:
            if c not in 'sx' and off % w:
                raise Undecided('native struct alignment')
            off += w
    return end, out


class StructObj:
    def __init__(self, fmt):
        self.fmt = fmt
        self.end, self.codes = parse_fmt(fmt)
        self.size = sum(w for _, w in self.codes)

    def attr(self, E, name):
        if name == 'size':
            return C(self.size)
        if name == 'format':
            return C(self.fmt)
        f = {'pack': self.pack, 'unpack': self.unpack, 'unpack_from': self.unpack_from,
             'iter_unpack': self.iter_unpack}.get(name)
        if f is None:
            raise Undecided(f'Struct.{name}')
        return B(f'Struct({self.fmt}).{name}', f)

    def pack(self, E, a, kw):
        codes = [c for c in self.codes if c[0] != 'x']
        if len(a) != len(codes):
            E.py_raise('struct.error')
        out, it = [], iter(a)
        for c, w in self.codes:
            if c == 'x':
                out.append(C(b'\0' * w))
                continue
            v = E.res(next(it))
            k = E.kind(v)
            if c == 's':
                if k not in ('bytes', 'bytearray'):
                    if k == 'any':
                        raise Undecided('pack of unknown')
                    E.py_raise('struct.error')
                b = content(E, v)
                if E.branch(le(C(w), length(b))):
                    out.append(sl(b, ZERO, C(w)))
                else:
                    out += [b, rep(C(b'\0'), isub(C(w), length(b)))]
                continue
            if c == '?':
                out.append(mk_ite(E.truth(v), C(b'\1'), C(b'\0')))
                continue
            if not isnum(k):
                if k == 'any':
                    raise Undecided('pack of unknown')
                m = E.lookup_special(v, '__index__') if k in ('inst', 'obj') else None
                if m is None:
                    E.py_raise('struct.error')
                v = E.call(m, [], {})
            out.append(int_bytes(E, E.num(v), C(w), self.end, c.islower(), 'struct.error'))
        return cat('b', out)

    def fields(self, E, b, off=ZERO):
        vals = []
        for c, w in self.codes:
            s = sl(b, off, iadd(off, C(w)))
            off = iadd(off, C(w))
            if c == 'x':
                continue
            if c in 'sc':
                vals.append(s)
            elif c == '?':
                vals.append(mk_not(eq0(fromb(self.end, False, s))))
            else:
                vals.append(fromb(self.end, c.islower(), s))
        return tup(vals)

    def unpack(self, E, a, kw):
        b = bytes_like(E, a[0] if a else kw['buffer'])
        if not E.branch(mk_eq(length(b), C(self.size))):
            E.py_raise('struct.error')
        return self.fields(E, b)

    def unpack_from(self, E, a, kw):
        b = bytes_like(E, a[0])
        off = E.num(E.res(arg(E, a, kw, 1, 'offset', ZERO)))
        if not E.branch(ge0(off)):
            off = iadd(off, length(b))
            if not E.branch(ge0(off)):
                E.py_raise('struct.error')
        if not E.branch(le(iadd(off, C(self.size)), length(b))):
            E.py_raise('struct.error')
        return self.fields(E, b, off)

    def iter_unpack(self, E, a, kw):
        b = bytes_like(E, a[0])
        n = length(b)
        if not E.branch(eq0(imod(n, C(self.size)))):
            E.py_raise('struct.error')
        i = fresh('i', ('int', 0, None))
        m = ifd(n, C(self.size))
        return iter_obj(E, tab(m, i, self.fields(E, b, imul(i, C(self.size)))))


def mk_struct(E, a, kw):
    return host(StructObj(cstr(E, a[0])))


# ============================================================================= partial & friends
class PartialObj:
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, list(args), dict(kw)

    def call(self, E, a, kw):
        k = dict(self.kw)
        k.update(kw)
        return E.call(self.fn, self.args + list(a), k)

    def attr(self, E, name):
        if name == 'func':
            return self.fn
        if name == 'args':
            return tup(self.args)
        if name == '__get__':
            return None
        return None


def f_partial(E, a, kw):
    return host(PartialObj(a[0], a[1:], kw))


def f_lru_cache(E, a, kw):
    if a and a[0].op == 'host' and isinstance(a[0].args[0], (Fn, Builtin, Deco)):
        return a[0]
    return B('lru_cache', lambda E, a, kw: a[0])


def f_reduce(E, a, kw):
    cell = E.st.alloc(Obj('cell', None, {'has': C(len(a) > 2)}, a[2] if len(a) > 2 else NONEV))

    def cb(v):
        o = E.st.obj(cell)
        if o.f['has'] is FALSE:
            w = E.st.wobj(cell)
            w.f['has'], w.v = TRUE, v
        else:
            r = E.call(a[0], [o.v, v], {})
            E.st.wobj(cell).v = r
    E.iterate(a[1], cb)
    if E.st.obj(cell).f['has'] is FALSE:
        E.py_raise('TypeError')
    return E.st.obj(cell).v


# ============================================================================= hashlib, hmac
HSIZE = {'sha1': 20, 'sha256': 32, 'sha512': 64, 'ripemd160': 20, 'md5': 16, 'sha224': 28, 'sha384': 48,
         'sha3_256': 32, 'blake2b': 64}


def new_hash(alg):
    def f(E, a, kw):
        d = bytes_like(E, a[0]) if a else C(b'')
        return E.st.alloc(Obj('hash', None, {'alg': alg}, d))
    return f


def hash_digest(E, s):
    o = E.st.obj(s)
    alg = o.f['alg']
    n = cval(alg) if alg.op == 'const' else None
    if n is not None:
        return mk('hash', (n, o.v), ('bytes', HSIZE[n]))
    _, n, key = alg.args
    return mk('hmac', (n, key, o.v), ('bytes', HSIZE[n]))


def hash_attr(E, v, name):
    o = E.st.obj(v)
    alg = o.f['alg']
    n = cval(alg) if alg.op == 'const' else alg.args[1]
    if name in ('digest_size', 'block_size', 'name'):
        return {'digest_size': C(HSIZE[n]), 'block_size': C(128 if n in ('sha512', 'sha384') else 64),
                'name': C(n)}[name]

    def update(E, a, kw):
        d = bytes_like(E, a[0])
        w = E.st.wobj(v)
        w.v = cat('b', [w.v, d])
        return NONEV
    f = {'update': update, 'digest': lambda E, a, kw: hash_digest(E, v),
         'hexdigest': lambda E, a, kw: tohex(hash_digest(E, v)),
         'copy': lambda E, a, kw: E.st.alloc(E.st.obj(v).copy())}.get(name)
    return B('hash.' + name, f) if f else None


def alg_name(E, d):
    d = E.res(d)
    if is_const(d):
        n = cval(d)
        if n.lower() not in HSIZE:
            E.py_raise('ValueError')
        return n.lower()
    if d.op == 'host' and isinstance(d.args[0], Builtin) and d.args[0].name.startswith('hashlib.'):
        return d.args[0].name[8:]
    raise Undecided('hash algorithm')


def hmac_digest(E, a, kw):
    key = bytes_like(E, arg(E, a, kw, 0, 'key'))
    msg = bytes_like(E, arg(E, a, kw, 1, 'msg'))
    n = alg_name(E, arg(E, a, kw, 2, 'digest'))
    return mk('hmac', (n, key, msg), ('bytes', HSIZE[n]))


def hmac_new(E, a, kw):
    key = bytes_like(E, arg(E, a, kw, 0, 'key'))
    msg = E.res(arg(E, a, kw, 1, 'msg', NONEV))
    n = alg_name(E, arg(E, a, kw, 2, 'digestmod'))
    m = C(b'') if msg is NONEV else bytes_like(E, msg)
    return E.st.alloc(Obj('hash', None, {'alg': mk('halg', ('hmac', n, key))}, m))


def compare_digest(E, a, kw):
    x, y = E.res(a[0]), E.res(a[1])
    if is_bytes(E, x) and is_bytes(E, y):
        return mk_eq(content(E, x), content(E, y))
    if E.kind(x) == 'str' and E.kind(y) == 'str':
        for z in (x, y):
            if not E.branch(models.isascii(z)):
                E.py_raise('TypeError')
        return mk_eq(x, y)
    E.type_error(x, y)


def pbkdf2(E, a, kw):
    n = alg_name(E, arg(E, a, kw, 0, 'hash_name'))
    pw = bytes_like(E, arg(E, a, kw, 1, 'password'))
    salt = bytes_like(E, arg(E, a, kw, 2, 'salt'))
    it = E.num(E.res(arg(E, a, kw, 3, 'iterations')))
    dk = E.res(arg(E, a, kw, 4, 'dklen', NONEV))
    k = HSIZE[n] if dk is NONEV else cval(dk)
    return mk('pbkdf2', (n, pw, salt, it, k), ('bytes', k))


# ============================================================================= BytesIO and files
def io_new(E, a, kw):
    d = bytes_like(E, a[0]) if a else C(b'')
    return E.st.alloc(Obj('io', None, {'pos': ZERO}, d))


def stream_read(E, data, pos, n):
    """(bytes, new position)"""
    L = length(data)
    n = E.res(n)
    if n is NONEV:
        n = C(-1)
    if not isnum(E.kind(n)):
        E.py_raise('TypeError')
    n = E.num(n)
    if not E.branch(le(pos, L)):
        return C(b''), pos
    if not E.branch(ge0(n)):
        return sl(data, pos, L), L
    if E.branch(le(iadd(pos, n), L)):
        return sl(data, pos, iadd(pos, n)), iadd(pos, n)
    return sl(data, pos, L), L


def stream_write(E, data, pos, b):
    L = length(data)
    if pos is L:
        return cat('b', [data, b])
    if E.branch(le(L, pos)):
        return cat('b', [data, rep(C(b'\0'), isub(pos, L)), b])
    end = iadd(pos, length(b))
    if E.branch(le(end, L)):
        return cat('b', [sl(data, ZERO, pos), b, sl(data, end, L)])
    return cat('b', [sl(data, ZERO, pos), b])


def seek_pos(E, a, pos, L):
    off = E.num(E.res(a[0]))
    wh = cval(E.res(a[1])) if len(a) > 1 else 0
    r = off if wh == 0 else iadd(pos, off) if wh == 1 else iadd(L, off)
    if not E.branch(ge0(r)):
        E.py_raise('ValueError')
    return r


def io_attr(E, v, name):
    def data():
        return E.st.obj(v).v

    def pos():
        return E.st.obj(v).f['pos']

    def read(E, a, kw):
        b, p = stream_read(E, data(), pos(), a[0] if a else C(-1))
        E.st.wobj(v).f['pos'] = p
        return b

    def write(E, a, kw):
        b = bytes_like(E, a[0])
        w = E.st.wobj(v)
        w.v = stream_write(E, w.v, w.f['pos'], b)
        w.f['pos'] = iadd(w.f['pos'], length(b))
        return length(b)

    def seek(E, a, kw):
        p = seek_pos(E, a, pos(), length(data()))
        E.st.wobj(v).f['pos'] = p
        return p
    f = {'read': read, 'write': write, 'seek': seek, 'tell': lambda E, a, kw: pos(), 'read1': read,
         'getvalue': lambda E, a, kw: data(),
         'getbuffer': lambda E, a, kw: E.st.alloc(Obj('mview', BC['memoryview'], None, data())),
         'close': lambda E, a, kw: NONEV, '__enter__': lambda E, a, kw: v,
         '__exit__': lambda E, a, kw: FALSE}.get(name)
    return B('BytesIO.' + name, f) if f else None


def put_inode(E, ino, content):
    """change what a file holds; every stage is kept"""
    w = E.st.wobj(ino)
    w.v = content
    old = w.f.get('hist')
    w.f['hist'] = mk('history', (old.args if old is not None else ()) + (content,), ANY)


def inode_of(E, name, mode):
    """the inode of a file name, honouring the creation semantics of the mode"""
    fs = E.fs
    key = E.reify(E.res(name))
    d = E.st.obj(fs).v
    if 'w' in mode:
        E.st.events.append(('truncate', (key,), NONEV, E.where()))
        ino = d.get(key)
        if ino is None or ino is NONEV:
            ino = E.st.alloc(Obj('inode', None, {}, C(b'')))
            E.st.wobj(fs).v = {**d, key: ino}
        else:
            put_inode(E, ino, C(b''))
        return ino
    if key in d:
        if d[key] is NONEV:
            E.py_raise('FileNotFoundError')
        return d[key]
    if is_const(key) and cval(key).startswith('/pkg/'):
        try:
            with open(E.repo + cval(key)[4:], 'rb') as f:
                c = C(f.read())
        except OSError:
            E.py_raise('FileNotFoundError')
        E.consulted.add(cval(key)[5:])
    else:
        if not E.branch(mk('exists', (key,), BOOL)):
            E.st.wobj(fs).v = {**d, key: NONEV}
            E.py_raise('FileNotFoundError')
        c = mk('filedata', (key,), BYTES)
    ino = E.st.alloc(Obj('inode', None, {}, c))
    E.st.wobj(fs).v = {**E.st.obj(fs).v, key: ino}
    return ino


def f_open(E, a, kw):
    mode = cval(E.res(arg(E, a, kw, 1, 'mode', C('r'))))
    ino = inode_of(E, arg(E, a, kw, 0, 'file'), mode)
    pos = length(E.st.obj(ino).v) if 'a' in mode else ZERO
    enc = E.res(arg(E, a, kw, 3, 'encoding', NONEV))
    return E.st.alloc(Obj('file', BC['file'], {'inode': ino, 'pos': pos, 'mode': C(mode), 'closed': FALSE,
                                               'encoding': enc}))


def file_attr(E, v, name):
    o = E.st.obj(v)
    mode = cval(o.f['mode'])
    text = 'b' not in mode

    def data():
        return E.st.obj(E.st.obj(v).f['inode']).v

    def chk():
        if E.st.obj(v).f['closed'] is TRUE:
            E.py_raise('ValueError')

    def astext(b):
        enc = E.st.obj(v).f['encoding']
        if enc is NONEV:
            enc = 'ascii'
            if not (is_const(b) and cval(b).isascii()) and E.branch(mk('locale_is_utf8', (), BOOL)):
                enc = 'utf-8'
        else:
            enc = codecs.lookup(cval(enc)).name
        if is_const(b):
            try:
                t = cval(b).decode(enc)
            except UnicodeDecodeError:
                E.py_raise('UnicodeDecodeError')
            return C(t.replace('\r\n', '\n').replace('\r', '\n'))
        return mk('utf8dec' if enc == 'utf-8' else 'textdec', (b,) if enc == 'utf-8' else (b, C(enc)), STR)

    def read(E, a, kw):
        chk()
        b, p = stream_read(E, data(), E.st.obj(v).f['pos'], a[0] if a else C(-1))
        E.st.wobj(v).f['pos'] = p
        return astext(b) if text else b

    def write(E, a, kw):
        chk()
        if 'r' in mode and '+' not in mode:
            E.py_raise('OSError')
        if text:
            b = models.builtin_call(E, E.res(a[0]), 'str', 'encode', [], {})
        else:
            b = bytes_like(E, a[0])
        p = E.st.obj(v).f['pos']
        put_inode(E, E.st.obj(v).f['inode'], stream_write(E, data(), p, b))
        E.st.wobj(v).f['pos'] = iadd(p, length(b))
        return length(b)

    def seek(E, a, kw):
        chk()
        p = seek_pos(E, a, E.st.obj(v).f['pos'], length(data()))
        E.st.wobj(v).f['pos'] = p
        return p

    def truncate(E, a, kw):
        chk()
        n = E.st.obj(v).f['pos'] if not a or a[0] is NONEV else E.num(E.res(a[0]))
        L = length(data())
        if E.branch(le(n, L)):
            d = sl(data(), ZERO, n)
        else:
            d = cat('b', [data(), rep(C(b'\0'), isub(n, L))])
        put_inode(E, E.st.obj(v).f['inode'], d)
        return n

    def close(E, a, kw):
        E.st.wobj(v).f['closed'] = TRUE
        return FALSE

    def lines(E, a, kw):
        t = read(E, [], {})
        return models.builtin_call(E, t, 'str', 'splitlines', [TRUE], {})
    f = {'read': read, 'write': write, 'seek': seek, 'truncate': truncate, 'close': close,
         'tell': lambda E, a, kw: E.st.obj(v).f['pos'], 'flush': lambda E, a, kw: NONEV,
         'fileno': lambda E, a, kw: mk('fileno', (v,), ('int', 0, None)), 'readlines': lines,
         '__enter__': lambda E, a, kw: v, '__exit__': close}.get(name)
    return B('file.' + name, f) if f else None


# ============================================================================= mmap
def mmap_new(E, a, kw):
    fd = E.res(arg(E, a, kw, 0, 'fileno'))
    n = E.num(E.res(arg(E, a, kw, 1, 'length')))
    if fd.op != 'fileno':
        raise Undecided('mmap descriptor')
    ino = E.st.obj(fd.args[0]).f['inode']
    L = length(E.st.obj(ino).v)
    if not (is_const(n) and cval(n) == 0):
        raise Undecided('mmap length')
    if not E.branch(lt(ZERO, L)):
        E.py_raise('ValueError')
    return E.st.alloc(Obj('mmap', BC['mmap'], {'inode': ino, 'len': L, 'pos': ZERO, 'closed': FALSE}))


def mmap_data(E, v):
    o = E.st.obj(v)
    if o.f['closed'] is TRUE:
        E.py_raise('ValueError')
    return sl(E.st.obj(o.f['inode']).v, ZERO, o.f['len'])


def mmap_get(E, v, i):
    d = mmap_data(E, v)
    if i.op == 'slice':
        return slice_seq(E, d, i)
    return elem(d, norm_index(E, i, length(d)))


def mmap_set(E, v, i, x):
    d = mmap_data(E, v)
    ino = E.st.obj(v).f['inode']
    full = E.st.obj(ino).v
    if i.op == 'slice':
        lo, hi, step = slice_bounds(E, i, length(d))
        if step != 1:
            raise Undecided('mmap stride')
        b = bytes_like(E, x)
        if not E.branch(mk_eq(isub(hi, lo), length(b))):
            E.py_raise('IndexError')
    else:
        lo = norm_index(E, i, length(d))
        hi = iadd(lo, ONE)
        b = tob('little', ONE, E.num(E.res(x)))
    E.st.events.append(('mmapwrite', (lo, b), NONEV, E.where()))
    put_inode(E, ino, cat('b', [sl(full, ZERO, lo), b, sl(full, hi, length(full))]))


def mmap_attr(E, v, name):
    def close(E, a, kw):
        E.st.wobj(v).f['closed'] = TRUE
        return NONEV

    def flush(E, a, kw):
        mmap_data(E, v)
        ino = E.st.obj(v).f['inode']
        E.st.wobj(ino).f['durable'] = E.st.obj(ino).v if not a else mk('partly', (E.st.obj(ino).v,) + tuple(a), ANY)
        return E.event('flush', (v,), ('int', None, None))

    def read(E, a, kw):
        b, p = stream_read(E, mmap_data(E, v), E.st.obj(v).f['pos'], a[0] if a else C(-1))
        E.st.wobj(v).f['pos'] = p
        return b

    def read_byte(E, a, kw):
        d, p = mmap_data(E, v), E.st.obj(v).f['pos']
        if not E.branch(lt(p, length(d))):
            E.py_raise('ValueError')
        E.st.wobj(v).f['pos'] = iadd(p, ONE)
        return elem(d, p)

    def seek(E, a, kw):
        E.st.wobj(v).f['pos'] = seek_pos(E, a, E.st.obj(v).f['pos'], length(mmap_data(E, v)))
        return NONEV
    f = {'close': close, 'flush': flush, 'read': read, 'read_byte': read_byte, 'seek': seek,
         'tell': lambda E, a, kw: E.st.obj(v).f['pos'],
         'size': lambda E, a, kw: length(E.st.obj(E.st.obj(v).f['inode']).v),
         '__enter__': lambda E, a, kw: v, '__exit__': close}.get(name)
    if name == 'closed':
        return E.st.obj(v).f['closed']
    return B('mmap.' + name, f) if f else None


# ============================================================================= array
AMAX = {'B': 255, 'H': 65535, 'I': (1 << 32) - 1, 'L': (1 << 64) - 1, 'Q': (1 << 64) - 1}


def array_new(E, a, kw):
    tc = cstr(E, a[0])
    if tc not in AMAX:
        raise Undecided('array type')
    r = E.st.alloc(Obj('array', None, {'tc': C(tc)}, items(())))
    if len(a) > 1:
        E.iterate(a[1], lambda v: array_append(E, r, v))
    return r


def array_append(E, r, v):
    v = E.res(v)
    if not isnum(E.kind(v)):
        E.py_raise('TypeError')
    n = E.num(v)
    mx = AMAX[cval(E.st.obj(r).f['tc'])]
    if not E.branch(mk_and(ge0(n), le(n, C(mx)))):
        E.py_raise('OverflowError')
    w = E.st.wobj(r)
    w.v = cat('q', [w.v, items([n])])


def array_attr(E, v, name):
    def append(E, a, kw):
        array_append(E, v, a[0])
        return NONEV

    def extend(E, a, kw):
        E.iterate(a[0], lambda x: array_append(E, v, x))
        return NONEV

    def pop(E, a, kw):
        o = E.st.obj(v)
        n = length(o.v)
        i = norm_index(E, E.res(a[0]) if a else C(-1), n)
        x = elem(o.v, i)
        E.st.wobj(v).v = cat('q', [sl(o.v, ZERO, i), sl(o.v, iadd(i, ONE), n)])
        return x
    f = {'append': append, 'extend': extend, 'pop': pop,
         'tolist': lambda E, a, kw: E.new_list(E.st.obj(v).v)}.get(name)
    if name == 'typecode':
        return E.st.obj(v).f['tc']
    if f is None and ('list', name) in METHODS:
        g = METHODS[('list', name)]
        return B('array.' + name, lambda E, a, kw: g(E, v, a, kw))
    return B('array.' + name, f) if f else None


# ============================================================================= regular expressions
class PatternObj:
    def __init__(self, pat, flags):
        self.pat, self.flags = pat, flags
        self.re = _re.compile(pat, flags)

    def attr(self, E, name):
        if name == 'pattern':
            return C(self.pat)
        return B('Pattern.' + name, lambda E, a, kw: rx_call(E, self, name, a, kw))


class MatchObj:
    def __init__(self, m):
        self.m = m

    def attr(self, E, name):
        if name == 'string':
            return C(self.m.string)
        if name in ('group', 'groups', 'start', 'end', 'span', '__getitem__'):
            return B('Match.' + name, lambda E, a, kw: fold(E, getattr(self.m, name), *[cval(E.res(x)) for x in a]))
        raise Undecided('Match.' + name)


class SymMatch:
    def __init__(self, p, mode, s, g1=None):
        self.p, self.mode, self.s, self.g1 = p, mode, s, g1

    def group(self, E, i):
        if isinstance(i, str):
            if i not in self.p.re.groupindex:
                E.py_raise('IndexError')
            i = self.p.re.groupindex[i]
        if not 0 <= i <= self.p.re.groups:
            E.py_raise('IndexError')
        ty = STR if isinstance(self.p.pat, str) else BYTES
        if self.g1 is not None:
            return self.g1 if i == 1 else self.s
        if i == 0 and self.mode == 'fullmatch':
            return self.s
        pat = self.p.pat
        mode = self.mode
        if mode == 'match' and pat.endswith('\\Z' if isinstance(pat, str) else b'\\Z'):
            pat, mode = pat[:-2], 'fullmatch'
        if mode != 'search' and pat[:1] in ('^', b'^') and not self.p.flags:
            pat = pat[1:]
        return mk('regroup', (pat, self.p.flags, mode, i, self.s), ty)

    def attr(self, E, name):
        if name == 'group' or name == '__getitem__':
            def f(E, a, kw):
                g = [self.group(E, cval(E.res(x))) for x in (a or [ZERO])]
                return g[0] if len(g) == 1 else tup(g)
            return B('Match.group', f)
        if name == 'groups':
            return B('Match.groups', lambda E, a, kw: tup([self.group(E, i + 1) for i in range(self.p.re.groups)]))
        if name == 'string':
            return self.s
        raise Undecided('Match.' + name)

    def item(self, E, i):
        return self.group(E, cval(E.res(i)))


def fold_match(p, name, s, body, empty):
    return host(SymMatch(p, name, s, C(empty))) if rx.accepts(body, empty) else NONEV


def shape_of(t):
    """a regular expression denoting a superset of the values of a string term"""
    uni = t.ty[0] == 'str'
    if t.op == 'const':
        return _re.escape(cval(t))
    if t.op == 'cat':
        ps = [shape_of(p) for p in t.args[1:]]
        return ('' if uni else b'').join(ps)
    if t.op == 'dec':
        lo = irng(t.args[0])[0]
        return '(?:0|%s[1-9][0-9]*)' % ('' if lo is not None and lo >= 0 else '-?')
    al = alphabet(t) if uni else None
    n = '{%d}' % t.ty[1] if t.ty[1] is not None and t.ty[1] <= 100 else '*'
    if al:
        return '[' + ''.join(_re.escape(x) for x in sorted(al)) + ']' + n
    return '[\\s\\S]' + n if uni else b'[\\s\\S]' + n.encode()


def inlang(lang, s):
    try:
        r = rx.relate(rx.language(shape_of(s), 'fullmatch', 0), lang)
    except rx.NoRx:
        r = None
    return mk('inlang', (lang, s), BOOL) if r is None else C(r)


def rx_call(E, p, name, a, kw):
    a = [E.res(x) for x in a]
    if name in ('match', 'fullmatch', 'search'):
        s = a[0]
        k = E.kind(s)
        if k not in ('str', 'bytes', 'bytearray'):
            if k == 'any':
                raise Undecided('match of unknown')
            E.py_raise('TypeError')
        s = content(E, s)
        if (s.ty[0] == 'str') != isinstance(p.pat, str):
            E.py_raise('TypeError')
        if len(a) > 1 or kw:
            raise Undecided('match bounds')
        if is_const(s):
            m = getattr(p.re, name)(cval(s))
            return NONEV if m is None else host(MatchObj(m))
        try:
            tg = rx.tail_group(p.pat, name, p.flags)
        except rx.NoRx:
            tg = None
        if tg is not None:
            body, ch = tg
            n = length(s)
            if E.branch(eq0(n)):
                return fold_match(p, name, s, body, '' if isinstance(p.pat, str) else b'')
            ends = mk_eq(sl(s, isub(n, ONE), n), C(ch))
            g = sl(s, ZERO, isub(n, ONE)) if E.branch(ends) else s
            if E.branch(inlang(body, g)):
                return host(SymMatch(p, name, s, g))
            return NONEV
        try:
            c = inlang(rx.language(p.pat, name, p.flags), s)
        except rx.NoRx:
            c = mk('rematch', (p.pat, p.flags, name, s), BOOL)
        if E.branch(c):
            return host(SymMatch(p, name, s))
        return NONEV
    if all(is_const(x) for x in a):
        return fold(E, getattr(p.re, name), *[cval(x) for x in a])
    return mk('recall', (p.pat, p.flags, name) + tuple(E.reify(x) for x in a), STR)


def re_compile(E, a, kw):
    x = E.res(a[0])
    if x.op == 'host' and isinstance(x.args[0], PatternObj):
        return x
    fl = cval(to_int(E.res(a[1]))) if len(a) > 1 else 0
    try:
        return host(PatternObj(cstr(E, x), fl))
    except _re.error:
        E.py_raise('ValueError')


def re_fn(name):
    def f(E, a, kw):
        p = re_compile(E, a[:1], {}).args[0]
        return rx_call(E, p, name, a[1:], kw)
    return f


# ============================================================================= attrs
class AttrIb:
    def __init__(self, kw):
        self.kw = kw

    def attr(self, E, name):
        if name in ('default', 'validator'):
            raise Undecided('attr decorator')
        return None


def attr_ib(E, a, kw):
    d = dict(kw)
    if a:
        d['default'] = a[0]
    for k in d:
        if k not in ('default', 'factory', 'init', 'repr', 'eq', 'cmp', 'hash', 'order', 'kw_only', 'converter',
                     'type', 'metadata'):
            raise Undecided(f'attr.ib option {k}')
    return host(AttrIb(d))


def cbool(E, kw, k, d):
    if k not in kw:
        return d
    v = E.res(kw[k])
    return None if v is NONEV else bool(cval(v))


def attr_class(E, cls, kw):
    ns = E.st.heap[cls.oid].f
    fields = []
    for b in reversed(cls.mro[1:]):
        if b.attrs:
            for f in b.attrs['fields']:
                fields = [x for x in fields if x[0] != f[0]] + [f]
    own = [(k, v.args[0]) for k, v in ns.items() if v.op == 'host' and isinstance(v.args[0], AttrIb)]
    fields = [x for x in fields if x[0] not in dict(own)] + own
    w = E.st.wobj(cls.oid).f
    for k, _ in own:
        del w[k]
    frozen = cbool(E, kw, 'frozen', False)
    rep_ = cbool(E, kw, 'repr', True)
    eq = cbool(E, kw, 'eq', None)
    if eq is None:
        eq = cbool(E, kw, 'cmp', True)
        eq = True if eq is None else eq
    hsh = cbool(E, kw, 'hash', None)
    if hsh is None:
        hsh = cbool(E, kw, 'unsafe_hash', None)
    cls.attrs = {'names': [n for n, a in fields if cbool(E, a.kw, 'repr', True)], 'repr': rep_, 'fields': fields}

    def method(name, impl):
        b = Builtin(name, impl)
        b.method = True
        w[name] = host(b)

    def init(E, a, kw):
        self, a = a[0], a[1:]
        vals, rest = {}, dict(kw)
        pos = [(n, x) for n, x in fields if cbool(E, x.kw, 'init', True)]
        if len(a) > len(pos):
            E.py_raise('TypeError')
        for (n, x), v in zip(pos, a):
            vals[n] = v
        for n, x in pos[len(a):]:
            k = n.lstrip('_')
            if k in rest:
                vals[n] = rest.pop(k)
        if rest:
            E.py_raise('TypeError')
        for n, x in fields:
            if n not in vals:
                if 'default' in x.kw:
                    vals[n] = x.kw['default']
                elif 'factory' in x.kw:
                    vals[n] = E.call(x.kw['factory'], [], {})
                elif cbool(E, x.kw, 'init', True):
                    E.py_raise('TypeError')
                else:
                    continue
            if 'converter' in x.kw:
                vals[n] = E.call(x.kw['converter'], [vals[n]], {})
            E.st.wobj(self).f[n] = vals[n]
        pi, _ = E.class_lookup(cls, '__attrs_post_init__')
        if pi is not None:
            E.call(E.bind(pi, self, cls), [], {})
        return NONEV
    if cbool(E, kw, 'init', True):
        method('__init__', init)
    eqf = [n for n, x in fields if cbool(E, x.kw, 'eq', cbool(E, x.kw, 'cmp', True)) is not False]

    def eqm(E, a, kw):
        s, o = a[0], E.res(a[1])
        c = E.cls_of(o)
        if c is None:
            raise Undecided('attrs equality with unknown')
        if c is not E.cls_of(s):
            return host('NotImplemented')
        r = TRUE
        for n in eqf:
            r = mk_and(r, eq_terms(E, E.getattr(s, n), E.getattr(o, n)))
        return r

    def hashm(E, a, kw):
        return mk('hashof', tuple(E.reify(E.getattr(a[0], n)) for n in eqf), INT)
    if eq:
        method('__eq__', eqm)
    if eq and frozen and hsh is None or hsh:
        method('__hash__', hashm)
    elif eq and hsh is None:
        w['__hash__'] = NONEV
    if rep_:
        w.pop('__repr__', None)
    if frozen:
        def setm(E, a, kw):
            E.py_raise('AttributeError')
        method('__setattr__', setm)
    return host(cls)


def attr_s(E, a, kw):
    for k in kw:
        if k not in ('slots', 'frozen', 'repr', 'eq', 'cmp', 'order', 'hash', 'unsafe_hash', 'init', 'kw_only',
                     'weakref_slot', 'auto_attribs', 'str', 'these'):
            raise Undecided(f'attr.s option {k}')
    if 'auto_attribs' in kw or 'these' in kw:
        raise Undecided('attr.s option')
    if a:
        return attr_class(E, a[0].args[0], kw)
    return B('attr.s', lambda E, a, k2: attr_class(E, a[0].args[0], kw))


def attr_evolve(E, a, kw):
    v = E.res(a[0])
    cls = E.cls_of(v)
    kw = dict(kw)
    for n, x in cls.attrs['fields']:
        if n.lstrip('_') not in kw and cbool(E, x.kw, 'init', True):
            kw[n.lstrip('_')] = E.getattr(v, n)
    return E.instantiate(cls, [], kw)


def attr_astuple(E, a, kw):
    v = E.res(a[0])
    return tup([E.getattr(v, n) for n, _ in E.cls_of(v).attrs['fields']])


# ============================================================================= namedtuple
def namedtuple(E, a, kw):
    name = cstr(E, a[0])
    f = E.res(arg(E, a, kw, 1, 'field_names'))
    if E.kind(f) == 'str':
        fields = cval(f).replace(',', ' ').split()
    else:
        fields = [cval(x) for x in E.const_items(f)]
    cls = Cls(name, [BC['tuple']])
    cls.fields = fields

    def replace(E, a, kw):
        s = E.res(a[0])
        return E.instantiate(E.cls_of(s), [kw.get(n, elem(s.args[0], C(i))) for i, n in enumerate(fields)], {})

    def asdict(E, a, kw):
        s = E.res(a[0])
        return E.st.alloc(Obj('dict', None, None, {C(n): elem(s.args[0], C(i)) for i, n in enumerate(fields)}))
    b1, b2 = Builtin('_replace', replace), Builtin('_asdict', asdict)
    b1.method = b2.method = True
    ns = {'_replace': host(b1), '_asdict': host(b2), '_fields': tup([C(n) for n in fields])}
    cls.oid = E.st.alloc(Obj('clsns', None, ns)).args[0]
    E.classes.setdefault(name, cls)
    return host(cls)


# ============================================================================= base64, unicode, math, dates
def b64decode(E, a, kw):
    x = E.res(arg(E, a, kw, 0, 's'))
    val = bool(cval(E.res(arg(E, a, kw, 2, 'validate', FALSE))))
    if 'altchars' in kw or len(a) > 1 and a[1] is not NONEV:
        raise Undecided('altchars')
    k = E.kind(x)
    if is_const(x):
        try:
            return C(_b64.b64decode(cval(x), validate=val))
        except _ba.Error:
            E.py_raise('binascii.Error')
        except ValueError:
            E.py_raise('ValueError')
    if k == 'str':
        if x.op == 'dec' or (x.op == 'b64str'):
            pass
        if not E.branch(models.isascii(x)):
            E.py_raise('ValueError')
        x = models.builtin_call(E, x, 'str', 'encode', [C('ascii')], {})
    else:
        x = bytes_like(E, x)
    if x.op == 'b64enc':
        return x.args[0]
    if not E.branch(mk('isb64', (x, val), BOOL)):
        E.py_raise('binascii.Error')
    return mk('b64dec', (x, val), BYTES)


def b64encode(E, a, kw):
    x = bytes_like(E, a[0])
    if is_const(x):
        return C(_b64.b64encode(cval(x)))
    n = free_len(x)
    return mk('b64enc', (x,), ('bytes', None if n is None else (n + 2) // 3 * 4))


def normalize(E, a, kw):
    form = cstr(E, a[0])
    s = E.res(a[1])
    if E.kind(s) != 'str':
        if E.kind(s) == 'any':
            raise Undecided('normalize of unknown')
        E.py_raise('TypeError')
    if is_const(s):
        return C(_ud.normalize(form, cval(s)))
    if s.op == 'uninorm' and s.args[0] == form:
        return s
    return mk('uninorm', (form, s), STR)


def fpure(name, pyf, ty=FLOAT):
    def f(E, a, kw):
        a = [E.res(x) for x in a]
        if all(is_const(x) for x in a):
            return fold(E, pyf, *[cval(x) for x in a])
        return mk('fop', (name,) + tuple(a), ty)
    return f


def logarithm(base):
    """a logarithm is told by its base, not by the function that works it out: how they round is no matter"""
    def f(E, a, kw):
        a = [E.res(x) for x in a]
        b = C(base) if base else a[1] if len(a) > 1 else C(_math.e)
        if is_const(a[0]) and is_const(b):
            return fold(E, _math.log, cval(a[0]), cval(b)) if base is None and len(a) > 1 else fold(
                E, _math.log2 if base else _math.log, cval(a[0]))
        return mk('fop', ('log', a[0], b), FLOAT)
    return f


def f_bisect(right):
    def f(E, a, kw):
        raise Undecided('bisect')
    return f


# ============================================================================= operator, itertools
def itemgetter(E, a, kw):
    ks = list(a)

    def g(E, a, kw):
        r = [E.getitem(a[0], k) for k in ks]
        return r[0] if len(r) == 1 else tup(r)
    return B('itemgetter', g)


def attrgetter(E, a, kw):
    names = [cstr(E, x) for x in a]

    def g(E, a, kw):
        r = []
        for n in names:
            v = a[0]
            for p in n.split('.'):
                v = E.getattr(v, p)
            r.append(v)
        return r[0] if len(r) == 1 else tup(r)
    return B('attrgetter', g)


def methodcaller(E, a, kw):
    n = cstr(E, a[0])
    return B('methodcaller', lambda E, b, k: E.call(E.getattr(b[0], n), a[1:], kw))


def binop_fn(op):
    return B('operator.' + op, lambda E, a, kw: E.binop(op, a[0], a[1]))


def cmp_fn(op):
    def f(E, a, kw):
        if op == 'eq':
            return E.eq(a[0], a[1])
        if op == 'ne':
            return mk_not(E.truth(E.eq(a[0], a[1])))
        return E.compare(op, a[0], a[1])
    return B('operator.' + op, f)


def gen(E, run):
    return E.st.alloc(Obj('gen', None, {}, run))


def it_chain(E, a, kw):
    def run(hook):
        for x in a:
            E.iterate(x, hook)
    return gen(E, run)


def it_chain_iter(E, a, kw):
    def run(hook):
        E.iterate(a[0], lambda x: E.iterate(x, hook))
    return gen(E, run)


def it_islice(E, a, kw):
    q = E.to_seq(a[0])
    xs = [E.res(x) for x in a[1:]]
    if len(xs) == 1:
        xs = [NONEV] + xs
    s = mk('slice', (xs[0], xs[1], xs[2] if len(xs) > 2 else NONEV), SLICE)
    return iter_obj(E, slice_seq(E, q, s))


def it_repeat(E, a, kw):
    if len(a) < 2:
        raise Undecided('infinite repeat')
    return iter_obj(E, rep(items([a[0]]), E.num(E.res(a[1]))))


def it_zip_longest(E, a, kw):
    raise Undecided('zip_longest')


# ============================================================================= native curve library
class CType:
    def __init__(self, text):
        self.text = text
        m = _re.fullmatch(r'\s*(?:const\s+)?(unsigned char|char|uint8_t)\s*\[\s*(\d*)\s*\]\s*', text)
        self.n = None
        if m:
            self.kind = 'bytes'
            self.n = int(m.group(2)) if m.group(2) else None
        else:
            m = _re.fullmatch(r'\s*(\w+)\s*\*\s*', text)
            if not m:
                raise Undecided(f'C type {text}')
            self.kind = 'int' if m.group(1) in ('size_t', 'int', 'unsigned int', 'uint32_t') else 'struct'
            self.base = m.group(1)


STRUCTLEN = {'secp256k1_pubkey': 64, 'secp256k1_ecdsa_signature': 64, 'secp256k1_ecdsa_recoverable_signature': 65}


def ffi_new(E, a, kw):
    ct = CType(cstr(E, a[0]))
    init = E.res(a[1]) if len(a) > 1 else NONEV
    if ct.kind == 'bytes':
        if ct.n is None:
            if isnum(E.kind(init)):
                v = rep(C(b'\0'), E.num(init))
            else:
                v = cat('b', [bytes_like(E, init), C(b'\0')])
        elif init is NONEV:
            v = C(b'\0' * ct.n)
        else:
            if E.kind(init) == 'cdata' or not is_bytes(E, init):
                v = to_bytes_obj(E, init) if E.kind(init) in ('list', 'tuple') else E.py_raise('TypeError')
            else:
                v = content(E, init)
            if not E.branch(le(length(v), C(ct.n))):
                E.py_raise('IndexError')
            v = cat('b', [v, rep(C(b'\0'), isub(C(ct.n), length(v)))])
    elif ct.kind == 'int':
        v = ZERO if init is NONEV else E.num(init)
    else:
        if ct.base not in STRUCTLEN:
            raise Undecided(f'C struct {ct.base}')
        if init is NONEV:
            v = mk('czero', (ct.base,), ('cval', ct.base))
        elif init.ty == ('cval', ct.base):
            v = init
        elif init.ty[0] == 'cval':
            E.py_raise('TypeError')
        else:
            raise Undecided('C struct initialiser')
    return E.st.alloc(Obj('cdata', BC['cdata'], {'type': C(ct.text.strip())}, v))


def cdata_get(E, o, i):
    ob = E.st.obj(o)
    if i.op == 'slice':
        raise Undecided('cdata slice')
    if ob.v.ty[0] == 'bytes':
        n = length(ob.v)
        if E.branch(mk_and(ge0(E.num(i)), lt(E.num(i), n))):
            return elem(ob.v, E.num(i))
        E.py_raise('IndexError')
    if not is_const(i) or cval(i) != 0:
        raise Undecided('cdata index')
    return ob.v


def cdata_set(E, o, i, v):
    ob = E.st.obj(o)
    if ob.v.ty[0] == 'bytes':
        if i.op == 'slice':
            lo, hi, _ = slice_bounds(E, i, length(ob.v))
            b = bytes_like(E, v)
            if not E.branch(mk_eq(length(b), isub(hi, lo))):
                E.py_raise('ValueError')
        else:
            lo, hi = E.num(i), iadd(E.num(i), ONE)
            b = tob('little', ONE, E.num(E.res(v)))
        E.st.wobj(o).v = cat('b', [sl(ob.v, ZERO, lo), b, sl(ob.v, hi, length(ob.v))])
        return
    if not is_const(i) or cval(i) != 0:
        raise Undecided('cdata index')
    E.st.wobj(o).v = E.res(v)


def cdata_len(E, o):
    v = E.st.obj(o).v
    if v.ty[0] == 'bytes':
        return length(v)
    E.py_raise('TypeError')


def ffi_buffer(E, a, kw):
    o = E.res(a[0])
    if E.kind(o) != 'cdata':
        E.py_raise('TypeError')
    v = E.st.obj(o).v
    if v.ty[0] != 'bytes':
        v = mk('rawbytes', (v,), ('bytes', STRUCTLEN.get(v.ty[1] if v.ty[0] == 'cval' else '', None)))
    if len(a) > 1 or 'size' in kw:
        n = E.num(E.res(arg(E, a, kw, 1, 'size')))
        native_need(E, 'ffi.buffer', 'size', le(n, length(v)))
        v = sl(v, ZERO, n)
    return E.st.alloc(Obj('mview', BC['memoryview'], None, v))


def native_need(E, fn, what, lit):
    ok = provable(lit)
    E.native.append((E.where(), fn, what, ok, show(lit) if not ok else ''))
    if not ok and not E.branch(lit):
        E.py_raise('NativeMemoryFault', what)


# name -> (argument roles, fallible)
PK, SIG, RSIG = 'secp256k1_pubkey', 'secp256k1_ecdsa_signature', 'secp256k1_ecdsa_recoverable_signature'
NATIVE = {
    'ec_seckey_verify': (['in32'], True),
    'ec_pubkey_create': (['out:' + PK, 'in32'], True),
    'ec_privkey_tweak_add': (['io32', 'in32'], True),
    'ec_privkey_tweak_mul': (['io32', 'in32'], True),
    'ec_privkey_negate': (['io32'], False),
    'ec_seckey_tweak_add': (['io32', 'in32'], True),
    'ec_seckey_tweak_mul': (['io32', 'in32'], True),
    'ec_seckey_negate': (['io32'], False),
    'ec_pubkey_negate': (['io:' + PK], False),
    'ec_pubkey_serialize': (['serbuf', 'size', 'st:' + PK, 'int'], False),
    'ec_pubkey_parse': (['out:' + PK, 'var', 'varlen'], True),
    'ec_pubkey_tweak_add': (['io:' + PK, 'in32'], True),
    'ec_pubkey_tweak_mul': (['io:' + PK, 'in32'], True),
    'ec_pubkey_combine': (['out:' + PK, 'list', 'listlen'], True),
    'ecdsa_recoverable_signature_parse_compact': (['out:' + RSIG, 'in64', 'recid'], True),
    'ecdsa_recover': (['out:' + PK, 'st:' + RSIG, 'in32'], True),
    'ecdsa_signature_serialize_der': (['derbuf', 'size', 'st:' + SIG], True),
    'ecdsa_signature_parse_der': (['out:' + SIG, 'var', 'varlen'], True),
    'ecdsa_signature_parse_compact': (['out:' + SIG, 'in64'], True),
    'ecdsa_signature_serialize_compact': (['outb64', 'st:' + SIG], False),
    'ecdsa_signature_normalize': (['out:' + SIG, 'st:' + SIG], True),
    'ecdsa_sign': (['out:' + SIG, 'in32', 'in32', 'null', 'null'], True),
    'ecdsa_sign_recoverable': (['out:' + RSIG, 'in32', 'in32', 'null', 'null'], True),
    'ecdsa_recoverable_signature_serialize_compact': (['outb64', 'outrecid', 'st:' + RSIG], False),
    'ecdsa_recoverable_signature_convert': (['out:' + SIG, 'st:' + RSIG], False),
    'ecdsa_verify': (['st:' + SIG, 'in32', 'st:' + PK], True),
}
ALIAS = {'ec_seckey_tweak_add': 'ec_privkey_tweak_add', 'ec_seckey_tweak_mul': 'ec_privkey_tweak_mul',
         'ec_seckey_negate': 'ec_privkey_negate'}


def native_bytes(E, v, fn, n):
    v = E.res(v)
    if E.kind(v) == 'cdata':
        b = E.st.obj(v).v
        if b.ty[0] != 'bytes':
            E.py_raise('TypeError')
    elif E.kind(v) in ('bytes', 'bytearray', 'mview'):
        if E.kind(v) != 'bytes':
            E.py_raise('TypeError')
        b = v
    elif E.kind(v) in ('list', 'tuple', 'seq'):
        q = E.to_seq(v)          # cffi builds an array from a list or tuple of integers
        t = q.ty[1] if q.ty[0] == 'seq' else None
        if q.op == 'items' and all(is_const(x) and x.ty[0] == 'int' for x in q.args) or \
                t and t[0] == 'int' and t[1] is not None and t[2] is not None and t[1] >= 0 and t[2] <= 255:
            b = bytes_of(q)
        else:
            raise Undecided('native argument built from a list')
    elif E.kind(v) == 'any':
        raise Undecided('native argument of unknown type')
    else:
        E.py_raise('TypeError')
    if n is not None:
        native_need(E, fn, f'buffer of {n} bytes', le(C(n), length(b)))
        b = sl(b, ZERO, C(n))
    return b


def native(name):
    roles, fallible = NATIVE[name]
    cname = ALIAS.get(name, name)

    def f(E, a, kw):
        if len(a) != len(roles) + 1:
            E.py_raise('TypeError')
        args = [E.res(x) for x in a[1:]]
        if a[0].op != 'host' or a[0].args[0] != 'secp-context':
            raise Undecided('native context')
        ins, outs, needed = [], [], []
        var = None
        for r, v in zip(roles, args):
            if r.startswith('in') and r[2:].isdigit():
                ins.append(native_bytes(E, v, name, int(r[2:])))
            elif r == 'io32':
                if E.kind(v) != 'cdata':
                    E.py_raise('TypeError')
                ins.append(native_bytes(E, v, name, 32))
                outs.append((v, 'io', ('bytes', 32)))
            elif r.startswith('st:') or r.startswith('io:'):
                if E.kind(v) != 'cdata':
                    if E.kind(v) == 'any':
                        raise Undecided('native argument of unknown type')
                    E.py_raise('TypeError')
                x = E.st.obj(v).v
                if x.ty != ('cval', r[3:]):
                    E.py_raise('TypeError')
                ins.append(x)
                if r.startswith('io:'):
                    outs.append((v, 'io', ('cval', r[3:])))
            elif r.startswith('out:'):
                if E.kind(v) != 'cdata' or E.st.obj(v).v.ty != ('cval', r[4:]):
                    E.py_raise('TypeError')
                outs.append((v, 'o', ('cval', r[4:])))
            elif r == 'var':
                var = native_bytes(E, v, name, None)
            elif r == 'varlen':
                n = E.num(v)
                native_need(E, name, 'declared length', le(n, length(var)))
                ins.append(sl(var, ZERO, n))
            elif r == 'int':
                ins.append(E.num(v))
            elif r == 'recid':
                n = E.num(v)
                native_need(E, name, 'recovery id in 0..3', mk_and(ge0(n), le(n, C(3))))
                ins.append(n)
            elif r == 'null':
                if v.op != 'host' or v.args[0] != 'NULL':
                    ins.append(E.reify(v))
            elif r == 'list':
                q = E.to_seq(v) if E.kind(v) in ('list', 'tuple', 'seq') else E.py_raise('TypeError')
                if q.op == 'items':
                    xs = []
                    for x in q.args:
                        x = E.res(x)
                        if E.kind(x) != 'cdata':
                            E.py_raise('TypeError')
                        xs.append(E.st.obj(x).v)
                    var = items(xs)
                else:
                    var = q
            elif r == 'listlen':
                n = E.num(v)
                native_need(E, name, 'declared count', mk_eq(n, length(var)))
                native_need(E, name, 'at least one key', lt(ZERO, n))
                ins.append(var)
            elif r in ('serbuf', 'derbuf', 'outb64', 'size', 'outrecid'):
                if E.kind(v) != 'cdata':
                    E.py_raise('TypeError')
                if r == 'outb64':
                    native_need(E, name, 'buffer of 64 bytes', le(C(64), length(E.st.obj(v).v)))
                outs.append((v, r, None))
        ret = mk('nat', (cname,) + tuple(ins), ('int', 0, 1)) if fallible else ONE
        E.nativecalls.append((E.where(), name))
        buf = None
        for k, (v, r, ty) in enumerate(outs):
            w = E.st.wobj(v)
            if r in ('io', 'o'):
                x = mk('natout', (cname, k) + tuple(ins), ty)
                if ty[0] == 'bytes' and not (is_const(length(w.v)) and cval(length(w.v)) == 32):
                    x = cat('b', [x, sl(w.v, C(32), length(w.v))])
                w.v = x
            elif r == 'outb64':
                x = mk('natout', (cname, k) + tuple(ins), ('bytes', 64))
                w.v = cat('b', [x, sl(w.v, C(64), length(w.v))])
            elif r == 'outrecid':
                w.v = mk('natout', (cname, k) + tuple(ins), ('int', 0, 3))
            elif r in ('serbuf', 'derbuf'):
                buf = v
            elif r == 'size':
                old = E.st.obj(buf).v
                size = w.v
                native_need(E, name, 'declared buffer size', le(size, length(old)))
                if cname == 'ec_pubkey_serialize':
                    flag = ins[1]
                    if not is_const(flag):
                        flag = C(258) if E.branch(mk_eq(flag, C(258))) else C(2)
                    n = 33 if cval(flag) == 258 else 65
                    native_need(E, name, f'{n}-byte output buffer', le(C(n), size))
                    x = mk('natout', (cname, ins[0], n), ('bytes', n))
                else:
                    x = mk('natout', (cname, 'der') + tuple(ins), BYTES)
                    E.assume(mk_and(le(C(8), length(x)), le(length(x), C(72))))
                    if provable(le(C(72), size)):
                        ret = ONE
                E.st.wobj(buf).v = cat('b', [x, sl(old, length(x), length(old))])
                w.v = length(x)
        return ret
    b = Builtin('secp256k1_' + name, f)
    b.native = True
    return host(b)


# ============================================================================= AES
class AesObj:
    def __init__(self, key, iv, mode):
        self.key, self.iv, self.mode = key, iv, mode

    def attr(self, E, name):
        if name in ('encrypt', 'decrypt'):
            def f(E, a, kw):
                d = bytes_like(E, a[0])
                if not E.branch(eq0(imod(length(d), C(16)))):
                    E.py_raise('ValueError')
                return aes(name, self.key, self.iv, d)
            return B('AES.' + name, f)
        raise Undecided('AES.' + name)


def aes(op, key, iv, d):
    if d.op == 'aes' and d.args[:1] != (op,) and d.args[1:3] == (key, iv):
        return d.args[3]
    return mk('aes', (op, key, iv, d), ('bytes', free_len(d)))


def aes_new(E, a, kw):
    key = bytes_like(E, arg(E, a, kw, 0, 'key'))
    mode = E.res(arg(E, a, kw, 1, 'mode'))
    iv = bytes_like(E, arg(E, a, kw, 2, 'iv'))
    if not is_const(mode) or cval(mode) != 2:
        raise Undecided('AES mode')
    n = length(key)
    if not E.branch(mk_or(mk_eq(n, C(16)), mk_eq(n, C(24)), mk_eq(n, C(32)))):
        E.py_raise('ValueError')
    if not E.branch(mk_eq(length(iv), C(16))):
        E.py_raise('ValueError')
    return host(AesObj(key, iv, mode))


def pyaes_cbc(E, a, kw):
    key = bytes_like(E, arg(E, a, kw, 0, 'key'))
    iv = bytes_like(E, arg(E, a, kw, 1, 'iv'))
    return host(AesObj(key, iv, C(2)))


def pyaes_feeder(op):
    def f(E, a, kw):
        m = E.res(a[0]).args[0]
        pad = E.res(arg(E, a, kw, 1, 'padding', C('default')))
        if not is_const(pad) or cval(pad) != 'none':
            raise Undecided('pyaes padding')
        return E.st.alloc(Obj('feeder', BC['object'], {'done': FALSE}, aes(op, m.key, m.iv, C(b''))))
    return f


# ============================================================================= installation
class LogObj:
    def attr(self, E, name):
        return B('logger.' + name, lambda E, a, kw: NONEV)


def ident(E, a, kw):
    return a[0]


def path_fn(name):
    f = getattr(_osp, name)

    def g(E, a, kw):
        a = [E.res(x) for x in a]
        if all(is_const(x) for x in a):
            if name in ('realpath', 'abspath'):
                return a[0]
            return fold(E, f, *[cval(x) for x in a])
        if name == 'join' and is_const(a[0]):
            return mk('pathjoin', tuple(a), STR)
        return mk('path', (name,) + tuple(E.reify(x) for x in a), BOOL if name in ('exists', 'isfile') else STR)
    return B('path.' + name, g)


def f_urandom(kind):
    def f(E, a, kw):
        n = E.num(E.res(a[0])) if a else C(32)
        if not E.branch(ge0(n)):
            E.py_raise('ValueError')
        r = E.event(kind, (n,), ('bytes', cval(n) if is_const(n) else None))
        if not is_const(n):
            E.assume(mk_eq(length(r), n))
        return r
    return f


def f_randint(kind, how):
    def f(E, a, kw):
        a = [E.num(E.res(x)) for x in a]
        if how == 'below':
            lo, hi = ZERO, isub(a[0], ONE)
        elif how == 'bits':
            lo, hi = ZERO, isub(pow2(a[0]), ONE)
        elif how == 'range':
            lo, hi = (ZERO, a[0]) if len(a) == 1 else a[:2]
            hi = isub(hi, ONE)
        else:
            lo, hi = a[:2]
        r = E.event(kind + '-int', (lo, hi), INT)
        E.assume(mk_and(le(lo, r), le(r, hi)))
        return r
    return f


def install(E):
    E.fs = E.st.alloc(Obj('fs', None, {}, {}))
    E.consulted = set()
    E.native, E.nativecalls = [], []
    L = E.libs

    def mod(name, **ns):
        L[name] = host(LibModule(name, ns))
        return L[name]
    E.newhooks.update(Struct=mk_struct, BytesIO=io_new, array=array_new, mmap=mmap_new)
    E.attrhooks.update(io=io_attr, hash=hash_attr, file=file_attr, mmap=mmap_attr, array=array_attr)
    E.gethooks, E.sethooks = {'mmap': mmap_get}, {'mmap': mmap_set}
    E.lenhooks = {'mmap': lambda E, v: length(mmap_data(E, v))}

    def mod_struct(fn):
        def f(E, a, kw):
            return getattr(StructObj(cstr(E, a[0])), fn)(E, a[1:], kw)
        return B('struct.' + fn, f)
    mod('struct', Struct=host(BC['Struct']), error=host(BC['struct.error']), pack=mod_struct('pack'),
        unpack=mod_struct('unpack'), unpack_from=mod_struct('unpack_from'),
        calcsize=B('struct.calcsize', lambda E, a, kw: C(StructObj(cstr(E, a[0])).size)))
    mod('io', BytesIO=host(BC['BytesIO']))
    osp = mod('os.path', **{n: path_fn(n) for n in ('join', 'dirname', 'basename', 'realpath', 'abspath', 'exists',
                                                      'isfile', 'splitext', 'normpath')})
    mod('os', urandom=B('os.urandom', f_urandom('urandom')), path=osp, sep=C('/'),
        fspath=B('os.fspath', ident), SEEK_SET=ZERO, SEEK_END=C(2), SEEK_CUR=ONE,
        environ=POISON)
    mod('secrets', token_bytes=B('token_bytes', f_urandom('urandom')),
        token_hex=B('token_hex', lambda E, a, kw: tohex(f_urandom('urandom')(E, a, kw))),
        randbelow=B('randbelow', f_randint('urandom', 'below')),
        randbits=B('randbits', f_randint('urandom', 'bits')), compare_digest=B('compare_digest', compare_digest))
    mod('random', **{n: B('random.' + n, f) for n, f in dict(
        randbytes=f_urandom('prng'), getrandbits=f_randint('prng', 'bits'), randrange=f_randint('prng', 'range'),
        randint=f_randint('prng', 'int')).items()}, seed=B('random.seed', lambda E, a, kw: NONEV),
        SystemRandom=B('SystemRandom', lambda E, a, kw: L['sysrandom']))
    mod('sysrandom', **{n: B('SystemRandom.' + n, f) for n, f in dict(
        randbytes=f_urandom('urandom'), getrandbits=f_randint('urandom', 'bits'),
        randrange=f_randint('urandom', 'range'), randint=f_randint('urandom', 'int')).items()})
    hs = {n: B('hashlib.' + n, new_hash(C(n))) for n in HSIZE}
    mod('hashlib', new=B('hashlib.new', lambda E, a, kw: new_hash(C(alg_name(E, a[0])))(E, a[1:], kw)),
        pbkdf2_hmac=B('pbkdf2_hmac', pbkdf2), **hs)
    mod('hmac', digest=B('hmac.digest', hmac_digest), new=B('hmac.new', hmac_new),
        compare_digest=B('compare_digest', compare_digest))
    mod('functools', partial=B('partial', f_partial), lru_cache=B('lru_cache', f_lru_cache),
        cache=B('cache', f_lru_cache), wraps=B('wraps', lambda E, a, kw: B('wraps', ident)),
        reduce=B('reduce', f_reduce), total_ordering=B('total_ordering', ident))
    mod('re', compile=B('re.compile', re_compile), error=host(BC['ValueError']),
        I=C(2), IGNORECASE=C(2), A=C(256), ASCII=C(256), M=C(8), MULTILINE=C(8), S=C(16), DOTALL=C(16),
        X=C(64), VERBOSE=C(64),
        **{n: B('re.' + n, re_fn(n)) for n in ('match', 'fullmatch', 'search', 'sub', 'split', 'findall')},
        escape=B('re.escape', lambda E, a, kw: fold(E, _re.escape, cstr(E, a[0]))))
    mod('enum', IntEnum=host(BC['IntEnum']), IntFlag=host(BC['IntFlag']), Enum=host(BC['Enum']),
        unique=B('unique', ident))
    attrns = dict(s=B('attr.s', attr_s), ib=B('attr.ib', attr_ib), attrs=B('attr.s', attr_s),
                  attrib=B('attr.ib', attr_ib), evolve=B('attr.evolve', attr_evolve),
                  astuple=B('attr.astuple', attr_astuple))
    mod('attr', **attrns)
    mod('array', array=host(BC['array']))
    mod('collections', namedtuple=B('namedtuple', namedtuple),
        OrderedDict=host(BC['dict']))
    mod('mmap', mmap=host(BC['mmap']), ACCESS_READ=ONE, ACCESS_WRITE=C(2))
    mod('base64', b64decode=B('b64decode', b64decode), b64encode=B('b64encode', b64encode),
        standard_b64encode=B('b64encode', b64encode))
    mod('binascii', Error=host(BC['binascii.Error']),
        hexlify=B('hexlify', lambda E, a, kw: models.builtin_call(E, tohex(bytes_like(E, a[0])), 'str', 'encode',
                                                                  [], {})),
        unhexlify=B('unhexlify', lambda E, a, kw: fromhex(E, a[0])))
    mod('unicodedata', normalize=B('normalize', normalize),
        combining=B('combining', fpure('combining', _ud.combining, ('int', 0, 255))),
        category=B('category', fpure('category', _ud.category, STR)))
    mod('math', ceil=B('ceil', fpure('ceil', _math.ceil, INT)), floor=B('floor', fpure('floor', _math.floor, INT)),
        log=B('log', logarithm(None)), log2=B('log2', logarithm(2)),
        gcd=B('gcd', fpure('gcd', _math.gcd, INT)), inf=C(_math.inf))

    DT = ('obj', 'datetime')
    utc = host('timezone.utc')

    def from_stamp(utc_):
        def f(E, a, kw):
            tz = E.res(arg(E, a, kw, 1, 'tz', NONEV))
            if tz is not NONEV and tz is not utc:
                raise Undecided('time zone')
            return mk('stamp', (E.num(E.res(a[0])), 'naive' if utc_ else 'local' if tz is NONEV else 'aware'), DT)
        return f

    def dt_text(E, v, fmt):
        return mk('dtm', (v.args[0], 'local' if v.args[1] == 'local' else 'utc', fmt), STR)

    def dt_iso(E, v, a, kw):
        sep = cval(E.res(arg(E, a, kw, 0, 'sep', C('T'))))
        if len(a) > 1 or 'timespec' in kw and cval(kw['timespec']) not in ('auto', 'seconds'):
            raise Undecided('timespec')
        t = dt_text(E, v, f'%Y-%m-%d{sep}%H:%M:%S')
        return cat('s', [t, C('+00:00')]) if v.args[1] == 'aware' else t

    def dt_strftime(E, v, a, kw):
        fmt = cval(E.res(a[0])).replace('%F', '%Y-%m-%d').replace('%T', '%H:%M:%S')
        return dt_text(E, v, fmt)

    def dt_replace(E, v, a, kw):
        if a or set(kw) != {'tzinfo'} or E.res(kw['tzinfo']) not in (NONEV, utc) or v.args[1] == 'local':
            raise Undecided('datetime.replace')
        return mk('stamp', (v.args[0], 'naive' if E.res(kw['tzinfo']) is NONEV else 'aware'), DT)

    def dt_method(name, f):
        def get(E, v):
            if v.op != 'stamp':
                raise Undecided('datetime')
            return B('datetime.' + name, lambda E, a, kw: f(E, v, a, kw))
        return get
    E.schema['datetime'] = {'isoformat': dt_method('isoformat', dt_iso), 'strftime': dt_method('strftime', dt_strftime),
                            'replace': dt_method('replace', dt_replace), '__str__': dt_method('__str__', lambda E, v, a, kw: dt_iso(E, v, [C(' ')], {}))}
    dtc = mod('datetime.datetime', utcfromtimestamp=B('utcfromtimestamp', from_stamp(True)),
              fromtimestamp=B('fromtimestamp', from_stamp(False)))
    mod('datetime', datetime=dtc, timezone=mod('datetime.timezone', utc=utc), UTC=utc)
    lg = host(LogObj())
    mod('logging', getLogger=B('getLogger', lambda E, a, kw: lg), DEBUG=C(10), INFO=C(20),
        **{n: B('logging.' + n, lambda E, a, kw: NONEV) for n in ('debug', 'info', 'warning', 'error')})
    mod('abc', ABC=host(BC['object']), abstractmethod=B('abstractmethod', ident),
        ABCMeta=host(BC['type']))
    mod('itertools', chain=B('chain', it_chain, from_iterable=B('chain.from_iterable', it_chain_iter)),
        islice=B('islice', it_islice), repeat=B('repeat', it_repeat))
    mod('operator', itemgetter=B('itemgetter', itemgetter), attrgetter=B('attrgetter', attrgetter),
        methodcaller=B('methodcaller', methodcaller),
        add=binop_fn('add'), sub=binop_fn('sub'), mul=binop_fn('mul'), xor=binop_fn('xor'), or_=binop_fn('or'),
        and_=binop_fn('and'), mod=binop_fn('mod'), floordiv=binop_fn('floordiv'), lshift=binop_fn('lshift'),
        rshift=binop_fn('rshift'), eq=cmp_fn('eq'), ne=cmp_fn('ne'), lt=cmp_fn('lt'), le=cmp_fn('le'),
        gt=cmp_fn('gt'), ge=cmp_fn('ge'))
    import string as _s
    mod('string', **{n: C(getattr(_s, n)) for n in ('digits', 'hexdigits', 'ascii_letters', 'ascii_lowercase',
                                                    'ascii_uppercase', 'printable', 'whitespace', 'punctuation')})
    mod('time', time=B('time.time', lambda E, a, kw: E.event('time', (), FLOAT)))
    mod('typing', **{n: host('typing') for n in ('List', 'Dict', 'Tuple', 'Optional', 'Any', 'Union', 'Iterable',
                                                 'Callable', 'Sequence', 'NamedTuple', 'Iterator', 'Type')},
        TYPE_CHECKING=FALSE)
    mod('__future__', annotations=NONEV, division=NONEV)
    mod('warnings', warn=B('warn', lambda E, a, kw: NONEV))
    mod('sys', maxsize=C(2 ** 63 - 1), version_info=tup([C(3), C(12)]), byteorder=C('little'))
    mod('copy', copy=B('copy.copy', f_copy), deepcopy=B('copy.deepcopy', f_copy))
    mod('types', MappingProxyType=B('MappingProxyType', ident))
    mod('contextlib', suppress=B('suppress', f_suppress))
    ffi = host(LibModule('ffi', dict(new=B('ffi.new', ffi_new), buffer=B('ffi.buffer', ffi_buffer),
                                     NULL=host('NULL'), CData=host(BC['cdata']))))
    lib = host(LibModule('lib', dict(SECP256K1_EC_COMPRESSED=C(258), SECP256K1_EC_UNCOMPRESSED=C(2),
                                     **{'secp256k1_' + n: native(n) for n in NATIVE})))
    mod('electrumsv_secp256k1', ffi=ffi, lib=lib,
        create_context=B('create_context', lambda E, a, kw: host('secp-context')))
    AESm = mod('Cryptodome.Cipher.AES', new=B('AES.new', aes_new), MODE_CBC=C(2), block_size=C(16))
    cip = mod('Cryptodome.Cipher', AES=AESm)
    mod('Cryptodome', Cipher=cip)
    mod('pyaes', AESModeOfOperationCBC=B('AESModeOfOperationCBC', pyaes_cbc),
        Encrypter=B('Encrypter', pyaes_feeder('encrypt')), Decrypter=B('Decrypter', pyaes_feeder('decrypt')),
        PADDING_NONE=C('none'), PADDING_DEFAULT=C('default'))

    def feeder_attr(E, v, name):
        if name != 'feed':
            return None

        def feed(E, a, kw):
            o = E.st.obj(v)
            op, key, iv, d = o.v.args
            if o.f['done'] is TRUE:
                E.py_raise('ValueError')
            if a:
                if length(d) is not ZERO:
                    raise Undecided('repeated feed')
                d = bytes_like(E, a[0])
                if not E.branch(lt(ZERO, length(d))):
                    return C(b'')
                c = aes(op, key, iv, d)
                E.st.wobj(v).v = mk('aes', (op, key, iv, d), BYTES)
                return sl(c, ZERO, imul(C(16), ifd(isub(length(d), ONE), C(16))))
            E.st.wobj(v).f['done'] = TRUE
            n = length(d)
            if n is ZERO:
                return C(b'')
            if not E.branch(eq0(imod(n, C(16)))):
                E.py_raise('Exception')
            c = aes(op, key, iv, d)
            return sl(c, imul(C(16), ifd(isub(n, ONE), C(16))), n)
        return B('feed', feed)
    E.attrhooks['feeder'] = feeder_attr


def f_copy(E, a, kw):
    v = E.res(a[0])
    if v.op == 'ref':
        if E.st.obj(v).k in ('list', 'dict', 'bytearray', 'set'):
            return E.st.alloc(E.st.obj(v).copy())
        if E.st.obj(v).k == 'inst':
            return E.st.alloc(E.st.obj(v).copy())
        raise Undecided('copy')
    return v


class Suppress:
    def __init__(self, classes):
        self.classes = classes

    def attr(self, E, name):
        if name == '__enter__':
            return B('enter', lambda E, a, kw: NONEV)
        if name == '__exit__':
            def ex(E, a, kw):
                if a[0] is NONEV:
                    return FALSE
                c = a[0].args[0]
                return C(any(c.sub(x.args[0]) for x in self.classes))
            return B('exit', ex)
        return None


def f_suppress(E, a, kw):
    return host(Suppress([E.res(x) for x in a]))
