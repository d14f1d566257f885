"""Models of the builtin types and functions."""
import ast
import math
import builtins as PB
import re as _re
from .core import *
from .terms import *
from . import terms as TT
from .interp import BC, BIN, CMP, SWAP, KINDCLS

RANGE = ('range',)
FLOAT = ('float',)


def B(name, impl, **attrs):
    b = Builtin(name, impl)
    if attrs:
        b.attrs = attrs
    return host(b)


def isnum(k):
    return k in ('int', 'bool')


def content(E, v):
    """bytes/str term behind a bytes-like value"""
    if v.op == 'ref':
        o = E.st.obj(v)
        if o.k in ('bytearray', 'mview'):
            return o.v
        if o.k == 'cdata':
            return o.v
    return v


def is_bytes(E, v):
    return E.kind(v) in ('bytes', 'bytearray', 'mview')


def bytes_like(E, v, what='TypeError'):
    v = E.res(v)
    if is_bytes(E, v):
        return content(E, v)
    k = E.kind(v)
    if k == 'array':
        return E.st.obj(v).v
    if k == 'mmap':
        from .libs import mmap_data
        return mmap_data(E, v)
    if k == 'any':
        raise Undecided('bytes-like of unknown type')
    if k == 'cdata':
        raise Undecided('buffer of a native value')
    E.type_error(v)


# ============================================================================= arithmetic
def int_binop(E, op, a, b):
    a, b = E.num(a), E.num(b)
    if op is ast.Add:
        return iadd(a, b)
    if op is ast.Sub:
        return isub(a, b)
    if op is ast.Mult:
        return imul(a, b)
    if op in (ast.FloorDiv, ast.Mod):
        if not is_const(b):
            if E.branch(eq0(b)):
                E.py_raise('ZeroDivisionError')
        elif cval(b) == 0:
            E.py_raise('ZeroDivisionError')
        return ifd(a, b) if op is ast.FloorDiv else imod(a, b)
    if op is ast.Pow:
        if is_const(b) and cval(b) < 0:
            return mk('fop', ('pow', a, b), FLOAT)
        return ipow(a, b)
    if op in (ast.LShift, ast.RShift):
        if E.branch(lt(b, ZERO)):
            E.py_raise('ValueError')
        return ishl(a, b) if op is ast.LShift else ishr(a, b)
    if op is ast.BitAnd:
        return iand(a, b)
    if op is ast.BitOr:
        return ior(a, b)
    if op is ast.BitXor:
        return ixor(a, b)
    if op is ast.Div:
        if E.branch(eq0(b)):
            E.py_raise('ZeroDivisionError')
        if is_const(a) and is_const(b):
            return C(cval(a) / cval(b))
        return mk('fop', ('div', a, b), FLOAT)
    raise Undecided('int operator')


def binop(E, op, a, b):
    a, b = E.res(a), E.res(b)
    if a.op == 'ite' or b.op == 'ite':
        if a.op == 'ite' and a.ty[0] in ('bytes', 'str') or b.op == 'ite' and b.ty[0] in ('bytes', 'str'):
            pass
    ka, kb = E.kind(a), E.kind(b)
    ca, cb = E.cls_of(a), E.cls_of(b)
    if (ca is not None and not ca.builtin) or (cb is not None and not cb.builtin):
        n = BIN[op]
        m = E.lookup_special(a, f'__{n}__')
        if m is not None:
            r = E.call(m, [b], {})
            if not (r.op == 'host' and r.args[0] == 'NotImplemented'):
                return r
        m = E.lookup_special(b, f'__r{n}__')
        if m is not None:
            r = E.call(m, [a], {})
            if not (r.op == 'host' and r.args[0] == 'NotImplemented'):
                return r
        if ka in ('inst', 'obj') or kb in ('inst', 'obj'):
            if 'any' in (ka, kb):
                raise Undecided('operator on unknown')
            E.type_error(*[v for v, k in ((a, ka), (b, kb)) if k not in ('inst', 'obj')])
    if ka == 'bool' and kb == 'bool' and op in (ast.BitAnd, ast.BitOr, ast.BitXor):
        if op is ast.BitAnd:
            return mk_and(a, b)
        if op is ast.BitOr:
            return mk_or(a, b)
        return mk_ite(a, mk_not(b), b)
    if isnum(ka) and isnum(kb):
        return int_binop(E, op, a, b)
    if 'float' in (ka, kb) and ka in ('int', 'bool', 'float') and kb in ('int', 'bool', 'float'):
        if is_const(a) and is_const(b):
            return fold_float(E, op, a, b)
        if op in (ast.Div, ast.FloorDiv, ast.Mod) and kb != 'float' and E.branch(eq0(E.num(b))):
            E.py_raise('ZeroDivisionError')
        x, y = a, b
        if op is ast.Div and x.op == 'fop' and x.args[0] == 'log' and is_const(x.args[2]) and is_const(y) and \
                abs(math.log(cval(x.args[2])) - 1) < 1e-12 and abs(math.exp(cval(y)) - round(math.exp(cval(y)))) < 1e-12:
            return mk('fop', ('log', x.args[1], C(round(math.exp(cval(y))))), FLOAT)
        if op in (ast.Add, ast.Mult) and x.uid > y.uid:
            x, y = y, x
        return mk('fop', (BIN[op], x, y), FLOAT)
    if op is ast.Add:
        if is_bytes(E, a) and is_bytes(E, b):
            r = cat('b', [content(E, a), content(E, b)])
            if ka == 'bytearray':
                return E.st.alloc(Obj('bytearray', None, None, r))
            return r
        if ka == 'str' and kb == 'str':
            return cat('s', [a, b])
        if ka == 'list' and kb == 'list':
            return E.new_list(cat('q', [E.st.obj(a).v, E.st.obj(b).v]))
        if ka == 'tuple' and kb == 'tuple':
            return tup_seq(cat('q', [a.args[0], b.args[0]]))
        if ka in ('seq', 'list') and kb in ('seq', 'list'):
            return E.new_list(cat('q', [E.to_seq(a), E.to_seq(b)]))
    if op is ast.Mult:
        if isnum(ka):
            a, b, ka, kb = b, a, kb, ka
        if isnum(kb):
            n = E.num(b)
            if ka in ('bytes', 'str', 'bytearray', 'list', 'tuple', 'seq'):
                if not is_const(n) and not E.branch(ge0(n)):
                    n = ZERO
                if ka in ('bytes', 'str'):
                    return rep(a, n)
                if ka == 'bytearray':
                    return E.st.alloc(Obj('bytearray', None, None, rep(E.st.obj(a).v, n)))
                if ka == 'tuple':
                    return tup_seq(rep(a.args[0], n))
                return E.new_list(rep(E.to_seq(a), n))
    if op is ast.Mod and ka in ('str', 'bytes'):
        return mod_format(E, a, b, ka)
    if ka == 'set' and kb == 'set':
        return set_op(E, op, a, b)
    if ka == 'dict' and kb == 'dict' and op is ast.BitOr:
        r = E.st.alloc(Obj('dict', None, None, dict(E.st.obj(a).v)))
        E.call(E.getattr(r, 'update'), [b], {})
        return r
    if 'any' in (ka, kb):
        raise Undecided('operator on an unknown value')
    E.type_error(a, b)


def fold_float(E, op, a, b):
    import operator
    f = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
         ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow}[op]
    try:
        return C(f(cval(a), cval(b)))
    except ZeroDivisionError:
        E.py_raise('ZeroDivisionError')


def mod_format(E, a, b, ka):
    if is_const(a) and ka == 'str':
        args = E.const_items(b) if E.kind(b) == 'tuple' else [b]
        import re
        parts, pos, j = [], 0, 0
        for m in re.finditer(r'%(%|([0-9]*)([sdxr]))', cval(a)):
            parts.append(C(cval(a)[pos:m.start()]))
            pos = m.end()
            if m.group(1) == '%':
                parts.append(C('%'))
                continue
            x = args[j]
            j += 1
            if m.group(3) == 's':
                parts.append(str_(E, x))
            elif m.group(3) == 'r':
                parts.append(repr_(E, x))
            else:
                parts.append(format_(E, x, C(m.group(2) + m.group(3))))
        parts.append(C(cval(a)[pos:]))
        return cat('s', parts)
    raise Undecided('% formatting')


# ============================================================================= comparison
def in_const_ints(E, n, vals):
    vals = sorted(set(vals))
    runs = []
    for v in vals:
        if runs and runs[-1][1] == v - 1:
            runs[-1][1] = v
        else:
            runs.append([v, v])
    if len(runs) <= 6:
        return mk_or(*[mk_and(le(C(a), n), le(n, C(b))) if a != b else mk_eq(n, C(a)) for a, b in runs])
    return mk('inset', (n, tuple(vals)), BOOL)


def in_const_strs(x, vals):
    vals = tuple(sorted(set(vals)))
    if is_const(x):
        return C(cval(x) in vals)
    if not vals:
        return FALSE
    ls = {len(v) for v in vals}
    n = length(x)
    if is_const(n):
        vals = tuple(v for v in vals if len(v) == cval(n))
        if not vals:
            return FALSE
    if len(vals) <= 4:
        return mk_or(*[mk_eq(x, C(v)) for v in vals])
    return mk('inset', (x, vals), BOOL)


def eq_terms(E, a, b):
    """literal (or forks) for a == b"""
    a, b = E.res(a), E.res(b)
    if a is b and a.ty[0] != 'float':
        return TRUE
    ka, kb = E.kind(a), E.kind(b)
    if ka in ('inst', 'obj') or kb in ('inst', 'obj'):
        if ka in ('inst', 'obj'):
            m = E.lookup_special(a, '__eq__')
            if m is not None:
                r = E.call(m, [b], {})
                if not (r.op == 'host' and r.args[0] == 'NotImplemented'):
                    return r
        if kb in ('inst', 'obj'):
            m = E.lookup_special(b, '__eq__')
            if m is not None:
                r = E.call(m, [a], {})
                if not (r.op == 'host' and r.args[0] == 'NotImplemented'):
                    return r
        if 'any' in (ka, kb):
            return mk('eqany', (E.reify(a), E.reify(b)), BOOL)
        if ka == 'obj' and kb == 'obj':
            return mk('same', tuple(sorted((a, b), key=lambda t: t.uid)), BOOL)
        return FALSE
    if is_bytes(E, a) and is_bytes(E, b):
        return mk_eq(content(E, a), content(E, b))
    if ka in ('list', 'seq', 'tuple') and kb in ('list', 'seq', 'tuple'):
        if (ka == 'tuple') != (kb == 'tuple'):
            return FALSE
        qa, qb = E.to_seq(a), E.to_seq(b)
        if qa.op == 'items' and qb.op == 'items':
            if len(qa.args) != len(qb.args):
                return FALSE
            for x, y in zip(qa.args, qb.args):
                if not E.test(eq_terms(E, x, y)):
                    return FALSE
            return TRUE
        return mk_eq(qa, qb)
    if ka in ('dict', 'set') and kb == ka:
        ra, rb = E.reify(a), E.reify(b)
        if ra is rb:
            return TRUE
        raise Undecided('dict/set equality')
    if 'host' in (ka, kb):
        if a.op == b.op == 'host':
            return C(a.args[0] == b.args[0])
        return FALSE if 'any' not in (ka, kb) else mk('eqany', (a, b), BOOL)
    if a.op == 'ref' or b.op == 'ref':
        if 'any' in (ka, kb):
            raise Undecided('== with unknown')
        return FALSE
    if ka == 'float' or kb == 'float':
        if is_const(a) and is_const(b):
            return C(cval(a) == cval(b))
        if isnum(ka) or isnum(kb) or ka == kb:
            return mk('feq', tuple(sorted((a, b), key=lambda t: t.uid)), BOOL)
        return FALSE
    return mk_eq(a, b)


def order(E, n, a, b):
    a, b = E.res(a), E.res(b)
    ka, kb = E.kind(a), E.kind(b)
    if isnum(ka) and isnum(kb):
        x, y = E.num(a), E.num(b)
        return {'lt': lt(x, y), 'le': le(x, y), 'gt': lt(y, x), 'ge': le(y, x)}[n]
    m = E.lookup_special(a, f'__{n}__')
    if m is not None:
        r = E.call(m, [b], {})
        if not (r.op == 'host' and r.args[0] == 'NotImplemented'):
            return r
    m = E.lookup_special(b, f'__{SWAP[n]}__')
    if m is not None:
        r = E.call(m, [a], {})
        if not (r.op == 'host' and r.args[0] == 'NotImplemented'):
            return r
    if ka in ('int', 'bool', 'float') and kb in ('int', 'bool', 'float'):
        if is_const(a) and is_const(b):
            x, y = cval(a), cval(b)
            return C({'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[n])
        if n in ('gt', 'ge'):
            a, b, n = b, a, SWAP[n]
        return mk('fcmp', (n, a, b), BOOL)
    if (ka == kb == 'str') or (is_bytes(E, a) and is_bytes(E, b)):
        a, b = content(E, a), content(E, b)
        if is_const(a) and is_const(b):
            x, y = cval(a), cval(b)
            return C({'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[n])
        if ka == 'str' and length(a) is ONE and length(b) is ONE:
            return order(E, n, ord_(a), ord_(b))
        if length(a) is length(b) and ka != 'str':
            return order(E, n, fromb('big', False, a), fromb('big', False, b))
        if n in ('gt', 'ge'):
            a, b, n = b, a, SWAP[n]
        if n == 'le':
            return mk_not(mk('slt', (b, a), BOOL))
        return mk('slt', (a, b), BOOL)
    if 'any' in (ka, kb):
        raise Undecided('ordering of unknown values')
    if ka == kb and ka in ('tuple', 'list'):
        qa, qb = E.to_seq(a), E.to_seq(b)
        if qa.op == 'items' and qb.op == 'items':
            for x, y in zip(qa.args, qb.args):
                if E.test(eq_terms(E, x, y)):
                    continue
                return order(E, n, x, y)
            la, lb = len(qa.args), len(qb.args)
            return C({'lt': la < lb, 'le': la <= lb, 'gt': la > lb, 'ge': la >= lb}[n])
        raise Undecided('sequence ordering')
    E.py_raise('TypeError')


def compare(E, op, a, b):
    if op is ast.Eq or op is ast.NotEq:
        ra, rb = E.res(a), E.res(b)
        if op is ast.NotEq:
            m = E.lookup_special(ra, '__ne__')
            if m is not None:
                return E.call(m, [rb], {})
        r = eq_terms(E, ra, rb)
        if op is ast.NotEq:
            return mk_not(E.truth(r))
        return r
    if op in (ast.Is, ast.IsNot):
        r = is_(E, a, b)
        return r if op is ast.Is else mk_not(r)
    if op in (ast.In, ast.NotIn):
        r = contains(E, b, a)
        return r if op is ast.In else mk_not(r)
    return order(E, CMP[op], a, b)


def is_(E, a, b):
    for x, y in ((a, b), (b, a)):
        if y is NONEV:
            if x.ty[0] == 'opt':
                return mk('isnone', (x,), BOOL)
            x = E.res(x)
            if x is NONEV:
                return TRUE
            if x.ty == ANY and x.op not in ('ref', 'host', 'tuple', 'intsub'):
                return mk('isnone', (x,), BOOL)
            return FALSE
    a, b = E.res(a), E.res(b)
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if y.op == 'const' and y.ty == BOOL:
            if x.ty == BOOL:
                return x if cval(y) else mk_not(x)
            if x.ty[0] == 'any' and x.op not in ('ref', 'host', 'tuple'):
                return mk('isbool', (x, y), BOOL)
            return FALSE
    if a.op == 'ref' or b.op == 'ref':
        if a.ty[0] == 'obj' or b.ty[0] == 'obj' or a.ty[0] == 'any' or b.ty[0] == 'any':
            return mk('same', tuple(sorted((a, b), key=lambda t: t.uid)), BOOL)
        return FALSE
    if a.op == 'host' and b.op == 'host':
        return C(a.args[0] == b.args[0])
    if a.op == 'host' or b.op == 'host':
        return FALSE
    ca, cb = E.cls_of(a), E.cls_of(b)
    if ca is not None and cb is not None and not ca.sub(cb) and not cb.sub(ca):
        return FALSE
    if a.op == 'intsub' and b.op == 'intsub' and ca is cb and ca.enum is not None:
        return mk_eq(a, b)
    if a.ty[0] == 'obj' and b.ty[0] == 'obj':
        return mk('same', tuple(sorted((a, b), key=lambda t: t.uid)), BOOL)
    raise Undecided('identity comparison')


def contains(E, c, x):
    c, x = E.res(c), E.res(x)
    k = E.kind(c)
    kx = E.kind(x)
    if k == 'inst':
        m = E.lookup_special(c, '__contains__')
        if m is not None:
            return E.truth(E.call(m, [x], {}))
        o = E.st.obj(c)
        if type(o.v) is dict:
            k = 'dict'
    if k in ('dict', 'set'):
        o = E.st.obj(c)
        if type(o.v) is not dict:
            return mk('indict', (o.v, E.reify(x)), BOOL)
        if x.op in ('ref',) and kx in ('list', 'dict', 'set', 'bytearray'):
            E.py_raise('TypeError')
        return dict_has(E, o.v, x)
    if k == 'str':
        if kx != 'str':
            E.py_raise('TypeError')
        if is_const(c) and is_const(x):
            return C(cval(x) in cval(c))
        if is_const(c) and length(x) is ONE:
            return in_const_strs(x, list(cval(c)))
        if is_const(x) and cval(x) == '':
            return TRUE
        if is_const(x) and len(cval(x)) == 1:
            return has_char(E, x, c)
        if is_const(x) and c.op == 'cat':
            return in_cat(E, x, c)
        return mk('substr', (x, c), BOOL)
    if k in ('bytes', 'bytearray'):
        c = content(E, c)
        if isnum(kx):
            if is_const(c):
                return in_const_ints(E, E.num(x), list(cval(c)))
            return mk('substr', (tob('little', ONE, E.num(x)), c), BOOL)
        x = content(E, x)
        if is_const(c) and is_const(x):
            return C(cval(x) in cval(c))
        return mk('substr', (x, c), BOOL)
    if k in ('tuple', 'list', 'seq'):
        q = E.to_seq(c)
        if q.op == 'items':
            if isnum(kx) and all(is_const(to_int(y)) and y.ty[0] in ('int', 'bool') for y in q.args):
                return in_const_ints(E, E.num(x), [int(cval(to_int(y))) for y in q.args])
            if kx in ('str',) and all(is_const(y) and y.ty[0] == 'str' for y in q.args):
                return in_const_strs(x, [cval(y) for y in q.args])
            for y in q.args:
                if E.test(eq_terms(E, y, x)):
                    return TRUE
            return FALSE
        if x.op != 'ref' and kx not in ('inst', 'obj'):
            return mk('inseq', (x, q), BOOL)
        raise Undecided('membership in a sequence')
    if k == 'range':
        lo, hi, st = c.args
        if is_const(st) and cval(st) == 1 and isnum(kx):
            n = E.num(x)
            return mk_and(le(lo, n), lt(n, hi))
        raise Undecided('membership in range')
    if c.op == 'host' and isinstance(c.args[0], Cls) and c.args[0].enum is not None:
        return in_const_ints(E, E.num(x), [cval(to_int(m)) for m in c.args[0].enum.values()])
    if k in ('gen', 'iter'):
        q = E.to_seq(c)
        return contains(E, E.new_list(q), x)
    if k == 'any':
        raise Undecided('membership in unknown')
    m = E.lookup_special(c, '__iter__')
    if m is not None:
        return contains(E, E.new_list(E.to_seq(c)), x)
    E.type_error(c)


# ============================================================================= dictionaries
def dkey(E, k):
    """canonical dictionary key term"""
    k = E.res(k)
    if k.op == 'intsub':
        k = to_int(k)
    if k.op == 'const' and k.ty == BOOL:
        k = C(int(cval(k)))
    kd = E.kind(k)
    if kd in ('list', 'dict', 'set', 'bytearray'):
        E.py_raise('TypeError', 'unhashable')
    if kd == 'inst' and E.lookup_special(k, '__hash__') is not None:
        return k
    if k.op == 'tuple':
        return mk('tuple', (items([dkey(E, x) for x in E.const_items(k)]),), ('tuple',))
    return k


def all_const(ks):
    return all(is_const(k) for k in ks)


def dict_has(E, d, k):
    k = dkey(E, k)
    if k in d:
        return TRUE
    if not d:
        return FALSE
    if is_const(k) and all_const(d):
        return FALSE
    kd = E.kind(k)
    if all_const(d):
        if isnum(kd):
            return in_const_ints(E, E.num(k), [cval(x) for x in d if x.ty[0] == 'int'])
        if kd in ('str', 'bytes'):
            return in_const_strs(k, [cval(x) for x in d if x.ty[0] == kd])
        if kd in ('none', 'float'):
            return FALSE
    if len(d) > 12:
        raise Undecided('lookup in a large symbolic dictionary')
    for x in d:
        if E.test(eq_terms(E, x, k)):
            return TRUE
    return FALSE


def dict_get(E, d, k):
    """value (key present), else None"""
    k = dkey(E, k)
    if k in d:
        return d[k]
    if not d:
        return None
    if is_const(k) and all_const(d):
        return None
    kd = E.kind(k)
    if all_const(d) and kd in ('int', 'bool', 'str', 'bytes'):
        if not E.branch(dict_has(E, d, k)):
            return None
        if isnum(kd):
            k = E.num(k)
        if k in d:
            return d[k]
        cand = {x: v for x, v in d.items() if x.ty[0] == k.ty[0]}
        if all(is_const(v) for v in cand.values()) and len(cand) > 3:
            return lookup(k, {cval(x): cval(v) for x, v in cand.items()})
        for x, v in cand.items():
            if E.branch(mk_eq(k, x)):
                return v
        raise Infeasible()
    if len(d) > 12:
        raise Undecided('lookup in a large symbolic dictionary')
    for x, v in d.items():
        if E.test(eq_terms(E, x, k)):
            return v
    return None


def lookup(k, table):
    if is_const(k):
        return C(table[cval(k)])
    vs = list(table.values())
    if all(type(v) is int for v in vs):
        ty = ('int', min(vs), max(vs))
    elif all(type(v) is str for v in vs):
        ls = {len(v) for v in vs}
        ty = ('str', ls.pop() if len(ls) == 1 else None)
    elif all(type(v) is bytes for v in vs):
        ls = {len(v) for v in vs}
        ty = ('bytes', ls.pop() if len(ls) == 1 else None)
    else:
        ty = ANY
    ks = [x for x in table if type(x) is int]
    if len(ks) == len(table) and len(ks) >= 2:
        ks = sorted(ks)
        diffs = {table[b] - table[a] == b - a for a, b in zip(ks, ks[1:])} if ty[0] == 'int' else {False}
        if diffs == {True}:
            return iadd(k, C(table[ks[0]] - ks[0]))
        if ks == list(range(ks[0], ks[-1] + 1)) and ty in (('str', 1), ('bytes', 1)):
            s = ''.join(table[x] for x in ks) if ty[0] == 'str' else b''.join(table[x] for x in ks)
            return elem(C(s), isub(k, C(ks[0]))) if ty[0] == 'str' else \
                sl(C(s), isub(k, C(ks[0])), isub(k, C(ks[0] - 1)))
    return mk('lookup', (tuple(sorted(table.items())), k), ty)


def set_add(E, r, v):
    v = dkey(E, v)
    o = E.st.obj(r)
    if type(o.v) is not dict:
        raise Undecided('symbolic set')
    if not E.branch(E.truth(dict_has(E, o.v, v))) if o.v else True:
        w = E.st.wobj(r)
        w.v = dict(w.v)
        w.v[v] = TRUE


def set_op(E, op, a, b):
    x, y = E.st.obj(a).v, E.st.obj(b).v
    if not (all_const(x) and all_const(y)):
        raise Undecided('symbolic set operation')
    if op is ast.BitOr:
        r = {**x, **y}
    elif op is ast.BitAnd:
        r = {k: v for k, v in x.items() if k in y}
    elif op is ast.Sub:
        r = {k: v for k, v in x.items() if k not in y}
    else:
        raise Undecided('set operation')
    return E.st.alloc(Obj('set', None, None, r))


# ============================================================================= subscripts
def norm_index(E, i, n):
    i = E.res(i)
    k = E.kind(i)
    if not isnum(k):
        m = E.lookup_special(i, '__index__')
        if m is not None:
            i = E.call(m, [], {})
        elif k == 'any':
            raise Undecided('index of unknown type')
        else:
            E.type_error(i)
    i = E.num(i)
    if E.branch(ge0(i)):
        if not E.branch(lt(i, n)):
            E.py_raise('IndexError')
        return i
    j = iadd(n, i)
    if not E.branch(ge0(j)):
        E.py_raise('IndexError')
    return j


def slice_bounds(E, s, n):
    """(lo, hi, step) with 0 <= lo <= hi <= n for step 1"""
    a, b, c = s.args
    a, b, c = E.res(a), E.res(b), E.res(c)
    step = 1
    if c is not NONEV:
        if not is_const(to_int(c)):
            raise Undecided('symbolic slice step')
        step = cval(to_int(c))
    for x in (a, b):
        if x is not NONEV and not isnum(E.kind(x)):
            if E.kind(x) == 'any':
                raise Undecided('slice bound')
            E.py_raise('TypeError')

    def clip(x, default):
        if x is NONEV:
            return default
        x = E.num(x)
        if not E.branch(ge0(x)):
            x = iadd(n, x)
            if not E.branch(ge0(x)):
                return ZERO if step > 0 else C(-1)
            return x
        if not E.branch(le(x, n) if step > 0 else lt(x, n)):
            return n if step > 0 else isub(n, ONE)
        return x
    if step > 0:
        lo, hi = clip(a, ZERO), clip(b, n)
        if not E.branch(le(lo, hi)):
            hi = lo
        return lo, hi, step
    lo, hi = clip(a, isub(n, ONE)), clip(b, C(-1))
    return lo, hi, step


def slice_seq(E, q, s):
    n = length(q)
    lo, hi, step = slice_bounds(E, s, n)
    if step == 1:
        return sl(q, lo, hi)
    if step == -1:
        if E.branch(le(lo, hi)):
            return empty(kind_of(q))
        return rev(sl(q, iadd(hi, ONE), iadd(lo, ONE)))
    if step > 0:
        m = isub(hi, lo)
        if is_const(m):
            es = [elem(q, iadd(lo, C(j))) for j in range(0, cval(m), step)]
            if q.ty[0] == 'bytes':
                return bytes_of(items(es))
            return cat('s', es) if q.ty[0] == 'str' else items(es)
        cnt = ifd(iadd(m, C(step - 1)), C(step))
        i = fresh('i', ('int', 0, None))
        t = tab(cnt, i, elem(q, iadd(lo, imul(C(step), i))))
        return bytes_of(t) if q.ty[0] == 'bytes' else join('s', t) if q.ty[0] == 'str' else t
    raise Undecided('slice step')


def elem_at(E, q, i, split):
    """an element of a short list or array is distinguished by the index"""
    if split and q.op == 'items' and 1 <= len(q.args) <= 5 and not is_const(i):
        for j in range(len(q.args) - 1):
            if E.branch(eq0(isub(i, C(j)))):
                return q.args[j]
        return q.args[-1]
    return elem(q, i)


def getitem(E, o, i):
    o = E.res(o)
    k = E.kind(o)
    if o.op == 'host':
        h = o.args[0]
        if isinstance(h, Cls):
            if h.enum is not None:
                i = E.res(i)
                if is_const(i):
                    m = h.enum.get(cval(i))
                    if m is None:
                        E.py_raise('KeyError')
                    return m
                names = {n: cval(to_int(m)) for n, m in h.enum.items()}
                if not E.branch(in_const_strs(i, list(names))):
                    E.py_raise('KeyError')
                v = lookup(i, names)
                return mk('intsub', (o, v), v.ty)
            return o
        f = getattr(h, 'getitem', None)
        if f:
            return f(E, i)
        raise Undecided('subscript of host')
    m = E.lookup_special(o, '__getitem__')
    if m is not None:
        return E.call(m, [mk_slice(E, i)], {})
    if k == 'inst' and type(E.st.obj(o).v) is dict:
        k = 'dict'
    if k == 'dict':
        d = E.st.obj(o).v
        if type(d) is not dict:
            kk = E.reify(i)
            if not E.branch(mk('indict', (d, kk), BOOL)):
                E.py_raise('KeyError')
            return mk('dictval', (d, kk), ANY)
        v = dict_get(E, d, i)
        if v is None:
            mm = E.lookup_special(o, '__missing__')
            if mm is not None:
                return E.call(mm, [i], {})
            E.py_raise('KeyError')
        return v
    if k == 'cdata':
        return cdata_get(E, o, i)
    if k in E.gethooks:
        return E.gethooks[k](E, o, i)
    if o.op == 'host' and hasattr(o.args[0], 'item'):
        return o.args[0].item(E, i)
    if k in ('list', 'tuple', 'seq'):
        q = E.to_seq(o)
        if i.op == 'slice':
            r = slice_seq(E, q, i)
            return tup_seq(r) if k == 'tuple' else E.new_list(r)
        return elem_at(E, q, norm_index(E, i, length(q)), k == 'list')
    if k in ('bytes', 'str', 'bytearray', 'mview', 'array'):
        q = content(E, o) if k != 'array' else E.st.obj(o).v
        if i.op == 'slice':
            r = slice_seq(E, q, i)
            if k in ('bytearray', 'mview', 'array'):
                return E.st.alloc(Obj(k, None, dict(E.st.obj(o).f), r))
            return r
        return elem_at(E, q, norm_index(E, i, length(q)), k == 'array')
    if k == 'range':
        lo, hi, st = o.args
        from .loops import range_seq
        q = range_seq(E, o)
        return elem(q, norm_index(E, i, length(q)))
    if k == 'any':
        raise Undecided('subscript of unknown value')
    E.type_error(o)


def mk_slice(E, i):
    return i


def setitem(E, o, i, v):
    o = E.res(o)
    k = E.kind(o)
    m = E.lookup_special(o, '__setitem__')
    if m is not None:
        E.call(m, [i, v], {})
        return
    if k == 'inst' and type(E.st.obj(o).v) is dict:
        k = 'dict'
    if k == 'dict':
        key = dkey(E, i)
        d = E.st.obj(o).v
        if type(d) is not dict:
            E.st.wobj(o).v = mk('dictset', (d, E.reify(i), E.reify(v)), ('map',))
            return
        if key not in d and not is_const(key) or (d and key not in d and not all_const(d)):
            for x in list(d):
                if E.test(eq_terms(E, x, key)):
                    key = x
                    break
        w = E.st.wobj(o)
        w.v = dict(w.v)
        w.v[key] = v
        return
    if k == 'cdata':
        cdata_set(E, o, i, v)
        return
    if k in E.sethooks:
        E.sethooks[k](E, o, i, v)
        return
    if k in ('list', 'bytearray', 'array', 'mview'):
        ob = E.st.obj(o)
        q = ob.v
        n = length(q)
        if i.op == 'slice':
            lo, hi, step = slice_bounds(E, i, n)
            if step != 1:
                raise Undecided('extended slice assignment')
            new = bytes_like(E, v) if k != 'list' else E.to_seq(v)
            E.st.wobj(o).v = cat('q' if k == 'list' else 'b', [sl(q, ZERO, lo), new, sl(q, hi, n)])
            return
        j = norm_index(E, i, n)
        if k == 'list':
            new = items([v])
        else:
            x = E.res(v)
            if not isnum(E.kind(x)):
                E.py_raise('TypeError')
            x = E.num(x)
            if not E.branch(mk_and(ge0(x), le(x, C(255)))):
                E.py_raise('ValueError')
            new = tob('little', ONE, x)
        E.st.wobj(o).v = cat('q' if k == 'list' else 'b',
                             [sl(q, ZERO, j), new, sl(q, iadd(j, ONE), n)])
        return
    if o.op == 'host' and hasattr(o.args[0], 'setitem'):
        o.args[0].setitem(E, i, v)
        return
    if k == 'any':
        raise Undecided('item assignment on unknown')
    E.type_error(o)


def delitem(E, o, i):
    o = E.res(o)
    k = E.kind(o)
    if k == 'dict':
        d = E.st.obj(o).v
        key = dkey(E, i)
        if key not in d:
            if not (is_const(key) and all_const(d)):
                raise Undecided('del of symbolic key')
            E.py_raise('KeyError')
        w = E.st.wobj(o)
        w.v = dict(w.v)
        del w.v[key]
        return
    if k in ('list', 'bytearray'):
        q = E.st.obj(o).v
        n = length(q)
        if i.op == 'slice':
            lo, hi, step = slice_bounds(E, i, n)
            if step != 1:
                raise Undecided('del slice')
        else:
            lo = norm_index(E, i, n)
            hi = iadd(lo, ONE)
        E.st.wobj(o).v = cat('q' if k == 'list' else 'b', [sl(q, ZERO, lo), sl(q, hi, n)])
        return
    raise Undecided('del item')


def cdata_get(E, o, i):
    from .libs import cdata_get
    return cdata_get(E, o, i)


def cdata_set(E, o, i, v):
    from .libs import cdata_set
    cdata_set(E, o, i, v)


# ============================================================================= conversions
def len_(E, v):
    v = E.res(v)
    k = E.kind(v)
    if k in ('bytes', 'str', 'seq'):
        return length(v)
    if k == 'tuple':
        return length(v.args[0])
    if k in ('list', 'bytearray', 'mview'):
        return length(E.st.obj(v).v)
    if k == 'array':
        return ifd(length(E.st.obj(v).v), E.st.obj(v).f['size']) if 'size' in E.st.obj(v).f \
            else length(E.st.obj(v).v)
    if k in ('inst', 'obj'):
        m = E.lookup_special(v, '__len__')
        if m is not None:
            return E.call(m, [], {})
        if v.op == 'ref' and type(E.st.obj(v).v) is dict:
            k = 'dict'
    if k in ('dict', 'set'):
        d = E.st.obj(v).v
        if type(d) is dict:
            return C(len(d))
        return mk('dictlen', (d,), ('int', 0, None))
    if k == 'range':
        lo, hi, st = v.args
        if is_const(st) and cval(st) == 1:
            if E.branch(le(lo, hi)):
                return isub(hi, lo)
            return ZERO
        from .loops import range_seq
        return length(range_seq(E, v))
    if v.op == 'host' and isinstance(v.args[0], Cls) and v.args[0].enum is not None:
        return C(len(set(v.args[0].enum.values())))
    if k == 'cdata':
        from .libs import cdata_len
        return cdata_len(E, v)
    if k in E.lenhooks:
        return E.lenhooks[k](E, v)
    if v.op == 'host' and hasattr(v.args[0], 'len_'):
        return v.args[0].len_(E)
    if k == 'any':
        raise Undecided('len of unknown value')
    E.type_error(v)


def dec(n):
    if is_const(n):
        return C(str(cval(n)))
    return mk('dec', (n,), STR)


def str_(E, v):
    v = E.res(v)
    k = E.kind(v)
    if k == 'str':
        return v
    if k in ('inst', 'obj'):
        m = E.lookup_special(v, '__str__')
        if m is not None:
            return E.call(m, [], {})
        c = E.cls_of(v)
        if c is not None and c.sub(BC['BaseException']):
            a = E.const_items(E.getattr(v, 'args'))
            if len(a) == 1:
                return str_(E, a[0])
            if not a:
                return C('')
        return repr_(E, v)
    if k == 'int':
        m = E.lookup_special(v, '__str__') or E.lookup_special(v, '__repr__')
        if m is not None:
            return E.call(m, [], {})
        return dec(to_int(v))
    return repr_(E, v)


def cdata_repr(o):
    import re
    t = re.sub(r'\s+(?=\[)', '', cval(o.f['type'])) if 'type' in o.f else '?'
    m = re.match(r'unsigned char\[(\d+)\]$', t)
    return f"<cdata '{t}' owning {m.group(1) if m else '?'} bytes>"


def repr_(E, v):
    v = E.res(v)
    k = E.kind(v)
    if is_const(v):
        return C(repr(cval(v)))
    if k == 'bool':
        return C('True') if E.branch(v) else C('False')
    if k in ('inst', 'obj'):
        m = E.lookup_special(v, '__repr__')
        if m is not None:
            return E.call(m, [], {})
        c = E.cls_of(v)
        if c is not None and c.attrs is not None and c.attrs.get('repr'):
            parts = [C(c.name + '(')]
            for j, n in enumerate(c.attrs['names']):
                parts += [C((', ' if j else '') + n + '='), repr_(E, E.getattr(v, n))]
            return cat('s', parts + [C(')')])
        return mk('objrepr', (C(c.name if c else '?'), ), STR)
    if k == 'int':
        m = E.lookup_special(v, '__repr__')
        if m is not None:
            return E.call(m, [], {})
        c = E.cls_of(v)
        if c is not None and c.enum is not None:
            return cat('s', [C(f'<{c.name}.'), E.enum_attr(v, c, 'name'), C(': '), dec(to_int(v)), C('>')])
        return dec(to_int(v))
    if k == 'list' or k == 'tuple':
        q = E.to_seq(v)
        if q.op == 'items':
            parts = [C('[' if k == 'list' else '(')]
            for j, x in enumerate(q.args):
                if j:
                    parts.append(C(', '))
                parts.append(repr_(E, x))
            return cat('s', parts + [C(']' if k == 'list' else (',)' if len(q.args) == 1 else ')'))])
    if k == 'host':
        o = v.args[0]
        if isinstance(o, Cls):
            return C(f"<class '{o.name}'>")
        return mk('objrepr', (C(type(o).__name__),), STR)
    if k == 'cdata':
        return C(cdata_repr(E.st.obj(v)))
    if is_bytes(E, v) and k != 'mview':
        r = cat('s', [C('b'), mk('breprtail', (content(E, v),), STR)])
        return r if k == 'bytes' else cat('s', [C('bytearray('), r, C(')')])
    return mk('repr', (E.reify(v),), STR)


def format_(E, x, spec):
    x = E.res(x)
    k = E.kind(x)
    if not is_const(spec):
        return mk('fmt', (spec, E.reify(x)), STR)
    s = cval(spec)
    if is_const(x) and x.ty[0] in ('int', 'str', 'float', 'bool'):
        try:
            return C(format(cval(x), s))
        except ValueError:
            E.py_raise('ValueError')
    if s == '' or (s == 's' and k == 'str') or (s == 'd' and k == 'int'):
        return str_(E, x)
    if isnum(k):
        n = E.num(x)
        if is_const(n):
            return C(format(cval(n), s))
        if s[-1:] == 'd' and s[-2:-1] in ',_0123456789':
            spec = C(s[:-1])
        w = _re.fullmatch('0([1-9][0-9]*[02468]|[2468])x', s)
        if w and E.branch(mk_and(ge0(n), lt(n, C(1 << (4 * int(w[1])))))):
            return tohex(tob('big', C(int(w[1]) // 2), n))
        return mk('fmt', (spec, n), STR)
    if k in ('str', 'float'):
        return mk('fmt', (spec, x), STR)
    if k in ('bytes', 'none', 'tuple', 'list'):
        E.py_raise('TypeError')
    return mk('fmt', (spec, E.reify(x)), STR)


def ord_(c):
    if is_const(c):
        return C(ord(cval(c)))
    if c.op == 'chr':
        return c.args[0]
    if c.op == 'lookup':
        t = c.args[0]
        return mk('lookup', (tuple((a, ord(b)) for a, b in t), c.args[1]),
                  ('int', min(ord(b) for _, b in t), max(ord(b) for _, b in t)))
    return mk('ord', (c,), ('int', 0, 0x10ffff))


def chr_(n):
    if is_const(n):
        return C(chr(cval(n)))
    if n.op == 'ord':
        return n.args[0]
    return mk('chr', (n,), ('str', 1))


HEXCH = '0123456789abcdefABCDEF'


def fromhex(E, s):
    s = E.res(s)
    if E.kind(s) != 'str':
        if E.kind(s) == 'any':
            raise Undecided('fromhex of unknown')
        E.py_raise('TypeError')
    if is_const(s):
        try:
            return C(bytes.fromhex(cval(s)))
        except ValueError:
            E.py_raise('ValueError')
    if s.op == 'hex':
        return s.args[0]
    if not E.branch(mk('ishex', (s,), BOOL)):
        E.py_raise('ValueError')
    n = length(s)
    if s.op == 'cat' and all(p.op == 'hex' for p in s.args[1:]):
        return cat('b', [p.args[0] for p in s.args[1:]])
    return mk('unhex', (s,), ('bytes', None))


def tohex(b):
    if is_const(b):
        return C(cval(b).hex())
    if b.op == 'unhex':
        pass
    if b.op == 'cat':
        return cat('s', [tohex(p) for p in b.args[1:]])
    return hexof(b)


def to_bytes_obj(E, x):
    """bytes(x)"""
    x = E.res(x)
    k = E.kind(x)
    if k == 'bytes':
        return x
    if k in ('bytearray', 'mview', 'array'):
        return E.st.obj(x).v
    if k == 'cdata':
        o = E.st.obj(x)
        t = cval(o.f['type'])
        if o.v.ty[0] != 'bytes' or not t.startswith(('unsigned char', 'uint8_t')):
            E.py_raise('TypeError')       # a struct, an integer, or an array of one-byte strings
        return o.v
    if k in ('inst', 'obj'):
        m = E.lookup_special(x, '__bytes__')
        if m is not None:
            return E.call(m, [], {})
    if isnum(k):
        n = E.num(x)
        if not E.branch(ge0(n)):
            E.py_raise('ValueError')
        return rep(C(b'\0'), n)
    if k == 'str':
        E.py_raise('TypeError')
    if k == 'any':
        raise Undecided('bytes() of unknown')
    q = E.to_seq(x)
    return ints_to_bytes(E, q)


def ints_to_bytes(E, q):
    if q.op == 'items':
        for v in q.args:
            v = E.res(v)
            if not isnum(E.kind(v)):
                E.py_raise('TypeError')
            n = E.num(v)
            if not E.branch(mk_and(ge0(n), le(n, C(255)))):
                E.py_raise('ValueError')
        return bytes_of(items([E.num(E.res(v)) for v in q.args]))
    if q.op == 'cat':
        return cat('b', [ints_to_bytes(E, p) for p in q.args[1:]])
    n = length(q)
    i = fresh('i', ('int', 0, None))
    e = elem(q, i)
    if e.ty[0] not in ('int', 'bool') and e.op != 'ite':
        if e.ty[0] == 'any':
            raise Undecided('bytes of unknown elements')
        E.py_raise('TypeError')
    lo, hi = irng_tree(e)
    if lo is None or lo < 0 or hi is None or hi > 255:
        lit = call_all(n, i, map_ite(e, lambda x: mk_and(ge0(x), le(x, C(255)))))
        if not E.branch(lit):
            E.py_raise('ValueError')
    return bytes_of(q)


def irng_tree(e):
    if e.op == 'ite':
        a, b = irng_tree(e.args[1]), irng_tree(e.args[2])
        return (None if a[0] is None or b[0] is None else min(a[0], b[0]),
                None if a[1] is None or b[1] is None else max(a[1], b[1]))
    return irng(e)


def map_ite(v, f):
    if v.op == 'ite':
        return mk_ite(v.args[0], map_ite(v.args[1], f), map_ite(v.args[2], f))
    return f(v)


def digits_only(E, x):
    """is the text known to be ASCII digits, perhaps after a minus sign, and no more than int() reads?"""
    f = E.st.facts
    d = x
    if provable(ge0(isub(length(x), ONE))) and f.implies(mk_eq(elem(x, ZERO), C('-'))) is True:
        d = sl(x, ONE, length(x))
    n = irng(length(x))[1]
    return n is not None and n <= 4300 and all(      # isdigit is False of the empty text
        f.implies(mk('m', (p, d), BOOL)) is True for p in ('str.isascii', 'str.isdigit'))


def to_int_value(E, a, kw):
    if not a:
        return ZERO
    x = E.res(a[0])
    k = E.kind(x)
    base = a[1] if len(a) > 1 else kw.get('base')
    if k == 'str' or is_bytes(E, x):
        x = content(E, x)
        b = 10 if base is None else cval(to_int(base))
        if is_const(x):
            try:
                return C(int(cval(x), b))
            except ValueError:
                E.py_raise('ValueError')
        if b == 10 and x.op == 'dec':
            return x.args[0]
        if b == 16 and x.op == 'hex':
            if E.branch(mk_eq(length(x.args[0]), ZERO)):
                E.py_raise('ValueError')
            return fromb('big', False, x.args[0])
        if not (b == 10 and digits_only(E, x)) and not E.branch(mk('isintstr', (x, C(b)), BOOL)):
            E.py_raise('ValueError')
        return mk('parseint', (x, C(b)), INT)
    if base is not None:
        E.py_raise('TypeError')
    if isnum(k):
        return E.num(x)
    if k == 'float':
        if is_const(x):
            return C(int(cval(x)))
        return mk('trunc', (x,), INT)
    if k in ('inst', 'obj'):
        for n in ('__int__', '__index__'):
            m = E.lookup_special(x, n)
            if m is not None:
                return E.call(m, [], {})
    if k == 'any':
        raise Undecided('int() of unknown')
    E.type_error(x)


def builtin_new(E, cls, a, kw):
    n = cls.name
    if n == 'int':
        v = to_int_value(E, a, kw)
        return to_int(v)
    if n == 'bool':
        return E.truth(a[0]) if a else FALSE
    if n == 'str':
        if not a:
            return C('')
        if len(a) > 1 or 'encoding' in kw:
            return builtin_call(E, bytes_like(E, a[0]), 'bytes', 'decode', a[1:], kw)
        return str_(E, a[0])
    if n == 'bytes':
        if not a:
            return C(b'')
        if len(a) > 1:
            return builtin_call(E, E.res(a[0]), 'str', 'encode', a[1:], kw)
        return to_bytes_obj(E, a[0])
    if n == 'bytearray':
        return E.st.alloc(Obj('bytearray', None, None, to_bytes_obj(E, a[0]) if a else C(b'')))
    if n == 'memoryview':
        return E.st.alloc(Obj('mview', BC['memoryview'], None, bytes_like(E, a[0])))
    if n == 'tuple':
        return tup_seq(E.to_seq(a[0])) if a else tup([])
    if n == 'list':
        return E.new_list(E.to_seq(a[0]) if a else items(()))
    if n in ('set', 'frozenset'):
        r = E.st.alloc(Obj('set', BC['frozenset'] if n == 'frozenset' else None, None, {}))
        if a:
            E.iterate(a[0], lambda v: set_add(E, r, v))
        return r
    if n == 'dict':
        r = E.st.alloc(Obj('dict', None, None, {}))
        if a or kw:
            E.call(E.getattr(r, 'update'), a, kw)
        return r
    if n == 'float':
        x = E.res(a[0]) if a else C(0.0)
        if is_const(x):
            try:
                return C(float(cval(x)))
            except (ValueError, TypeError) as e:
                E.py_raise(type(e).__name__)
        return mk('fop', ('float', x), FLOAT)
    if n == 'object':
        return E.st.alloc(Obj('inst', cls, {}))
    if n == 'type':
        if len(a) == 1:
            c = E.cls_of(E.res(a[0]))
            if c is None:
                raise Undecided('type()')
            return host(c)
        raise Undecided('type()')
    if n == 'range':
        a = [E.num(E.res(x)) for x in a]
        if len(a) == 1:
            a = [ZERO] + a
        if len(a) == 2:
            a = a + [ONE]
        return mk('range', tuple(a), RANGE)
    if n == 'enumerate':
        return enumerate_(E, a, kw)
    if n == 'zip':
        qs = [E.to_seq(x) for x in a]
        ns = [length(q) for q in qs]
        m = ns[0]
        for x in ns[1:]:
            m = m if E.branch(le(m, x)) else x
        i = fresh('i', ('int', 0, None))
        return iter_obj(E, tab(m, i, tup([elem(q, i) for q in qs])) if not is_const(m) else
                        items([tup([elem(q, C(j)) for q in qs]) for j in range(cval(m))]))
    if n == 'map':
        f = a[0]
        if len(a) == 2:
            src = a[1]

            def run(hook):
                E.iterate(src, lambda v: hook(E.call(f, [v], {})))
            return E.st.alloc(Obj('gen', None, {}, run))
        zs = builtin_new(E, BC['zip'], a[1:], {})

        def run(hook):
            E.iterate(zs, lambda v: hook(E.call(f, E.const_items(v), {})))
        return E.st.alloc(Obj('gen', None, {}, run))
    if n == 'filter':
        f, src = a

        def run(hook):
            def cb(v):
                t = E.truth(v) if f is NONEV else E.truth(E.call(f, [v], {}))
                if E.branch(t):
                    hook(v)
            E.iterate(src, cb)
        return E.st.alloc(Obj('gen', None, {}, run))
    if n == 'reversed':
        x = E.res(a[0])
        if is_bytes(E, x) or E.kind(x) == 'str':
            q = seq_of_bytes(rev(content(E, x))) if not is_const(content(E, x)) else \
                items([C(y) for y in cval(content(E, x))[::-1]])
            if content(E, x).op == 'tob' and is_const(length(content(E, x))):
                t = rev(content(E, x))
                q = items([elem(t, C(j)) for j in range(cval(length(t)))])
            return iter_obj(E, q)
        return iter_obj(E, rev(E.to_seq(x)))
    if n == 'slice':
        a = ([NONEV] + a + [NONEV]) if len(a) == 1 else (a + [NONEV])[:3]
        return mk('slice', tuple(a), SLICE)
    if n == 'property':
        return host(Deco('property', a[0], a[1] if len(a) > 1 else None))
    if n in ('classmethod', 'staticmethod'):
        return host(Deco(n, a[0]))
    if cls.sub(BC['BaseException']):
        return E.st.alloc(Obj('inst', cls, {'args': tup(a)}))
    h = E.newhooks.get(n)
    if h is not None:
        return h(E, a, kw)
    raise Undecided(f'construction of builtin {n}')


def iter_obj(E, q):
    return E.st.alloc(Obj('iter', None, {'pos': ZERO}, q))


def enumerate_(E, a, kw):
    start = E.num(a[1]) if len(a) > 1 else E.num(kw.get('start', ZERO))
    src = E.res(a[0])
    from .loops import random_access
    q = random_access(E, src)
    if q is not None:
        n = length(q)
        if q.op == 'items':
            return iter_obj(E, items([tup([iadd(start, C(j)), v]) for j, v in enumerate(q.args)]))
        i = fresh('i', ('int', 0, None))
        return iter_obj(E, tab(n, i, tup([iadd(start, i), elem(q, i)])))
    cell = E.st.alloc(Obj('cell', None, {}, start))

    def run(hook):
        def cb(v):
            o = E.st.wobj(cell)
            j = o.v
            o.v = iadd(j, ONE)
            hook(tup([j, v]))
        E.iterate(src, cb)
    return E.st.alloc(Obj('gen', None, {}, run))


# ============================================================================= isinstance
def isinstance_(E, v, c):
    c = E.res(c)
    if c.op == 'tuple':
        r = FALSE
        for x in E.const_items(c):
            t = isinstance_(E, v, x)
            if t is TRUE:
                return TRUE
            r = mk_or(r, t)
        return r
    if c.op != 'host' or not isinstance(c.args[0], Cls):
        raise Undecided('isinstance class')
    cls = c.args[0]
    if v.ty[0] == 'opt' or (v.op == 'ite' and v.ty[0] == 'any') or v.ty[0] == 'union':
        v = E.res(v)
    vc = E.cls_of(v)
    if vc is None:
        if v.ty[0] == 'any':
            return mk('isinst', (v, cls), BOOL)
        raise Undecided('isinstance of unknown')
    if vc.sub(cls):
        return TRUE
    if v.ty[0] == 'obj' and cls.sub(vc):
        return mk('isinst', (v, cls), BOOL)
    return FALSE


# ============================================================================= methods
def const_args(a, kw):
    return all(is_const(x) for x in a) and all(is_const(x) for x in kw.values())


def fold(E, f, *a, **kw):
    try:
        r = f(*a, **kw)
    except Exception as e:
        n = type(e).__name__
        E.py_raise(n if n in BC else 'ValueError')
    return lift(E, r)


def lift(E, r):
    if isinstance(r, (int, str, bytes, bool, float)) or r is None:
        return C(r)
    if isinstance(r, tuple):
        return tup([lift(E, x) for x in r])
    if isinstance(r, list):
        return E.new_list(items([lift(E, x) for x in r]))
    raise Undecided('lift')


def builtin_attr(E, v, kind, name):
    f = METHODS.get((kind, name))
    if f is None and kind == 'seq':
        f = METHODS.get(('list', name))
    if f is None and kind == 'bytearray':
        if ('bytes', name) in METHODS:
            def f(E, s, a, kw, name=name):
                return METHODS[('bytes', name)](E, E.st.obj(s).v, a, kw)
    if f is None and kind == 'bool':
        f = METHODS.get(('int', name))
    if f is None:
        g = ATTRS.get((kind, name))
        if g is not None:
            return g(E, v)
        h = E.attrhooks.get(kind)
        if h is not None:
            r = h(E, v, name)
            if r is not None:
                return r
        if kind in ('bytes', 'str', 'int', 'bool', 'float', 'list', 'dict', 'set', 'tuple', 'bytearray', 'none'):
            pt = {'none': type(None)}.get(kind) or getattr(PB, kind)
            if not hasattr(pt, name):
                return None
            return host(Builtin(f'{kind}.{name}', lambda E, a, kw: builtin_call(E, v, kind, name, a, kw)))
        if kind == 'host':
            return None
        if kind in ('seq',):
            return None
        raise Undecided(f'attribute {name} of {kind}')
    return host(Builtin(f'{kind}.{name}', lambda E, a, kw: f(E, v, a, kw)))


def builtin_call(E, v, kind, name, a, kw):
    f = METHODS.get((kind, name))
    if f is not None:
        return f(E, v, a, kw)
    a = [E.res(x) for x in a]
    if is_const(v) and const_args(a, kw):
        return fold(E, getattr(cval(v), name), *[cval(x) for x in a], **{k: cval(x) for k, x in kw.items()})
    rt = PURE.get((kind, name))
    if rt is not None:
        aa = tuple(E.reify(x) for x in a) + tuple(x for k in sorted(kw) for x in (C(k), E.reify(kw[k])))
        return mk('m', (kind + '.' + name, v) + aa, rt)
    raise Undecided(f'method {kind}.{name}')


PURE = {}
for _n in ('upper', 'lower', 'strip', 'lstrip', 'rstrip', 'replace', 'ljust', 'rjust', 'zfill', 'center', 'title',
           'casefold', 'capitalize', 'swapcase', 'expandtabs', 'translate', 'removeprefix', 'removesuffix'):
    PURE[('str', _n)] = STR
    PURE[('bytes', _n)] = BYTES
for _n in ('isdigit', 'isalpha', 'isalnum', 'isspace', 'islower', 'isupper', 'isdecimal', 'isnumeric', 'isascii',
           'isprintable', 'isidentifier', 'istitle'):
    PURE[('str', _n)] = BOOL
    PURE[('bytes', _n)] = BOOL
PURE[('str', 'count')] = PURE[('bytes', 'count')] = ('int', 0, None)
for _n in ('find', 'rfind'):
    PURE[('str', _n)] = PURE[('bytes', _n)] = ('int', -1, None)

METHODS = {}
ATTRS = {}


def meth(kind, *names):
    def deco(f):
        for n in names:
            METHODS[(kind, n)] = f
        return f
    return deco


def arg(E, a, kw, i, name, default=None):
    if len(a) > i:
        return a[i]
    if name in kw:
        return kw[name]
    if default is None:
        E.py_raise('TypeError')
    return default


# ---- int
@meth('int', 'to_bytes')
def int_to_bytes(E, s, a, kw):
    n = E.num(s)
    size = E.num(E.res(arg(E, a, kw, 0, 'length', ONE)))
    end = E.res(arg(E, a, kw, 1, 'byteorder', C('big')))
    signed = kw.get('signed', FALSE)
    if not is_const(end) or not is_const(signed):
        raise Undecided('to_bytes options')
    if cval(end) not in ('big', 'little'):
        E.py_raise('ValueError')
    if not E.branch(ge0(size)):
        E.py_raise('ValueError')
    return int_bytes(E, n, size, cval(end), cval(signed))


def min_size(n):
    """(bit_length(n) + 7) // 8"""
    return ifd(iadd(bitlen(n), C(7)), C(8))


def int_bytes(E, n, size, end, signed, exc='OverflowError'):
    if signed:
        if not is_const(size):
            raise Undecided('signed to_bytes of symbolic size')
        w = 8 * cval(size)
        h = 1 << (w - 1) if w else 0
        if not E.branch(mk_and(le(C(-h), n), lt(n, C(max(h, 1))))):
            E.py_raise(exc)
        return tob(end, size, n)
    if not E.branch(ge0(n)):
        E.py_raise(exc)
    if is_const(size):
        if not E.branch(lt(n, C(1 << (8 * cval(size))))):
            E.py_raise(exc)
    elif min_size(n) is not size and not provable(le(min_size(n), size)):
        if not E.branch(le(min_size(n), size)):
            E.py_raise(exc)
    return tob(end, size, n)


def bitlen(n):
    if is_const(n):
        return C(cval(n).bit_length())
    lo, hi = free(irng, n)
    ub = hi.bit_length() if lo is not None and lo >= 0 and hi is not None else None
    lb = lo.bit_length() if lo is not None and lo >= 0 else 0
    return mk('bitlen', (n,), ('int', lb, ub))


@meth('int', 'bit_length')
def int_bit_length(E, s, a, kw):
    return bitlen(E.num(s))


@meth('int', '__index__', '__int__', 'conjugate')
def int_index(E, s, a, kw):
    return E.num(s)


ATTRS[('int', 'real')] = ATTRS[('int', 'numerator')] = lambda E, v: E.num(v)
ATTRS[('int', 'imag')] = lambda E, v: ZERO


# ---- bytes / str
@meth('bytes', 'hex')
def bytes_hex(E, s, a, kw):
    if a or kw:
        raise Undecided('hex separator')
    return tohex(s)


@meth('mview', 'hex')
def mv_hex(E, s, a, kw):
    return tohex(E.st.obj(s).v)


@meth('mview', 'tobytes')
def mv_tobytes(E, s, a, kw):
    return E.st.obj(s).v


def _affix(E, s, x, start):
    n, m = length(s), length(x)
    if not E.branch(le(m, n)):
        return FALSE
    return mk_eq(sl(s, ZERO, m) if start else sl(s, isub(n, m), n), x)


def _startswith(start):
    def f(E, s, a, kw):
        if len(a) > 1:
            raise Undecided('startswith bounds')
        x = E.res(a[0])
        if x.op == 'tuple':
            for y in E.const_items(x):
                if E.branch(_affix(E, s, content(E, y), start)):
                    return TRUE
            return FALSE
        if E.kind(x) not in ('bytes', 'str', 'bytearray'):
            E.type_error(x)
        return _affix(E, s, content(E, x), start)
    return f


for _k in ('bytes', 'str'):
    METHODS[(_k, 'startswith')] = _startswith(True)
    METHODS[(_k, 'endswith')] = _startswith(False)


def _join(kind):
    def f(E, s, a, kw):
        q = E.to_seq(a[0])
        if kind == 'b' and q.op == 'items':
            q = items([bytes_like(E, x) for x in q.args])
        elif q.op == 'items':
            for x in q.args:
                x = E.res(x)
                if E.kind(x) != kind_name(kind):
                    if E.kind(x) == 'any':
                        raise Undecided('join of unknown')
                    E.py_raise('TypeError')
            q = items([E.res(x) for x in q.args])
        elif q.op == 'cat':
            for p in q.args[1:]:
                if p.op == 'items':
                    for x in p.args:
                        if x.op == 'ref' and not is_bytes(E, x):
                            E.py_raise('TypeError')
        return join(kind, q, None if length(s) is ZERO else s)
    return f


def kind_name(k):
    return {'b': 'bytes', 's': 'str'}[k]


METHODS[('bytes', 'join')] = _join('b')
METHODS[('str', 'join')] = _join('s')


@meth('str', 'encode')
def str_encode(E, s, a, kw):
    enc = E.res(arg(E, a, kw, 0, 'encoding', C('utf-8')))
    err = E.res(arg(E, a, kw, 1, 'errors', C('strict')))
    if not is_const(enc) or not is_const(err):
        raise Undecided('encode options')
    e = cval(enc).lower().replace('_', '-')
    e = {'utf8': 'utf-8', 'us-ascii': 'ascii', 'latin1': 'latin-1', 'iso-8859-1': 'latin-1'}.get(e, e)
    if is_const(s):
        return fold(E, cval(s).encode, e, cval(err))
    if e not in ('utf-8', 'ascii', 'latin-1'):
        raise Undecided('encoding ' + e)
    if cval(err) != 'strict':
        return mk('encode', (s, e, cval(err)), BYTES)
    if e == 'utf-8':
        if not isascii_known(s) and not E.branch(mk('utf8able', (s,), BOOL)):
            E.py_raise('UnicodeEncodeError')
    elif e == 'ascii':
        if not isascii_known(s) and not E.branch(isascii(s)):
            E.py_raise('UnicodeEncodeError')
    else:
        if not E.branch(mk('latin1able', (s,), BOOL)):
            E.py_raise('UnicodeEncodeError')
    if s.op == 'cat':
        return cat('b', [encode1(p, e) for p in s.args[1:]])
    return encode1(s, e)


def encode1(s, e):
    if is_const(s):
        return C(cval(s).encode(e))
    if s.op == 'decode' and s.args[1] == e or s.op == 'b64str':
        return s.args[0]
    if isascii_known(s) or provable(isascii(s)):
        return mk('encode', (s, 'ascii'), ('bytes', free_len(s)))
    return mk('encode', (s, e), BYTES)


def isascii_known(s):
    if is_const(s):
        return cval(s).isascii()
    if s.op in ('hex', 'dec', 'b64str', 'b58e'):
        return True
    if s.op == 'fmt':
        return is_int(s.args[1])
    if s.op == 'cat':
        return all(isascii_known(p) for p in s.args[1:])
    if s.op == 'lookup':
        return all(isinstance(v, str) and v.isascii() for _, v in s.args[0])
    if s.op == 'ch':
        return isascii_known(s.args[0])
    if s.op == 'join':
        q = s.args[1]
        if q.op == 'tab':
            return all(isascii_known(x) for x in _lv(q.args[2]))
    if s.op == 'rev' or s.op == 'sl' or s.op == 'rep':
        return isascii_known(s.args[0])
    return False


def _lv(v):
    return _lv(v.args[1]) + _lv(v.args[2]) if v.op == 'ite' else [v]


def isascii(s):
    if isascii_known(s):
        return TRUE
    if is_const(s):
        return FALSE
    return mk('m', ('str.isascii', s), BOOL)


METHODS[('str', 'isascii')] = lambda E, s, a, kw: isascii(s)


@meth('bytes', 'decode')
def bytes_decode(E, s, a, kw):
    enc = E.res(arg(E, a, kw, 0, 'encoding', C('utf-8')))
    err = E.res(arg(E, a, kw, 1, 'errors', C('strict')))
    if not is_const(enc) or not is_const(err):
        raise Undecided('decode options')
    e = cval(enc).lower().replace('_', '-')
    e = {'utf8': 'utf-8', 'us-ascii': 'ascii', 'latin1': 'latin-1'}.get(e, e)
    if is_const(s):
        return fold(E, cval(s).decode, e, cval(err))
    if s.op == 'b64enc' and e in ('ascii', 'utf-8', 'latin-1'):
        return mk('b64str', (s,), ('str', free_len(s)))
    if cval(err) != 'strict':
        return mk('decode', (s, e, cval(err)), STR)
    if s.op == 'encode' and len(s.args) == 2 and (s.args[1] == e or s.args[1] == 'ascii'):
        return s.args[0]
    if e in ('utf-8', 'ascii'):
        if not E.branch(mk('decodable', (s, e), BOOL)):
            E.py_raise('UnicodeDecodeError')
    return mk('decode', (s, e), ('str', free_len(s) if e != 'utf-8' else None))


def _index(strict):
    def f(E, s, a, kw):
        x = E.res(a[0])
        if len(a) > 1:
            lo, hi, _ = slice_bounds(E, mk('slice', (E.res(a[1]), E.res(a[2]) if len(a) > 2 else NONEV, NONEV), SLICE), length(s))
            r = f(E, sl(s, lo, hi), [x], kw)
            return r if r == C(-1) or not E.branch(ge0(r)) else iadd(r, lo)
        if is_const(s) and is_const(x):
            r = cval(s).find(cval(x))
            if r < 0 and strict:
                E.py_raise('ValueError')
            return C(r)
        if E.kind(s) == 'str' and E.kind(x) != 'str':
            if E.kind(x) == 'any':
                raise Undecided('find of unknown')
            E.py_raise('TypeError')
        if is_const(s) and E.kind(s) == 'str':
            if not is_const(length(x)):
                if not E.branch(mk_eq(length(x), ONE)):
                    r = mk('m', ('str.find', s, x), ('int', -1, len(cval(s))))
                    if strict and E.branch(lt(r, ZERO)):
                        E.py_raise('ValueError')
                    return r
                x2 = x
            n = length(x)
            t = {}
            for j, c in enumerate(cval(s)):
                t.setdefault(c, j)
            if not E.branch(in_const_strs(x, list(t))):
                if strict:
                    E.py_raise('ValueError')
                return C(-1)
            return lookup(x, t)
        if is_const(s) and E.kind(s) == 'bytes' and isnum(E.kind(x)):
            n = E.num(x)
            t = {}
            for j, c in enumerate(cval(s)):
                t.setdefault(c, j)
            if not E.branch(in_const_ints(E, n, list(t))):
                if strict:
                    E.py_raise('ValueError')
                return C(-1)
            return lookup(n, t)
        if E.kind(s) == 'bytes':
            x = tob('little', ONE, E.num(x)) if isnum(E.kind(x)) else bytes_like(E, x)
            n, m = length(s), length(x)
            if is_const(n) and is_const(m) and cval(n) <= 80:
                for p in range(cval(n) - cval(m) + 1):
                    if E.branch(mk_eq(sl(s, C(p), C(p + cval(m))), x)):
                        return C(p)
                if strict:
                    E.py_raise('ValueError')
                return C(-1)
        if E.kind(s) == 'str' and is_const(x) and len(cval(x)) == 1:
            if not E.branch(has_char(E, x, s)):
                if strict:
                    E.py_raise('ValueError')
                return C(-1)
            return first_at(E, s, x)
        if strict:
            if not E.branch(mk('substr', (x, s), BOOL)):
                E.py_raise('ValueError')
        return mk('m', (E.kind(s) + '.find', s, x), ('int', 0 if strict else -1, None))
    return f


for _k in ('str', 'bytes'):
    METHODS[(_k, 'find')] = _index(False)
    METHODS[(_k, 'index')] = _index(True)


@meth('str', 'rfind')
def str_rfind(E, s, a, kw):
    x = E.res(a[0])
    if is_const(s) and is_const(x):
        return C(cval(s).rfind(cval(x)))
    return mk('m', ('str.rfind', s, x), ('int', -1, None))


def lacks(E, p, x):
    """is the one-character string x known not to occur in p"""
    al = alphabet(p)
    if al is not None:
        return x not in al
    while True:
        if E.st.facts.implies(mk('substr', (C(x), p), BOOL)) is False:
            return True
        if p.op == 'sl' and p.args[1] is ZERO and p.args[2].op == 'lead':
            i = fresh('i', ('int', 0, None))
            if lead(length(p.args[0]), i, mk_not(mk_eq(elem(p.args[0], i), C(x)))) is p.args[2]:
                return True
        if p.op not in ('sl', 'rev', 'ch'):
            return False
        p = p.args[0]


def has_char(E, x, s):
    """literal: the one-character string constant x occurs in s"""
    if is_const(s):
        return C(cval(x) in cval(s))
    if lacks(E, s, cval(x)):
        return FALSE
    return in_cat(E, x, s) if s.op == 'cat' else mk('substr', (x, s), BOOL)


def cut_at(E, s, x):
    """(before, after) the first occurrence of the character x known to occur in s"""
    if s.op == 'cat':
        before = []
        ps = cat_parts(s)
        for j, p in enumerate(ps):
            if is_const(p) and cval(x) in cval(p):
                u, v = cval(p).split(cval(x), 1)
                return cat('s', before + [C(u)]), cat('s', [C(v)] + list(ps[j + 1:]))
            if not is_const(p) and not lacks(E, p, cval(x)):
                break
            before.append(p)
    n, k = length(s), first_at(E, s, x)
    return sl(s, ZERO, k), sl(s, iadd(k, ONE), n)


def first_at(E, s, x):
    n = length(s)
    i = fresh('i', ('int', 0, None))
    ne = mk_not(mk_eq(elem(s, i), x))
    k = lead(n, i, ne)
    E.assume(ge0(k))
    E.assume(lt(k, n))
    E.assume(mk_eq(elem(s, k), x))
    return k


def in_cat(E, x, c):
    v = cval(x)
    ps = cat_parts(c)
    if any(is_const(p) and v in cval(p) for p in ps):
        return TRUE
    if len(v) == 1:
        ps = [p for p in ps if not lacks(E, p, v)]
        if not ps:
            return FALSE
        if len(ps) == 1:
            return mk('substr', (x, ps[0]), BOOL)
    return mk('substr', (x, c), BOOL)


def split_known(E, s, sep):
    """split of constants and pieces whose alphabet excludes the separator"""
    if sep is False or s.op != 'cat' and alphabet(s) is None:
        return None
    if sep is not None and len(sep) != 1:
        return None
    toks, cur = [], []
    ws = ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0'
    for p in cat_parts(s):
        if is_const(p):
            v = cval(p)
            if sep is None:
                piece = ''
                for ch in v:
                    if ch.isspace():
                        toks.append(cur + ([C(piece)] if piece else []))
                        cur, piece = [], ''
                    else:
                        piece += ch
                if piece:
                    cur.append(C(piece))
            else:
                ps = v.split(sep)
                for x in ps[:-1]:
                    toks.append(cur + ([C(x)] if x else []))
                    cur = []
                if ps[-1]:
                    cur.append(C(ps[-1]))
            continue
        al = alphabet(p)
        if (al is None or al & set(ws)) if sep is None else not lacks(E, p, sep):
            return None
        cur.append(p)
    toks.append(cur)
    out = [cat('s', t) for t in toks]
    if sep is None:
        out = [t for t in out if not E.branch(mk_eq(length(t), ZERO))]
    return out


def _split(name):
    def f(E, s, a, kw):
        a = [E.res(x) for x in a]
        kw = {k: E.res(v) for k, v in kw.items()}
        if is_const(s) and const_args(a, kw):
            return fold(E, getattr(cval(s), name), *[cval(x) for x in a], **{k: cval(v) for k, v in kw.items()})
        if a and E.kind(a[0]) == 'str' and E.branch(mk_eq(length(a[0]), ZERO)):
            E.py_raise('ValueError')
        aa = list(a) + [x for k in sorted(kw) for x in (C(k), kw[k])]
        if name == 'split' and not kw and len(a) <= 1 and E.kind(s) == 'str':
            q = split_known(E, s, cval(a[0]) if a and is_const(a[0]) else None if not a else False)
            if q is not None:
                return E.new_list(items(q))
            j = s.args if s.op == 'joinsep' else None
            if j and not a and is_const(j[1]) and cval(j[1]) and cval(j[1]).isspace() and j[2].op == 'm' \
                    and j[2].args[0] == 'str.split' and len(j[2].args) == 2:
                return E.new_list(j[2])
        mx = a[1] if len(a) > 1 else kw.get('maxsplit', NONEV)
        if name == 'split' and E.kind(s) == 'str' and a and mx is ONE and is_const(a[0]) and len(cval(a[0])) == 1:
            if not E.branch(has_char(E, a[0], s)):
                return E.new_list(items([s]))
            return E.new_list(items(cut_at(E, s, a[0])))
        t = mk('m', (E.kind(s) + '.' + name, s) + tuple(aa), ('seq', STR if E.kind(s) == 'str' else BYTES))
        n = length(t)
        if name == 'splitlines':
            pass
        elif a and a[0] is not NONEV:
            E.assume(le(ONE, n))
            mx = a[1] if len(a) > 1 else kw.get('maxsplit')
            if mx is not None and is_const(mx) and cval(mx) >= 0:
                E.assume(le(n, C(cval(mx) + 1)))
            if len(a) == 1 and not kw:
                if not E.branch(mk('substr', (a[0], s), BOOL) if s.op != 'cat' or not is_const(a[0])
                                or E.kind(s) != 'str' else in_cat(E, a[0], s)):
                    return E.new_list(items([s]))
                E.assume(le(C(2), n))
        return E.new_list(t)
    return f


for _k in ('str', 'bytes'):
    for _n in ('split', 'rsplit', 'splitlines'):
        METHODS[(_k, _n)] = _split(_n)


def _partition(name):
    def f(E, s, a, kw):
        x = E.res(a[0])
        if is_const(s) and is_const(x):
            return fold(E, getattr(cval(s), name), cval(x))
        if name == 'partition' and E.kind(s) == 'str' and is_const(x) and len(cval(x)) == 1:
            q = split_known(E, s, cval(x))
            if q is not None:
                if len(q) == 1:
                    return tup([s, C(''), C('')])
                return tup([q[0], x, join('s', items(q[1:]), x)])
            if not E.branch(has_char(E, x, s)):
                return tup([s, C(''), C('')])
            u, v = cut_at(E, s, x)
            return tup([u, x, v])
        es = [mk('m', (f'{E.kind(s)}.{name}', s, x, C(j)), (E.kind(s), None)) for j in range(3)]
        if not E.branch(mk('substr', (x, s), BOOL)):
            z = C('') if E.kind(s) == 'str' else C(b'')
            return tup([s, z, z] if name == 'partition' else [z, z, s])
        es[1] = x
        return tup(es)
    return f


for _k in ('str', 'bytes'):
    for _n in ('partition', 'rpartition'):
        METHODS[(_k, _n)] = _partition(_n)


@meth('str', 'format')
def str_format(E, s, a, kw):
    import string
    if not is_const(s):
        raise Undecided('format string')
    parts, j = [], 0
    for lit, field, spec, conv in string.Formatter().parse(cval(s)):
        parts.append(C(lit))
        if field is None:
            continue
        if field == '':
            v = a[j]
            j += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field in kw:
            v = kw[field]
        else:
            raise Undecided('format field')
        if conv == 'r':
            v = repr_(E, v)
        parts.append(format_(E, v, C(spec or '')))
    return cat('s', parts)


def _case(name):
    def f(E, s, a, kw):
        if is_const(s):
            return C(getattr(cval(s), name)())
        if s.op == 'm' and s.args[0] == 'str.' + name:
            return s
        if s.op == 'hex' and name == 'lower':
            return s
        return mk('m', ('str.' + name, s), ('str', None))
    return f


METHODS[('str', 'lower')] = _case('lower')
METHODS[('str', 'upper')] = _case('upper')


@meth('str', 'isdigit')
def str_isdigit(E, s, a, kw):
    if is_const(s):
        return C(cval(s).isdigit())
    if length(s) is ZERO:
        return FALSE
    if s.op == 'dec':
        return ge0(s.args[0])
    if s.op == 'ch' and s.args[0].op == 'dec' and s.args[1] is ZERO:
        return ge0(s.args[0].args[0])
    return mk('m', ('str.isdigit', s), BOOL)


def _just(name):
    def f(E, s, a, kw):
        w = E.num(E.res(a[0]))
        fill = E.res(a[1]) if len(a) > 1 else C(b' ' if E.kind(s) == 'bytes' else ' ')
        if name == 'zfill':
            fill = C(b'0' if E.kind(s) == 'bytes' else '0')
            if not is_const(s):
                return mk('m', ('zfill', s, w), (E.kind(s), None))
        n = length(s)
        if E.branch(le(w, n)):
            return s
        pad = rep(fill, isub(w, n))
        return cat(kind_of(s), [pad, s] if name in ('rjust', 'zfill') else [s, pad])
    return f


for _k in ('str', 'bytes'):
    for _n in ('ljust', 'rjust', 'zfill'):
        METHODS[(_k, _n)] = _just(_n)


def _strip(kind, name):
    def f(E, s, a, kw):
        a = [E.res(x) for x in a]
        if is_const(s) and const_args(a, kw):
            return fold(E, getattr(cval(s), name), *[cval(x) for x in a])
        if len(a) == 1 and is_const(a[0]) and cval(a[0]) is not None and len(cval(a[0])) == 1 and \
                (kind == 'bytes' or name != 'strip'):
            c = cval(a[0])[0]
            n = length(s)
            out = s
            if name in ('lstrip', 'strip'):
                i = fresh('i', ('int', 0, None))
                k = lead(n, i, mk_eq(elem(s, i), C(c)))
                E.assume(le(k, n))
                out = sl(s, k, n)
            if name in ('rstrip', 'strip'):
                if name == 'strip':
                    return mk('m', ('bytes.strip', s, a[0]), BYTES)
                i = fresh('i', ('int', 0, None))
                k = lead(n, i, mk_eq(elem(s, isub(isub(n, ONE), i)), C(c)))
                E.assume(le(k, n))
                out = sl(s, ZERO, isub(n, k))
            return out
        r = mk('m', (kind + '.' + name, s) + tuple(a), (kind, None))
        E.assume(le(length(r), length(s)))
        return r
    return f


for _k in ('str', 'bytes'):
    for _n in ('strip', 'lstrip', 'rstrip'):
        METHODS[(_k, _n)] = _strip(_k, _n)


# ---- list / tuple
@meth('list', 'append')
def list_append(E, s, a, kw):
    o = E.st.wobj(s)
    o.v = cat('q', [o.v, items([a[0]])])
    return NONEV


@meth('list', 'extend')
def list_extend(E, s, a, kw):
    def cb(v):
        o = E.st.wobj(s)
        o.v = cat('q', [o.v, items([v])])
    src = E.res(a[0])
    from .loops import random_access
    q = random_access(E, src)
    if q is not None:
        o = E.st.wobj(s)
        o.v = cat('q', [o.v, q])
        return NONEV
    E.iterate(src, cb)
    return NONEV


@meth('list', 'pop')
def list_pop(E, s, a, kw):
    o = E.st.obj(s)
    n = length(o.v)
    if not E.branch(le(ONE, n)):
        E.py_raise('IndexError')
    i = norm_index(E, a[0], n) if a else isub(n, ONE)
    v = elem(o.v, i)
    E.st.wobj(s).v = cat('q', [sl(o.v, ZERO, i), sl(o.v, iadd(i, ONE), n)])
    return v


@meth('list', 'insert')
def list_insert(E, s, a, kw):
    o = E.st.wobj(s)
    i = E.num(E.res(a[0]))
    n = length(o.v)
    if not E.branch(ge0(i)):
        i = iadd(n, i)
        if not E.branch(ge0(i)):
            i = ZERO
    if not E.branch(le(i, n)):
        i = n
    o = E.st.wobj(s)
    o.v = cat('q', [sl(o.v, ZERO, i), items([a[1]]), sl(o.v, i, n)])
    return NONEV


@meth('list', 'reverse')
def list_reverse(E, s, a, kw):
    o = E.st.wobj(s)
    o.v = rev(o.v)
    return NONEV


@meth('list', 'clear')
def list_clear(E, s, a, kw):
    E.st.wobj(s).v = items(())
    return NONEV


@meth('list', 'copy')
def list_copy(E, s, a, kw):
    return E.new_list(E.to_seq(s))


@meth('list', 'index')
@meth('tuple', 'index')
def list_index(E, s, a, kw):
    q = E.to_seq(s)
    x = E.res(a[0])
    if q.op == 'items':
        if is_const(x) and all(is_const(y) for y in q.args):
            for j, y in enumerate(q.args):
                if cval(y) == cval(x):
                    return C(j)
            E.py_raise('ValueError')
        if all(is_const(y) and y.ty[0] == 'str' for y in q.args) and E.kind(x) == 'str':
            t = {}
            for j, y in enumerate(q.args):
                t.setdefault(cval(y), j)
            if not E.branch(in_const_strs(x, list(t))):
                E.py_raise('ValueError')
            return lookup(x, t)
        for j, y in enumerate(q.args):
            if E.test(eq_terms(E, y, x)):
                return C(j)
        E.py_raise('ValueError')
    if not E.branch(mk('inseq', (x, q), BOOL)):
        E.py_raise('ValueError')
    r = mk('indexof', (x, q), ('int', 0, None))
    E.assume(lt(r, length(q)))
    return r


@meth('list', 'count')
@meth('tuple', 'count')
def list_count(E, s, a, kw):
    q = E.to_seq(s)
    x = E.res(a[0])
    if q.op == 'items':
        n = 0
        for y in q.args:
            if E.test(eq_terms(E, y, x)):
                n += 1
        return C(n)
    return mk('countof', (x, q), ('int', 0, None))


@meth('list', 'remove')
def list_remove(E, s, a, kw):
    q = E.to_seq(s)
    if q.op != 'items':
        raise Undecided('list.remove')
    for j, y in enumerate(q.args):
        if E.test(eq_terms(E, y, a[0])):
            E.st.wobj(s).v = items(q.args[:j] + q.args[j + 1:])
            return NONEV
    E.py_raise('ValueError')


@meth('slice', 'indices')
def slice_indices(E, s, a, kw):
    lo, hi, step = slice_bounds(E, s, E.num(E.res(a[0])))
    return tup([lo, hi, C(step)])


@meth('list', 'sort')
def list_sort(E, s, a, kw):
    E.st.wobj(s).v = sorted_seq(E, E.to_seq(s), kw)
    return NONEV


def sorted_seq(E, q, kw):
    key, rv = kw.get('key', NONEV), E.truth(kw.get('reverse', FALSE))
    if q.op == 'items' and len(q.args) <= 1:
        return q
    if key is not NONEV:
        if q.op == 'items':
            ks = [E.call(key, [v], {}) for v in q.args]
            if all(is_const(k) for k in ks):
                z = sorted(zip(ks, range(len(ks))), key=lambda p: (cval(p[0]), p[1]))
                if rv is TRUE:
                    z = sorted(zip(ks, range(len(ks))), key=lambda p: cval(p[0]), reverse=True)
                return items([q.args[j] for _, j in z])
            if len(ks) <= 3:
                # insertion sort by forking
                out = []
                for k, v in zip(ks, q.args):
                    j = len(out)
                    while j > 0 and E.test(order(E, 'lt' if rv is FALSE else 'gt', k, out[j - 1][0])):
                        j -= 1
                    out.insert(j, (k, v))
                return items([v for _, v in out])
        raise Undecided('sort with key')
    if q.op == 'items':
        if all(is_const(v) for v in q.args):
            return items([C(x) for x in sorted([cval(v) for v in q.args])][::-1 if rv is TRUE else 1])
        def plain(v):
            v = to_int(v)
            if is_const(v):
                return (cval(v),)
            if v.op == 'tuple' and v.args[0].op == 'items':
                xs = [plain(x) for x in v.args[0].args]
                return None if None in xs else tuple(x[0] if len(x) == 1 else x for x in xs)
            return None
        ps = [plain(v) for v in q.args]
        if None not in ps:
            try:
                o = sorted(range(len(ps)), key=lambda j: ps[j], reverse=rv is TRUE)
            except TypeError:
                E.py_raise('TypeError')
            return items([q.args[j] for j in o])
        if not all(v.ty[0] in ('int', 'bytes', 'str') for v in q.args):
            raise Undecided('sort of objects')
        q = canonical_order(q)
        n = len(q.args)
        r = mk('sorted', (q,), ('seq', q.ty[1]))
        es = [mk('item', (r, C(j)), q.args[0].ty if q.args[0].ty[0] != 'int' else INT) for j in range(n)]
        r = items(es)
        return rev(r) if rv is TRUE else r
    q = canonical_order(q)
    r = mk('sorted', (q,), q.ty)
    E.assume(mk_eq(length(r), length(q)))
    return rev(r) if rv is TRUE else r


# ---- bytearray
@meth('bytearray', 'append')
def ba_append(E, s, a, kw):
    x = E.num(E.res(a[0]))
    if not E.branch(mk_and(ge0(x), le(x, C(255)))):
        E.py_raise('ValueError')
    o = E.st.wobj(s)
    o.v = cat('b', [o.v, tob('little', ONE, x)])
    return NONEV


@meth('bytearray', 'extend')
def ba_extend(E, s, a, kw):
    x = E.res(a[0])
    b = content(E, x) if is_bytes(E, x) else ints_to_bytes(E, E.to_seq(x))
    o = E.st.wobj(s)
    o.v = cat('b', [o.v, b])
    return NONEV


@meth('bytearray', 'reverse')
def ba_reverse(E, s, a, kw):
    o = E.st.wobj(s)
    o.v = rev(o.v)
    return NONEV


@meth('bytearray', 'insert')
def ba_insert(E, s, a, kw):
    i = E.res(a[0])
    x = E.num(E.res(a[1]))
    if not E.branch(mk_and(ge0(x), le(x, C(255)))):
        E.py_raise('ValueError')
    if not is_const(to_int(i)) or cval(to_int(i)) != 0:
        raise Undecided('bytearray.insert')
    o = E.st.wobj(s)
    o.v = cat('b', [tob('little', ONE, x), o.v])
    return NONEV


@meth('bytearray', 'pop')
def ba_pop(E, s, a, kw):
    o = E.st.obj(s)
    n = length(o.v)
    if not E.branch(le(ONE, n)):
        E.py_raise('IndexError')
    i = norm_index(E, a[0], n) if a else isub(n, ONE)
    v = elem(o.v, i)
    E.st.wobj(s).v = cat('b', [sl(o.v, ZERO, i), sl(o.v, iadd(i, ONE), n)])
    return v


# ---- dict / set
@meth('dict', 'get')
def dict_get_m(E, s, a, kw):
    d = E.st.obj(s).v
    default = a[1] if len(a) > 1 else NONEV
    if type(d) is not dict:
        k = E.reify(a[0])
        if not E.branch(mk('indict', (d, k), BOOL)):
            return default
        return mk('dictval', (d, k), ANY)
    v = dict_get(E, d, a[0])
    return default if v is None else v


@meth('dict', 'setdefault')
def dict_setdefault(E, s, a, kw):
    d = E.st.obj(s).v
    v = dict_get(E, d, a[0])
    if v is None:
        v = a[1] if len(a) > 1 else NONEV
        setitem(E, s, a[0], v)
    return v


@meth('dict', 'update')
def dict_update(E, s, a, kw):
    if a:
        x = E.res(a[0])
        if E.kind(x) == 'dict':
            d = E.st.obj(x).v
            if type(d) is not dict:
                raise Undecided('update with symbolic mapping')
            for k, v in list(d.items()):
                setitem(E, s, k, v)
        else:
            def cb(p):
                k, v = E.const_items(p)
                setitem(E, s, k, v)
            E.iterate(x, cb)
    for k, v in kw.items():
        setitem(E, s, C(k), v)
    return NONEV


@meth('dict', 'pop')
def dict_pop(E, s, a, kw):
    d = E.st.obj(s).v
    if type(d) is not dict:
        raise Undecided('pop of symbolic mapping')
    v = dict_get(E, d, a[0])
    if v is None:
        if len(a) > 1:
            return a[1]
        E.py_raise('KeyError')
    delitem(E, s, a[0])
    return v


@meth('dict', 'keys')
def dict_keys(E, s, a, kw):
    d = E.st.obj(s).v
    if type(d) is not dict:
        raise Undecided('keys of symbolic mapping')
    return tup(list(d))


@meth('dict', 'values')
def dict_values(E, s, a, kw):
    d = E.st.obj(s).v
    if type(d) is not dict:
        return mk('tuple', (mk('mapvalues', (d,), ('seq', ANY)),), ('tuple',))
    return tup(list(d.values()))


@meth('dict', 'items')
def dict_items(E, s, a, kw):
    d = E.st.obj(s).v
    if type(d) is not dict:
        raise Undecided('items of symbolic mapping')
    return tup([tup([k, v]) for k, v in d.items()])


@meth('dict', 'clear')
def dict_clear(E, s, a, kw):
    E.st.wobj(s).v = {}
    return NONEV


@meth('dict', 'copy')
def dict_copy(E, s, a, kw):
    o = E.st.obj(s)
    return E.st.alloc(Obj('dict', None, None, dict(o.v) if type(o.v) is dict else o.v))


@meth('set', 'add')
def set_add_m(E, s, a, kw):
    set_add(E, s, a[0])
    return NONEV


@meth('set', 'update')
def set_update(E, s, a, kw):
    for x in a:
        E.iterate(x, lambda v: set_add(E, s, v))
    return NONEV


@meth('set', 'discard')
def set_discard(E, s, a, kw):
    o = E.st.obj(s)
    k = dkey(E, a[0])
    if k in o.v:
        w = E.st.wobj(s)
        w.v = dict(w.v)
        del w.v[k]
    elif not (is_const(k) and all_const(o.v)):
        raise Undecided('set.discard')
    return NONEV


@meth('set', 'intersection', 'union', 'difference')
def set_ops(E, s, a, kw):
    raise Undecided('set operation')


@meth('set', 'isdisjoint', 'issubset')
def set_rel(E, s, a, kw):
    raise Undecided('set relation')


# ---- exceptions / iterators
@meth('iter', '__next__')
def iter_next(E, s, a, kw):
    return next_(E, [s], {})


def next_(E, a, kw):
    it = E.res(a[0])
    k = E.kind(it)
    if k == 'gen':
        q = E.to_seq(it)
        o = E.st.wobj(it)
        o.k, o.v, o.f = 'iter', q, {'pos': ZERO}
        k = 'iter'
    if k != 'iter':
        m = E.lookup_special(it, '__next__')
        if m is None:
            E.type_error(it)
        return E.call(m, [], {})
    o = E.st.obj(it)
    if E.branch(lt(o.f['pos'], length(o.v))):
        v = elem(o.v, o.f['pos'])
        E.st.wobj(it).f['pos'] = iadd(o.f['pos'], ONE)
        return v
    if len(a) > 1:
        return a[1]
    E.py_raise('StopIteration')


# ============================================================================= class attributes
def builtin_cls_attr(E, c, name, cls):
    n = c.name
    if n == 'int' and name == 'from_bytes':
        def f(E, a, kw):
            b = E.res(arg(E, a, kw, 0, 'bytes'))
            end = E.res(arg(E, a, kw, 1, 'byteorder', C('big')))
            sg = kw.get('signed', FALSE)
            if is_bytes(E, b):
                b = content(E, b)
            elif E.kind(b) in ('inst', 'obj', 'list', 'tuple', 'gen', 'iter', 'seq', 'array', 'cdata'):
                b = to_bytes_obj(E, b)
            elif E.kind(b) == 'any':
                raise Undecided('from_bytes')
            else:
                E.type_error(b)
            if not is_const(end) or not is_const(sg):
                raise Undecided('from_bytes options')
            if cval(end) not in ('big', 'little'):
                E.py_raise('ValueError')
            v = fromb(cval(end), cval(sg), b)
            if cls.builtin:
                return v
            return E.instantiate(cls, [v], {})
        return B('int.from_bytes', f)
    if n in ('bytes', 'bytearray') and name == 'fromhex':
        if n == 'bytes':
            return B('bytes.fromhex', lambda E, a, kw: fromhex(E, a[0]))
        return B('bytearray.fromhex',
                 lambda E, a, kw: E.st.alloc(Obj('bytearray', None, None, fromhex(E, a[0]))))
    if n == 'dict' and name == 'fromkeys':
        def f(E, a, kw):
            r = E.st.alloc(Obj('dict', None, None, {}))
            E.iterate(a[0], lambda k: setitem(E, r, k, a[1] if len(a) > 1 else NONEV))
            return r
        return B('dict.fromkeys', f)
    if n == 'object':
        if name == '__setattr__':
            def f(E, a, kw):
                E.st.wobj(a[0]).f[cval(a[1])] = a[2]
                return NONEV
            return B('object.__setattr__', f)
        if name == '__new__':
            return B('object.__new__', lambda E, a, kw: E.st.alloc(Obj('inst', a[0].args[0], {})))
        if name in ('__init__',):
            return B('object.__init__', lambda E, a, kw: NONEV)
        if name == '__eq__' or name == '__hash__' or name == '__repr__':
            return B('object.' + name, lambda E, a, kw: (_ for _ in ()).throw(Undecided(name)))
        return None
    if n == 'int' and name == '__new__':
        return B('int.__new__', lambda E, a, kw: int_new(E, a, kw))
    if n in ('str', 'bytes', 'list', 'dict', 'tuple', 'int', 'set', 'bytearray') and hasattr(getattr(PB, n), name):
        def f(E, a, kw):
            v = E.res(a[0])
            return E.call(E.builtin_attr(v, n, name), a[1:], kw)
        return B(f'{n}.{name}', f)
    if n == 'dict' or n == 'list':
        return None
    h = E.clshooks.get(n)
    if h is not None:
        return h(E, name)
    return None


def int_new(E, a, kw):
    cls = a[0].args[0]
    v = to_int_value(E, a[1:], kw)
    v = to_int(v)
    if cls.builtin:
        return v
    return mk('intsub', (host(cls), v), v.ty)


def builtin_super(E, c, name, obj):
    n = c.name
    if n == 'object':
        if name == '__init__':
            return B('object.__init__', lambda E, a, kw: NONEV)
        if name == '__setattr__':
            def f(E, a, kw):
                E.st.wobj(obj).f[cval(a[0])] = a[1]
                return NONEV
            return B('object.__setattr__', f)
        if name == '__new__':
            return B('object.__new__', lambda E, a, kw: E.st.alloc(Obj('inst', a[0].args[0], {})))
        if name == '__init_subclass__':
            return B('object.__init_subclass__', lambda E, a, kw: NONEV)
        return None
    if c.sub(BC['BaseException']) and name == '__init__':
        def f(E, a, kw):
            E.st.wobj(obj).f['args'] = tup(a)
            return NONEV
        return B('Exception.__init__', f)
    if n == 'int':
        if name == '__new__':
            return B('int.__new__', lambda E, a, kw: int_new(E, a, kw))
        if hasattr(int, name):
            def f(E, a, kw):
                v = E.num(obj)
                if name.startswith('__') and len(a) == 1:
                    for k, nm in BIN.items():
                        if name == f'__{nm}__':
                            return binop(E, k, v, a[0])
                if name == '__hash__':
                    return mk('hashv', (v,), INT)
                if name == '__eq__':
                    return eq_terms(E, v, a[0])
                return builtin_call(E, v, 'int', name, a, kw)
            return B('int.' + name, f)
    if n in ('dict', 'list') and obj.op == 'ref':
        if name == '__init__':
            def f(E, a, kw):
                if a or kw:
                    E.call(E.builtin_attr(obj, n, 'update' if n == 'dict' else 'extend'), a, kw)
                return NONEV
            return B(n + '.__init__', f)
        if hasattr(getattr(PB, n), name):
            if name == '__getitem__':
                return B('getitem', lambda E, a, kw: raw_getitem(E, obj, a[0], n))
            return E.builtin_attr(obj, n, name)
    return None


def raw_getitem(E, o, i, n):
    if n == 'dict':
        v = dict_get(E, E.st.obj(o).v, i)
        if v is None:
            E.py_raise('KeyError')
        return v
    raise Undecided('super getitem')


# ============================================================================= builtin functions
def f_minmax(name):
    def f(E, a, kw):
        key = kw.get('key', NONEV)
        if len(a) == 1:
            q = E.to_seq(a[0])
            n = length(q)
            if not is_const(n):
                if key is not NONEV:
                    raise Undecided(name)
                if 'default' in kw:
                    if E.branch(eq0(n)):
                        return kw['default']
                elif E.branch(eq0(n)):
                    E.py_raise('ValueError')
                return mk(name, (q,), q.ty[1] if q.ty[1][0] != 'int' else INT)
            vs = [elem(q, C(j)) for j in range(cval(n))]
            if not vs:
                if 'default' in kw:
                    return kw['default']
                E.py_raise('ValueError')
        else:
            vs = list(a)
        if key is NONEV and all(E.kind(E.res(v)) == 'int' for v in vs):
            vs = sorted((E.num(E.res(v)) for v in vs), key=lambda v: (is_const(v), v.uid))
        best, bk = vs[0], None
        ks = [E.call(key, [v], {}) for v in vs] if key is not NONEV else vs
        bk = ks[0]
        for v, k in zip(vs[1:], ks[1:]):
            if E.test(order(E, 'lt' if name == 'min' else 'gt', k, bk)):
                best, bk = v, k
        return best
    return f


def f_sum(E, a, kw):
    start = a[1] if len(a) > 1 else kw.get('start', ZERO)
    cell = E.st.alloc(Obj('cell', None, {}, start))

    def cb(v):
        o = E.st.wobj(cell)
        o.v = binop(E, ast.Add, o.v, v)
    E.iterate(a[0], cb)
    return E.st.obj(cell).v


def f_all(isall):
    def f(E, a, kw):
        res = []

        def cb(v):
            if E.test(v) != isall:
                raise Brk()
        fid = E.fid
        try:
            E.iterate(a[0], cb)
        except Brk:
            E.fid = fid
            return C(not isall)
        return C(isall)
    return f


def f_hash(E, a, kw):
    v = E.res(a[0])
    k = E.kind(v)
    if k in ('list', 'dict', 'bytearray') or (k == 'set' and E.st.obj(v).cls is None):
        E.py_raise('TypeError')
    if k in ('inst', 'obj'):
        c = E.cls_of(v)
        m = E.lookup_special(v, '__hash__')
        if m is NONEV:
            E.py_raise('TypeError')
        if m is not None:
            return E.call(m, [], {})
        e, ow = E.class_lookup(c, '__eq__')
        if e is not None and ow is c:
            E.py_raise('TypeError')
        return mk('idhash', (v,), INT)
    if v.op == 'tuple':
        return mk('hashv', (mk('tuple', (items([f_hash(E, [x], {}) for x in E.const_items(v)]),), ('tuple',)),), INT)
    if k == 'int':
        m = E.lookup_special(v, '__hash__')
        if m is not None and m.op == 'host' and not isinstance(m.args[0], Builtin):
            return E.call(m, [], {})
        return mk('hashv', (to_int(v),), INT)
    if k in ('set', 'frozenset'):
        raise Undecided('hash of a set')
    if v.op == 'natout' and v.args[0] == 'ec_pubkey_serialize' and v.args[2] != 33:
        # the two serializations of a point stand for each other
        v = mk('hashv', (mk('natout', (v.args[0], v.args[1], 33), ('bytes', 33)),), INT)
    return mk('hashv', (E.reify(v),), INT)


def f_hasattr(E, a, kw):
    v = E.res(a[0])
    name = cval(E.res(a[1]))
    if v.ty[0] == 'any' and v.op not in ('ref', 'host', 'tuple'):
        return mk('hasattr', (v, name), BOOL)
    if v.ty[0] == 'obj':
        if name in E.schema.get(v.ty[1], {}):
            return TRUE
        c = E.classes.get(v.ty[1])
        if c is not None and E.class_lookup(c, name)[0] is not None:
            return TRUE
        return mk('hasattr', (v, name), BOOL)
    try:
        r = E.getattr_(v, name)
    except PyRaise as e:
        if e.cls.sub(BC['AttributeError']):
            return FALSE
        raise
    if r is None and name.startswith('__') and name.endswith('__'):
        k = E.kind(v)
        pt = {'none': type(None)}.get(k) or getattr(PB, k, None)
        if isinstance(pt, type):
            return C(hasattr(pt, name))
    return C(r is not None)


def f_getattr(E, a, kw):
    return E.getattr(a[0], cval(E.res(a[1])), a[2] if len(a) > 2 else None)


def f_divmod(E, a, kw):
    return tup([binop(E, ast.FloorDiv, a[0], a[1]), binop(E, ast.Mod, a[0], a[1])])


def f_abs(E, a, kw):
    v = E.res(a[0])
    if isnum(E.kind(v)):
        n = E.num(v)
        return n if E.branch(ge0(n)) else ineg(n)
    return mk('fop', ('abs', v), FLOAT)


def f_pow(E, a, kw):
    if len(a) == 3:
        x, y, z = [E.num(E.res(v)) for v in a]
        if is_const(x) and is_const(y) and is_const(z):
            return C(pow(cval(x), cval(y), cval(z)))
        if y is C(2):
            return imod(imul(x, x), z)
        return mk('powmod', (x, y, z), INT)
    return binop(E, ast.Pow, a[0], a[1])


def f_round(E, a, kw):
    v = E.res(a[0])
    if isnum(E.kind(v)) and len(a) == 1:
        return E.num(v)
    return mk('fop', ('round',) + tuple(a), INT if len(a) == 1 else FLOAT)


def f_globals(E, a, kw):
    mod = E.mod_fid(E.fid)

    class G:
        name = 'globals'

        def attr(self, E, name):
            if name == 'update':
                def f(E, a, kw):
                    x = E.res(a[0])
                    fr = E.st.wframe(mod)
                    if E.kind(x) == 'dict':
                        ps = list(E.st.obj(x).v.items())
                    else:
                        ps = [E.const_items(p) for p in E.const_items(x)]
                    for k, v in ps:
                        fr[cval(k)] = v
                    return NONEV
                return B('globals.update', f)
            if name == 'get':
                return B('globals.get', lambda E, a, kw: E.st.frames[mod].get(cval(a[0]),
                                                                              a[1] if len(a) > 1 else NONEV))
            raise Undecided('globals().' + name)

        def getitem(self, E, i):
            return E.st.frames[mod][cval(i)]

        def setitem(self, E, i, v):
            E.st.wframe(mod)[cval(i)] = v
    return host(G())


def f_ord(E, a, kw):
    c = E.res(a[0])
    if E.kind(c) == 'bytes':
        if not E.branch(mk_eq(length(c), ONE)):
            E.py_raise('TypeError')
        return elem(c, ZERO)
    if E.kind(c) != 'str':
        E.py_raise('TypeError')
    if not E.branch(mk_eq(length(c), ONE)):
        E.py_raise('TypeError')
    return ord_(c)


def f_chr(E, a, kw):
    n = E.num(E.res(a[0]))
    if not E.branch(mk_and(ge0(n), le(n, C(0x10ffff)))):
        E.py_raise('ValueError')
    return chr_(n)


def f_issubclass(E, a, kw):
    c = a[0].args[0]
    t = E.res(a[1])
    ts = E.const_items(t) if t.op == 'tuple' else [t]
    return C(any(c.sub(x.args[0]) for x in ts))


def f_print(E, a, kw):
    E.event('print', tuple(E.reify(x) for x in a), NONE)
    return NONEV


def f_iter(E, a, kw):
    v = E.res(a[0])
    if E.kind(v) in ('iter', 'gen'):
        return v
    from .loops import random_access
    q = random_access(E, v)
    if q is not None:
        return iter_obj(E, q)
    m = E.lookup_special(v, '__iter__')
    if m is not None:
        return E.call(m, [], {})
    E.type_error(v)


def f_callable(E, a, kw):
    v = E.res(a[0])
    if v.op == 'host':
        return TRUE
    if v.ty[0] == 'fn':
        return TRUE
    if v.ty[0] == 'any':
        return mk('callable', (v,), BOOL)
    return C(E.lookup_special(v, '__call__') is not None)


def f_hexbin(name):
    def f(E, a, kw):
        n = E.num(E.res(a[0]))
        if is_const(n):
            return C(getattr(PB, name)(cval(n)))
        return mk('fmt', (C('#' + {'hex': 'x', 'bin': 'b', 'oct': 'o'}[name]), n), STR)
    return f


def f_setattr(E, a, kw):
    E.setattr(a[0], cval(E.res(a[1])), a[2])
    return NONEV


def f_open(E, a, kw):
    from .libs import f_open
    return f_open(E, a, kw)


def f_vars(E, a, kw):
    raise Undecided('vars')


def f_sorted(E, a, kw):
    return E.new_list(sorted_seq(E, E.to_seq(a[0]), kw))


def install(E):
    E.newhooks, E.attrhooks, E.clshooks = {}, {}, {}
    E.KW = 3
    bi = E.builtins
    simple = {
        'len': lambda E, a, kw: len_(E, a[0]),
        'isinstance': lambda E, a, kw: isinstance_(E, a[0], a[1]),
        'issubclass': f_issubclass,
        'hash': f_hash, 'hasattr': f_hasattr, 'getattr': f_getattr, 'setattr': f_setattr,
        'min': f_minmax('min'), 'max': f_minmax('max'), 'sum': f_sum, 'all': f_all(True), 'any': f_all(False),
        'divmod': f_divmod, 'abs': f_abs, 'pow': f_pow, 'round': f_round, 'globals': f_globals,
        'ord': f_ord, 'chr': f_chr, 'repr': lambda E, a, kw: repr_(E, a[0]), 'print': f_print,
        'iter': f_iter, 'next': next_, 'callable': f_callable, 'sorted': f_sorted, 'open': f_open,
        'hex': f_hexbin('hex'), 'bin': f_hexbin('bin'), 'oct': f_hexbin('oct'), 'vars': f_vars,
        'format': lambda E, a, kw: format_(E, a[0], a[1] if len(a) > 1 else C('')),
        'id': lambda E, a, kw: mk('id', (a[0],), INT),
    }
    for n, f in simple.items():
        bi[n] = B(n, f)
    bi['NotImplemented'] = host('NotImplemented')
    bi['Ellipsis'] = C(Ellipsis)
    bi['__debug__'] = TRUE
    from . import libs
    libs.install(E)
