"""Functions replaced by uninterpreted ones (with their inverse law) in obligations that only use them;
what they compute is the subject of other obligations."""
from .interp import BC
from .terms import mk, C, ZERO, BOOL, is_const, length, eq0, mk_not, mk_eq, le, items, tup, seq_of, cval, host, sym, sl, STR
from .models import is_bytes, content


def definite(E, v):
    v = E.res(v)
    while v.op == 'ite':
        v = v.args[1] if E.branch(v.args[0]) else v.args[2]
    return v


def first(fn, bound):
    a = fn.node.args
    return bound[(a.posonlyargs + a.args)[0].arg]


def b58_encode(E, fn, bound):
    v = E.res(first(fn, bound))
    if not is_bytes(E, v):
        return None
    x = definite(E, content(E, v))
    if is_const(x):
        return None
    if x.op == 'b58d':
        return x.args[0]
    t = mk('b58e', (x,), ('str', None))
    n = length(x)
    if is_const(n):            # 256^n <= 58^k for this k, and a leading zero byte takes one character
        k = 0
        while 58 ** k < 256 ** n.args[0]:
            k += 1
        E.st.facts.assume(le(length(t), C(max(k, n.args[0]))))
    return t


def b58_decode(E, fn, bound):
    v = E.res(first(fn, bound))
    if E.kind(v) != 'str' or is_const(v):
        return None
    v = definite(E, v)
    if is_const(v):
        return None
    if v.op == 'b58e':
        if E.branch(eq0(length(v.args[0]))):
            E.py_raise(E.classes['Base58Error'])
        return v.args[0]
    if E.branch(eq0(length(v))) or not E.branch(mk('b58ok', (v,), BOOL)):
        E.py_raise(E.classes['Base58Error'])
    return mk('b58d', (v,), ('bytes', None))


def cash_decode(E, fn, bound):
    """the text before the first colon, a kind (0 or 1) and a hash of one of the eight sizes"""
    v = E.res(first(fn, bound))
    if E.kind(v) != 'str' or is_const(v):
        return None
    v = definite(E, v)
    if not E.branch(mk('cashok', (v,), BOOL)):
        E.py_raise('ValueError')
    prefix = None
    if v.op == 'cat' and is_const(v.args[1]) and ':' in cval(v.args[1]):
        prefix = C(cval(v.args[1]).split(':')[0])
    else:
        for a, p in E.st.facts.lits.items():
            if p and a.op == 'eq':
                for x, y in (a.args, a.args[::-1]):
                    if is_const(x) and isinstance(cval(x), str) and ':' in cval(x) and y.op == 'sl' \
                            and y.args[0] is v and y.args[1] is ZERO:
                        prefix = C(cval(x).split(':')[0])
    if prefix is None:
        prefix = mk('cashprefix', (v,), ('str', None))
    h = mk('cashhash', (v,), ('bytes', None))
    E.st.facts.assume(le(length(h), C(64)))
    E.st.facts.assume(le(C(20), length(h)))
    return tup([prefix, mk('cashkind', (v,), ('int', 0, 1)), h])


def to_template(E, fn, bound):
    """(template, items): as many items as the template has push markers"""
    b = content(E, E.call(host(BC['bytes']), [E.res(first(fn, bound))], {}))
    if is_const(b):
        return None
    t = mk('template', (b,), ('bytes', None))
    for k in (b'\x76\xa9\x4c\x88\xac', b'\xa9\x4c\x87', b'\x4c\xac'):
        if E.branch(mk_eq(t, C(k))):
            return tup([t, E.new_list(items([mk('titem', (b,), ('bytes', None))]))])
    return tup([t, E.new_list(mk('titems', (b,), seq_of(('bytes', None))))])


def compact(name, ty):
    """the compact form of targets, taken as total: stored headers have valid bits, of difficulty at least one"""
    def f(E, fn, bound):
        v = E.res(first(fn, bound))
        if E.kind(v) not in ('int', 'bool'):
            return None
        v = definite(E, E.num(v))
        if is_const(v):
            return None
        return mk(name, (v,), ty)
    return f


def old_words(E, fn, bound):
    """any list of 1626 words"""
    t = sym('oldwords', seq_of(STR))
    E.st.facts.assume(le(C(1626), length(t)))
    return E.new_list(sl(t, ZERO, C(1626)))


def predicate(name, ty=BOOL):
    def f(E, fn, bound):
        a = fn.node.args
        vs = [E.res(bound[x.arg]) for x in (a.posonlyargs + a.args) if x.arg not in ('cls', 'self')]
        return mk(name, tuple(E.reify(v) for v in vs), ty)
    return f


def to_asm(E, fn, bound):
    b = content(E, E.call(host(BC['bytes']), [E.res(first(fn, bound))], {}))
    return mk('asm', (b, E.truth(bound['decode_sighash'])), STR)


TARGET = ('int', 0, (1 << 256) - 1)

GROUPS = {
    'bits': {'bitcoinx.work:bits_to_target': compact('b2t', TARGET), 'bitcoinx.work:target_to_bits': compact('t2b', ('int', 0, 0x2100ffff)),
             'bitcoinx.work:bits_to_work': compact('workof', ('int', 4295032833, 1 << 256))},
    'oldwords': {'bitcoinx.mnemonic:Wordlists.original_electrum_wordlist': old_words},
    'electrum': {'bitcoinx.mnemonic:ElectrumMnemonic.is_valid_new': predicate('validnew'),
                 'bitcoinx.mnemonic:ElectrumMnemonic.is_valid_old': predicate('validold')},
    'asm': {'bitcoinx.script:Script.to_asm': to_asm},
    'asmword': {'bitcoinx.script:Script.op_to_asm_word': predicate('asmword', STR)},
    'cashaddr': {'bitcoinx.cashaddr:decode': cash_decode},
    'template': {'bitcoinx.script:Script.to_template': to_template},
    'base58': {'bitcoinx.base58:base58_encode': b58_encode, 'bitcoinx.base58:base58_decode': b58_decode},
}
