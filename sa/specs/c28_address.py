"""Reference: addresses, output types and the classification of output scripts."""
import re
from vt import ob, expect, only, nat, nat_struct, nat_ser, AnyError
from bitcoinx import (Bitcoin, BitcoinTestnet, Base58Error, P2PKH_Address, P2SH_Address, P2PK_Output, P2MultiSig_Output,
                      OP_RETURN_Output, Unknown_Output, PublicKey, Script, base58_decode_check, base58_encode_check,
                      classify_output_script)
from specs.c07_script import push, number, value_of
from specs.c13_keys import parse, ser, h160
from bitcoinx import cashaddr
from bitcoinx.address import Address


class shape_P2PKH_Address:
    how = 'ctor'
    hash160: Bytes[20]
    coin: Coin


class shape_P2SH_Address:
    how = 'ctor'
    hash160: Bytes[20]
    coin: Coin


def p2pkh(h, coin):
    return expect('P2PKH_Address', call_hash160=h, call_coin=coin)


def p2sh(h, coin):
    return expect('P2SH_Address', call_hash160=h, call_coin=coin)


def legacy(s, coin):
    raw = base58_decode_check(s)
    if len(raw) != 21:
        raise ValueError
    if raw[0] == coin.P2PKH_verbyte:
        return p2pkh(raw[1:], coin)
    if raw[0] == coin.P2SH_verbyte:
        return p2sh(raw[1:], coin)
    raise ValueError


def cash(s, coin):
    prefix = coin.cashaddr_prefix
    if s.upper() == s:
        prefix = prefix.upper()
    if s[:len(prefix) + 1] != prefix + ':':
        s = prefix + ':' + s
    p, kind, h = cashaddr.decode(s)
    if len(h) != 20:
        raise ValueError
    return p2pkh(h, coin) if kind == 0 else p2sh(h, coin)


@ob('C28', 'Address.from_string(s, Bitcoin)', mod='bitcoinx.address', abstract='base58 cashaddr', seeds='address')
def from_string_mainnet(s: Str):
    if len(s) > 35:
        try:
            return cash(s, Bitcoin)
        except ValueError:
            pass
    return legacy(s, Bitcoin)


@ob('C28', 'Address.from_string(s, BitcoinTestnet)', mod='specs.c28_address', abstract='base58 cashaddr', seeds='address')
def from_string_testnet(s: Str):
    if len(s) > 35:
        try:
            return cash(s, BitcoinTestnet)
        except ValueError:
            pass
    return legacy(s, BitcoinTestnet)


@ob('C28', '(P2PKH_Address(h, Bitcoin).to_string(), P2SH_Address(h, Bitcoin).to_string(), '
           'str(P2PKH_Address(h, BitcoinTestnet)), str(P2SH_Address(h, BitcoinTestnet)))', abstract='base58 cashaddr')
def to_string(h: Bytes[20]):
    return (base58_encode_check(b'\0' + h), base58_encode_check(b'\x05' + h),
            base58_encode_check(b'\x6f' + h), base58_encode_check(b'\xc4' + h))


@ob('C28', 'Address.from_string(P2PKH_Address(h, Bitcoin).to_string(), Bitcoin)', mod='bitcoinx.address', abstract='base58 cashaddr')
def round_p2pkh(h: Bytes[20]):
    return p2pkh(h, Bitcoin)


@ob('C28', 'P2PKH_Address(h, Bitcoin).hash160()')
def p2pkh_ctor(h: Bytes):
    if len(h) != 20:
        raise ValueError
    return h


@ob('C28', 'P2SH_Address(h, Bitcoin).hash160()')
def p2sh_ctor(h: Bytes):
    if len(h) != 20:
        raise ValueError
    return h


@ob('C28', 'P2PKH_Address(h, Bitcoin)')
def p2pkh_type(h: Union[Int, Str, None]):
    raise TypeError


@ob('C28', 'P2SH_Address(h, Bitcoin)')
def p2sh_type(h: Union[Int, Str, None]):
    raise TypeError


@ob('C28', '(P2PKH_Address(h, Bitcoin).to_script_bytes(), P2PKH_Address(h, Bitcoin).to_script(), '
           'P2SH_Address(h, Bitcoin).to_script_bytes(), P2SH_Address(h, Bitcoin).to_script())')
def scripts(h: Bytes[20]):
    a = b'\x76\xa9\x14' + h + b'\x88\xac'
    b = b'\xa9\x14' + h + b'\x87'
    return a, expect('Script', bytes_=a), b, expect('Script', bytes_=b)


DATA = 0x4c


def classify(b, coin):
    t, items = Script(b).to_template()
    if t == b'\x76\xa9\x4c\x88\xac' and len(items[0]) == 20:
        return p2pkh(items[0], coin)
    if t == b'\xa9\x4c\x87' and len(items[0]) == 20:
        return p2sh(items[0], coin)
    if t == b'\x4c\xac':
        try:
            return pk_output(items[0])
        except ValueError:
            pass
    if re.match(b'\x4c*\x6a', t):
        return expect('OP_RETURN_Output')
    if re.match(b'\x4c{3,}\xae$', t):
        try:
            return multisig(items)
        except ValueError:
            pass
    return expect('Unknown_Output')


def pk_output(b):
    p = parse(b)
    return expect('P2PK_Output', public_key=expect('PublicKey', call_to_bytes=ser(p, len(b) == 33)))


def multisig(items):
    if len(items) < 2:
        raise ValueError
    m, n = value_of(items[0]), value_of(items[-1])
    keys = items[1:-1]
    if n != len(keys):
        raise ValueError
    ks = [parse(k) for k in keys]
    if not 1 <= m <= n:
        raise ValueError
    return expect('P2MultiSig_Output', threshold=m)


@ob('C28 C11', 'classify_output_script(Script(b), Bitcoin)', abstract='template', ignore='output_script_templates')
def classify_script(b: Bytes):
    return classify(b, Bitcoin)


@ob('C28 C11', 'classify_output_script(P2PKH_Address(h, BitcoinTestnet).to_script(), BitcoinTestnet)', ignore='output_script_templates')
def classify_p2pkh(h: Bytes[20]):
    return p2pkh(h, BitcoinTestnet)


@ob('C28 C11', 'classify_output_script(P2SH_Address(h, BitcoinTestnet).to_script(), BitcoinTestnet)', ignore='output_script_templates')
def classify_p2sh(h: Bytes[20]):
    return p2sh(h, BitcoinTestnet)


@ob('C28', '(P2PK_Output(b, Bitcoin).to_script_bytes(), P2PK_Output(b, Bitcoin).hash160(), P2PK_Output(b, Bitcoin).to_address(), P2PK_Output(b, Bitcoin).to_script())')
def p2pk(b: Bytes):
    s = ser(parse(b), len(b) == 33)
    c = push(s) + b'\xac'
    return c, h160(s), p2pkh(h160(s), Bitcoin), expect('Script', bytes_=c)


@ob('C28 C11', 'classify_output_script(P2PK_Output(b, Bitcoin).to_script(), Bitcoin)')
def classify_p2pk(b: Bytes):
    s = ser(parse(b), len(b) == 33)
    try:
        return pk_output(s)
    except ValueError:
        return expect('Unknown_Output')


def num(n):
    return bytes([0x50 + n]) if n <= 16 else push(number(n))


@ob('C28', 'P2MultiSig_Output([a, b, c], m).to_script_bytes()')
def multisig_three(a: Bytes, b: Bytes, c: Bytes, m: Int):
    ks = [ser(parse(x), len(x) == 33) for x in (a, b, c)]
    if not 1 <= m <= 3:
        raise ValueError
    return bytes([0x50 + m]) + b''.join([push(k) for k in ks]) + b'\x53\xae'


@ob('C28', '(P2MultiSig_Output([a, b], m).public_key_count(), P2MultiSig_Output([a, b], m).hash160(), P2MultiSig_Output([a, b], m).to_script())')
def multisig_two(a: Bytes, b: Bytes, m: Int):
    ks = [ser(parse(x), len(x) == 33) for x in (a, b)]
    if not 1 <= m <= 2:
        raise ValueError
    c = bytes([0x50 + m]) + b''.join([push(k) for k in ks]) + b'\x52\xae'
    return 2, h160(c), expect('Script', bytes_=c)


@ob('C28', '(OP_RETURN_Output().to_script_bytes(), OP_RETURN_Output() == OP_RETURN_Output(), hash(OP_RETURN_Output()) == hash(OP_RETURN_Output()))')
def op_return():
    return b'\x6a', True, True


@ob('C15', '(P2PKH_Address(a, Bitcoin) == P2PKH_Address(b, Bitcoin), P2PKH_Address(a, Bitcoin) != P2PKH_Address(b, Bitcoin) or hash(P2PKH_Address(a, Bitcoin)) == hash(P2PKH_Address(b, Bitcoin)), '
           'P2PKH_Address(a, Bitcoin) == P2SH_Address(b, Bitcoin))')
def eq_p2pkh(a: Bytes[20], b: Bytes[20]):
    return a == b, True, False


@ob('C15', '(P2SH_Address(a, Bitcoin) == P2SH_Address(b, Bitcoin), P2SH_Address(a, Bitcoin) != P2SH_Address(b, Bitcoin) or hash(P2SH_Address(a, Bitcoin)) == hash(P2SH_Address(b, Bitcoin)), '
           'P2SH_Address(a, Bitcoin) == P2PKH_Address(b, Bitcoin))')
def eq_p2sh(a: Bytes[20], b: Bytes[20]):
    return a == b, True, False


@ob('C15', 'P2PKH_Address(a, Bitcoin) != P2PKH_Address(a, BitcoinTestnet) or hash(P2PKH_Address(a, Bitcoin)) == hash(P2PKH_Address(a, BitcoinTestnet)), '
           'P2SH_Address(a, Bitcoin) != P2SH_Address(a, BitcoinTestnet) or hash(P2SH_Address(a, Bitcoin)) == hash(P2SH_Address(a, BitcoinTestnet))')
def eq_coin(a: Bytes[20]):
    return True, True


@ob('C15', '(P2PKH_Address(a, Bitcoin) == x, P2SH_Address(a, Bitcoin) == x, OP_RETURN_Output() == x)')
def eq_other(a: Bytes[20], x: Union[Bytes, Str, Int, None]):
    return False, False, False


@ob('C15', '(P2PK_Output(a, Bitcoin) == x, P2PK_Output(a, Bitcoin) == P2PKH_Address(b, Bitcoin), P2MultiSig_Output([a], 1) == x, '
           'P2MultiSig_Output([a], 1) == P2PK_Output(a, Bitcoin), P2MultiSig_Output([a], 1) == OP_RETURN_Output(), '
           'OP_RETURN_Output() == P2PK_Output(a, Bitcoin), OP_RETURN_Output() == OP_RETURN_Output(), '
           'hash(OP_RETURN_Output()) == hash(OP_RETURN_Output()), P2PK_Output(a, Bitcoin) != x, P2MultiSig_Output([a], 1) != x)')
def eq_other_outputs(a: Bytes, b: Bytes[20], x: Union[Bytes, Str, Int, None]):
    ser(parse(a), True)
    return False, False, False, False, False, False, True, True, True, True


@ob('C28 C18', '(P2PK_Output(a, BitcoinTestnet).to_address(), P2PK_Output(PublicKey.from_bytes(a), BitcoinTestnet).to_address().to_string(), '
               'P2PK_Output(a, Bitcoin).to_address().coin(), P2PK_Output(a, BitcoinTestnet).to_address().coin(), P2PK_Output(a, Bitcoin).hash160())',
    abstract='base58')
def p2pk_address(a: Bytes):
    p = ser(parse(a), len(a) == 33)
    return (expect('P2PKH_Address', _hash160=h160(p), _coin=BitcoinTestnet), P2PKH_Address(h160(p), BitcoinTestnet).to_string(),
            Bitcoin, BitcoinTestnet, h160(p))


@ob('C15', '(P2PK_Output(a, Bitcoin) == P2PK_Output(b, Bitcoin), P2PK_Output(a, Bitcoin) != P2PK_Output(b, Bitcoin) or hash(P2PK_Output(a, Bitcoin)) == hash(P2PK_Output(b, Bitcoin)))')
def eq_p2pk(a: Bytes, b: Bytes):
    p, q = ser(parse(a), True), ser(parse(b), True)
    return p == q, True


@ob('C15', '(P2MultiSig_Output([a, b], m) == P2MultiSig_Output([c, d], n), P2MultiSig_Output([a, b], m) != P2MultiSig_Output([c, d], n) or hash(P2MultiSig_Output([a, b], m)) == hash(P2MultiSig_Output([c, d], n)))')
def eq_multisig(a: Bytes, b: Bytes, c: Bytes, d: Bytes, m: Int, n: Int):
    x, y = ser(parse(a), True), ser(parse(b), True)
    if not 1 <= m <= 2:
        raise ValueError
    z, w = ser(parse(c), True), ser(parse(d), True)
    if not 1 <= n <= 2:
        raise ValueError
    return x == z and y == w and m == n, True
