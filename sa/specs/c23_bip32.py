"""Reference: BIP32 derivation, extended-key serialization, derivation path strings."""
import hashlib
import hmac
import re
from vt import ob, expect, only, nat, nat_struct, nat_bytes, nat_ser, urandom, assume, anything, AnyError
from bitcoinx import (Bitcoin, BitcoinTestnet, BIP32PrivateKey, BIP32PublicKey, bip32_key_from_string, base58_encode_check, base58_decode_check)

PK = 'secp256k1_pubkey'
H = 1 << 31
XPRV, XPUB = b'\x04\x88\xad\xe4', b'\x04\x88\xb2\x1e'
TPRV, TPUB = b'\x04\x35\x83\x94', b'\x04\x35\x87\xcf'


def h160(b):
    return hashlib.new('ripemd160', hashlib.sha256(b).digest()).digest()


def halves(k, m):
    d = hmac.new(k, m, hashlib.sha512).digest()
    return d[:32], d[32:]


def pub(secret):
    assume(nat('ec_pubkey_create', secret) == 1)
    return nat_struct('ec_pubkey_create', 0, secret, ty=PK)


def deriv(c, n, d, f):
    return expect('BIP32Derivation', chain_code=c, n=n, depth=d, parent_fingerprint=f)


def xprv(secret, c, n, d, f, coin):
    return expect('BIP32PrivateKey', call_to_bytes=secret, call_is_compressed=True, call_coin=coin,
                  call_derivation=deriv(c, n, d, f))


def xpub(p, c, n, d, f, coin):
    return expect('BIP32PublicKey', call_to_bytes=nat_ser(p, 33), call_is_compressed=True, call_coin=coin,
                  call_derivation=deriv(c, n, d, f))


def ok(secret):
    if not nat('ec_seckey_verify', secret):
        raise ValueError
    return secret


def parse(b):
    if not nat('ec_pubkey_parse', b):
        raise ValueError
    return nat_struct('ec_pubkey_parse', 0, b, ty=PK)


def be4(n):
    return n.to_bytes(4, 'big')


@ob('C23', 'BIP32PrivateKey.from_seed(s, Bitcoin)')
def from_seed(s: Bytes):
    k, c = halves(b'Bitcoin seed', s)
    return xprv(ok(k), c, 0, 0, bytes(4), Bitcoin)


@ob('C23', 'BIP32PrivateKey.from_seed(s, BitcoinTestnet)')
def from_seed_testnet(s: Bytes):
    k, c = halves(b'Bitcoin seed', s)
    return xprv(ok(k), c, 0, 0, bytes(4), BitcoinTestnet)


def prv_child(s, c, d, i, coin):
    if not 0 <= i < 1 << 32:
        raise ValueError
    me = nat_ser(pub(s), 33)
    L, R = halves(c, (b'\0' + s if i >= H else me) + be4(i))
    if not nat('ec_privkey_tweak_add', s, L):
        raise ValueError
    t = nat_bytes('ec_privkey_tweak_add', 0, s, L, n=32)
    assume(nat('ec_seckey_verify', t) == 1)
    return xprv(t, R, i, d + 1, h160(me)[:4], coin)


def pub_child(p, c, d, i, coin):
    if not 0 <= i < H:
        raise ValueError
    me = nat_ser(p, 33)
    L, R = halves(c, me + be4(i))
    if not nat('ec_pubkey_tweak_add', p, L):
        raise ValueError
    return xpub(nat_struct('ec_pubkey_tweak_add', 0, p, L, ty=PK), R, i, d + 1, h160(me)[:4], coin)


@ob('C23', 'bip32_key_from_string(base58_encode_check(b"\\x04\\x88\\xad\\xe4" + bytes([d]) + f + pack_be_uint32(n) + c + b"\\0" + s)).child(i)',
    abstract='base58')
def private_child(s: Bytes[32], c: Bytes[32], n: UInt[32], d: UInt[8], f: Bytes[4], i: Int):
    return prv_child(ok(s), c, d, i, Bitcoin)


@ob('C23', 'bip32_key_from_string(base58_encode_check(b"\\x04\\x35\\x83\\x94" + bytes([d]) + f + pack_be_uint32(n) + c + b"\\0" + s)).child(i)',
    abstract='base58')
def private_child_testnet(s: Bytes[32], c: Bytes[32], n: UInt[32], d: UInt[8], f: Bytes[4], i: Int):
    return prv_child(ok(s), c, d, i, BitcoinTestnet)


@ob('C23', 'bip32_key_from_string(base58_encode_check(b"\\x04\\x88\\xb2\\x1e" + bytes([d]) + f + pack_be_uint32(n) + c + k)).child(i)',
    abstract='base58')
def public_child(k: Bytes[33], c: Bytes[32], n: UInt[32], d: UInt[8], f: Bytes[4], i: Int):
    return pub_child(parse(k), c, d, i, Bitcoin)


@ob('C23', 'bip32_key_from_string(base58_encode_check(b"\\x04\\x35\\x87\\xcf" + bytes([d]) + f + pack_be_uint32(n) + c + k)).child(i)',
    abstract='base58')
def public_child_testnet(k: Bytes[33], c: Bytes[32], n: UInt[32], d: UInt[8], f: Bytes[4], i: Int):
    return pub_child(parse(k), c, d, i, BitcoinTestnet)


@ob('C23', 'BIP32PrivateKey.from_seed(s, Bitcoin).public_key')
def neuter(s: Bytes):
    k, c = halves(b'Bitcoin seed', s)
    return xpub(pub(ok(k)), c, 0, 0, bytes(4), Bitcoin)


@ob('C23', 'BIP32PrivateKey.from_seed(s, BitcoinTestnet).child(i).public_key')
def neuter_child(s: Bytes, i: Range[0, 4294967295]):
    k, c = halves(b'Bitcoin seed', s)
    ok(k)
    me = nat_ser(pub(k), 33)
    L, R = halves(c, (b'\0' + k if i >= H else me) + be4(i))
    if not nat('ec_privkey_tweak_add', k, L):
        raise ValueError
    t = nat_bytes('ec_privkey_tweak_add', 0, k, L, n=32)
    assume(nat('ec_seckey_verify', t) == 1)
    return xpub(pub(t), R, i, 1, h160(me)[:4], BitcoinTestnet)


@ob('C23', 'k = BIP32PrivateKey.from_seed(s, Bitcoin); (k.identifier(), k.fingerprint(), k.public_key.identifier(), k.public_key.fingerprint())')
def identifiers(s: Bytes):
    k, c = halves(b'Bitcoin seed', s)
    h = h160(nat_ser(pub(ok(k)), 33))
    return h, h[:4], h, h[:4]


@ob('C23', 'BIP32PrivateKey.from_seed(s, Bitcoin).child_safe(i)', K=3)
def private_child_safe(s: Bytes, i: Int):
    k, c = halves(b'Bitcoin seed', s)
    ok(k)
    if not 0 <= i < 1 << 32:
        raise ValueError
    me = nat_ser(pub(k), 33)
    while True:
        L, R = halves(c, (b'\0' + k if i >= H else me) + be4(i))
        if nat('ec_privkey_tweak_add', k, L):
            t = nat_bytes('ec_privkey_tweak_add', 0, k, L, n=32)
            assume(nat('ec_seckey_verify', t) == 1)
            return xprv(t, R, i, 1, h160(me)[:4], Bitcoin)
        i += 1
        if i % H == 0:
            raise ValueError


@ob('C23', 'BIP32PrivateKey.from_seed(s, Bitcoin).public_key.child_safe(i)', K=3)
def public_child_safe(s: Bytes, i: Int):
    k, c = halves(b'Bitcoin seed', s)
    p = pub(ok(k))
    me = nat_ser(p, 33)
    while True:
        if not 0 <= i < H:
            raise ValueError
        L, R = halves(c, me + be4(i))
        if nat('ec_pubkey_tweak_add', p, L):
            return xpub(nat_struct('ec_pubkey_tweak_add', 0, p, L, ty=PK), R, i, 1, h160(me)[:4], Bitcoin)
        i += 1


@ob('C22', 'BIP32PrivateKey.from_random()', K=3)
def from_random():
    while True:
        s = urandom(64)
        if nat('ec_seckey_verify', s[:32]):
            return xprv(s[:32], s[32:], 0, 0, bytes(4), Bitcoin)


# ---- extended key strings
@ob('C24', 'bip32_key_from_string(base58_encode_check(raw))', abstract='base58')
def from_string(raw: Bytes):
    return from_ext(raw)


@ob('C24', 'bip32_key_from_string(t)', abstract='base58')
def from_text(t: Str):
    return from_ext(base58_decode_check(t))


def from_ext(raw):
    if len(raw) != 78:
        raise ValueError
    v = raw[:4]
    if v == XPRV or v == XPUB:
        coin = Bitcoin
    elif v == TPRV or v == TPUB:
        coin = BitcoinTestnet
    else:
        raise ValueError
    n, d, f, c = int.from_bytes(raw[9:13], 'big'), raw[4], raw[5:9], raw[13:45]
    if v == XPRV or v == TPRV:
        if raw[45] != 0:
            raise ValueError
        return xprv(ok(raw[46:]), c, n, d, f, coin)
    return xpub(parse(raw[45:]), c, n, d, f, coin)


@ob('C24', 'base58_decode_check(bip32_key_from_string(base58_encode_check(raw)).to_extended_key_string())', abstract='base58')
def string_round_trip(raw: Bytes):
    k = from_ext(raw)
    if raw[:4] == XPRV:
        return XPRV + raw[4:45] + b'\0' + raw[46:]
    if raw[:4] == TPRV:
        return TPRV + raw[4:45] + b'\0' + raw[46:]
    return (XPUB if raw[:4] == XPUB else TPUB) + raw[4:45] + nat_ser(nat_struct('ec_pubkey_parse', 0, raw[45:], ty=PK), 33)


@ob('C24', 'base58_decode_check(BIP32PrivateKey.from_seed(s, Bitcoin).child(i).to_extended_key_string())', abstract='base58')
def child_string(s: Bytes, i: Range[0, 4294967295]):
    k, c = halves(b'Bitcoin seed', s)
    ok(k)
    me = nat_ser(pub(k), 33)
    L, R = halves(c, (b'\0' + k if i >= H else me) + be4(i))
    if not nat('ec_privkey_tweak_add', k, L):
        raise ValueError
    t = nat_bytes('ec_privkey_tweak_add', 0, k, L, n=32)
    assume(nat('ec_seckey_verify', t) == 1)
    return XPRV + b'\x01' + h160(me)[:4] + be4(i) + R + b'\0' + t


@ob('C24', 'base58_decode_check(str(BIP32PrivateKey.from_seed(s, BitcoinTestnet).public_key))', abstract='base58')
def public_string(s: Bytes):
    k, c = halves(b'Bitcoin seed', s)
    return TPUB + bytes(9) + c + nat_ser(pub(ok(k)), 33)


@ob('C24', 'repr(BIP32PrivateKey.from_seed(s, BitcoinTestnet).public_key)', abstract='base58')
def public_repr(s: Bytes):
    k, c = halves(b'Bitcoin seed', s)
    return 'BIP32PublicKey("' + base58_encode_check(TPUB + bytes(9) + c + nat_ser(pub(ok(k)), 33)) + '")'


@ob('C21', 'str(BIP32PrivateKey(s, d, Bitcoin)), repr(BIP32PrivateKey(s, d, Bitcoin)), f"{BIP32PrivateKey(s, d, Bitcoin)}"', secret='s',
    abstract='base58')
def private_text(s: Bytes[32], d: BIP32Derivation):
    return anything


@ob('C21', 'BIP32PrivateKey(s, d, Bitcoin).child(i)', secret='s', effects=False)
def private_child_errors(s: Bytes[32], d: BIP32Derivation, i: Int):
    prv_child(ok(s), d.chain_code, d.depth, i, Bitcoin)
    assume(False)


class shape_BIP32Derivation:
    how = 'ctor'
    chain_code: Bytes[32]
    n: UInt[32]
    depth: UInt[8]
    parent_fingerprint: Bytes[4]


# ---- paths
@ob('C25', 'bip32_decompose_chain_string(t)')
def decompose_type(t: Union[Int, Bytes, None]):
    raise TypeError


@ob('C25', "bip32_decompose_chain_string('m')")
def decompose_root():
    return []


@ob('C25', "bip32_decompose_chain_string('m/%d' % n)")
def decompose_one(n: Nat):
    if n >= H:
        raise ValueError
    return [n]


@ob('C25', "bip32_decompose_chain_string(\"m/%d'/%d\" % (n, k))")
def decompose_two(n: Nat, k: Nat):
    if n >= H or k >= H:
        raise ValueError
    return [n + H, k]


@ob('C25', "bip32_decompose_chain_string('m/' + p)", pre="'/' not in p")
def decompose_text(p: Str):
    q = p[:-1] if p.endswith("'") else p
    if not re.fullmatch('[0-9]+', q):
        raise ValueError
    v = int(q)
    if v >= H:
        raise ValueError
    return [v + H if p.endswith("'") else v]


@ob('C25', 'bip32_decompose_chain_string(p)', pre="'/' not in p")
def decompose_head(p: Str):
    if p != 'm':
        raise ValueError
    return []


@ob('C25', "bip32_decompose_chain_string(p + '/' + q)", pre="'/' not in p and '/' not in q and p != 'm'")
def decompose_bad_head(p: Str, q: Str):
    raise ValueError


@ob('C25', "bip32_is_valid_chain_string('m/' + p)", pre="'/' not in p")
def valid_text(p: Str):
    q = p[:-1] if p.endswith("'") else p
    try:
        return bool(re.fullmatch('[0-9]+', q)) and int(q) < H
    except ValueError:
        return False                    # more digits than int() converts


@ob('C25', 'bip32_build_chain_string([n, k])')
def build_two(n: Int, k: Int):
    if not 0 <= n < 1 << 32 or not 0 <= k < 1 << 32:
        raise ValueError
    return 'm/' + (str(n) if n < H else str(n - H) + "'") + '/' + (str(k) if k < H else str(k - H) + "'")


@ob('C25', 'bip32_build_chain_string([])')
def build_none():
    return 'm'


@ob('C25', 'bip32_build_chain_string(q)')
def build(q: List[UInt[32]]):
    return '/'.join(['m'] + [str(n) if n < H else str(n - H) + "'" for n in q])


@ob('C25', 'bip32_decompose_chain_string(bip32_build_chain_string([n, k, j]))')
def path_round_trip(n: UInt[32], k: UInt[32], j: UInt[32]):
    return [n, k, j]


@ob('C25', 'bip32_validate_derivation(q)')
def validate(q: List[Union[Int, Str, None]]):
    for n in q:
        if not isinstance(n, int):
            raise TypeError
        if not 0 <= n < 1 << 32:
            raise ValueError
    return list(q)


@ob('C25', 'bip32_validate_derivation((n, k))')
def validate_tuple(n: Int, k: Int):
    if not 0 <= n < 1 << 32 or not 0 <= k < 1 << 32:
        raise ValueError
    return [n, k]


@ob('C25', 'bip32_validate_derivation(q)')
def validate_fresh(q: List[UInt[32]]):
    return list(q)


def told(f):
    """what the exception says, if there is one"""
    try:
        f()
    except Exception as e:
        c = e.__cause__
        return e.args, None if c is None else c.args


M = 'specs.c23_bip32'


@ob('C21', 'told(lambda: bip32_key_from_string(base58_encode_check(v + d + b"\\x00" + s + t)))', mod=M, secret='s', abstract='base58')
def key_text_errors(v: Bytes[4], d: Bytes[41], s: Bytes[32], t: Bytes):
    return anything


@ob('C21', 'told(lambda: BIP32PrivateKey(s, d, Bitcoin)), told(lambda: BIP32PrivateKey(s, d, Bitcoin).child(i)), '
           'told(lambda: BIP32PrivateKey(s, d, Bitcoin).add(b)), told(lambda: BIP32PrivateKey(s, d, Bitcoin).to_extended_key_string())', mod=M, secret='s', abstract='base58', effects=False)
def private_errors(s: Bytes, d: BIP32Derivation, i: Int, b: Bytes):
    return anything


@ob('C21', 'told(lambda: BIP32PrivateKey.from_seed(s, Bitcoin))', mod=M, secret='s')
def seed_errors(s: Bytes):
    return anything
