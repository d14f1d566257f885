"""Reference: private and public keys, WIF, key arithmetic, signatures over messages, ECIES."""
import base64
import hashlib
import hmac
from vt import ob, expect, only, nat, nat_struct, nat_bytes, nat_int, nat_ser, app, urandom, assume, aes, anything, AnyError
from bitcoinx import (PrivateKey, PublicKey, Bitcoin, BitcoinTestnet, Base58Error, InvalidSignatureError,
                      DecryptionError, base58_encode_check, base58_decode_check, P2PKH_Address, P2SH_Address)

ORDER = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
PK = 'secp256k1_pubkey'
RSIG = 'secp256k1_ecdsa_recoverable_signature'
SIG = 'secp256k1_ecdsa_signature'


class shape_PrivateKey:
    how = 'ctor'
    secret: Bytes[32]
    compressed: Bool


def sha(b):
    return hashlib.sha256(b).digest()


def dsha(b):
    return sha(sha(b))


def h160(b):
    return hashlib.new('ripemd160', sha(b)).digest()


def secret_ok(b):
    if len(b) != 32 or not nat('ec_seckey_verify', b):
        raise ValueError
    return b


def pub(secret):
    assume(nat('ec_pubkey_create', secret) == 1)
    return nat_struct('ec_pubkey_create', 0, secret, ty=PK)


def parse(b):
    if not nat('ec_pubkey_parse', b):
        raise ValueError
    return nat_struct('ec_pubkey_parse', 0, b, ty=PK)


def ser(p, compressed):
    return nat_ser(p, 33) if compressed else nat_ser(p, 65)


def priv(secret, compressed, coin=Bitcoin):
    return expect('PrivateKey', call_to_bytes=secret, call_is_compressed=compressed, call_coin=coin)


def public(p, compressed, coin=Bitcoin):
    return expect('PublicKey', call_to_bytes=ser(p, compressed), call_is_compressed=compressed, call_coin=coin)


# ---- private keys
@ob('C13', 'PrivateKey(b, c)')
def private_ctor(b: Bytes, c: Bool):
    return priv(secret_ok(b), c)


@ob('C13', 'PrivateKey(b, c, BitcoinTestnet)')
def private_ctor_coin(b: Bytes, c: Bool):
    return priv(secret_ok(b), c, BitcoinTestnet)


@ob('C13', 'PrivateKey(x)')
def private_ctor_type(x: Union[Int, Str, None]):
    raise TypeError


@ob('C13', 'PrivateKey(bytearray(b))')
def private_ctor_bytearray(b: Bytes):
    raise TypeError


@ob('C13', 'PrivateKey.from_int(v)')
def private_from_int(v: Int):
    if v < 0 or v >= 1 << 256:
        raise OverflowError
    return priv(secret_ok(v.to_bytes(32, 'big')), True)


@ob('C13', 'PrivateKey.from_hex(b.hex())')
def private_from_hex(b: Bytes):
    return priv(secret_ok(b), True)


@ob('C13', 'PrivateKey.from_hex(s)')
def private_from_text_hex(s: Str):
    return priv(secret_ok(bytes.fromhex(s)), True)


@ob('C13', 'PrivateKey.from_arbitrary_bytes(b)')
def private_from_arbitrary(b: Bytes):
    return priv(secret_ok((int.from_bytes(b, 'big') % ORDER).to_bytes(32, 'big')), True)


@ob('C13', '(k.to_bytes(), k.to_int(), k.to_hex(), k.is_compressed())')
def private_views(k: PrivateKey):
    b = k.to_bytes()
    return b, int.from_bytes(b, 'big'), b.hex(), k.is_compressed()


@ob('C13 C18', 'k.public_key')
def private_public(k: PrivateKey):
    return public(pub(k.to_bytes()), k.is_compressed())


@ob('C13', 'CURVE_ORDER')
def curve_order():
    return ORDER


@ob('C15', '(k == j, k != j or hash(k) == hash(j))')
def private_eq(k: PrivateKey, j: PrivateKey):
    e = k.to_bytes() == j.to_bytes()
    return e, True


@ob('C15', 'k == x')
def private_eq_other(k: PrivateKey, x: Union[Bytes, Str, None]):
    return False


@ob('C15', '(P == Q, P != Q or hash(P) == hash(Q), P == P.complement(), hash(P) == hash(P.complement()))'
    .replace('P', 'PublicKey.from_bytes(a)').replace('Q', 'PublicKey.from_bytes(b)').replace('PublicKeyublicKey', 'PublicKey'))
def public_eq(a: Bytes, b: Bytes):
    p, q = nat_ser(parse(a), 33), nat_ser(parse(b), 33)
    e = p == q
    return e, True, True, True


# ---- arithmetic
@ob('C16 C13', 'k.add(b)')
def private_add(k: PrivateKey, b: Bytes):
    if len(b) != 32:
        raise ValueError
    if not nat('ec_privkey_tweak_add', k.to_bytes(), b):
        raise ValueError
    return priv(nat_bytes('ec_privkey_tweak_add', 0, k.to_bytes(), b, n=32), k.is_compressed())


@ob('C16 C13', 'k.multiply(b)')
def private_multiply(k: PrivateKey, b: Bytes):
    if len(b) != 32:
        raise ValueError
    if not nat('ec_privkey_tweak_mul', k.to_bytes(), b):
        raise ValueError
    return priv(nat_bytes('ec_privkey_tweak_mul', 0, k.to_bytes(), b, n=32), k.is_compressed())


@ob('C16', '(k.add(b), k.multiply(b), k.to_bytes())')
def private_unchanged(k: PrivateKey, b: Bytes[32]):
    s = k.to_bytes()
    if not nat('ec_privkey_tweak_add', s, b) or not nat('ec_privkey_tweak_mul', s, b):
        raise ValueError
    return (priv(nat_bytes('ec_privkey_tweak_add', 0, s, b, n=32), k.is_compressed()),
            priv(nat_bytes('ec_privkey_tweak_mul', 0, s, b, n=32), k.is_compressed()), s)


@ob('C16', 'PrivateKey(s, c, BitcoinTestnet).add(b).coin() is BitcoinTestnet'
    ' and PrivateKey(s, c, BitcoinTestnet).multiply(b).coin() is BitcoinTestnet')
def private_keeps_coin(s: Bytes[32], c: Bool, b: Bytes[32]):
    secret_ok(s)
    if not nat('ec_privkey_tweak_add', s, b) or not nat('ec_privkey_tweak_mul', s, b):
        raise ValueError
    return True


@ob('C16', 'k.add(x), k.multiply(x)')
def private_tweak_type(k: PrivateKey, x: Union[Int, Str, None]):
    raise TypeError


@ob('C16', 'PublicKey.from_bytes(a).add(b)')
def public_add(a: Bytes, b: Bytes):
    p = parse(a)
    if len(b) != 32 or not nat('ec_pubkey_tweak_add', p, b):
        raise ValueError
    return public(nat_struct('ec_pubkey_tweak_add', 0, p, b, ty=PK), len(a) == 33)


@ob('C16', 'PublicKey.from_bytes(a).multiply(b)')
def public_multiply(a: Bytes, b: Bytes):
    p = parse(a)
    if len(b) != 32 or not nat('ec_pubkey_tweak_mul', p, b):
        raise ValueError
    return public(nat_struct('ec_pubkey_tweak_mul', 0, p, b, ty=PK), len(a) == 33)


@ob('C16', 'p = PublicKey.from_bytes(a); q = p.add(b); r = p.multiply(b); (p, q, r)')
def public_unchanged(a: Bytes, b: Bytes[32]):
    p = parse(a)
    if not nat('ec_pubkey_tweak_add', p, b) or not nat('ec_pubkey_tweak_mul', p, b):
        raise ValueError
    c = len(a) == 33
    return (public(p, c), public(nat_struct('ec_pubkey_tweak_add', 0, p, b, ty=PK), c),
            public(nat_struct('ec_pubkey_tweak_mul', 0, p, b, ty=PK), c))


@ob('C16', 'PrivateKey(s, c, BitcoinTestnet).public_key.add(b).coin() is BitcoinTestnet')
def public_keeps_coin(s: Bytes[32], c: Bool, b: Bytes[32]):
    p = pub(secret_ok(s))
    if not nat('ec_pubkey_tweak_add', p, b):
        raise ValueError
    return True


@ob('C16', 'PublicKey.combine_keys([PublicKey.from_bytes(a), PublicKey.from_bytes(b)])')
def public_combine(a: Bytes, b: Bytes):
    ps = [parse(a), parse(b)]
    if not nat('ec_pubkey_combine', ps):
        raise ValueError
    return public(nat_struct('ec_pubkey_combine', 0, ps, ty=PK), len(a) == 33)


@ob('C16', 'PublicKey.combine_keys([PublicKey.from_bytes(a), PublicKey.from_bytes(b), PublicKey.from_bytes(c)])')
def public_combine3(a: Bytes[65], b: Bytes[33], c: Bytes[33]):
    ps = [parse(a), parse(b), parse(c)]
    if not nat('ec_pubkey_combine', ps):
        raise ValueError
    return public(nat_struct('ec_pubkey_combine', 0, ps, ty=PK), False)


@ob('C16', 'PublicKey.combine_keys([])')
def public_combine_none():
    raise ValueError


@ob('C16', 'PublicKey.from_bytes(a).complement()')
def public_complement(a: Bytes):
    return public(parse(a), len(a) != 33)


# ---- WIF
@ob('C17', 'base58_decode_check(PrivateKey(s, c, coin=BitcoinTestnet).to_WIF())', abstract='base58')
def wif_default(s: Bytes[32], c: Bool):
    secret_ok(s)
    return b'\xef' + s + (b'\x01' if c else b'')


@ob('C17', 'k.to_WIF(compressed=f, coin=BitcoinTestnet)', abstract='base58')
def wif_explicit(k: PrivateKey, f: Opt[Bool]):
    c = k.is_compressed() if f is None else f
    return base58_encode_check(b'\xef' + k.to_bytes() + (b'\x01' if c else b''))


@ob('C17', 'k.to_WIF()', abstract='base58')
def wif_plain(k: PrivateKey):
    return base58_encode_check(b'\x80' + k.to_bytes() + (b'\x01' if k.is_compressed() else b''))


def from_wif(raw):
    if len(raw) == 33:
        c = False
    elif len(raw) == 34 and raw[33] == 1:
        c = True
    else:
        raise ValueError
    if raw[0] == 0x80:
        coin = Bitcoin
    elif raw[0] == 0xef:
        coin = BitcoinTestnet
    else:
        raise ValueError
    return priv(secret_ok(raw[1:33]), c, coin)


@ob('C17 C13', 'PrivateKey.from_WIF(base58_encode_check(raw))', abstract='base58')
def wif_decode(raw: Bytes):
    return from_wif(raw)


@ob('C17', 'PrivateKey.from_WIF(t)', abstract='base58')
def wif_decode_text(t: Str):
    return from_wif(base58_decode_check(t))


@ob('C17', 'PrivateKey.from_text(base58_encode_check(raw))', pre='len(base58_encode_check(raw)) > 45 and len(base58_encode_check(raw)) < 64', abstract='base58')
def text_wif(raw: Bytes):
    return from_wif(raw)


@ob('C17', 'PrivateKey.from_text(b.hex())', pre='len(b) == 32', abstract='base58')
def text_hex(b: Bytes):
    return priv(secret_ok(b), True)


@ob('C17', 'PrivateKey.from_text(t)', pre='(len(t) == 22 or len(t) == 30) and is_minikey(t)', abstract='base58')
def text_minikey(t: Str):
    return priv(secret_ok(sha(t.encode())), False)


@ob('C17 C13', 'PrivateKey.from_minikey(t)', abstract='base58')
def from_minikey(t: Str):
    from bitcoinx import is_minikey
    if not is_minikey(t):
        raise ValueError
    return priv(secret_ok(sha(t.encode())), False)


# ---- public keys
@ob('C18', 'PublicKey.from_bytes(b)')
def public_from_bytes(b: Bytes):
    return public(parse(b), len(b) == 33)


@ob('C18', 'PublicKey.from_hex(b.hex())')
def public_from_hex(b: Bytes):
    return public(parse(b), len(b) == 33)


@ob('C18', 'PublicKey.from_bytes(b).to_bytes(compressed=f), PublicKey.from_bytes(b).to_hex(compressed=f), '
    'str(PublicKey.from_bytes(b))')
def public_to_bytes(b: Bytes, f: Opt[Bool]):
    p = parse(b)
    c = len(b) == 33
    r = ser(p, c if f is None else f)
    return r, r.hex(), ser(p, c).hex()


@ob('C18', 'PublicKey.from_bytes(b).hash160(compressed=f)')
def public_hash160(b: Bytes, f: Opt[Bool]):
    return h160(ser(parse(b), len(b) == 33 if f is None else f))


@ob('C18', 'PublicKey.from_bytes(b).to_address(compressed=f, coin=BitcoinTestnet)')
def public_address(b: Bytes, f: Opt[Bool]):
    return expect('P2PKH_Address', call_hash160=h160(ser(parse(b), len(b) == 33 if f is None else f)),
                  call_coin=BitcoinTestnet)


@ob('C18', 'PublicKey.from_bytes(b).to_address()')
def public_address_default(b: Bytes):
    return expect('P2PKH_Address', call_hash160=h160(ser(parse(b), len(b) == 33)), call_coin=Bitcoin)


@ob('C18', 'PublicKey.from_bytes(b).to_point()')
def public_to_point(b: Bytes):
    r = nat_ser(parse(b), 65)
    return int.from_bytes(r[1:33], 'big'), int.from_bytes(r[33:], 'big')


@ob('C18', 'PublicKey.from_point(x, y)')
def public_from_point(x: Int, y: Int):
    if x < 0 or x >= 1 << 256 or y < 0 or y >= 1 << 256:
        raise OverflowError
    return public(parse(b'\x04' + x.to_bytes(32, 'big') + y.to_bytes(32, 'big')), False)


@ob('C18', 'PublicKey.from_bytes(b).P2PK_script()')
def p2pk_script(b: Bytes):
    c = len(b) == 33
    return expect('Script', bytes_=(b'\x21' if c else b'\x41') + ser(parse(b), c) + b'\xac')


@ob('C18', 'PublicKey.from_bytes(b).P2PKH_script()')
def p2pkh_script(b: Bytes):
    return expect('Script', bytes_=b'\x76\xa9\x14' + h160(ser(parse(b), len(b) == 33)) + b'\x88\xac')


# ---- signing
def digest32(m, hasher):
    h = hasher(m) if hasher is not None else m
    if len(h) != 32:
        raise ValueError
    return h


def sig_der(h, secret):
    if not nat('ecdsa_sign', h, secret):
        raise ValueError
    return nat_bytes('ecdsa_signature_serialize_der', 'der', nat_struct('ecdsa_sign', 0, h, secret, ty=SIG))


def sig_rec(h, secret):
    if not nat('ecdsa_sign_recoverable', h, secret):
        raise ValueError
    r = nat_struct('ecdsa_sign_recoverable', 0, h, secret, ty=RSIG)
    return (nat_bytes('ecdsa_recoverable_signature_serialize_compact', 0, r, n=64)
            + bytes([nat_int('ecdsa_recoverable_signature_serialize_compact', 1, r)]))


def varint(n):
    if n < 0xfd:
        return bytes([n])
    if n < 0x10000:
        return b'\xfd' + n.to_bytes(2, 'little')
    if n < 0x100000000:
        return b'\xfe' + n.to_bytes(4, 'little')
    return b'\xff' + n.to_bytes(8, 'little')


def signed_text(m):
    if isinstance(m, str):
        m = m.encode()
    return b'\x18Bitcoin Signed Message:\n' + varint(len(m)) + m


@ob('C19', 'k.sign(m)')
def sign(k: PrivateKey, m: Bytes):
    return sig_der(sha(m), k.to_bytes())


@ob('C19', 'k.sign(m, hasher=None)')
def sign_hash(k: PrivateKey, m: Bytes):
    return sig_der(digest32(m, None), k.to_bytes())


@ob('C19', 'k.sign(m, h)')
def sign_hasher(k: PrivateKey, m: Bytes, h: Fn[Bytes]):
    return sig_der(digest32(m, h), k.to_bytes())


@ob('C19 C30', 'k.sign_recoverable(m)')
def sign_recoverable(k: PrivateKey, m: Bytes):
    return sig_rec(sha(m), k.to_bytes())


@ob('C19', 'k.sign_recoverable(m, None)')
def sign_recoverable_hash(k: PrivateKey, m: Bytes):
    return sig_rec(digest32(m, None), k.to_bytes())


def msg_sig(k, m, hasher):
    r = sig_rec(digest32(signed_text(m), hasher), k.to_bytes())
    return bytes([27 + r[64] + (4 if k.is_compressed() else 0)]) + r[:64]


@ob('C19 C30', 'k.sign_message(m)')
def sign_message(k: PrivateKey, m: Union[Bytes, Str]):
    return msg_sig(k, m, dsha)


@ob('C19', 'k.sign_message(m, h)')
def sign_message_hasher(k: PrivateKey, m: Bytes, h: Fn[Bytes]):
    return msg_sig(k, m, h)


@ob('C19', 'k.sign_message(m, None)')
def sign_message_none(k: PrivateKey, m: Bytes):
    raise ValueError


@ob('C19', 'k.sign_message_to_base64(m)')
def sign_message_b64(k: PrivateKey, m: Bytes):
    return base64.b64encode(msg_sig(k, m, dsha)).decode()


@ob('C19', 'k.sign_message_to_base64(m, h)')
def sign_message_b64_hasher(k: PrivateKey, m: Bytes, h: Fn[Bytes]):
    return base64.b64encode(msg_sig(k, m, h)).decode()


@ob('C19', 'k.sign_recoverable(m, h)')
def sign_recoverable_hasher(k: PrivateKey, m: Bytes, h: Fn[Bytes]):
    return sig_rec(digest32(m, h), k.to_bytes())


# ---- verifying
def rec_parse(s):
    if not isinstance(s, bytes) or len(s) != 65 or s[64] > 3:
        raise InvalidSignatureError
    if not nat('ecdsa_recoverable_signature_parse_compact', s[:64], s[64]):
        raise InvalidSignatureError
    return nat_struct('ecdsa_recoverable_signature_parse_compact', 0, s[:64], s[64], ty=RSIG)


def rec_verify(s, h, p):
    r = rec_parse(s)
    sig = nat_struct('ecdsa_recoverable_signature_convert', 0, r, ty=SIG)
    return nat('ecdsa_verify', sig, h, p) == 1


def rec_key(s, h):
    r = rec_parse(s)
    if not nat('ecdsa_recover', r, h):
        raise InvalidSignatureError
    return nat_struct('ecdsa_recover', 0, r, h, ty=PK)


@ob('C19', 'PublicKey.from_bytes(a).verify_der_signature(s, m)')
def verify_der(a: Bytes, s: Bytes, m: Bytes):
    p = parse(a)
    if not nat('ecdsa_signature_parse_der', s):
        raise InvalidSignatureError
    return nat('ecdsa_verify', nat_struct('ecdsa_signature_parse_der', 0, s, ty=SIG), sha(m), p) == 1


@ob('C19', 'PublicKey.from_bytes(a).verify_der_signature(s, m, None)')
def verify_der_hash(a: Bytes, s: Bytes, m: Bytes):
    p = parse(a)
    digest32(m, None)
    if not nat('ecdsa_signature_parse_der', s):
        raise InvalidSignatureError
    return nat('ecdsa_verify', nat_struct('ecdsa_signature_parse_der', 0, s, ty=SIG), m, p) == 1


@ob('C19 C30', 'PublicKey.from_bytes(a).verify_recoverable_signature(s, m)')
def verify_recoverable(a: Bytes, s: Bytes, m: Bytes):
    p = parse(a)
    return rec_verify(s, sha(m), p)


@ob('C19 C30', 'PublicKey.from_recoverable_signature(s, m)')
def recover(s: Bytes, m: Bytes):
    return public(rec_key(s, sha(m)), True)


@ob('C19', 'PublicKey.from_recoverable_signature(s, m, None)')
def recover_hash(s: Bytes, m: Bytes):
    digest32(m, None)
    return public(rec_key(s, m), True)


def unpack_msg_sig(s):
    if len(s) != 65 or not 27 <= s[0] < 35:
        raise InvalidSignatureError
    return s[1:] + bytes([(s[0] - 27) % 4])


@ob('C19 C30', 'PublicKey.from_signed_message(s, m)')
def from_signed_message(s: Bytes, m: Union[Bytes, Str]):
    h = dsha(signed_text(m))
    return public(rec_key(unpack_msg_sig(s), h), True)


@ob('C19', 'PublicKey.from_signed_message(b64encode(s).decode(), m)', mod='bitcoinx.keys')
def from_signed_message_b64(s: Bytes, m: Bytes):
    h = dsha(signed_text(m))
    return public(rec_key(unpack_msg_sig(s), h), True)


@ob('C19', 'PublicKey.from_signed_message(s, m, None)')
def from_signed_message_none(s: Bytes, m: Bytes):
    raise ValueError


@ob('C19', 'PublicKey.from_bytes(a).verify_message(s, m)')
def verify_message(a: Bytes, s: Bytes, m: Union[Bytes, Str]):
    p = parse(a)
    h = dsha(signed_text(m))
    return rec_verify(unpack_msg_sig(s), h, p)


@ob('C19', 'PublicKey.from_bytes(a).verify_der_signature(s, m, h)')
def verify_der_hasher(a: Bytes, s: Bytes, m: Bytes, h: Fn[Bytes]):
    p = parse(a)
    d = digest32(m, h)
    if not nat('ecdsa_signature_parse_der', s):
        raise InvalidSignatureError
    return nat('ecdsa_verify', nat_struct('ecdsa_signature_parse_der', 0, s, ty=SIG), d, p) == 1


@ob('C19', 'PublicKey.from_bytes(a).verify_recoverable_signature(s, m, h)')
def verify_recoverable_hasher(a: Bytes, s: Bytes, m: Bytes, h: Fn[Bytes]):
    p = parse(a)
    return rec_verify(s, digest32(m, h), p)


@ob('C19', 'PublicKey.from_recoverable_signature(s, m, h)')
def recover_hasher(s: Bytes, m: Bytes, h: Fn[Bytes]):
    d = digest32(m, h)
    return public(rec_key(s, d), True)


@ob('C19', 'PublicKey.from_signed_message(s, m, h)')
def from_signed_message_hasher(s: Bytes, m: Bytes, h: Fn[Bytes]):
    r = unpack_msg_sig(s)
    return public(rec_key(r, digest32(signed_text(m), h)), True)


@ob('C19', 'PublicKey.from_bytes(a).verify_message(s, m, h)')
def verify_message_hasher(a: Bytes, s: Bytes, m: Bytes, h: Fn[Bytes]):
    p = parse(a)
    r = unpack_msg_sig(s)
    return rec_verify(r, digest32(signed_text(m), h), p)


@ob('C19', 'PublicKey.verify_message_and_address(s, m, P2PKH_Address(d, Bitcoin), hasher=h)')
def verify_and_address_hasher(s: Bytes, m: Bytes, d: Bytes[20], h: Fn[Bytes]):
    try:
        r = unpack_msg_sig(s)
        g = digest32(signed_text(m), h)
        p = rec_key(r, g)
    except InvalidSignatureError:
        return False
    return rec_verify(r, g, p) and (h160(nat_ser(p, 33)) == d or h160(nat_ser(p, 65)) == d)


@ob('C19 C30', 'PublicKey.from_bytes(a).verify_message(bytearray(s), m)')
def verify_message_bytearray(a: Bytes, s: Bytes, m: Bytes):
    parse(a)
    raise InvalidSignatureError


@ob('C19', 'PublicKey.from_bytes(a).verify_message(s, m, None)')
def verify_message_none(a: Bytes, s: Bytes, m: Bytes):
    parse(a)
    raise ValueError


@ob('C19 C41', 'PublicKey.from_bytes(a).verify_message(s, m)')
def verify_message_text_sig(a: Bytes, s: Str, m: Bytes):
    parse(a)
    return only(InvalidSignatureError)


@ob('C19', 'PublicKey.verify_message_and_address(s, m, P2PKH_Address(h, Bitcoin))')
def verify_and_address(s: Bytes, m: Bytes, h: Bytes[20]):
    g = dsha(signed_text(m))
    try:
        r = unpack_msg_sig(s)
        p = rec_key(r, g)
    except InvalidSignatureError:
        return False
    return rec_verify(r, g, p) and (h160(nat_ser(p, 33)) == h or h160(nat_ser(p, 65)) == h)


@ob('C19', 'PublicKey.verify_message_and_address(s, m, base58_encode_check(raw))', abstract='base58')
def verify_and_address_text(s: Bytes, m: Bytes, raw: Bytes[21]):
    g = dsha(signed_text(m))
    h = raw[1:]
    try:
        r = unpack_msg_sig(s)
        p = rec_key(r, g)
    except InvalidSignatureError:
        return False
    return rec_verify(r, g, p) and (h160(nat_ser(p, 33)) == h or h160(nat_ser(p, 65)) == h)


# ---- shared secrets and ECIES
def tweak_mul(p, b):
    if not nat('ec_pubkey_tweak_mul', p, b):
        raise ValueError
    return nat_struct('ec_pubkey_tweak_mul', 0, p, b, ty=PK)


@ob('C20', 'k.ecdh_shared_secret(PublicKey.from_bytes(a))')
def ecdh(k: PrivateKey, a: Bytes):
    return public(tweak_mul(parse(a), k.to_bytes()), len(a) == 33)


@ob('C20', 'k.shared_secret(PublicKey.from_bytes(a), m)')
def shared_secret(k: PrivateKey, a: Bytes, m: Bytes):
    p = parse(a)
    d = sha(m)
    if not nat('ec_privkey_tweak_add', k.to_bytes(), d):
        raise ValueError
    if not nat('ec_pubkey_tweak_add', p, d):
        raise ValueError
    return public(tweak_mul(nat_struct('ec_pubkey_tweak_add', 0, p, d, ty=PK),
                            nat_bytes('ec_privkey_tweak_add', 0, k.to_bytes(), d, n=32)), len(a) == 33)


@ob('C20', 'k.shared_secret(PublicKey.from_bytes(a), m, h)')
def shared_secret_hasher(k: PrivateKey, a: Bytes, m: Bytes, h: Fn[Bytes]):
    return shared_by(k, a, digest32(m, h))


@ob('C20', 'k.shared_secret(PublicKey.from_bytes(a), m, None)')
def shared_secret_direct(k: PrivateKey, a: Bytes, m: Bytes):
    return shared_by(k, a, digest32(m, None))


def shared_by(k, a, d):
    p = parse(a)
    if not nat('ec_privkey_tweak_add', k.to_bytes(), d):
        raise ValueError
    if not nat('ec_pubkey_tweak_add', p, d):
        raise ValueError
    return public(tweak_mul(nat_struct('ec_pubkey_tweak_add', 0, p, d, ty=PK),
                            nat_bytes('ec_privkey_tweak_add', 0, k.to_bytes(), d, n=32)), len(a) == 33)


def keys_of(shared):
    k = hashlib.sha512(nat_ser(shared, 33)).digest()
    return k[:16], k[16:32], k[32:]


def pad(m):
    n = 16 - len(m) % 16
    return m + bytes([n]) * n


def mac(k, m):
    return hmac.new(k, m, hashlib.sha256).digest()


@ob('C20 C22', 'PublicKey.from_bytes(a).encrypt_message(m)', K=3)
def encrypt(a: Bytes, m: Union[Bytes, Str]):
    return ecies(a, m, b'BIE1')


@ob('C20 C22', 'PublicKey.from_bytes(a).encrypt_message(m, g)', K=3)
def encrypt_magic(a: Bytes, m: Bytes, g: Bytes):
    return ecies(a, m, g)


@ob('C20', 'PublicKey.from_bytes(a).encrypt_message_to_base64(m, g)', K=3)
def encrypt_b64_magic(a: Bytes, m: Union[Bytes, Str], g: Bytes):
    return base64.b64encode(ecies(a, m, g)).decode()


@ob('C20 C22', 'PublicKey.from_bytes(a).encrypt_message_to_base64(m)', K=3)
def encrypt_b64(a: Bytes, m: Bytes):
    return base64.b64encode(ecies(a, m, b'BIE1')).decode()


def ecies(a, m, magic):
    p = parse(a)
    if isinstance(m, str):
        m = m.encode()
    while True:
        e = urandom(32)
        if nat('ec_seckey_verify', e):
            break
    iv, ke, km = keys_of(tweak_mul(p, e))
    r = magic + nat_ser(pub(e), 33) + aes('encrypt', ke, iv, pad(m))
    return r + mac(km, r)


def unpad(d):
    if len(d) == 0 or len(d) % 16 != 0:
        raise DecryptionError
    n = d[len(d) - 1]
    if n < 1 or n > 16 or d[len(d) - n:] != bytes([n]) * n:
        raise DecryptionError
    return d[:len(d) - n]


def decies(k, m, magic):
    g = len(magic)
    if len(m) < g + 81 or m[:g] != magic:
        raise DecryptionError
    if not nat('ec_pubkey_parse', m[g:g + 33]):
        raise DecryptionError
    iv, ke, km = keys_of(tweak_mul(nat_struct('ec_pubkey_parse', 0, m[g:g + 33], ty=PK), k.to_bytes()))
    if mac(km, m[:len(m) - 32]) != m[len(m) - 32:]:
        raise DecryptionError
    c = m[g + 33:len(m) - 32]
    if len(c) % 16 != 0:
        raise DecryptionError
    return unpad(aes('decrypt', ke, iv, c))


@ob('C20', 'k.decrypt_message(m)', limit=6000)
def decrypt(k: PrivateKey, m: Bytes):
    assume(nat('ec_pubkey_tweak_mul', nat_struct('ec_pubkey_parse', 0, m[4:37], ty=PK), k.to_bytes()) == 1)
    return decies(k, m, b'BIE1')


@ob('C20', 'k.decrypt_message(m, g)', limit=6000)
def decrypt_magic(k: PrivateKey, m: Bytes, g: Bytes):
    assume(nat('ec_pubkey_tweak_mul', nat_struct('ec_pubkey_parse', 0, m[len(g):len(g) + 33], ty=PK), k.to_bytes()) == 1)
    return decies(k, m, g)


@ob('C20 C41', 'k.decrypt_message(m)', limit=6000)
def decrypt_text(k: PrivateKey, m: Str):
    try:
        b = base64.b64decode(m, validate=True)
    except ValueError:
        raise DecryptionError
    assume(nat('ec_pubkey_tweak_mul', nat_struct('ec_pubkey_parse', 0, b[4:37], ty=PK), k.to_bytes()) == 1)
    return only(DecryptionError)


# ---- randomness
@ob('C22', 'PrivateKey.from_random()', K=4)
def from_random():
    while True:
        s = urandom(32)
        if nat('ec_seckey_verify', s):
            return priv(s, True)


# ---- secrets are not disclosed
@ob('C21', 'str(k)', secret='k.secret')
def private_str(k: PrivateKey):
    return sha(k.to_bytes()).hex()


@ob('C21', 'repr(k)', secret='k.secret')
def private_repr(k: PrivateKey):
    return anything


@ob('C21', 'f"{k}", "%s" % k, "{}".format(k), f"{k!r}"', secret='k.secret')
def private_format(k: PrivateKey):
    return anything


@ob('C21', 'k.add(b), k.multiply(b)', secret='k.secret', effects=False)
def private_arith_errors(k: PrivateKey, b: Bytes):
    if len(b) != 32 or not nat('ec_privkey_tweak_add', k.to_bytes(), b) or not nat('ec_privkey_tweak_mul', k.to_bytes(), b):
        raise ValueError
    assume(False)


@ob('C21', 'PrivateKey(s)', secret='s')
def private_ctor_errors(s: Bytes):
    secret_ok(s)
    assume(False)


@ob('C21', 'k.decrypt_message(m)', secret='k.secret', limit=6000)
def decrypt_errors(k: PrivateKey, m: Union[Bytes, Str]):
    return anything


def told(f):
    """what the exception says, if there is one"""
    try:
        f()
    except Exception as e:
        c = e.__cause__
        return e.args, None if c is None else c.args


M = 'specs.c13_keys'


@ob('C21', 'told(lambda: PrivateKey.from_WIF(base58_encode_check(p + s + t))), told(lambda: PrivateKey.from_text(base58_encode_check(p + s + t)))',
    mod=M, secret='s', abstract='base58')
def wif_errors(p: Bytes[1], s: Bytes[32], t: Bytes):
    return anything


@ob('C21', 'told(lambda: base58_decode_check(w))', mod=M, secret='w', abstract='base58')
def checksum_errors(w: Str):
    return anything


@ob('C21', 'told(lambda: PrivateKey.from_hex(h)), told(lambda: PrivateKey.from_text(h))', mod=M, secret='h', abstract='base58')
def hex_errors(h: Str[64]):
    return anything


@ob('C21', 'told(lambda: PrivateKey.from_hex(s.hex())), told(lambda: PrivateKey.from_arbitrary_bytes(s)), told(lambda: PrivateKey(s))', mod=M, secret='s')
def bytes_errors(s: Bytes):
    return anything


@ob('C21', 'told(lambda: PrivateKey.from_int(n)), told(lambda: PrivateKey(n))', mod=M, secret='n')
def int_errors(n: Int):
    return anything


@ob('C21', 'told(lambda: PrivateKey.from_minikey(m))', mod=M, secret='m')
def minikey_errors(m: Str):
    return anything


@ob('C21', 'told(lambda: k.sign(b, None)), told(lambda: k.sign_recoverable(b, None)), told(lambda: k.sign_message(b, None)), told(lambda: k.to_WIF(coin=Bitcoin)), '
           'told(lambda: k.public_key)', mod=M, secret='k.secret', effects=False)
def signing_errors(k: PrivateKey, b: Bytes):
    return anything


@ob('C21', 'told(lambda: k.shared_secret(PublicKey.from_bytes(a), b, None))', mod=M, secret='k.secret', effects=False)
def shared_errors(k: PrivateKey, b: Bytes, a: Bytes):
    return anything


@ob('C21', 'told(lambda: k.ecdh_shared_secret(PublicKey.from_bytes(a)))', mod=M, secret='k.secret', effects=False)
def ecdh_errors(k: PrivateKey, a: Bytes):
    return anything
