"""Reference: SigHash and Signature value objects, DER / compact / message signature encodings."""
import base64
import binascii
from vt import ob, expect, nat, nat_struct, nat_bytes, nat_int, AnyError
from bitcoinx import Signature, SigHash, InvalidSignatureError


class shape_Signature:
    how = 'ctor'
    raw: Bytes


def der_compact(der):
    """what libsecp256k1 makes of a DER signature, or InvalidSignatureError"""
    if not nat('ecdsa_signature_parse_der', der):
        raise InvalidSignatureError
    sig = nat_struct('ecdsa_signature_parse_der', 0, der, ty='secp256k1_ecdsa_signature')
    return nat_bytes('ecdsa_signature_serialize_compact', 0, sig, n=64)


MISSING = b'\xff'


# ---- SigHash
@ob('C30', 'SigHash(v).base')
def sighash_base(v: Range[0, 255]):
    return v % 32


@ob('C30', 'SigHash(v).anyone_can_pay')
def sighash_acp(v: Range[0, 255]):
    return v >= 128


@ob('C30', '(SigHash.ALL, SigHash.NONE, SigHash.SINGLE, SigHash.FORKID, SigHash.ANYONE_CAN_PAY)')
def sighash_constants():
    return (1, 2, 3, 64, 128)


@ob('C30', '[(isinstance(x, SigHash), x.base, x.anyone_can_pay, x.to_string()) for x in (SigHash.ALL, SigHash.NONE, SigHash.SINGLE, SigHash.FORKID, SigHash.ANYONE_CAN_PAY)]')
def sighash_constants_decode():
    return [(True, 1, False, 'ALL'), (True, 2, False, 'NONE'), (True, 3, False, 'SINGLE'), (True, 0, False, 'FORKID'), (True, 0, True, 'ANYONE_CAN_PAY')]


@ob('C30', 'SigHash(v).to_string()')
def sighash_to_string(v: Range[0, 255]):
    return text_of(v)


def text_of(v):
    s = []
    k = v % 4
    if k == 1:
        s = s + ['ALL']
    if k == 2:
        s = s + ['NONE']
    if k == 3:
        s = s + ['SINGLE']
    if v >= 128:
        s = s + ['ANYONE_CAN_PAY']
    if v // 64 % 2 == 1:
        s = s + ['FORKID']
    r = v % 64 - k
    if r:
        s = s + [f'0x{r:02x}']
    return '|'.join(s)


# ---- encodings
@ob('C19 C30', 'der_signature_to_compact(b)')
def der_to_compact(b: Bytes):
    return der_compact(b)


@ob('C19 C30', 'compact_signature_to_der(b)')
def compact_to_der(b: Bytes):
    if len(b) != 64:
        raise InvalidSignatureError
    if not nat('ecdsa_signature_parse_compact', b):
        raise InvalidSignatureError
    sig = nat_struct('ecdsa_signature_parse_compact', 0, b, ty='secp256k1_ecdsa_signature')
    return nat_bytes('ecdsa_signature_serialize_der', 'der', sig)


@ob('C19 C30', 'compact_signature_to_der(b)')
def compact_type(b: Union[Str, Int, None]):
    raise InvalidSignatureError


# ---- Signature objects
@ob('C30', 'Signature(b)')
def signature_ctor(b: Bytes):
    if b != MISSING:
        der_compact(b[:-1])
    return expect('Signature', bytes_=b, call_to_bytes=b)


@ob('C30', 'Signature.from_hex(b.hex())')
def signature_from_hex(b: Bytes):
    if b != MISSING:
        der_compact(b[:-1])
    return expect('Signature', bytes_=b, call_to_hex=b.hex())


@ob('C30', 'Signature.from_der_sig(b, v)')
def signature_from_der(b: Bytes, v: Range[0, 255]):
    if len(b):
        der_compact(b)
    elif v != 255:
        der_compact(b)
    return expect('Signature', bytes_=b + bytes([v]))


@ob('C30', 's.is_present()')
def is_present(s: Signature):
    return bytes(s) != MISSING


@ob('C30', 's.der_signature')
def der_signature(s: Signature):
    b = bytes(s)
    if b == MISSING:
        raise InvalidSignatureError
    return b[:-1]


@ob('C30', 's.sighash')
def sighash(s: Signature):
    b = bytes(s)
    if b == MISSING:
        raise InvalidSignatureError
    return expect('SigHash', __int__=anything) if False else b[-1]


@ob('C30', '(s.to_compact(), s.r_value(), s.s_value())')
def rs_values(s: Signature):
    b = bytes(s)
    if b == MISSING:
        raise InvalidSignatureError
    c = der_compact(b[:-1])
    return c, int.from_bytes(c[:32], 'big'), int.from_bytes(c[32:], 'big')


@ob('C30', 's.to_string()', pre='len(bytes(s)) >= 1 and bytes(s)[-1] == 0x41')
def signature_to_string(s: Signature):
    return bytes(s)[:-1].hex() + '[ALL|FORKID]'


@ob('C15', '(s == t, s != t or hash(s) == hash(t), hash(s) == hash(bytes(s)))')
def signature_eq(s: Signature, t: Signature):
    e = bytes(s) == bytes(t)
    return e, True, True


@ob('C15', '(s == b, s == bytearray(b), s == memoryview(b))')
def signature_eq_bytes(s: Signature, b: Bytes):
    e = bytes(s) == b
    return e, e, e


@ob('C15', 's == b')
def signature_eq_other(s: Signature, b: Union[Int, Str, None]):
    return False


@ob('C30', '(Signature.MISSING.is_present(), bytes(Signature.MISSING))')
def signature_missing():
    return False, MISSING


# ---- message signatures (internal representation helpers are reached through keys)


@ob('C30', '(isinstance(s.sighash, SigHash), s.sighash.base, s.sighash.anyone_can_pay)')
def sighash_decodes(s: Signature):
    b = bytes(s)
    if b == MISSING:
        raise InvalidSignatureError
    return True, b[-1] % 32, b[-1] >= 128


@ob('C30', 's.to_string()', pre='len(bytes(s)) >= 1')
def signature_to_string_any(s: Signature):
    b = bytes(s)
    return b[:-1].hex() + '[' + text_of(b[-1]) + ']'


@ob('C30', 'Signature.from_der_sig(b, v)', pre='not 0 <= v <= 255')
def signature_bad_sighash(b: Bytes, v: Int):
    raise AnyError
