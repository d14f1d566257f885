"""Reference: base 58, base58check and mini keys."""
import hashlib
from vt import ob, only
from bitcoinx import Base58Error

CHARS = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
DIGIT = {c: n for n, c in enumerate(CHARS)}


def dsha(b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


def ones(s):
    return len(s) - len(s.lstrip('1'))


def zeros(b):
    return len(b) - len(b.lstrip(b'\0'))


def decode(s):
    if not s:
        raise Base58Error
    for c in s:
        if c not in DIGIT:
            raise Base58Error
    n = 0
    for c in s:
        n = n * 58 + DIGIT[c]
    return bytes(ones(s)) + n.to_bytes((n.bit_length() + 7) // 8, 'big')


def encode(b):
    n = int.from_bytes(b, 'big')
    digits = ''
    while n:
        digits = CHARS[n % 58] + digits
        n = n // 58
    return '1' * zeros(b) + digits


def decode_check(s):
    b = decode(s)
    p = b[:-4]
    if b[-4:] != dsha(p)[:4]:
        raise Base58Error
    return p


@ob('C26 C17 C24', 'base58_decode(s)', seeds='base58')
def base58_decode(s: Str):
    return decode(s)


@ob('C26 C17 C24', 'base58_decode(s)', seeds='base58')
def base58_decode_type(s: Union[Bytes, Int, None]):
    raise TypeError


@ob('C26 C17 C24', 'base58_encode(b)')
def base58_encode(b: Bytes):
    return encode(b)


@ob('C26 C17 C24', 'base58_decode_check(s)', seeds='base58')
def base58_decode_check(s: Str):
    return decode_check(s)


@ob('C26 C17 C24', 'base58_encode_check(b)')
def base58_encode_check(b: Bytes):
    return encode(b + dsha(b)[:4])


@ob('C26', 'is_minikey(s)')
def is_minikey(s: Str):
    return (len(s) in (22, 30) and s[0] == 'S' and all(c in DIGIT for c in s)
            and hashlib.sha256((s + '?').encode()).digest()[0] == 0)


# the inverse laws on top of the codec
@ob('C26 C17 C24', 'base58_decode_check(base58_encode_check(b))', abstract='base58')
def check_round_trip(b: Bytes):
    return b


@ob('C26 C17 C24 C41', 'base58_decode_check(s)', abstract='base58')
def check_only_error(s: Str):
    return only(Base58Error)
