"""Reference: fixed-width integer codecs, hash display forms, integer/bytes conversions."""
from struct import error as struct_error
from vt import ob, AnyError


def take(s, n):
    r = s.read(n)
    if len(r) != n:
        raise struct_error
    return r


@ob('C02', 'pack_le_uint16(v)')
def pack_le_uint16(v: Int):
    if not 0 <= v <= 65535:
        raise AnyError
    return v.to_bytes(2, 'little')


@ob('C02', 'unpack_le_uint16(b)')
def unpack_le_uint16(b: Bytes):
    if len(b) != 2:
        raise AnyError
    return (int.from_bytes(b, 'little'), )


@ob('C02', 'unpack_le_uint16_from(b, k)')
def unpack_le_uint16_from(b: Bytes, k: Nat):
    if len(b) - k < 2:
        raise AnyError
    return (int.from_bytes(b[k:k + 2], 'little'), )


@ob('C02 C04', 'read_le_uint16(s.read)')
def read_le_uint16(s: Stream):
    return int.from_bytes(take(s, 2), 'little')


@ob('C02', 'pack_le_int32(v)')
def pack_le_int32(v: Int):
    if not -2147483648 <= v <= 2147483647:
        raise AnyError
    return v.to_bytes(4, 'little', signed=True)


@ob('C02', 'unpack_le_int32(b)')
def unpack_le_int32(b: Bytes):
    if len(b) != 4:
        raise AnyError
    return (int.from_bytes(b, 'little', signed=True), )


@ob('C02', 'unpack_le_int32_from(b, k)')
def unpack_le_int32_from(b: Bytes, k: Nat):
    if len(b) - k < 4:
        raise AnyError
    return (int.from_bytes(b[k:k + 4], 'little', signed=True), )


@ob('C02 C04', 'read_le_int32(s.read)')
def read_le_int32(s: Stream):
    return int.from_bytes(take(s, 4), 'little', signed=True)


@ob('C02', 'pack_le_uint32(v)')
def pack_le_uint32(v: Int):
    if not 0 <= v <= 4294967295:
        raise AnyError
    return v.to_bytes(4, 'little')


@ob('C02', 'unpack_le_uint32(b)')
def unpack_le_uint32(b: Bytes):
    if len(b) != 4:
        raise AnyError
    return (int.from_bytes(b, 'little'), )


@ob('C02', 'unpack_le_uint32_from(b, k)')
def unpack_le_uint32_from(b: Bytes, k: Nat):
    if len(b) - k < 4:
        raise AnyError
    return (int.from_bytes(b[k:k + 4], 'little'), )


@ob('C02 C04', 'read_le_uint32(s.read)')
def read_le_uint32(s: Stream):
    return int.from_bytes(take(s, 4), 'little')


@ob('C02', 'pack_le_int64(v)')
def pack_le_int64(v: Int):
    if not -9223372036854775808 <= v <= 9223372036854775807:
        raise AnyError
    return v.to_bytes(8, 'little', signed=True)


@ob('C02', 'unpack_le_int64(b)')
def unpack_le_int64(b: Bytes):
    if len(b) != 8:
        raise AnyError
    return (int.from_bytes(b, 'little', signed=True), )


@ob('C02', 'unpack_le_int64_from(b, k)')
def unpack_le_int64_from(b: Bytes, k: Nat):
    if len(b) - k < 8:
        raise AnyError
    return (int.from_bytes(b[k:k + 8], 'little', signed=True), )


@ob('C02 C04', 'read_le_int64(s.read)')
def read_le_int64(s: Stream):
    return int.from_bytes(take(s, 8), 'little', signed=True)


@ob('C02', 'pack_le_uint64(v)')
def pack_le_uint64(v: Int):
    if not 0 <= v <= 18446744073709551615:
        raise AnyError
    return v.to_bytes(8, 'little')


@ob('C02', 'unpack_le_uint64(b)')
def unpack_le_uint64(b: Bytes):
    if len(b) != 8:
        raise AnyError
    return (int.from_bytes(b, 'little'), )


@ob('C02', 'unpack_le_uint64_from(b, k)')
def unpack_le_uint64_from(b: Bytes, k: Nat):
    if len(b) - k < 8:
        raise AnyError
    return (int.from_bytes(b[k:k + 8], 'little'), )


@ob('C02 C04', 'read_le_uint64(s.read)')
def read_le_uint64(s: Stream):
    return int.from_bytes(take(s, 8), 'little')


@ob('C02', 'pack_be_uint16(v)')
def pack_be_uint16(v: Int):
    if not 0 <= v <= 65535:
        raise AnyError
    return v.to_bytes(2, 'big')


@ob('C02', 'unpack_be_uint16(b)')
def unpack_be_uint16(b: Bytes):
    if len(b) != 2:
        raise AnyError
    return (int.from_bytes(b, 'big'), )


@ob('C02', 'unpack_be_uint16_from(b, k)')
def unpack_be_uint16_from(b: Bytes, k: Nat):
    if len(b) - k < 2:
        raise AnyError
    return (int.from_bytes(b[k:k + 2], 'big'), )


@ob('C02 C04', 'read_be_uint16(s.read)')
def read_be_uint16(s: Stream):
    return int.from_bytes(take(s, 2), 'big')


@ob('C02', 'pack_be_uint32(v)')
def pack_be_uint32(v: Int):
    if not 0 <= v <= 4294967295:
        raise AnyError
    return v.to_bytes(4, 'big')


@ob('C02', 'unpack_be_uint32(b)')
def unpack_be_uint32(b: Bytes):
    if len(b) != 4:
        raise AnyError
    return (int.from_bytes(b, 'big'), )


@ob('C02', 'unpack_be_uint32_from(b, k)')
def unpack_be_uint32_from(b: Bytes, k: Nat):
    if len(b) - k < 4:
        raise AnyError
    return (int.from_bytes(b[k:k + 4], 'big'), )


@ob('C02 C04', 'read_be_uint32(s.read)')
def read_be_uint32(s: Stream):
    return int.from_bytes(take(s, 4), 'big')


@ob('C02', 'pack_be_uint64(v)')
def pack_be_uint64(v: Int):
    if not 0 <= v <= 18446744073709551615:
        raise AnyError
    return v.to_bytes(8, 'big')


@ob('C02', 'unpack_be_uint64(b)')
def unpack_be_uint64(b: Bytes):
    if len(b) != 8:
        raise AnyError
    return (int.from_bytes(b, 'big'), )


@ob('C02', 'unpack_be_uint64_from(b, k)')
def unpack_be_uint64_from(b: Bytes, k: Nat):
    if len(b) - k < 8:
        raise AnyError
    return (int.from_bytes(b[k:k + 8], 'big'), )


@ob('C02 C04', 'read_be_uint64(s.read)')
def read_be_uint64(s: Stream):
    return int.from_bytes(take(s, 8), 'big')


@ob('C02', 'pack_byte(v)')
def pack_byte(v: Int):
    if not 0 <= v < 256:
        raise AnyError
    return v.to_bytes(1, 'little')


@ob('C02', 'pack_port(v)')
def pack_port(v: Int):
    if not 0 <= v < 65536:
        raise AnyError
    return v.to_bytes(2, 'big')


@ob('C02', 'unpack_port(b)')
def unpack_port(b: Bytes):
    if len(b) != 2:
        raise AnyError
    return (b[0] * 256 + b[1], )


@ob('C02', 'unpack_byte(b)')
def unpack_byte(b: Bytes):
    if len(b) != 1:
        raise AnyError
    return (b[0], )


@ob('C02', 'unpack_header(b)')
def unpack_header(b: Bytes):
    if len(b) != 80:
        raise AnyError
    return (int.from_bytes(b[:4], 'little', signed=True), b[4:36], b[36:68],
            int.from_bytes(b[68:72], 'little'), int.from_bytes(b[72:76], 'little'),
            int.from_bytes(b[76:], 'little'))


@ob('C02 C09', 'hash_to_hex_str(b)')
def hash_to_hex_str(b: Bytes[32]):
    return b[::-1].hex()


@ob('C02', 'hash_to_value(b)')
def hash_to_value(b: Bytes[32]):
    return int.from_bytes(b, 'little')


@ob('C02 C09', 'hex_str_to_hash(s)')
def hex_str_to_hash(s: Str):
    return bytes.fromhex(s)[::-1]


@ob('C02 C09', 'hex_str_to_hash(hash_to_hex_str(b))')
def hash_display_roundtrip(b: Bytes[32]):
    return b


@ob('C02', 'int_to_be_bytes(v, n)')
def int_to_be_bytes(v: Nat, n: Range[0, 64]):
    return v.to_bytes(n, 'big')


@ob('C02', 'int_to_le_bytes(v, n)')
def int_to_le_bytes(v: Nat, n: Range[0, 64]):
    return v.to_bytes(n, 'little')


@ob('C02', 'be_bytes_to_int(int_to_be_bytes(v))')
def be_roundtrip(v: Nat):
    return v


@ob('C02', 'le_bytes_to_int(int_to_le_bytes(v))')
def le_roundtrip(v: Nat):
    return v


@ob('C02', 'be_bytes_to_int(b)')
def be_bytes_to_int(b: Bytes):
    return int.from_bytes(b, 'big')


@ob('C02', 'le_bytes_to_int(b)')
def le_bytes_to_int(b: Bytes):
    return int.from_bytes(b, 'little')


@ob('C09', 'double_sha256(b)')
def double_sha256(b: Bytes):
    import hashlib
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


@ob('C09', 'hash160(b)')
def hash160(b: Bytes):
    import hashlib
    h = hashlib.new('ripemd160')
    h.update(hashlib.sha256(b).digest())
    return h.digest()


@ob('C09', '(sha1(b), sha256(b), sha512(b))')
def shas(b: Bytes):
    import hashlib
    return (hashlib.sha1(b).digest(), hashlib.sha256(b).digest(), hashlib.sha512(b).digest())


@ob('C09', 'ripemd160(b)')
def ripemd160(b: Bytes):
    import hashlib
    return hashlib.new('ripemd160', b).digest()


@ob('C09', 'hmac_sha512(k, b)')
def hmac_sha512(k: Bytes, b: Bytes):
    import hmac
    return hmac.digest(k, b, 'sha512')


@ob('C09', 'hmac_sha512_halves(k, b)')
def hmac_sha512_halves(k: Bytes, b: Bytes):
    import hmac
    h = hmac.digest(k, b, 'sha512')
    return h[:32], h[32:]
