"""Reference: integer and variable-length encodings (Bitcoin wire format)."""
from struct import error as struct_error
from vt import ob, expect, AnyError


def le(v, n):
    return v.to_bytes(n, 'little')


@ob('C01', 'pack_varint(n)')
def pack_varint(n: Int):
    if n < 0 or n >= 1 << 64:
        raise AnyError
    if n < 0xfd:
        return le(n, 1)
    if n < 0x10000:
        return b'\xfd' + le(n, 2)
    if n < 0x100000000:
        return b'\xfe' + le(n, 4)
    return b'\xff' + le(n, 8)


@ob('C01', 'pack_varbytes(b)')
def pack_varbytes(b: Bytes):
    return pack_varint(len(b)) + b


@ob('C01', 'varint_len(n)')
def varint_len(n: UInt[64]):
    if n < 0xfd:
        return 1
    if n < 0x10000:
        return 3
    if n < 0x100000000:
        return 5
    return 9


def take(s, n):
    r = s.read(n)
    if len(r) != n:
        raise struct_error
    return r


@ob('C01 C04', 'read_varint(s.read)')
def read_varint(s: Stream):
    n = take(s, 1)[0]
    if n < 0xfd:
        return n
    w = 2 if n == 0xfd else 4 if n == 0xfe else 8
    return int.from_bytes(take(s, w), 'little')


@ob('C01 C04', 'read_varbytes(s.read)')
def read_varbytes(s: Stream):
    return take(s, read_varint(s))


@ob('C01', 'pack_list(xs, pack_varbytes)')
def pack_list(xs: List[Bytes]):
    return pack_varint(len(xs)) + b''.join([pack_varbytes(x) for x in xs])


@ob('C01 C04', 'read_list(s.read, read_varbytes)')
def read_list(s: Stream):
    n = read_varint(s)
    return [read_varbytes(s) for i in range(n)]
