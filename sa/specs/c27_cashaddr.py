"""Reference: cashaddr addresses."""
from vt import ob, only
from bitcoinx.address import cashaddr

CHARSET = 'qpzry9x8gf2tvdw0s3jn54khce6mua7l'
GENERATORS = (0x98f2bc8e61, 0x79b76d99e2, 0xf33e5fb3c4, 0xae2eabe2a8, 0x1e4f43e470)


def polymod(values):
    c = 1
    for v in values:
        top = c >> 35
        c = ((c & 0x07ffffffff) << 5) ^ v
        for k, g in enumerate(GENERATORS):
            if (top >> k) & 1:
                c ^= g
    return c ^ 1


def split(s):
    if not s.isascii():
        raise ValueError
    low = s.lower()
    if low != s and s.upper() != s:
        raise ValueError
    if ':' not in low:
        raise ValueError
    prefix, payload = low.split(':', 1)
    if len(prefix) == 0:
        raise ValueError
    for c in prefix:
        if ord(c) < 33 or ord(c) > 126:
            raise ValueError
    if len(payload) < 9 or len(payload) > 124:
        raise ValueError
    for c in payload:
        if CHARSET.find(c) < 0:
            raise ValueError
    data = bytes([CHARSET.find(c) for c in payload])
    if polymod(bytes([ord(c) & 31 for c in prefix]) + b'\0' + data) != 0:
        raise ValueError
    return (prefix if low == s else prefix.upper()), data[:-8]


def regroup(data):
    acc = 0
    bits = 0
    out = bytearray()
    for v in data:
        acc = (acc * 32 | v) % 4096
        bits += 5
        while bits >= 8:
            bits -= 8
            out.append(acc >> bits & 255)
    return bytes(out)


def decode(s):
    prefix, data = split(s)
    extra = len(data) * 5 % 8
    if extra >= 5:
        raise ValueError
    if data[-1] & ((1 << extra) - 1):
        raise ValueError
    b = regroup(data)
    v = b[0]
    size = (20 + 4 * (v & 3)) * (2 if v & 4 else 1)
    if len(b) - 1 != size:
        raise ValueError
    if v >> 3 not in (0, 1):
        raise ValueError
    return prefix, v >> 3, b[1:]


@ob('C27', 'cashaddr.decode(s)', mod='bitcoinx.address', seeds='cashaddr')
def cashaddr_decode(s: Str):
    return decode(s)


@ob('C27', 'cashaddr.decode(s)', mod='bitcoinx.address')
def cashaddr_type(s: Union[Bytes, Int, None]):
    raise TypeError


GOOD = 'bitcoincash:qpm2qsznhks23z7629mms6s4cwef74vcwvy22gdx6a'
EDGES = (GOOD, GOOD.upper(), GOOD[:-1] + 'A', GOOD.upper().replace('K', '\u212a'), GOOD.replace('s', '\u017f'), GOOD[12:],
         GOOD.replace(':', ''), ':' + GOOD[12:], GOOD + 'q', GOOD[:-1], GOOD.replace(':', '::'), 'bchtest' + GOOD[11:],
         'Bitcoincash' + GOOD[11:], GOOD.replace('q', 'b', 1), GOOD + ' ', ' ' + GOOD, '', ':')


def read(s):
    try:
        return cashaddr.decode(s)
    except ValueError:
        return 'ValueError'


def wanted(s):
    try:
        return decode(s)
    except ValueError:
        return 'ValueError'


@ob('C27', '[read(s) for s in EDGES]', mod='specs.c27_cashaddr', limit=4000)
def cashaddr_edges():
    return [wanted(s) for s in EDGES]
