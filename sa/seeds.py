"""Structured inputs for the separation test.

Random valuations rarely satisfy conditions such as "the checksum is right".  Each generator here
returns values for the parameters of an obligation that satisfy (or narrowly miss) the format the
reference describes.  They only supply valuations of the symbols; what is evaluated are terms."""
import hashlib
import random as random_

B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def sha(b):
    return hashlib.sha256(b).digest()


def b58(b):
    n = int.from_bytes(b, 'big')
    s = ''
    while n:
        n, r = divmod(n, 58)
        s = B58[r] + s
    return '1' * (len(b) - len(b.lstrip(b'\0'))) + s


def b58_decode(s):
    if not s or any(c not in B58 for c in s):
        return None
    n = 0
    for c in s:
        n = n * 58 + B58.index(c)
    return bytes(len(s) - len(s.lstrip('1'))) + n.to_bytes((n.bit_length() + 7) // 8, 'big')


def base58(r):
    k = r.random()
    b = bytes(r.choice((0, 0, 1, 2))) + r.randbytes(r.choice((0, 1, 3, 4, 5, 20, 21, 21, 22, 33, 34, 78)))
    if r.random() < 0.3:
        b = bytes([r.choice((0, 5, 111, 196, 128, 239))]) + r.randbytes(20)
    if k < 0.6:
        b += sha(sha(b))[:4]
    elif k < 0.75:
        c = bytearray(b + sha(sha(b))[:4])
        c[-1 - r.randrange(5) % len(c)] ^= 1 << r.randrange(8)
        b = bytes(c)
    s = b58(b)
    if k > 0.9:
        s = s[:len(s) // 2] + r.choice('0OIl \u00e91z') + s[len(s) // 2:]
    return {'s': s, 'b': b}


CA = 'qpzry9x8gf2tvdw0s3jn54khce6mua7l'


def polymod(values):
    c = 1
    for d in values:
        c0 = c >> 35
        c = ((c & 0x07ffffffff) << 5) ^ d
        for k, g in enumerate((0x98f2bc8e61, 0x79b76d99e2, 0xf33e5fb3c4, 0xae2eabe2a8, 0x1e4f43e470)):
            if c0 >> k & 1:
                c ^= g
    return c ^ 1


def ca_string(prefix, data):
    p = polymod([ord(c) & 31 for c in prefix] + [0] + list(data) + [0] * 8)
    return prefix + ':' + ''.join(CA[d] for d in list(data) + [p >> 5 * (7 - j) & 31 for j in range(8)])


def regroup(b, extra):
    n = int.from_bytes(b, 'big') << -len(b) * 8 % 5
    k = (len(b) * 8 + 4) // 5
    v = [n >> 5 * (k - 1 - j) & 31 for j in range(k)]
    return v + extra


def cashaddr(r):
    size = r.choice((20, 20, 20, 24, 28, 32, 40, 48, 56, 64))
    code = {20: 0, 24: 1, 28: 2, 32: 3, 40: 4, 48: 5, 56: 6, 64: 7}[size]
    kind = r.choice((0, 1, 0, 1, 0, 1, 2, 3, 15, 16, 31))
    h = r.randbytes(size)
    k = r.random()
    extra = []
    if k < 0.1:
        h = h + r.randbytes(1)
    elif k < 0.2:
        h = h[:-1]
    elif k < 0.3:
        extra = [r.choice((0, 0, 1, 31))]
    elif k < 0.35:
        h = r.randbytes(r.choice((0, 0, 1, 2, 5, 70, 71, 72, 73)))
    data = regroup(bytes([(kind << 3 | code) & 255]) + h, extra)
    if 0.35 < k < 0.5:
        data[-1] |= 1 << r.randrange(5)
    if 0.5 < k < 0.55:
        return {'s': ca_string(r.choice(('bitcoincash', 'bchtest', 'a')), [])}
    if 0.55 < k < 0.65:        # right but for the checksum, or but for the prefix, or but for the kind
        s = ca_string('bitcoincash', data)
        return {'s': s[:-1] + r.choice(CA)}
    if 0.65 < k < 0.72:
        return {'s': ca_string(r.choice((' b', '\x7fa', '\x1fz', '~', '!')), data)}
    prefix = r.choice(('bitcoincash', 'bitcoincash', 'bchtest', 'bchreg', 'a', '1', '~', '!b', ' b', '\x7fa', '_x', 'p' * 40, ''))
    s = ca_string(prefix, data)
    k = r.random()
    if k < 0.25:
        s = s.upper()
    elif k < 0.3:
        s = s[:-1] + s[-1].upper()
    elif k < 0.34:
        s = s.replace(':', r.choice(('', '::')))
    elif k < 0.4:
        j = r.randrange(len(s))
        s = s[:j] + r.choice('bio1q:\u00e9Q') + s[j + 1:]
    elif k < 0.45:
        s = s[s.find(':') + 1:]
    return {'s': s}


def address(r):
    """addresses as text: both formats, several version bytes, prefixes and sizes"""
    if r.random() < 0.4:
        b = bytes([r.choice((0, 5, 111, 196, 0, 5, 111, 196, 128, 1))]) + r.randbytes(r.choice((20, 20, 20, 20, 19, 21)))
        return {'s': b58(b + sha(sha(b))[:4])}
    if r.random() < 0.3:
        return cashaddr(r)
    prefix = r.choice(('bitcoincash', 'bchtest', 'bchtest', 'bitcoincash', 'bchreg'))
    if r.random() < 0.35:           # a relative of a prefix
        k = r.randrange(1, len(prefix))
        prefix = r.choice((prefix[:k], prefix[k:], prefix[:k] + r.choice('abcxyz') + prefix[k + 1:], prefix + r.choice('ax'), prefix[:k] + 'x' + prefix[k:]))
    size = r.choice((20, 20, 20, 24, 32))
    data = regroup(bytes([r.choice((0, 8)) | {20: 0, 24: 1, 32: 3}[size]]) + r.randbytes(size), [])
    s = ca_string(prefix, data)
    if r.random() < 0.3:
        s = s.upper()
    if r.random() < 0.4:
        s = s[s.find(':') + 1:]
    elif r.random() < 0.2:
        s = r.choice(('bitcoincash', 'BITCOINCASH', 'bchtest')) + s[s.find(':'):]
    return {'s': s}


def headers(r):
    """raw(h) for every height, with plausible spacing and difficulty, and a height to ask about"""
    step, jitter = r.choice((300, 302, 1, 600, 600, 7200, 7200, 14400, 120, 2400, 2402)), r.choice((0, 0, 1, 600, 7200))
    base, key = r.randrange(1 << 30), r.randbytes(8)
    # easy headers are common on the test networks; a uniform difficulty exposes the arithmetic
    bits = [r.choice((0x1d00ffff, 0x1c05a3f4, 0x1b0404cb, 0x180338b1, 0x1a05db8b, 0x1d00d86a)) for _ in range(r.choice((1, 1, 2)))]
    easy = r.choice((0, 0, 0.5, 0.95))
    h = r.choice((r.choice((1, 2, 3, 2015, 2016, 2017, 2201, 2200, 2199, 478556, 478557, 478558, 478559, 504030, 504031, 504032,
                            504033, 1188696, 1188697, 1188698, 1188699, 4032)), 2016 * r.randrange(1, 600), r.randrange(600000),
                  2016 * r.randrange(238, 250), r.randrange(478558, 504032)))
    top = h

    def raw(h):
        if not isinstance(h, int):
            h = 0
        x = random_.Random(key + h.to_bytes(16, 'little', signed=True))
        t = (base + (h - top + 1) * step + (x.randint(-jitter, jitter) if jitter else 0)) & 0xffffffff
        b = 0x1d00ffff if x.random() < easy else x.choice(bits)
        return (b'\1\0\0\0' + x.randbytes(64) + t.to_bytes(4, 'little') + b.to_bytes(4, 'little') + x.randbytes(4))

    gap = r.choice((0, 600, 1199, 1200, 1201, 1202, 5000))
    return {'raw': raw, 'h': h, 'time': max(0, min(0xffffffff, base + gap + r.choice((0, -step, step))))}


def cash_decode(s):
    """(prefix, kind, hash) of a cashaddr, or (None, None, None)"""
    bad = (None, None, None)
    low = s.lower()
    if not s.isascii() or low != s and s.upper() != s or ':' not in low:
        return bad
    prefix, payload = low.split(':', 1)
    if not prefix or any(not 33 <= ord(c) <= 126 for c in prefix) or not 8 < len(payload) <= 124 or \
            any(c not in CA for c in payload):
        return bad
    data = [CA.index(c) for c in payload]
    if polymod([ord(c) & 31 for c in prefix] + [0] + data):
        return bad
    data = data[:-8]
    n = 0
    for d in data:
        n = n * 32 + d
    pad = len(data) * 5 % 8
    if pad >= 5 or n & ((1 << pad) - 1) or len(data) < 2:
        return bad
    b = (n >> pad).to_bytes(len(data) * 5 // 8, 'big')
    if b[0] >> 3 > 1 or len(b) - 1 != (20 + 4 * (b[0] & 3)) * (2 if b[0] & 4 else 1):
        return bad
    return s[:len(prefix)], b[0] >> 3, b[1:]


WORDS = [a + b + c for a in 'bcdfghjklmnpqrst' for b in 'aeiouywv' for c in 'bcdfghjklmnpqrst']


def bip39(r):
    """a list of 2048 words and a text of words that is valid, nearly valid, or has foreign words"""
    w = WORDS if r.random() < 0.5 else r.sample(WORDS, 2048)
    n = r.choice((12, 12, 15, 18, 21, 24, 24, 11, 13, 0, 3, 27))
    m = n // 3 * 3
    e = r.randbytes(m * 4 // 3)
    if r.random() < 0.3:
        e = bytes(m * 4 // 3)
    k = m // 3
    x = int.from_bytes(e, 'big') << k | (sha(e)[0] >> (8 - k) if k <= 8 else 0)
    if r.random() < 0.3 and m:
        x ^= 1 << r.randrange(11 * m)
    words = [w[x >> (11 * (m - 1 - i)) & 2047] for i in range(m)] + [r.choice(w) for _ in range(n - m)]
    if r.random() < 0.3:
        for i in r.choice(((0, 7, 11), (23,), (0,), tuple(range(n)))):
            if i < n:
                words[i] = 'zzzz' + str(i)
    sep = r.choice((' ', ' ', '  ', '\u3000', '\n'))
    s = sep.join(words)
    if r.random() < 0.3:
        s = ' ' + s.upper() + ' '
    return {'s': s, 'w': tuple(w), 'e': e or bytes(16), 'bits': r.choice((128, 160, 192, 224, 256, 0, 96, 288))}


# some words of the old Electrum list by position; (489, 1296, 1294) makes the greatest valid part
OLD = {0: 'like', 1: 'just', 2: 'love', 3: 'know', 4: 'never', 5: 'want', 6: 'time', 7: 'out', 8: 'there', 9: 'make', 10: 'look', 11: 'eye', 100: 'help', 489: 'fail', 490: 'float', 491: 'pure', 500: 'rip', 1294: 'howl', 1295: 'hum', 1296: 'husband', 1297: 'insult', 1298: 'led', 1621: 'throne', 1622: 'total', 1623: 'unseen', 1624: 'weapon', 1625: 'weary'}


def electrum_old(r):
    """a text of words of the old list that is valid, or just out of range, or has foreign words"""
    n = r.choice((12, 12, 12, 24, 24, 11, 13, 3, 9, 15, 18))
    ix = [r.choice(list(OLD)) if r.random() < 0.6 else r.randrange(12) for _ in range(n)]
    for i in range(0, n - 2, 3):
        if r.random() < 0.3:
            ix[i:i + 3] = r.choice(((489, 1296, 1294), (490, 1297, 1295), (489, 1297, 1295), (0, 0, 1625), (0, 0, 1624)))
    words = [OLD[i] for i in ix]
    if r.random() < 0.3:
        for i in r.choice(((5,), (0, 7, 11), (23,))):
            if i < n:
                words[i] = 'zzzz' + str(i)
    s = r.choice((' ', ' ', '  ', '\n')).join(words)
    return {'s': ' ' + s.title() + ' ' if r.random() < 0.3 else s,
            'oldwords': tuple(OLD.get(i, f'w{i}') for i in range(1626))}


def wordlist(r):
    """a list of words and an amount of entropy"""
    n = r.choice((2048, 2048, 2049, 2047, 1626, 1, 2, 10))
    return {'w': tuple(WORDS[i % 2048] + 'x' * (i // 2048) for i in range(n)), 'bits': r.choice((128, 131, 132, 133, 256)),
            'e': r.choice((0, 1, 2, 3, n - 1, n, n + 1, n * n - 1, r.randrange(n ** 3 + 1))),
            'skip': r.random() < 0.5, 'p': r.choice(('01', '101', ''))}
