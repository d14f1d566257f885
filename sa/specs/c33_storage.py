"""Reference: the file of headers, as seen through the storage object and through reopening."""
from vt import ob, expect, anything, history, durable, AnyError
from bitcoinx import Bitcoin, CheckPoint, MissingHeader
from bitcoinx.chain import _HeaderStorage

M = 'specs.c33_storage'
F = 'headers'
ZERO = bytes(80)


def put(data):
    with open(F, 'wb') as f:
        f.write(data)


def got():
    with open(F, 'rb') as f:
        return f.read()


def le(v, n):
    return v.to_bytes(n, 'little')


def opened(cp):
    s = _HeaderStorage(F)
    s.open_or_create(cp)
    return s


def fresh(raw, h):
    return le(8, 2) + le(0, 2) + le(h + 1, 4) + bytes(80 * h) + raw


# ------------------------------------------------------------------ opening
def open_any(raw, h):
    s = opened(CheckPoint(raw, h, 0))
    n = len(s)
    s.close()
    return n, got()


@ob('C33', 'open_any(raw, h)', mod=M, pre='raw != ZERO', effects=False)
def open_unknown(raw: Bytes[80], h: Range[0, 1000000]):
    """whatever the file holds, or if there is none: what is good is kept as it is, anything else replaced"""
    try:
        data = got()
    except FileNotFoundError:
        data = b''
    if len(data) >= 8 and int.from_bytes(data[2:4], 'little') == 0:
        at = int.from_bytes(data[:2], 'little') + 80 * h
        if data[at:at + 80] == raw:
            return int.from_bytes(data[4:8], 'little'), data
    return h + 1, fresh(raw, h)


def open_again(raw, h):
    s = opened(CheckPoint(raw, h, 0))
    s.close()
    return open_any(raw, h)


@ob('C33', 'open_again(raw, h)', mod=M, pre='raw != ZERO', effects=False)
def open_twice(raw: Bytes[80], h: Range[0, 1000000]):
    return open_unknown(raw, h)


# ------------------------------------------------------------------ reading and writing
def build(n, body):
    put(le(8, 2) + le(0, 2) + le(n, 4) + body)


def load(n, body, h):
    build(n, body)
    return opened(CheckPoint(body[80 * h:80 * h + 80], h, 0))


def get(s, k):
    try:
        return s[k]
    except MissingHeader:
        return None


def slot(body, k):
    r = body[80 * k:80 * k + 80]
    return r if r and r != ZERO else None


def split(*conds):
    """the cases are told apart before anything else"""
    for c in conds:
        if c:
            pass
    return True


GOOD = 'len(body) == 80 * m and h < m and body[80 * h:80 * h + 80] != ZERO'


@ob('C33', 'get(load(n, body, h), k)', mod=M, pre=GOOD, effects=False)
def read(n: UInt[32], body: Bytes, m: Range[1, 5000000], h: Range[0, 1000000], k: Int):
    if k < 0:
        k += n
    if k < 0:
        return None
    return slot(body, k)


@ob('C33', 'get(load(n, body, h), slice(j, k))', mod=M, pre=GOOD + ' and j <= k and k <= n and k <= j + 2', effects=False)
def read_slice(n: UInt[32], body: Bytes, m: Range[1, 5000000], h: Range[0, 1000000], j: Nat, k: Nat):
    out = []
    for i in range(j, k):
        r = slot(body, i)
        if r is None:
            return None
        out.append(r)
    return out


@ob('C33', '[get(load(3, a + b + d, 0), k) for k in (slice(-2, None), slice(None, None, -1), slice(1, 10), slice(None, -1), slice(None), slice(-9, 1))]', mod=M, pre='a != ZERO', effects=False)
def read_open_slices(a: Bytes[80], b: Bytes[80], d: Bytes[80]):
    bd = b != ZERO and d != ZERO
    return [[b, d] if bd else None, [d, b, a] if bd else None, [b, d] if bd else None, [a, b] if b != ZERO else None,
            [a, b, d] if bd else None, [a]]


CASES = ' and split(j == %s, j < %s, j < m, %s < m)'


def put_then_get(s, k, raw, j):
    s[k] = raw
    return len(s), get(s, k), get(s, j)


def put_reopen_get(n, body, h, k, raw, j):
    s = load(n, body, h)
    cp = CheckPoint(s[h], h, 0)
    s[k] = raw
    s.flush()
    s.close()
    s = opened(cp)
    return len(s), get(s, k), get(s, j)


def after(n, body, k, raw, j):
    return (k + 1 if k >= n else n), (raw if raw != ZERO else None), ((raw if raw != ZERO else None) if j == k else slot(body, j))


@ob('C33', 'put_then_get(load(n, body, h), k, raw, j)', mod=M, pre=GOOD + CASES % ('k', 'k', 'k'), effects=False)
def write(n: UInt[32], body: Bytes, m: Range[1, 5000000], h: Range[0, 1000000], k: Range[0, 4000000], raw: Bytes[80], j: Nat):
    """one header changes and no other"""
    return after(n, body, k, raw, j)


@ob('C33', 'put_reopen_get(n, body, h, k, raw, j)', mod=M, pre=GOOD + ' and k != h and split(h < k)' + CASES % ('k', 'k', 'k'), effects=False)
def write_reopen(n: UInt[32], body: Bytes, m: Range[1, 5000000], h: Range[0, 1000000], k: Range[0, 4000000], raw: Bytes[80], j: Nat):
    return after(n, body, k, raw, j)


def put_then_flush(s, raws):
    """what is in the file for certain once the storage is flushed"""
    for r in raws:
        s.append(r)
    s.flush()
    return durable(F)


@ob('C33', 'put_then_flush(load(n, body, h), [raw, other])', mod=M, pre=GOOD, effects=False)
def flushed(n: Range[0, 4000000], body: Bytes, m: Range[1, 5000000], h: Range[0, 1000000], raw: Bytes[80], other: Bytes[80]):
    put_then_flush(load(n, body, h), [raw, other])
    return got()


def append_then_get(s, raw, j):
    k = s.append(raw)
    return k, len(s), get(s, j)


@ob('C33', 'append_then_get(load(n, body, h), raw, j)', mod=M, pre=GOOD + CASES % ('n', 'n', 'n'), effects=False)
def append(n: Range[0, 4000000], body: Bytes, m: Range[1, 5000000], h: Range[0, 1000000], raw: Bytes[80], j: Nat):
    return n, n + 1, ((raw if raw != ZERO else None) if j == n else slot(body, j))


@ob('C33', 'load(n, body, h).append(raw)', mod=M, pre=GOOD + ' and len(raw) != 80', effects=False)
def append_wrong_size(n: Range[0, 4000000], body: Bytes, m: Range[1, 5000000], h: Range[0, 1000000], raw: Bytes):
    raise TypeError


# ------------------------------------------------------------------ an interrupted append
def stages(n, body, h, raw):
    """of each state of the file during an append: is it the old headers, or the old headers and the new"""
    s = load(n, body, h)
    before = len(history(F))
    s.append(raw)
    r = []
    for data in history(F)[before:]:
        count = int.from_bytes(data[4:8], 'little')
        ok = data[:4] == le(8, 2) + le(0, 2) and data[8:8 + 80 * n] == body[:80 * n]
        if count == n:
            r.append(ok)
        elif count == n + 1:
            r.append(ok and data[8 + 80 * n:88 + 80 * n] == raw)
        else:
            r.append(False)
    return all(r)


@ob('C33', 'stages(n, body, h, raw)', mod=M, pre=GOOD + ' and n <= m and h < n', effects=False)
def interrupted_append(n: Range[0, 4000000], body: Bytes, m: Range[1, 5000000], h: Range[0, 1000000], raw: Bytes[80]):
    return True


# ------------------------------------------------------------------ an interrupted creation
def creation(raw, h):
    opened(CheckPoint(raw, h, 0)).close()
    r = []
    for data in history(F):
        put(data)
        r.append(open_any(raw, h) == (h + 1, fresh(raw, h)))
    return all(r)


@ob('C33', 'creation(raw, h)', mod=M, pre='raw != ZERO', effects=False)
def interrupted_creation(raw: Bytes[80], h: Range[0, 1000000]):
    """opened again after an interruption at any point of being created, the file is as it should be"""
    return True
