"""Reference: chains of headers, what connects, what is stored, and what is looked up."""
import hashlib
import math
from vt import ob, expect, anything, AnyError
from bitcoinx import (Bitcoin, Coin, Headers, Chain, CheckPoint, MissingHeader, IncorrectBits, InsufficientPoW, bits_to_target,
                      bits_to_work)

M = 'specs.c34_chain'
GENESIS = '00' * 68 + '00000000' + 'ffff001d' + '00000000'


class Store:
    """header storage in memory"""

    def __init__(self, raws, below, lower=None):
        self.raws = raws
        self.below = below
        self.lower = lower

    def __getitem__(self, index):
        if index < self.below:
            return self.lower(index)
        return self.raws[index - self.below]

    def __len__(self):
        return self.below + len(self.raws)

    def append(self, raw):
        self.raws.append(raw)
        return self.below + len(self.raws) - 1

    def flush(self):
        pass


def dsha(b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


def u32(raw, at):
    return int.from_bytes(raw[at:at + 4], 'little')


def work(raw):
    return bits_to_work(u32(raw, 72))


def coin(required):
    return Coin('test', GENESIS, lambda headers, chain, height, timestamp=None:
                required(height, timestamp, headers.chains().index(chain)), 0, 5, 128, b'', b'', 'x')


def start(c, c_height, required, cls=Headers):
    return cls(coin(required), Store([c], c_height), CheckPoint(c, c_height, 1000))


def outcome(f):
    try:
        return f()
    except MissingHeader:
        return 'missing'
    except IncorrectBits as e:
        return 'bits', e.header.raw, e.required_bits
    except InsufficientPoW as e:
        return 'pow', e.header.raw


def seen(h):
    """everything observable about the collection"""
    return (getattr(h._storage, 'raws', None), len(h), [(c.tip.raw, c.tip.height, c.height, c.work, c.first_height) for c in h.chains()],
            h.chain_count())


def connect(h, raw):
    r = outcome(lambda: h.connect(raw))
    if isinstance(r, tuple) and len(r) == 2 and r[0] != 'pow':
        header, chain = r
        return header.raw, header.height, header.hash, h.chains().index(chain)
    return r


def run(h, raws):
    return [connect(h, raw) for raw in raws], seen(h)


class Model:
    """every stored header in order with its height and chain; chains with first height, tip (an index) and work"""

    def __init__(self, c, height, required):
        self.heads = [(c, height, 0)]
        self.chains = [(height, 0, 1000 + work(c))]
        self.below = height
        self.required = required

    def find(self, h):
        for i in range(len(self.heads)):
            if dsha(self.heads[i][0]) == h:
                return i
        return None

    def connect(self, raw):
        p = self.find(raw[4:36])
        if p is None:
            return 'missing'
        praw, pheight, n = self.heads[p]
        first, tip, total = self.chains[n]
        if tip != p:
            old = self.find(dsha(raw))
            if old is not None:
                return self.heads[old][0], self.heads[old][1], dsha(raw), self.heads[old][2]
        bits = self.required(pheight + 1, u32(raw, 68), n)
        if u32(raw, 72) != bits:
            return 'bits', raw, bits
        if int.from_bytes(dsha(raw), 'little') > bits_to_target(u32(raw, 72)):
            return 'pow', raw
        if tip == p:
            self.chains[n] = (first, len(self.heads), total + work(raw))
        else:
            for r, h, k in self.heads:
                if k == n and h > pheight:
                    total -= work(r)
            n = len(self.chains)
            self.chains.append((pheight + 1, len(self.heads), total + work(raw)))
        self.heads.append((raw, pheight + 1, n))
        return raw, pheight + 1, dsha(raw), n

    def seen(self):
        return ([h[0] for h in self.heads], self.below + len(self.heads),
                [(self.heads[t][0], self.heads[t][1], self.heads[t][1], w, first) for first, t, w in self.chains], len(self.chains))


def model(c, height, required, raws):
    m = Model(c, height, required)
    return [m.connect(raw) for raw in raws], m.seen()


def proper(c, raws):
    """no collisions, no cycles"""
    ok = True
    for i in range(len(raws)):
        if dsha(raws[i]) == dsha(c):
            ok = False
        for j in range(i):
            if raws[i] != raws[j] and dsha(raws[i]) == dsha(raws[j]):
                ok = False
    return ok


@ob('C31 C34', 'run(start(c, n, required), [a])', mod=M, abstract='bits', pre='proper(c, [a])')
def connect_one(c: Bytes[80], n: Range[0, 1000000], required: Fn[UInt[32]], a: Bytes[80]):
    return model(c, n, required, [a])


@ob('C31 C34', 'run(start(c, n, required), [a, b])', mod=M, abstract='bits', pre='proper(c, [a, b])', K=14, KW=14)
def connect_two(c: Bytes[80], n: Range[0, 1000000], required: Fn[UInt[32]], a: Bytes[80], b: Bytes[80]):
    return model(c, n, required, [a, b])


def sound(c, required, raws, prevs):
    """each header is good and builds on the one its number in prevs says"""
    hs = [dsha(c)]
    for raw, p in zip(raws, prevs):
        if raw[4:36] != hs[p] or u32(raw, 72) != required(0, u32(raw, 68)) or int.from_bytes(dsha(raw), 'little') > bits_to_target(u32(raw, 72)):
            return False
        for h in hs:
            if dsha(raw) == h:
                return False
        hs.append(dsha(raw))
    return True


def spread(stored, keys):
    """the first four bytes of the keys occur among those of the stored headers' hashes only as that of the same hash"""
    hs = [dsha(r) for r in stored]
    short = b''.join([h[:4] for h in hs])
    for k in keys:
        for i in range(len(short) - 3):
            if i % 4 != 0:
                if short[i:i + 4] == k[:4]:
                    return False
            elif k[:4] == hs[i // 4][:4] and k != hs[i // 4]:
                return False
    return True


def flat(required):
    return lambda h, t, n: required(0, t)


def bychain(required):
    return lambda h, t, n: required(n, t)


def tree(prevs):
    def f(c, n, required, raws):
        return model(c, n, flat(required), raws)
    return f


@ob('C31 C34', 'run(start(c, n, bychain(required)), [a, b, d, e])', mod=M, abstract='bits', pre='proper(c, [a, b, d, e]) and sound(c, required, [a, b, d], [0, 1, 1]) and spread([c, a, b], [dsha(d)]) and spread([c, a, b, d], [e[4:36], dsha(e)])')
def fork_then(c: Bytes[80], n: Range[0, 1000000], required: Fn[UInt[32]], a: Bytes[80], b: Bytes[80], d: Bytes[80], e: Bytes[80]):
    """after a fork, one more arbitrary header"""
    return model(c, n, bychain(required), [a, b, d, e])


@ob('C31 C34', 'run(start(c, n, flat(required)), [a, b, d, e])', mod=M, abstract='bits', pre='proper(c, [a, b, d, e]) and sound(c, required, [a, b, d], [0, 1, 2]) and spread([c, a, b, d], [e[4:36], dsha(e)])')
def line_then(c: Bytes[80], n: Range[0, 1000000], required: Fn[UInt[32]], a: Bytes[80], b: Bytes[80], d: Bytes[80], e: Bytes[80]):
    """after three in a row, one more arbitrary header"""
    return model(c, n, flat(required), [a, b, d, e])


@ob('C31 C34', 'run(start(c, n, flat(required), Small), [a, b, d, e])', mod=M, abstract='bits', pre='proper(c, [a, b, d, e]) and sound(c, required, [a, b, d], [0, 1, 2]) and spread([c, a, b, d], [e[4:36], dsha(e)])')
def line_then_uncached(c: Bytes[80], n: Range[0, 1000000], required: Fn[UInt[32]], a: Bytes[80], b: Bytes[80], d: Bytes[80], e: Bytes[80]):
    """the same with a cache too small to hold the headers"""
    return model(c, n, flat(required), [a, b, d, e])


class Small(Headers):
    max_cache_size = 0


# ------------------------------------------------------------------ what is stored is what is found
PRE3 = 'proper(c, [a, b, d]) and sound(c, required, [a, b, d], %s'
LINE = PRE3 % '[0, 1, 2])'
FORK = PRE3 % '[0, 1, 1]) and spread([c, a, b], [dsha(d)])'
ROOT = PRE3 % '[0, 0, 2]) and spread([c, a], [dsha(b)])'


def load(c, n, required, raws, lower=None):
    return Headers(coin(flat(required)), Store([c] + raws, n, lower), CheckPoint(c, n, 1000))


def grown(c, n, required, raws, lower=None):
    h = Headers(coin(flat(required)), Store([c], n, lower), CheckPoint(c, n, 1000))
    for r in raws:
        h.connect(r)
    return h


@ob('C34 C33', 'seen(load(c, n, required, [a, b, d]))', mod=M, abstract='bits', pre=LINE)
def load_line(c: Bytes[80], n: Range[0, 1000000], required: Fn[UInt[32]], a: Bytes[80], b: Bytes[80], d: Bytes[80]):
    return model(c, n, flat(required), [a, b, d])[1]


@ob('C34 C33', 'seen(load(c, n, required, [a, b, d]))', mod=M, abstract='bits', pre=FORK)
def load_fork(c: Bytes[80], n: Range[0, 1000000], required: Fn[UInt[32]], a: Bytes[80], b: Bytes[80], d: Bytes[80]):
    return model(c, n, flat(required), [a, b, d])[1]


@ob('C34 C33', 'seen(load(c, n, required, [a, b, d]))', mod=M, abstract='bits', pre=ROOT)
def load_root(c: Bytes[80], n: Range[0, 1000000], required: Fn[UInt[32]], a: Bytes[80], b: Bytes[80], d: Bytes[80]):
    return model(c, n, flat(required), [a, b, d])[1]


def at(h, chain, height):
    try:
        x = h.header_at_height(h.chains()[chain], height)
        return x.raw, x.height, h.raw_header_at_height(h.chains()[chain], height)
    except MissingHeader:
        return 'missing'


def found(r, height):
    return r, height, r


@ob('C34', 'at(grown(c, n, required, [a, b, d], lower), 1, k)', mod=M, abstract='bits', pre=FORK)
def at_fork(c: Bytes[80], n: Range[0, 1000000], required: Fn[UInt[32]], a: Bytes[80], b: Bytes[80], d: Bytes[80], k: Int, lower: Fn[Bytes[80]]):
    if k < 0 or k > n + 2:
        return 'missing'
    return found(d if k == n + 2 else a if k == n + 1 else c if k == n else lower(k), k)


@ob('C34', 'at(grown(c, n, required, [a, b, d], lower), 0, k)', mod=M, abstract='bits', pre=FORK)
def at_base(c: Bytes[80], n: Range[0, 1000000], required: Fn[UInt[32]], a: Bytes[80], b: Bytes[80], d: Bytes[80], k: Int, lower: Fn[Bytes[80]]):
    if k < 0 or k > n + 2:
        return 'missing'
    return found(b if k == n + 2 else a if k == n + 1 else c if k == n else lower(k), k)


@ob('C34', 'at(grown(c, n, required, [a, b, d], lower), 1, k)', mod=M, abstract='bits', pre=ROOT)
def at_root(c: Bytes[80], n: Range[0, 1000000], required: Fn[UInt[32]], a: Bytes[80], b: Bytes[80], d: Bytes[80], k: Int, lower: Fn[Bytes[80]]):
    if k < 0 or k > n + 2:
        return 'missing'
    return found(d if k == n + 2 else b if k == n + 1 else c if k == n else lower(k), k)


def found_by_hash(h, hashes):
    out = []
    for x in hashes:
        header, chain = h.lookup(x)
        out.append((header.raw, header.height, header.hash, h.chains().index(chain)))
    return out


@ob('C34', 'found_by_hash(grown(c, n, required, [a, b, d]), [dsha(d), dsha(b), dsha(a), dsha(c)])', mod=M, abstract='bits', pre=FORK)
def lookup_fork(c: Bytes[80], n: Range[0, 1000000], required: Fn[UInt[32]], a: Bytes[80], b: Bytes[80], d: Bytes[80]):
    return [(d, n + 2, dsha(d), 1), (b, n + 2, dsha(b), 0), (a, n + 1, dsha(a), 0), (c, n, dsha(c), 0)]


def facts(h):
    """longest chain, chain work below tips, common parts"""
    cs = h.chains()
    x, y = cs[0], cs[1]
    chain, height = x.common_chain_and_height(y)
    chain2, height2 = y.common_chain_and_height(x)
    own, own_height = y.common_chain_and_height(y)
    return (cs.index(h.longest_chain()), cs.index(chain), height, cs.index(chain2), height2, cs.index(own), own_height,
            [(cs.index(k), v) for k, v in y.parent_heights().items()], [(cs.index(k), v) for k, v in x.parent_heights().items()])


@ob('C34', 'facts(grown(c, n, required, [a, b, d]))', mod=M, abstract='bits', pre=FORK)
def facts_fork(c: Bytes[80], n: Range[0, 1000000], required: Fn[UInt[32]], a: Bytes[80], b: Bytes[80], d: Bytes[80]):
    best = 1 if work(d) > work(b) else 0
    return (best, 0, n + 1, 0, n + 1, 1, n + 2, [(1, n + 2), (0, n + 1)], [(0, n + 2)])


@ob('C34', 'facts(grown(c, n, required, [a, b, d]))', mod=M, abstract='bits', pre=ROOT)
def facts_root(c: Bytes[80], n: Range[0, 1000000], required: Fn[UInt[32]], a: Bytes[80], b: Bytes[80], d: Bytes[80]):
    best = 1 if work(b) + work(d) > work(a) else 0
    return (best, 0, n, 0, n, 1, n + 2, [(1, n + 2), (0, n)], [(0, n + 1)])


class Counted(Store):
    flushes = 0

    def flush(self):
        self.flushes += 1


def flush_counts(c, n, required, raws):
    store = Counted([c], n)
    h = Headers(coin(bychain(required)), store, CheckPoint(c, n, 1000))
    for r in raws:
        h.connect(r)
    h.flush()
    return store.flushes > 0


@ob('C33', 'flush_counts(c, n, required, [a, b, d])', mod=M, abstract='bits', pre=FORK)
def flush(c: Bytes[80], n: Range[0, 1000000], required: Fn[UInt[32]], a: Bytes[80], b: Bytes[80], d: Bytes[80]):
    """flushing the headers flushes what they are stored in"""
    return True


@ob('C34', '[x.log2_work() for x in grown(c, n, required, [a, b, d]).chains()]', mod=M, abstract='bits', pre=ROOT)
def log2_work(c: Bytes[80], n: Range[0, 1000000], required: Fn[UInt[32]], a: Bytes[80], b: Bytes[80], d: Bytes[80]):
    w = 1000 + work(c)
    return [math.log2(w + work(a)), math.log2(w + work(b) + work(d))]


def works(h):
    cs = h.chains()
    out = [h.chainwork_range(cs[1], h.checkpoint.height, cs[1].height + 1), h.chainwork_range(cs[0], h.checkpoint.height + 1, h.checkpoint.height + 2)]
    for k in (h.checkpoint.height, h.checkpoint.height + 1, h.checkpoint.height + 2):
        out.append(h.chainwork_to_height(cs[1], k))
    return out


@ob('C34', 'works(grown(c, n, required, [a, b, d]))', mod=M, abstract='bits', pre=ROOT)
def works_root(c: Bytes[80], n: Range[0, 1000000], required: Fn[UInt[32]], a: Bytes[80], b: Bytes[80], d: Bytes[80]):
    w = 1000 + work(c)
    return [work(c) + work(b) + work(d), work(a), w, w + work(b), w + work(b) + work(d)]


def median(h, heights):
    return [h.median_time_past(h.chains()[1], k) for k in heights]


@ob('C34 C35', 'grown(c, n, required, [a, b, d], lower).median_time_past(grown(c, n, required, [a, b, d], lower).chains()[0], 0)', mod=M, abstract='bits', pre=FORK)
def median_first(c: Bytes[80], n: Range[20, 1000000], required: Fn[UInt[32]], a: Bytes[80], b: Bytes[80], d: Bytes[80], lower: Fn[Bytes[80]]):
    return u32(lower(0), 68)


@ob('C34 C35', 'median(grown(c, n, required, [a, b, d], lower), [n + 2])', mod=M, abstract='bits', pre=ROOT)
def median_tip(c: Bytes[80], n: Range[20, 1000000], required: Fn[UInt[32]], a: Bytes[80], b: Bytes[80], d: Bytes[80], lower: Fn[Bytes[80]]):
    """the middle of the last eleven timestamps on the chain"""
    times = [u32(d, 68), u32(b, 68), u32(c, 68)] + [u32(lower(n - i), 68) for i in range(1, 9)]
    return [sorted(times)[5]]


@ob('C34 C35', 'median(grown(c, n, required, [a, b, d], lower), [k])', mod=M, abstract='bits', pre=ROOT)
def median_low(c: Bytes[80], n: Range[20, 1000000], required: Fn[UInt[32]], a: Bytes[80], b: Bytes[80], d: Bytes[80], k: Range[0, 12], lower: Fn[Bytes[80]]):
    """the middle of the last eleven timestamps, or of all when there are fewer"""
    low = 0 if k < 10 else k - 10
    times = [u32(lower(i), 68) for i in range(low, k + 1)]
    return [sorted(times)[(k + 1 - low) // 2]]


def unset(h, height, raw):
    try:
        return h.set_one(height, raw)
    except ValueError:
        return 'height'


class Slots(Store):
    def __init__(self, raws, below):
        Store.__init__(self, raws, below)
        self.sets = []

    def __setitem__(self, index, raw):
        self.sets.append((index, raw))


def set_one_in(c, n, required, k, raw):
    store = Slots([c], n)
    h = Headers(coin(required), store, CheckPoint(c, n, 1000))
    return unset(h, k, raw), store.sets


@ob('C34 C33', 'set_one_in(c, n, required, k, a)', mod=M, abstract='bits')
def set_one(c: Bytes[80], n: Range[0, 1000000], required: Fn[UInt[32]], k: Int, a: Bytes[80]):
    if 0 <= k <= n:
        return None, [(k, a)]
    return 'height', []


# ------------------------------------------------------------------ a fork of a fork
NEST = 'proper(c, [a, b, d, e]) and sound(c, required, [a, b, d, e], [0, 0, 2, 2]) and spread([c, a], [dsha(b)]) and spread([c, a, b, d], [dsha(e)])'


def kin(h, i, j):
    cs = h.chains()
    chain, height = cs[i].common_chain_and_height(cs[j])
    return cs.index(chain), height


@ob('C34', '(lambda h: ([(h.chains().index(k), v) for k, v in h.chains()[2].parent_heights().items()], [kin(h, i, j) for i in range(3) for j in range(3)], [x.first_height for x in h.chains()], [x.height for x in h.chains()]))(grown(c, n, required, [a, b, d, e]))', mod=M, abstract='bits', pre=NEST)
def facts_nested(c: Bytes[80], n: Range[0, 1000000], required: Fn[UInt[32]], a: Bytes[80], b: Bytes[80], d: Bytes[80], e: Bytes[80]):
    return ([(2, n + 2), (1, n + 1), (0, n)],
            [(0, n + 1), (0, n), (0, n), (0, n), (1, n + 2), (1, n + 1), (0, n), (1, n + 1), (2, n + 2)],
            [n, n + 1, n + 2], [n + 1, n + 2, n + 2])


@ob('C34', 'seen(grown(c, n, required, [a, b, d, e]))', mod=M, abstract='bits', pre=NEST)
def seen_nested(c: Bytes[80], n: Range[0, 1000000], required: Fn[UInt[32]], a: Bytes[80], b: Bytes[80], d: Bytes[80], e: Bytes[80]):
    return model(c, n, flat(required), [a, b, d, e])[1]


@ob('C34 C33', 'seen(load(c, n, required, [a, b, d, e]))', mod=M, abstract='bits', pre=NEST)
def load_nested(c: Bytes[80], n: Range[0, 1000000], required: Fn[UInt[32]], a: Bytes[80], b: Bytes[80], d: Bytes[80], e: Bytes[80]):
    return model(c, n, flat(required), [a, b, d, e])[1]


@ob('C34', 'at(grown(c, n, required, [a, b, d, e], lower), 2, k)', mod=M, abstract='bits', pre=NEST)
def at_nested(c: Bytes[80], n: Range[0, 1000000], required: Fn[UInt[32]], a: Bytes[80], b: Bytes[80], d: Bytes[80], e: Bytes[80], k: Int, lower: Fn[Bytes[80]]):
    if k < 0 or k > n + 2:
        return 'missing'
    return found(e if k == n + 2 else b if k == n + 1 else c if k == n else lower(k), k)


def small(c, n, required, raws):
    h = Small(coin(flat(required)), Store([c], n), CheckPoint(c, n, 1000))
    for r in raws:
        h.connect(r)
    return h


@ob('C34', 'found_by_hash(small(c, n, required, [a, b, d, e]), [dsha(e), dsha(d), dsha(b), dsha(a), dsha(c)])', mod=M, abstract='bits', pre=NEST + ' and spread([c, a, b, d, e], [dsha(x) for x in [a, b, c, d, e]])')
def lookup_uncached(c: Bytes[80], n: Range[0, 1000000], required: Fn[UInt[32]], a: Bytes[80], b: Bytes[80], d: Bytes[80], e: Bytes[80]):
    """found in storage when the cache no longer holds them"""
    return [(e, n + 2, dsha(e), 2), (d, n + 2, dsha(d), 1), (b, n + 1, dsha(b), 1), (a, n + 1, dsha(a), 0), (c, n, dsha(c), 0)]


@ob('C34', 'found_by_hash(small(c, n, required, [a, b]), [dsha(a)])', mod=M, abstract='bits', pre='proper(c, [a, b]) and sound(c, required, [a, b], [0, 1])')
def lookup_clash(c: Bytes[80], n: Range[0, 1000000], required: Fn[UInt[32]], a: Bytes[80], b: Bytes[80]):
    """whatever the bytes of the other hashes are"""
    return [(a, n + 1, dsha(a), 0)]


# ------------------------------------------------------------------ the same through a file
def le(v, n):
    return v.to_bytes(n, 'little')


def reopened(c, n, required, raws):
    """in storage after connecting, and when the file is opened again"""
    with open('headers', 'wb') as f:
        f.write(le(8, 2) + le(0, 2) + le(n + 1, 4) + bytes(80 * n) + c)
    cp = CheckPoint(c, n, 1000)
    h = Headers.from_file(coin(flat(required)), 'headers', cp)
    for r in raws:
        h.connect(r)
    h.flush()
    return [([x._storage[n + i] for i in range(len(raws) + 1)],) + seen(x)[1:] for x in (h, Headers.from_file(coin(flat(required)), 'headers', cp))]


def whole(raws):
    """header storage takes a header of zeros for an absent one"""
    for r in raws:
        if r == bytes(80):
            return False
    return True


@ob('C33 C34', 'reopened(c, n, required, [a, b, d])', mod=M, abstract='bits', pre=ROOT + ' and whole([c, a, b, d])', effects=False)
def file_root(c: Bytes[80], n: Range[0, 1000000], required: Fn[UInt[32]], a: Bytes[80], b: Bytes[80], d: Bytes[80]):
    return [model(c, n, flat(required), [a, b, d])[1]] * 2


@ob('C33 C34', 'reopened(c, n, required, [a, b, d])', mod=M, abstract='bits', pre=FORK + ' and whole([c, a, b, d])', effects=False)
def file_fork(c: Bytes[80], n: Range[0, 1000000], required: Fn[UInt[32]], a: Bytes[80], b: Bytes[80], d: Bytes[80]):
    return [model(c, n, flat(required), [a, b, d])[1]] * 2


# ------------------------------------------------------------------ many chains
def many(c, n, required, a, b, d, count):
    """with count chains more than there are: the number of a new chain, and of the chain found for its header"""
    h = Small(coin(flat(required)), Store([c], n), CheckPoint(c, n, 1000))
    h.connect(a)
    h.chains().extend([h.chains()[0]] * count)
    total = h.chain_count()
    chain = h.connect(b)[1]
    last = h.chains()[total] is chain
    h._cache.clear()
    return last, h.lookup(dsha(b))[1] is chain, h.lookup(dsha(a))[1] is h.chains()[0], chain.first_height


@ob('C34', 'many(c, n, required, a, b, d, 300)', mod=M, abstract='bits', pre='proper(c, [a, b]) and sound(c, required, [a, b], [0, 0]) and spread([c, a], [dsha(b)]) and spread([c, a, b], [dsha(b), dsha(a), dsha(c)])')
def many_chains(c: Bytes[80], n: Range[0, 1000000], required: Fn[UInt[32]], a: Bytes[80], b: Bytes[80], d: Bytes[80]):
    return True, True, True, n + 1


@ob('C34', 'many(c, n, required, a, b, d, 5000)', mod=M, abstract='bits', thorough=True, pre='proper(c, [a, b]) and sound(c, required, [a, b], [0, 0]) and spread([c, a], [dsha(b)]) and spread([c, a, b], [dsha(b), dsha(a), dsha(c)])')
def very_many_chains(c: Bytes[80], n: Range[0, 1000000], required: Fn[UInt[32]], a: Bytes[80], b: Bytes[80], d: Bytes[80]):
    return True, True, True, n + 1
