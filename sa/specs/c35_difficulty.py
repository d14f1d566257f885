"""Reference: the difficulty rules a new header must obey, from what is stored below it."""
from vt import ob, expect, anything
from bitcoinx import Bitcoin, BitcoinTestnet, BitcoinScalingTestnet, BitcoinRegtest, Headers, CheckPoint, bits_to_target, target_to_bits, bits_to_work

M = 'specs.c35_difficulty'
CHECK = CheckPoint(bytes(68) + bytes.fromhex('00000000' 'ffff001d' '00000000'), 10, 0)


class Store:
    """storage and a chain without forks: the header at index h is at height h"""

    def __init__(self, raw, size):
        self.raw = raw
        self.size = size

    def __getitem__(self, index):
        return self.raw(index)

    def __len__(self):
        return self.size


class Line:
    def header_index(self, height):
        return height


def u32(raw, at):
    return int.from_bytes(raw[at:at + 4], 'little')


def stamp(raw):
    return u32(raw, 68)


def bits_of(raw):
    return u32(raw, 72)


def headers(coin, raw):
    return Headers(coin, Store(raw, 11), CHECK)


def need(coin, raw, height, timestamp=None):
    return headers(coin, raw).required_bits(Line(), height, timestamp)


def fortnightly(coin, raw, h):
    if h == 0:
        return coin.genesis_bits
    prev = raw(h - 1)
    if h % 2016 != 0:
        return bits_of(prev)
    first = raw(h - 2016)
    took = stamp(prev) - stamp(first)
    if took < 302400:
        took = 302400
    if took > 4838400:
        took = 4838400
    target = bits_to_target(bits_of(prev)) * took // 1209600
    return target_to_bits(min(target, coin.max_target))


@ob('C35', 'need(Bitcoin, raw, h)', mod=M, abstract='bits', seeds='headers')
def mainnet_fortnightly(raw: Fn[Bytes[80]], h: Range[0, 478557]):
    return fortnightly(Bitcoin, raw, h)


def daa(coin, raw, h):
    a, b = middle(raw, h - 144), middle(raw, h)
    work = sum([bits_to_work(bits_of(raw(k))) for k in range(a + 1, b + 1)])
    took = stamp(raw(b)) - stamp(raw(a))
    if took < 43200:
        took = 43200
    if took > 172800:
        took = 172800
    target = 2 ** 256 // (work * 600 // took) - 1
    return target_to_bits(min(target, coin.max_target))


def middle(raw, h):
    """the height of the median by time of the three headers below h; earlier ones first when equal but for the swaps below"""
    x, y, z = h - 3, h - 2, h - 1
    if stamp(raw(x)) > stamp(raw(z)):
        x, z = z, x
    if stamp(raw(x)) > stamp(raw(y)):
        x, y = y, x
    if stamp(raw(y)) > stamp(raw(z)):
        y, z = z, y
    return y


def ascending(raw, h):
    return stamp(raw(h - 3)) <= stamp(raw(h - 2)) <= stamp(raw(h - 1))


@ob('C35', 'need(Bitcoin, raw, h)', mod=M, abstract='bits', seeds='headers', pre='ascending(raw, h)')
def mainnet_daa_start(raw: Fn[Bytes[80]], h: Range[504032, 4294967295]):
    return daa(Bitcoin, raw, h)


@ob('C35', 'need(Bitcoin, raw, h)', mod=M, abstract='bits', seeds='headers', pre='ascending(raw, h - 144)')
def mainnet_daa_end(raw: Fn[Bytes[80]], h: Range[504032, 4294967295]):
    return daa(Bitcoin, raw, h)


@ob('C35', 'need(Bitcoin, raw, h)', mod=M, abstract='bits', seeds='headers', thorough=True)
def mainnet_daa(raw: Fn[Bytes[80]], h: Range[504032, 4294967295]):
    return daa(Bitcoin, raw, h)


def mtp(raw, h):
    return sorted([stamp(raw(k)) for k in range(h - 10, h + 1)])[5]


@ob('C35', 'need(Bitcoin, raw, h)', mod=M, abstract='bits', seeds='headers')
def mainnet_eda(raw: Fn[Bytes[80]], h: Range[478558, 504031]):
    bits = fortnightly(Bitcoin, raw, h)
    if h % 2016 == 0 or mtp(raw, h - 1) - mtp(raw, h - 7) < 43200:
        return bits
    target = bits_to_target(bits)
    return target_to_bits(min(target + target // 4, Bitcoin.max_target))


def last_normal(coin, raw, h):
    """the bits of the last header below h which is at a boundary or is not of minimum difficulty"""
    for k in range(h - 1, -1, -1):
        if k % 2016 == 0 or bits_of(raw(k)) != coin.genesis_bits:
            return bits_of(raw(k))


def testnet(coin, raw, h, time, daa_height, relaxed):
    slow = time - stamp(raw(h - 1)) > 1200
    if h > daa_height:
        return coin.genesis_bits if relaxed and slow else daa(coin, raw, h)
    if h % 2016 == 0:
        return fortnightly(coin, raw, h)
    return coin.genesis_bits if slow else last_normal(coin, raw, h)


@ob('C35', 'need(BitcoinTestnet, raw, h, time)', mod=M, abstract='bits', seeds='headers')
def testnet_early(raw: Fn[Bytes[80]], h: Range[1, 1188697], time: UInt[32]):
    return testnet(BitcoinTestnet, raw, h, time, 1188697, True)


@ob('C35', 'need(BitcoinTestnet, raw, h, time)', mod=M, abstract='bits', seeds='headers', pre='ascending(raw, h - 144) and ascending(raw, h)')
def testnet_daa(raw: Fn[Bytes[80]], h: Range[1188698, 4294967295], time: UInt[32]):
    return testnet(BitcoinTestnet, raw, h, time, 1188697, True)


@ob('C35', 'need(BitcoinRegtest, raw, h, time)', mod=M, abstract='bits', seeds='headers')
def regtest_early(raw: Fn[Bytes[80]], h: Range[1, 1188697], time: UInt[32]):
    return testnet(BitcoinTestnet, raw, h, time, 1188697, True)


@ob('C35', 'need(BitcoinScalingTestnet, raw, h, time)', mod=M, abstract='bits', seeds='headers')
def scaling_early(raw: Fn[Bytes[80]], h: Range[1, 2200], time: UInt[32]):
    return testnet(BitcoinScalingTestnet, raw, h, time, 2200, False)


@ob('C35', 'need(BitcoinScalingTestnet, raw, h, time)', mod=M, abstract='bits', seeds='headers', pre='ascending(raw, h - 144) and ascending(raw, h)')
def scaling_daa(raw: Fn[Bytes[80]], h: Range[2201, 4294967295], time: UInt[32]):
    return testnet(BitcoinScalingTestnet, raw, h, time, 2200, False)


# ------------------------------------------------------------------ the last height of one rule and the first of the next
EDGE = 'ascending(raw, %d) and ascending(raw, %d)'


@ob('C35', 'need(BitcoinScalingTestnet, raw, 2200, time)', mod=M, abstract='bits', seeds='headers', pre=EDGE % (2056, 2200) + ' and bits_of(raw(2199)) != BitcoinScalingTestnet.genesis_bits')
def scaling_edge_below(raw: Fn[Bytes[80]], time: UInt[32]):
    return testnet(BitcoinScalingTestnet, raw, 2200, time, 2200, False)


@ob('C35', 'need(BitcoinScalingTestnet, raw, 2201, time)', mod=M, abstract='bits', seeds='headers', pre=EDGE % (2057, 2201))
def scaling_edge_above(raw: Fn[Bytes[80]], time: UInt[32]):
    return testnet(BitcoinScalingTestnet, raw, 2201, time, 2200, False)


@ob('C35', 'need(BitcoinTestnet, raw, 1188697, time)', mod=M, abstract='bits', seeds='headers', pre=EDGE % (1188553, 1188697))
def testnet_edge_below(raw: Fn[Bytes[80]], time: UInt[32]):
    return testnet(BitcoinTestnet, raw, 1188697, time, 1188697, True)


@ob('C35', 'need(BitcoinTestnet, raw, 1188698, time)', mod=M, abstract='bits', seeds='headers', pre=EDGE % (1188554, 1188698))
def testnet_edge_above(raw: Fn[Bytes[80]], time: UInt[32]):
    return testnet(BitcoinTestnet, raw, 1188698, time, 1188697, True)
