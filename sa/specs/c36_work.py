"""Reference: compact "bits", targets, chain work and the difficulty rules."""
from vt import ob, expect, anything
from bitcoinx import Bitcoin, BitcoinTestnet, BitcoinScalingTestnet, BitcoinRegtest, bits_to_target, target_to_bits, bits_to_work

M = 'specs.c36_work'


def decode(bits):
    if bits < 0 or bits > 0x2100ffff:
        raise ValueError
    if bits == 0:
        return 0
    word = bits & 0xffffff
    if word < 0x8000 or word > 0x7fffff:
        raise ValueError
    size = bits >> 24
    if size > 3:
        return word * 256 ** (size - 3)
    if word % 256 ** (3 - size) != 0:
        raise ValueError
    return word // 256 ** (3 - size)


def encode(target):
    """the shortest compact form, truncating"""
    if target < 0 or target >= 1 << 256:
        raise ValueError
    size = 0
    while target >= 256 ** size:
        size += 1
    word = target * 256 ** (3 - size) if size <= 3 else target // 256 ** (size - 3)
    if word >= 0x800000:
        word //= 256
        size += 1
    return word + size * 0x1000000


def by_size(bits):
    """one case per value of the size byte"""
    for k in range(0x22):
        if bits < k * 0x1000000:
            return True
    return True


def by_bits(t):
    """one case per bit length"""
    for k in range(257):
        if t < 2 ** k:
            return True
    return True


def valid(bits):
    try:
        decode(bits)
    except ValueError:
        return False
    return bits != 0


@ob('C36', 'bits_to_target(bits)', mod=M, pre='by_size(bits)')
def bits_target(bits: Int):
    return decode(bits)


@ob('C36', 'target_to_bits(t)', mod=M, pre='by_bits(t)')
def target_bits(t: Int):
    return encode(t)


@ob('C36', 'bits_to_work(bits)', mod=M, pre='by_size(bits)')
def work(bits: Int):
    return 2 ** 256 // (decode(bits) + 1)


@ob('C36', 'target_to_bits(bits_to_target(bits))', mod=M, pre=['by_size(bits)', 'valid(bits)', 'by_bits(decode(bits))'])
def canonical(bits: Range[0x8000, 0x2100ffff]):
    return bits


@ob('C36', 'bits_to_target(target_to_bits(t)) <= t', mod=M, pre='by_bits(t)')
def rounds_down(t: Range[0, 0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff]):
    return True
