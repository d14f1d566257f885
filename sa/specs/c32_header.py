"""Reference: block headers and the constants of the coins."""
import hashlib
from vt import ob, expect, anything, AnyError
from bitcoinx import (Bitcoin, BitcoinTestnet, BitcoinScalingTestnet, BitcoinRegtest, Coin, Header, all_coins, bits_to_target,
                      bits_to_work)

M = 'specs.c32_header'


def dsha(b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


def u32(raw, at):
    return int.from_bytes(raw[at:at + 4], 'little')


def header(raw, height):
    return expect('Header', version=int.from_bytes(raw[:4], 'little', signed=True), prev_hash=raw[4:36], merkle_root=raw[36:68],
                  timestamp=u32(raw, 68), bits=u32(raw, 72), nonce=u32(raw, 76), hash=dsha(raw), raw=raw, height=height)


@ob('C32', 'Bitcoin.deserialized_header(raw, h)')
def deserialized(raw: Bytes[80], h: Int):
    return header(raw, h)


@ob('C32', 'Bitcoin.deserialized_header(raw, 0)', pre='len(raw) != 80')
def deserialized_size(raw: Bytes):
    raise AnyError


@ob('C32', '(Bitcoin.header_hash(raw), Bitcoin.header_prev_hash(raw), Bitcoin.header_timestamp(raw), Bitcoin.header_bits(raw))')
def fields(raw: Bytes[80]):
    return dsha(raw), raw[4:36], u32(raw, 68), u32(raw, 72)


@ob('C32', 'work(raw)', mod=M, abstract='bits')
def header_work(raw: Bytes[80]):
    b = u32(raw, 72)
    return bits_to_work(b), bits_to_work(b), bits_to_target(b)


def work(raw):
    h = Bitcoin.deserialized_header(raw, 0)
    return Bitcoin.header_work(raw), h.work(), h.target()


@ob('C32', 'hashes(raw)', mod=M)
def header_hashes(raw: Bytes[80]):
    h = dsha(raw)
    return int.from_bytes(h, 'little'), h[::-1].hex()


def hashes(raw):
    h = Bitcoin.deserialized_header(raw, 0)
    return h.hash_value(), h.hex_str()


@ob('C32', 'difficulty(raw)', mod=M, abstract='bits', pre='bits_to_target(int.from_bytes(raw[72:76], "little")) > 0')
def header_difficulty(raw: Bytes[80]):
    t = bits_to_target(u32(raw, 72))
    m = 0xffff << 208
    return m / t, m / t, m / t


def difficulty(raw):
    b = u32(raw, 72)
    return Bitcoin.deserialized_header(raw, 0).difficulty(), Bitcoin.bits_to_difficulty(b), BitcoinTestnet.bits_to_difficulty(b)


# ------------------------------------------------------------------ coins
def constants(c):
    return (c.genesis_header, c.genesis_bits, c.max_target, c.P2PKH_verbyte, c.P2SH_verbyte, c.WIF_byte, c.xpub_verbytes,
            c.xprv_verbytes, c.cashaddr_prefix)


def main():
    raw = genesis(0x495fab29, 0x7c2bac1d)
    return raw, 0x1d00ffff, 0xffff << 208, 0, 5, 128, b'\x04\x88\xb2\x1e', b'\x04\x88\xad\xe4', 'bitcoincash'


def test():
    raw = genesis(0x4d49e5da, 0x18aea41a)
    return raw, 0x1d00ffff, 0xffff << 208, 0x6f, 0xc4, 0xef, b'\x04\x35\x87\xcf', b'\x04\x35\x83\x94', 'bchtest'


def genesis(time, nonce):
    root = bytes.fromhex('4a5e1e4baab89f3a32518a88c31bc87f618f76673e2cc77ab2127b7afdeda33b')[::-1]
    return (b'\1\0\0\0' + bytes(32) + root + time.to_bytes(4, 'little') + (0x1d00ffff).to_bytes(4, 'little')
            + nonce.to_bytes(4, 'little'))


@ob('C39', 'constants(Bitcoin)', mod=M)
def mainnet():
    return main()


@ob('C39', '(constants(BitcoinTestnet), constants(BitcoinScalingTestnet), constants(BitcoinRegtest))', mod=M)
def testnets():
    return test(), test(), test()


@ob('C39', '[c is d for c in all_coins for d in (Bitcoin, BitcoinTestnet, BitcoinScalingTestnet, BitcoinRegtest)]', mod=M)
def coins():
    return [i == j for i in range(4) for j in range(4)]


@ob('C39 C17', 'Coin.from_WIF_byte(b)')
def wif_byte(b: Int):
    if b == 0x80:
        return Bitcoin
    if b == 0xef:
        return BitcoinTestnet
    raise ValueError


@ob('C39 C24', 'Coin.lookup_xver_bytes(b)')
def xver_bytes(b: Bytes):
    if b == b'\x04\x88\xb2\x1e':
        return Bitcoin, True
    if b == b'\x04\x88\xad\xe4':
        return Bitcoin, False
    if b == b'\x04\x35\x87\xcf':
        return BitcoinTestnet, True
    if b == b'\x04\x35\x83\x94':
        return BitcoinTestnet, False
    raise ValueError
