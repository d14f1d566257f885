"""Reference: Electrum mnemonics, old and new."""
import hashlib, hmac
from unicodedata import normalize
from vt import ob, expect, anything, urandom, AnyError
from bitcoinx import ElectrumMnemonic, Wordlists
from bitcoinx.mnemonic import _random_integer

M = 'specs.c38_electrum'


# ------------------------------------------------------------------ new-style mnemonics
def version(s):
    return hmac.digest(b'Seed version', normalize('NFKD', s).lower().encode(), 'sha512').hex()


@ob('C38', 'ElectrumMnemonic.is_valid_new(s, p)')
def is_valid_new(s: Str, p: Str):
    return version(s)[:len(p)] == p


@ob('C38', 'ElectrumMnemonic.normalize_new(s)')
def normalize_new(s: Str):
    return ' '.join(s.lower().split())


@ob('C38', 'ElectrumMnemonic.normalize_old(s)')
def normalize_old(s: Str):
    return ' '.join(s.lower().split())


def digits(n, base):
    """least significant first"""
    r = []
    while n:
        r.append(n % base)
        n //= base
    return r


@ob('C38', 'ElectrumMnemonic._from_entropy(e, w)', pre='e >= 0 and len(w) >= 2', seeds='wordlist')
def from_entropy(e: Int, w: Seq[Str]):
    return ' '.join([w[d] for d in digits(e, len(w))])


# ------------------------------------------------------------------ old-style mnemonics
@ob('C38 C22', 'ElectrumMnemonic.generate_old_seed(word_count=n)')
def generate_old_seed(n: Int):
    if n == 12:
        return urandom(16).hex()
    if n == 24:
        return urandom(32).hex()
    raise ValueError


@ob('C38 C22', 'ElectrumMnemonic.generate_old_seed()')
def generate_old_seed_default():
    return urandom(16).hex()


def old_words(value, n):
    """three words for 32 bits, each relative to the one before"""
    a = value % n
    b = (value // n + a) % n
    c = (value // n // n + b) % n
    return [a, b, c]


@ob('C38', 'ElectrumMnemonic.hex_seed_to_old(b.hex())', pre='len(b) in (16, 32)')
def hex_seed_to_old(b: Bytes):
    w = Wordlists.original_electrum_wordlist()
    r = []
    for i in range(0, len(b), 4):
        r = r + old_words(int.from_bytes(b[i:i + 4], 'big'), 1626)
    return ' '.join([w[i] for i in r])


@ob('C38', 'ElectrumMnemonic.hex_seed_to_old(h)', pre='len(h) not in (32, 64)')
def hex_seed_length(h: Str):
    raise ValueError


def known(s, n, bad=()):
    """the text has n words, all in the list but those at the positions in bad"""
    w = Wordlists.original_electrum_wordlist()
    words = s.lower().split()
    if len(words) != n:
        return False
    for i in range(n):
        if (words[i] in w) != (i not in bad):
            return False
    return True


def part(w, a, b, c):
    i, j, k = w.index(a), w.index(b), w.index(c)
    return i + (j - i) % 1626 * 1626 + (k - j) % 1626 * 1626 * 1626


def old_parts(s):
    w = Wordlists.original_electrum_wordlist()
    words = s.lower().split()
    return [part(w, words[i], words[i + 1], words[i + 2]) for i in range(0, len(words), 3)]


@ob('C38', 'ElectrumMnemonic.old_to_hex_seed(s)', pre='len(s.lower().split()) not in (12, 24)', abstract='oldwords', seeds='electrum_old')
def old_wrong_count(s: Str):
    raise ValueError


@ob('C38', 'ElectrumMnemonic.old_to_hex_seed(s)', mod=M, pre='known(s, 12)', seeds='electrum_old', abstract='oldwords')
def old_to_hex_12(s: Str):
    r = b''
    for x in old_parts(s):
        if x >= 1 << 32:
            raise ValueError
        r = r + x.to_bytes(4, 'big')
    return r.hex()


@ob('C38', 'ElectrumMnemonic.old_to_hex_seed(s)', mod=M, pre='known(s, 12, (5, ))', seeds='electrum_old', abstract='oldwords')
def old_unknown_word(s: Str):
    raise ValueError


@ob('C38', 'ElectrumMnemonic.old_to_hex_seed(s)', mod=M, pre='known(s, 24)', seeds='electrum_old', abstract='oldwords')
def old_to_hex_24(s: Str):
    r = b''
    for x in old_parts(s):
        if x >= 1 << 32:
            raise ValueError
        r = r + x.to_bytes(4, 'big')
    return r.hex()


def fits(s):
    for x in old_parts(s):
        if x >= 1 << 32:
            return False
    return True


@ob('C38', 'ElectrumMnemonic.is_valid_old(s)', mod=M, pre='known(s, 12)', seeds='electrum_old', abstract='oldwords')
def valid_old_12(s: Str):
    return fits(s) or is_hex(s)


def is_hex(s):
    try:
        return len(bytes.fromhex(s)) in (16, 32)
    except ValueError:
        return False


@ob('C38', 'ElectrumMnemonic.is_valid_old(s)', mod=M, pre='len(s.lower().split()) not in (12, 24)', abstract='oldwords', seeds='electrum_old')
def valid_old_hex(s: Str):
    return is_hex(s)


@ob('C38', 'ElectrumMnemonic.is_valid_old(s)', mod=M, pre='known(s, 12, (5, ))', seeds='electrum_old', abstract='oldwords')
def valid_old_unknown_word(s: Str):
    return is_hex(s)


# ------------------------------------------------------------------ generation
def bounds(n, size):
    """the last word, most significant, is not the first of the list: size^(n - 1) < value < size^n"""
    return size ** (n - 1) + 1, size ** n


def random_value(n, size, width):
    low, high = bounds(n, size)
    while True:
        value = int.from_bytes(urandom(width), 'big') % high
        if value > low:
            return value, 1 if value < (low + high) // 2 else -1


@ob('C38 C22', '_random_integer(12, 2048)', mod='bitcoinx.mnemonic')
def random_12_words():
    return random_value(12, 2048, 19)


@ob('C38 C22', '_random_integer(24, 2048)', mod='bitcoinx.mnemonic')
def random_24_words():
    return random_value(24, 2048, 35)


@ob('C38 C22', '_random_integer(13, 1626)', mod='bitcoinx.mnemonic')
def random_short_list():
    return random_value(13, 1626, 20)


def searched(w, p, skip, n, width):
    """from a random start, step by step to the first value that makes a valid mnemonic"""
    value, delta = random_value(n, 2048, width)
    while True:
        r = ' '.join([w[d] for d in digits(value, 2048)])
        if ElectrumMnemonic.is_valid_new(r, p) and not (skip and ElectrumMnemonic.is_valid_old(r)):
            return r
        value += delta


@ob('C38', 'ElectrumMnemonic.generate_new(w[:2048], prefix=p, skip_old=skip)', pre='len(w) >= 2048', abstract='electrum', effects=False, seeds='wordlist')
def generate_12_words(w: Seq[Str], p: Str, skip: Bool):
    return searched(w, p, skip, 12, 19)


@ob('C38', 'ElectrumMnemonic.generate_new(w[:2048], bits=264)', pre='len(w) >= 2048', abstract='electrum', effects=False, seeds='wordlist')
def generate_24_words(w: Seq[Str]):
    return searched(w, '01', True, 24, 35)


@ob('C38', 'ElectrumMnemonic.generate_new(w[:2048], bits=133, prefix="101", skip_old=False)', pre='len(w) >= 2048', abstract='electrum', effects=False, seeds='wordlist')
def generate_13_words(w: Seq[Str]):
    return searched(w, '101', False, 13, 20)


@ob('C38', 'ElectrumMnemonic.generate_new(w, bits=bits)', pre='len(w) < 2048 or bits < 132', seeds='wordlist')
def generate_new_bounds(w: Seq[Str], bits: Int):
    raise ValueError


@ob('C38', 'ElectrumMnemonic.generate_new(w[:2048], bits=131)', pre='len(w) >= 2048', abstract='electrum', seeds='wordlist')
def too_few_bits(w: Seq[Str]):
    raise ValueError


@ob('C38', 'ElectrumMnemonic.generate_new(w[:2047])', pre='len(w) >= 2047', abstract='electrum', seeds='wordlist')
def short_list(w: Seq[Str]):
    raise ValueError
