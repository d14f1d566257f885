"""Reference: BIP39 mnemonics and word lists."""
import hashlib
from unicodedata import normalize
from vt import ob, expect, anything, urandom, sha256hex, AnyError
from bitcoinx import BIP39Mnemonic, ElectrumMnemonic, Wordlists

M = 'specs.c37_mnemonic'


def sha(b):
    return hashlib.sha256(b).digest()


# ------------------------------------------------------------------ entropy to words
def words_of(entropy, wordlist):
    """the bits of entropy and checksum, eleven for each word"""
    size = len(entropy)
    bits = int.from_bytes(entropy, 'big') << (size // 4) | sha(entropy)[0] >> (8 - size // 4)
    n = (size * 8 + size // 4) // 11
    return ' '.join([wordlist[(bits >> (11 * (n - 1 - i))) & 2047] for i in range(n)])


def f(size):
    return f'len(e) == {size} and len(w) == 2048'


@ob('C37', 'BIP39Mnemonic._from_entropy(e, w)', pre='len(e) in (16, 20, 24, 28, 32) and len(w) == 2048', seeds='bip39')
def from_entropy(e: Bytes, w: Seq[Str]):
    return words_of(e, w)


@ob('C37 C22', 'BIP39Mnemonic.generate(w, bits)', seeds='bip39')
def generate(w: Seq[Str], bits: Int):
    if len(w) != 2048 or bits not in (128, 160, 192, 224, 256):
        raise ValueError
    return words_of(urandom(bits // 8), w)


@ob('C37 C22', 'BIP39Mnemonic.generate(w)', seeds='bip39', pre='len(w) == 2048')
def generate_default(w: Seq[Str]):
    return words_of(urandom(16), w)


# ------------------------------------------------------------------ normalization and seed
def normal(s):
    return ' '.join(normalize('NFKD', s).split()).lower()


@ob('C37', 'BIP39Mnemonic.normalize(s)')
def normalized(s: Str):
    return normal(s)


@ob('C37', 'BIP39Mnemonic.to_seed(s, p)')
def to_seed(s: Str, p: Str):
    return hashlib.pbkdf2_hmac('sha512', normal(s).encode(), b'mnemonic' + normalize('NFKD', p).encode(), 2048)


# ------------------------------------------------------------------ validity
@ob('C37', 'BIP39Mnemonic.is_valid(s, w)', mod=M, pre='len(w) == 2048 and len(normal(s).split()) not in (12, 15, 18, 21, 24)', seeds='bip39')
def wrong_count(s: Str, w: Seq[Str]):
    return False


@ob('C37', 'BIP39Mnemonic.is_valid(s, w)', pre='len(w) != 2048')
def wrong_list(s: Str, w: Seq[Str]):
    raise ValueError


def known(s, w, n, bad=()):
    """the text has n words, all in the list but those at the positions in bad"""
    words = normal(s).split()
    if len(words) != n:
        return False
    for i in range(n):
        if (words[i] in w) != (i not in bad):
            return False
    return True


def checks(s, w, n):
    """eleven bits for each word; the last n / 3 bits are the first of the hash of those before"""
    words = normal(s).split()
    bits = 0
    for i in range(n):
        bits = bits * 2048 + w.index(words[i])
    k = n // 3
    entropy = (bits >> k).to_bytes(n * 4 // 3, 'big')
    return sha(entropy)[0] >> (8 - k) == bits & ((1 << k) - 1)


@ob('C37', 'BIP39Mnemonic.is_valid(s, w)', mod=M, pre='len(w) == 2048 and known(s, w, 12)', seeds='bip39')
def valid12(s: Str, w: Seq[Str]):
    return checks(s, w, 12)


@ob('C37', 'BIP39Mnemonic.is_valid(s, w)', mod=M, pre='len(w) == 2048 and known(s, w, 15)', seeds='bip39')
def valid15(s: Str, w: Seq[Str]):
    return checks(s, w, 15)


@ob('C37', 'BIP39Mnemonic.is_valid(s, w)', mod=M, pre='len(w) == 2048 and known(s, w, 18)', seeds='bip39')
def valid18(s: Str, w: Seq[Str]):
    return checks(s, w, 18)


@ob('C37', 'BIP39Mnemonic.is_valid(s, w)', mod=M, pre='len(w) == 2048 and known(s, w, 21)', seeds='bip39')
def valid21(s: Str, w: Seq[Str]):
    return checks(s, w, 21)


@ob('C37', 'BIP39Mnemonic.is_valid(s, w)', mod=M, pre='len(w) == 2048 and known(s, w, 24)', seeds='bip39')
def valid24(s: Str, w: Seq[Str]):
    return checks(s, w, 24)


def bad_words(s, w):
    try:
        return BIP39Mnemonic.is_valid(s, w)
    except BIP39Mnemonic.BadWords as e:
        return e.args


@ob('C37', 'bad_words(s, w)', mod=M, pre='len(w) == 2048 and known(s, w, 12, (0, 7, 11))', seeds='bip39')
def words_not_in_list(s: Str, w: Seq[Str]):
    words = normal(s).split()
    return ([words[0], words[7], words[11]], )


@ob('C37', 'bad_words(s, w)', mod=M, pre='len(w) == 2048 and known(s, w, 24, (23, ))', seeds='bip39')
def last_word_not_in_list(s: Str, w: Seq[Str]):
    return ([normal(s).split()[23]], )


# ------------------------------------------------------------------ word lists
def digest(words):
    return len(words), sha256hex(''.join([w + '\n' for w in words]).encode())


@ob('C37', 'digest(Wordlists.bip39_wordlist("english.txt"))', mod=M)
def english():
    return 2048, '2f5eed53a4727b4bf8880d8f3f199efc90e58503646d9ff8eff3a2ed3b24dbda'


@ob('C37', 'digest(Wordlists.bip39_wordlist("japanese.txt"))', mod=M)
def japanese():
    return 2048, '2eed0aef492291e061633d7ad8117f1a2b03eb80a29d0e4e3117ac2528d05ffd'


@ob('C37', 'digest(Wordlists.bip39_wordlist("spanish.txt"))', mod=M)
def spanish():
    return 2048, '46846a5a0139d1e3cb77293e521c2865f7bcdb82c44e8d0a06a2cd0ecba48c0b'


@ob('C37', 'digest(Wordlists.bip39_wordlist("chinese_simplified.txt"))', mod=M)
def chinese():
    return 2048, '5c5942792bd8340cb8b27cd592f1015edf56a8c5b26276ee18a482428e7c5726'


@ob('C37 C38', 'digest(Wordlists.original_electrum_wordlist())', mod=M)
def electrum():
    return 1626, "c8da327d316f8ee758b790068e618077ac271a89fd77ec1250c59ae40e7b599e"


def reading(name):
    first = Wordlists.bip39_wordlist(name)
    return first, Wordlists.bip39_wordlist('spanish.txt')[0], Wordlists.bip39_wordlist(name) == first


@ob('C37', 'reading("english.txt")[1:]', mod=M)
def lists_kept_apart():
    return normalize('NFKD', 'ábaco'), True


def text_words(text):
    return [w.lower() for w in [line.strip() for line in normalize('NFKD', text).split('\n')] if w and w[0] != '#']


@ob('C37', 'Wordlists._text_to_wordlist(t, None)')
def parsed(t: Str):
    words = text_words(t)
    if any(' ' in w for w in words):
        raise SyntaxError
    return words


@ob('C37', 'Wordlists._text_to_wordlist(t, n)')
def parsed_count(t: Str, n: Int):
    words = text_words(t)
    if any(' ' in w for w in words) or len(words) != n:
        raise SyntaxError
    return words
