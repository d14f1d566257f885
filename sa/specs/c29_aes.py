"""Reference: AES-CBC with PKCS#7 padding, with either back end."""
from vt import ob, aes
from bitcoinx.aes import BadPaddingError


def pad(m):
    n = 16 - len(m) % 16
    return m + bytes([n]) * n


def unpad(d):
    if len(d) == 0 or len(d) % 16 != 0:
        raise BadPaddingError
    n = d[len(d) - 1]
    if n < 1 or n > 16 or d[len(d) - n:] != bytes([n]) * n:
        raise BadPaddingError
    return d[:len(d) - n]


@ob('C29', 'aes_encrypt_with_iv(k, v, d)', mod='bitcoinx.aes')
def encrypt(k: Bytes[16], v: Bytes[16], d: Bytes):
    return aes('encrypt', k, v, pad(d))


@ob('C29', 'aes_encrypt_with_iv(k, v, d)', mod='bitcoinx.aes', without='Cryptodome')
def encrypt_pure(k: Bytes[16], v: Bytes[16], d: Bytes):
    return aes('encrypt', k, v, pad(d))


@ob('C29', 'aes_decrypt_with_iv(k, v, d)', mod='bitcoinx.aes', pre='len(d) % 16 == 0')
def decrypt(k: Bytes[16], v: Bytes[16], d: Bytes):
    return unpad(aes('decrypt', k, v, d))


@ob('C29', 'aes_decrypt_with_iv(k, v, d)', mod='bitcoinx.aes', pre='len(d) % 16 == 0', without='Cryptodome')
def decrypt_pure(k: Bytes[16], v: Bytes[16], d: Bytes):
    return unpad(aes('decrypt', k, v, d))


@ob('C29', 'aes_decrypt_with_iv(k, v, d)', mod='bitcoinx.aes', pre='len(d) % 16 != 0')
def decrypt_ragged(k: Bytes[16], v: Bytes[16], d: Bytes):
    raise Exception


@ob('C29', 'aes_decrypt_with_iv(k, v, d)', mod='bitcoinx.aes', pre='len(d) % 16 != 0', without='Cryptodome')
def decrypt_ragged_pure(k: Bytes[16], v: Bytes[16], d: Bytes):
    raise Exception


@ob('C29', 'aes_decrypt_with_iv(k, v, aes_encrypt_with_iv(k, v, d))', mod='bitcoinx.aes')
def round_trip(k: Bytes[16], v: Bytes[16], d: Bytes):
    return d


@ob('C29', 'aes_decrypt_with_iv(k, v, aes_encrypt_with_iv(k, v, d))', mod='bitcoinx.aes', without='Cryptodome')
def round_trip_pure(k: Bytes[16], v: Bytes[16], d: Bytes):
    return d
