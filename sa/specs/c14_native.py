"""Reference: whatever arguments the public API is given, the curve library is only called within its contract.

A call outside it (a buffer shorter than what the C function reads or writes, a declared length beyond the buffer, a recovery id
out of range, an empty list of keys) is represented by an exception that no handler catches and no obligation here allows."""
from vt import ob, only
from bitcoinx import (PrivateKey, PublicKey, BIP32PrivateKey, BIP32PublicKey, BIP32Derivation, Bitcoin, P2PKH_Address,
                      der_signature_to_compact, compact_signature_to_der, bip32_key_from_string)


class shape_PrivateKey:
    how = 'ctor'
    secret: Bytes[32]
    compressed: Bool


@ob('C14', 'PrivateKey(x)')
def private_key(x: Union[Bytes, Str, Int, None, List[UInt[8]]]):
    return only(Exception)


@ob('C14', 'PrivateKey(bytearray(x))')
def private_key_bytearray(x: Bytes):
    return only(Exception)


@ob('C14', 'PrivateKey.from_hex(s), PrivateKey.from_minikey(s)')
def private_key_text(s: Str):
    return only(Exception)


@ob('C14', 'PrivateKey.from_int(n).public_key')
def private_key_int(n: Int):
    return only(Exception)


@ob('C14', 'PrivateKey.from_arbitrary_bytes(b).public_key')
def private_key_arbitrary(b: Bytes):
    return only(Exception)


@ob('C14', 'k.add(x)')
def add(k: PrivateKey, x: Union[Bytes, Str, Int, None, List[UInt[8]]]):
    return only(Exception)


@ob('C14', 'k.multiply(x)')
def multiply(k: PrivateKey, x: Union[Bytes, Str, Int, None, List[UInt[8]]]):
    return only(Exception)


@ob('C14', 'PublicKey.from_bytes(a)')
def parse(a: Union[Bytes, Str, Int, None, List[UInt[8]]]):
    return only(Exception)


@ob('C14', 'PublicKey.from_bytes(a).to_bytes(compressed=c)')
def serialize(a: Bytes, c: Union[Bool, Int, None]):
    return only(Exception)


@ob('C14', 'PublicKey.from_bytes(a).to_hex(compressed=c), PublicKey.from_bytes(a).hash160(compressed=c), PublicKey.from_bytes(a).to_point()')
def renderings(a: Bytes, c: Union[Bool, None]):
    return only(Exception)


@ob('C14', 'PublicKey.from_point(x, y)')
def point(x: Int, y: Int):
    return only(Exception)


@ob('C14', 'PublicKey.from_bytes(a).add(x)')
def public_add(a: Bytes, x: Union[Bytes, Str, Int, None, List[UInt[8]]]):
    return only(Exception)


@ob('C14', 'PublicKey.from_bytes(a).multiply(x)')
def public_multiply(a: Bytes, x: Union[Bytes, Str, Int, None, List[UInt[8]]]):
    return only(Exception)


@ob('C14', 'PublicKey.combine_keys([])')
def combine_none():
    return only(Exception)


@ob('C14', 'PublicKey.combine_keys([PublicKey.from_bytes(a)])')
def combine_one(a: Bytes):
    return only(Exception)


@ob('C14', 'PublicKey.combine_keys((PublicKey.from_bytes(a), PublicKey.from_bytes(b)))')
def combine_two(a: Bytes, b: Bytes):
    return only(Exception)


@ob('C14', 'k.sign(m, h)')
def sign(k: PrivateKey, m: Union[Bytes, Str, None, List[UInt[8]]], h: Fn[Bytes]):
    return only(Exception)


@ob('C14', 'k.sign(m, None)')
def sign_hash(k: PrivateKey, m: Union[Bytes, Str, None, List[UInt[8]]]):
    return only(Exception)


@ob('C14', 'k.sign(m, h)')
def sign_odd_hasher(k: PrivateKey, m: Bytes, h: Fn[Union[Bytes, Str, None]]):
    return only(Exception)


@ob('C14', 'k.sign_recoverable(m, None)')
def sign_rec_hash(k: PrivateKey, m: Union[Bytes, Str, None, List[UInt[8]]]):
    return only(Exception)


@ob('C14', 'k.sign_recoverable(m, h)')
def sign_rec(k: PrivateKey, m: Bytes, h: Fn[Bytes]):
    return only(Exception)


@ob('C14', 'k.sign_message(m, h)')
def sign_message(k: PrivateKey, m: Union[Bytes, Str, None], h: Fn[Bytes]):
    return only(Exception)


@ob('C14', 'k.sign_message_to_base64(m, h)')
def sign_message_text(k: PrivateKey, m: Union[Bytes, Str], h: Fn[Bytes]):
    return only(Exception)


@ob('C14', 'PublicKey.from_bytes(a).verify_der_signature(s, m, h)')
def verify_der(a: Bytes, s: Union[Bytes, Str, None, List[UInt[8]]], m: Bytes, h: Fn[Bytes]):
    return only(Exception)


@ob('C14', 'PublicKey.from_bytes(a).verify_der_signature(s, m, None)')
def verify_der_hash(a: Bytes, s: Bytes, m: Union[Bytes, Str, None, List[UInt[8]]]):
    return only(Exception)


@ob('C14', 'PublicKey.from_bytes(a).verify_recoverable_signature(s, m, h)')
def verify_rec(a: Bytes, s: Union[Bytes, Str, None, List[UInt[8]]], m: Bytes, h: Fn[Bytes]):
    return only(Exception)


@ob('C14', 'PublicKey.from_bytes(a).verify_recoverable_signature(s, m, None)')
def verify_rec_hash(a: Bytes, s: Bytes, m: Union[Bytes, Str, None, List[UInt[8]]]):
    return only(Exception)


@ob('C14', 'PublicKey.from_recoverable_signature(s, m, h)')
def recover(s: Union[Bytes, Str, None, List[UInt[8]]], m: Bytes, h: Fn[Bytes]):
    return only(Exception)


@ob('C14', 'PublicKey.from_signed_message(s, m, h)')
def recover_message(s: Union[Bytes, Str, None, List[UInt[8]]], m: Union[Bytes, Str], h: Fn[Bytes]):
    return only(Exception)


@ob('C14', 'PublicKey.from_bytes(a).verify_message(s, m, h)')
def verify_message(a: Bytes, s: Union[Bytes, Str, None, List[UInt[8]]], m: Union[Bytes, Str], h: Fn[Bytes]):
    return only(Exception)


@ob('C14', 'PublicKey.verify_message_and_address(s, m, P2PKH_Address(bytes(20), Bitcoin), hasher=h)')
def verify_address(s: Union[Bytes, Str], m: Bytes, h: Fn[Bytes]):
    return only(Exception)


@ob('C14', 'der_signature_to_compact(s)')
def der_compact(s: Union[Bytes, Str, Int, None, List[UInt[8]]]):
    return only(Exception)


@ob('C14', 'compact_signature_to_der(s)')
def compact_der(s: Union[Bytes, Str, Int, None, List[UInt[8]]]):
    return only(Exception)


@ob('C14', 'compact_signature_to_der(bytearray(s))')
def compact_der_bytearray(s: Bytes):
    return only(Exception)


@ob('C14', 'k.ecdh_shared_secret(PublicKey.from_bytes(a))')
def ecdh(k: PrivateKey, a: Bytes):
    return only(Exception)


@ob('C14', 'k.shared_secret(PublicKey.from_bytes(a), m, h)')
def shared(k: PrivateKey, a: Bytes, m: Bytes, h: Fn[Bytes]):
    return only(Exception)


@ob('C14', 'k.decrypt_message(m)', limit=6000)
def decrypt(k: PrivateKey, m: Union[Bytes, Str]):
    return only(Exception)


@ob('C14', 'BIP32PrivateKey(s, BIP32Derivation(chain_code=c, n=0, depth=0, parent_fingerprint=bytes(4)), Bitcoin).child(n)')
def private_child(s: Bytes, c: Bytes, n: Int):
    return only(Exception)


@ob('C14', 'PublicKey.from_bytes(a).encrypt_message(m)', K=3, effects=False)
def encrypt(a: Bytes, m: Bytes):
    return only(Exception)


@ob('C14', 'bip32_key_from_string(t).child(n)', abstract='base58')
def child_of_text(t: Str, n: Int):
    return only(Exception)
