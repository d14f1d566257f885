"""Reference: which exceptions decoders may raise for arbitrary input."""
import struct
from vt import ob, only, AnyError
from bitcoinx import *
from bitcoinx.keys import DecryptionError

M = 'specs.c41_errors'


@ob('C41', 'PublicKey.from_bytes(b)')
def public_key_bytes(b: Bytes):
    return only(ValueError)


@ob('C41', 'PublicKey.from_hex(s)')
def public_key_hex(s: Str):
    return only(ValueError)


@ob('C41', 'PrivateKey(b)')
def private_key_bytes(b: Bytes):
    return only(ValueError)


@ob('C41', 'PrivateKey.from_hex(s)')
def private_key_hex(s: Str):
    return only(ValueError)


@ob('C41', 'PrivateKey.from_WIF(s)', abstract='base58')
def private_key_wif(s: Str):
    return only(ValueError)


@ob('C41', 'PrivateKey.from_text(s)', abstract='base58')
def private_key_text(s: Str):
    return only(ValueError)


@ob('C41', 'base58_decode_check(s)', abstract='base58')
def base58_check(s: Str):
    return only(Base58Error)


@ob('C41', 'bip32_key_from_string(s)', abstract='base58')
def extended_key(s: Str):
    return only(ValueError)


@ob('C41', 'bip32_decompose_chain_string(s)')
def chain_string(s: Str):
    return only(ValueError)


@ob('C41', 'Address.from_string(s, Bitcoin)', abstract='base58 cashaddr')
def address(s: Str):
    return only(ValueError)


@ob('C41', 'Signature(b)')
def signature(b: Bytes):
    return only(InvalidSignatureError)


@ob('C41', 'Signature.from_hex(s)')
def signature_hex(s: Str):
    return only(ValueError)


@ob('C41', 'der_signature_to_compact(b)')
def der(b: Bytes):
    return only(InvalidSignatureError)


@ob('C41', 'Script.from_hex(s)')
def script_hex(s: Str):
    return only(ValueError)


@ob('C41', 'list(Script(b).ops())', KW=2, erase=True)
def ops(b: Bytes):
    return only(TruncatedScriptError)


@ob('C41', 'Script(b).to_asm(d)', KW=2, erase=True, abstract='asmword')
def asm(b: Bytes, d: Bool):
    return only()


@ob('C41', 'classify_output_script(Script(b), Bitcoin)', abstract='template', ignore='output_script_templates')
def classified(b: Bytes):
    return only()


@ob('C41', 'hex_str_to_hash(s)')
def hash_text(s: Str):
    return only(ValueError)


@ob('C41', 'ElectrumMnemonic.is_valid_old(s)', abstract='oldwords', seeds='electrum_old', pre='len(s.lower().split()) < 13')
def old_mnemonic(s: Str):
    return only()


@ob('C41', 'ElectrumMnemonic.is_valid_new(s, p)')
def new_mnemonic(s: Str, p: Str):
    return only(ValueError)


@ob('C41', 'ElectrumMnemonic.old_to_hex_seed(s)', abstract='oldwords', seeds='electrum_old', pre='len(s.lower().split()) < 13')
def old_seed(s: Str):
    return only(ValueError)


@ob('C41', 'bip32_is_valid_chain_string(s)')
def chain_string_test(s: Str):
    return only()


@ob('C41', 'Tx.from_hex(s)', pre='len(s) < 20')
def tx_hex(s: Str):
    return only(ValueError, struct.error)


@ob('C41', 'TxOutput.from_bytes(b)')
def tx_output(b: Bytes):
    return only(struct.error)


@ob('C41', 'TxInput.from_bytes(b)')
def tx_input(b: Bytes):
    return only(struct.error)
