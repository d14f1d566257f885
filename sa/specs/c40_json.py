"""Reference: the JSON form of transactions and scripts, ASM of signatures, locktime text."""
import datetime
import hashlib
from vt import ob, expect, anything, nat, AnyError
from bitcoinx import (Tx, TxInput, TxOutput, Script, SigHash, JSONFlags, Bitcoin, BitcoinTestnet, P2PKH_Address, P2SH_Address,
                      P2PK_Output, OP_RETURN_Output, PublicKey, classify_output_script, InvalidSignatureError)
from bitcoinx.tx import locktime_description
from specs.c30_sighash import der_compact, sighash_to_string


class shape_TxInput:
    prev_hash: Bytes[32]
    prev_idx: UInt[32]
    script_sig: Script
    sequence: UInt[32]


class shape_TxOutput:
    value: SInt[64]
    script_pubkey: Script


class shape_Tx:
    version: SInt[32]
    inputs: List[TxInput]
    outputs: List[TxOutput]
    locktime: UInt[32]


class shape_Script:
    how = 'ctor'
    script: Bytes


# ------------------------------------------------------------------ flags
@ob('C40', '[int(f) for f in JSONFlags]')
def flags():
    return [1, 2, 4, 8, 16, 32]


# ------------------------------------------------------------------ signatures in ASM
@ob('C40 C10', 'Script.op_to_asm_word(op, True)', pre='9 <= len(op) and len(op) <= 73 and op[0] == 0x30')
def asm_word_of_signature(op: Bytes):
    try:
        der_compact(op[:-1])
    except InvalidSignatureError:
        return op.hex()
    return f'{op[:-1].hex()}[{sighash_to_string(op[-1])}]'


# ------------------------------------------------------------------ scripts
@ob('C40', 'Script(b).to_json(f, True, None)', abstract='asm')
def script_sig(b: Bytes, f: Range[0, 63]):
    return {'asm': Script(b).to_asm(True), 'hex': b.hex()}


@ob('C40', 'Script(b).to_json(f, False, Bitcoin)', pre='f & 16 == 0', abstract='asm')
def script_pubkey(b: Bytes, f: Range[0, 63]):
    return {'asm': Script(b).to_asm(False), 'hex': b.hex()}


# ------------------------------------------------------------------ locktime
@ob('C40', 'locktime_description(t)', mod='bitcoinx.tx')
def locktime(t: UInt[32]):
    if t == 0:
        return 'valid in any block'
    if t < 500000000:
        return f'valid in blocks with height greater than {t:,}'
    d = datetime.datetime.utcfromtimestamp(t)
    return 'valid in blocks with MTP greater than ' + d.isoformat(' ') + ' UTC'


# ------------------------------------------------------------------ inputs and outputs
def input_json(i, f, n):
    b = bytes(i.script_sig)
    if i.prev_hash == bytes(32) and i.prev_idx == 0xffffffff:
        r = {'coinbase': b.hex(), 'text': b.decode(errors='replace'), 'sequence': i.sequence}
    else:
        r = {'hash': i.prev_hash.hex(), 'idx': i.prev_idx, 'script': i.script_sig.to_json(f, True, None), 'sequence': i.sequence}
    if f & 1 and n is not None:
        r['nInput'] = n
    return r


@ob('C40', 'i.to_json(f, n)', abstract='asm')
def input_(i: TxInput, f: Range[0, 63], n: Union[Int, None]):
    return input_json(i, f, n)


@ob('C40', 'i.to_json(f)', abstract='asm')
def input_alone(i: TxInput, f: Range[0, 63]):
    return input_json(i, f, None)


def output_json(o, f, coin, n):
    r = {'value': o.value, 'script': o.script_pubkey.to_json(f, False, coin)}
    if f & 2 and n is not None:
        r['nOutput'] = n
    return r


@ob('C40', 'o.to_json(f, Bitcoin, n)', abstract='asm')
def output(o: TxOutput, f: Range[0, 15], n: Union[Int, None]):
    return output_json(o, f, Bitcoin, n)


@ob('C40', 'o.to_json(f, Bitcoin)', abstract='asm')
def output_alone(o: TxOutput, f: Range[0, 15]):
    return output_json(o, f, Bitcoin, None)


def hex_hash(t):
    return hashlib.sha256(hashlib.sha256(t.to_bytes()).digest()).digest()[::-1].hex()


def tx_json(t, f):
    r = {'version': t.version, 'nInputs': len(t.inputs),
         'vin': [input_json(i, f, n) for n, i in enumerate(t.inputs)],
         'nOutputs': len(t.outputs),
         'vout': [output_json(o, f, Bitcoin, n) for n, o in enumerate(t.outputs)],
         'locktime': t.locktime, 'hash': hex_hash(t)}
    if f & 8:
        r['locktimeMeaning'] = locktime_description(t.locktime)
    return r


@ob('C40', 't.to_json(0, Bitcoin)', abstract='asm', K=1)
def tx_plain(t: Tx):
    return tx_json(t, 0)


@ob('C40', 't.to_json(11, Bitcoin)', abstract='asm', K=1)
def tx_numbered(t: Tx):
    return tx_json(t, 11)


@ob('C40', 't.to_json(JSONFlags.SIZE, Bitcoin)["size"]', abstract='asm', K=1)
def tx_size(t: Tx):
    return len(t.to_bytes())


# ------------------------------------------------------------------ classified output scripts
def classified(script, kind, more):
    return {'asm': script.to_asm(False), 'hex': bytes(script).hex(), 'type': kind, **more}


@ob('C40', 'P2PKH_Address(h, BitcoinTestnet).to_script().to_json(16, False, BitcoinTestnet)', abstract='asm base58', ignore='output_script_templates')
def json_p2pkh(h: Bytes[20]):
    a = P2PKH_Address(h, BitcoinTestnet)
    return classified(a.to_script(), 'pubkeyhash', {'address': a.to_string()})


@ob('C40', 'P2SH_Address(h, Bitcoin).to_script().to_json(63, False, Bitcoin)', abstract='asm base58', ignore='output_script_templates')
def json_p2sh(h: Bytes[20]):
    return classified(P2SH_Address(h, Bitcoin).to_script(), 'scripthash', {})


@ob('C40', 'P2PK_Output(b, Bitcoin).to_script().to_json(16, False, Bitcoin)', abstract='asm base58', ignore='output_script_templates')
def json_p2pk(b: Bytes):
    script = P2PK_Output(b, Bitcoin).to_script()
    out = classify_output_script(script, Bitcoin)
    if out.KIND == 'unknown':
        return classified(script, 'unknown', {})
    return classified(script, 'pubkey', {'pubkey': out.public_key.to_hex(), 'address': out.to_address().to_string()})


@ob('C40', 'Script(b"\\x00\\x6a\\x04" + b).to_json(16, False, Bitcoin)', abstract='asm', ignore='output_script_templates')
def json_op_return(b: Bytes[4]):
    return classified(Script(b'\x00\x6a\x04' + b), 'op_return', {})


@ob('C40', 'TxOutput(v, P2PKH_Address(h, BitcoinTestnet).to_script()).to_json(18, BitcoinTestnet, 7)', abstract='asm base58', ignore='output_script_templates')
def json_output(v: SInt[64], h: Bytes[20]):
    a = P2PKH_Address(h, BitcoinTestnet)
    return {'value': v, 'script': classified(a.to_script(), 'pubkeyhash', {'address': a.to_string()}), 'nOutput': 7}


@ob('C40', 'Tx(1, [], [TxOutput(v, P2PKH_Address(h, BitcoinTestnet).to_script())], t).to_json(16, BitcoinTestnet)["vout"]', abstract='asm base58', ignore='output_script_templates')
def json_tx_output(v: SInt[64], h: Bytes[20], t: UInt[32]):
    a = P2PKH_Address(h, BitcoinTestnet)
    return [{'value': v, 'script': classified(a.to_script(), 'pubkeyhash', {'address': a.to_string()})}]
