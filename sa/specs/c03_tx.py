"""Reference: transaction wire format, sizes, ids, finality, signature hashes."""
import hashlib
from io import BytesIO
from struct import error as struct_error
from vt import ob, expect, assume, AnyError
from bitcoinx import Tx, TxInput, TxOutput, Script, SigHash


class shape_TxInput:
    prev_hash: Bytes[32]
    prev_idx: UInt[32]
    script_sig: Script
    sequence: UInt[32]


class shape_TxOutput:
    value: SInt[64]
    script_pubkey: Script


class shape_Tx:
    version: SInt[32]
    inputs: List[TxInput]
    outputs: List[TxOutput]
    locktime: UInt[32]


class shape_Script:
    how = 'ctor'
    script: Bytes


ZERO = bytes(32)


def le(v, n):
    return v.to_bytes(n, 'little')


def varint(n):
    if n < 0xfd:
        return le(n, 1)
    if n < 0x10000:
        return b'\xfd' + le(n, 2)
    if n < 0x100000000:
        return b'\xfe' + le(n, 4)
    return b'\xff' + le(n, 8)


def varint_len(n):
    return 1 if n < 0xfd else 3 if n < 0x10000 else 5 if n < 0x100000000 else 9


def varbytes(b):
    return varint(len(b)) + b


def dsha(b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


def ser_in(i):
    return i.prev_hash + le(i.prev_idx, 4) + varbytes(bytes(i.script_sig)) + le(i.sequence, 4)


def ser_out(o):
    return o.value.to_bytes(8, 'little', signed=True) + varbytes(bytes(o.script_pubkey))


def ser_tx(t):
    return (t.version.to_bytes(4, 'little', signed=True)
            + varint(len(t.inputs)) + b''.join([ser_in(i) for i in t.inputs])
            + varint(len(t.outputs)) + b''.join([ser_out(o) for o in t.outputs])
            + le(t.locktime, 4))


@ob('C03', 'i.to_bytes()')
def input_to_bytes(i: TxInput):
    return ser_in(i)


@ob('C03', 'i.to_hex()')
def input_to_hex(i: TxInput):
    return ser_in(i).hex()


@ob('C03', 'o.to_bytes()')
def output_to_bytes(o: TxOutput):
    return ser_out(o)


@ob('C03', 'o.to_hex()')
def output_to_hex(o: TxOutput):
    return ser_out(o).hex()


@ob('C03', 't.to_bytes()')
def tx_to_bytes(t: Tx):
    return ser_tx(t)


@ob('C03', 't.to_hex()')
def tx_to_hex(t: Tx):
    return ser_tx(t).hex()


@ob('C03', 'i.size()')
def input_size(i: TxInput):
    n = len(bytes(i.script_sig))
    return 40 + varint_len(n) + n


@ob('C03', 'o.size()')
def output_size(o: TxOutput):
    n = len(bytes(o.script_pubkey))
    return 8 + varint_len(n) + n


def tx_len(inputs, outputs):
    a = sum([40 + varint_len(len(bytes(i.script_sig))) + len(bytes(i.script_sig)) for i in inputs])
    b = sum([8 + varint_len(len(bytes(o.script_pubkey))) + len(bytes(o.script_pubkey)) for o in outputs])
    return 8 + varint_len(len(inputs)) + varint_len(len(outputs)) + a + b


@ob('C03', 't.size()')
def tx_size(t: Tx):
    return tx_len(t.inputs, t.outputs)


@ob('C03', 'Tx.size_io(xs, ys)')
def size_io(xs: List[TxInput], ys: List[TxOutput]):
    return tx_len(xs, ys)


# ---- reading
def take(s, n):
    r = s.read(n)
    if len(r) != n:
        raise struct_error
    return r


def r_int(s, n, signed=False):
    return int.from_bytes(take(s, n), 'little', signed=signed)


def r_varint(s):
    n = take(s, 1)[0]
    if n < 0xfd:
        return n
    return r_int(s, 2 if n == 0xfd else 4 if n == 0xfe else 8)


def r_in(s):
    h = take(s, 32)
    i = r_int(s, 4)
    sc = take(s, r_varint(s))
    return TxInput(h, i, Script(sc), r_int(s, 4))


def r_out(s):
    v = r_int(s, 8, True)
    return TxOutput(v, Script(take(s, r_varint(s))))


@ob('C03 C04', 'TxInput.read(s.read)')
def input_read(s: Stream):
    h = take(s, 32)
    i = r_int(s, 4)
    sc = take(s, r_varint(s))
    q = r_int(s, 4)
    return expect('TxInput', prev_hash=h, prev_idx=i, script_sig=expect('Script', bytes_=sc), sequence=q)


@ob('C03 C04', 'TxOutput.read(s.read)')
def output_read(s: Stream):
    v = r_int(s, 8, True)
    sc = take(s, r_varint(s))
    return expect('TxOutput', value=v, script_pubkey=expect('Script', bytes_=sc))


def tx_value(s):
    v = r_int(s, 4, True)
    n = r_varint(s)
    ins = [r_in(s) for k in range(n)]
    m = r_varint(s)
    outs = [r_out(s) for k in range(m)]
    lt = r_int(s, 4)
    return expect('Tx', version=v, inputs=ins, outputs=outs, locktime=lt)


@ob('C03 C04', 'Tx.from_bytes(b)', pre=['len(b) <= 4 or b[4] == 0', 'len(b) <= 5 or b[5] <= 1'])
def tx_read_no_inputs(b: Bytes):
    return tx_value(BytesIO(b))


@ob('C03 C04', 'Tx.from_bytes(b)', pre=['len(b) <= 4 or b[4] == 1', 'len(b) <= 41 or b[41] < 253',
                                        'len(b) <= 46 or len(b) <= 46 + b[41] or b[46 + b[41]] == 0'])
def tx_read_one_input(b: Bytes):
    return tx_value(BytesIO(b))


@ob('C03 C04', 'Tx.read(BytesIO(b).read)',
    pre=['len(b) > 46 and b[4] == 1 and b[41] == 0 and b[46] == 1', 'len(b) <= 55 or b[55] < 253'])
def tx_read_one_output(b: Bytes):
    return tx_value(BytesIO(b))


@ob('C03 C04', 'Tx.from_hex(b.hex())', pre=['len(b) <= 4 or b[4] == 0', 'len(b) <= 5 or b[5] == 0'])
def tx_from_hex(b: Bytes):
    return tx_value(BytesIO(b))


@ob('C03 C04', 'TxInput.from_bytes(b)')
def input_from_bytes(b: Bytes):
    i = r_in(BytesIO(b))
    return expect('TxInput', prev_hash=i.prev_hash, prev_idx=i.prev_idx, sequence=i.sequence,
                  script_sig=expect('Script', bytes_=bytes(i.script_sig)))


@ob('C03 C04', 'TxOutput.from_bytes(b)')
def output_from_bytes(b: Bytes):
    i = r_out(BytesIO(b))
    return expect('TxOutput', value=i.value, script_pubkey=expect('Script', bytes_=bytes(i.script_pubkey)))


@ob('C03 C04', 'TxOutput.from_hex(b.hex())')
def output_from_hex(b: Bytes):
    i = r_out(BytesIO(b))
    return expect('TxOutput', value=i.value, script_pubkey=expect('Script', bytes_=bytes(i.script_pubkey)))


@ob('C03 C04', 'TxInput.from_hex(b.hex())')
def input_from_hex(b: Bytes):
    i = r_in(BytesIO(b))
    return expect('TxInput', prev_hash=i.prev_hash, prev_idx=i.prev_idx, sequence=i.sequence,
                  script_sig=expect('Script', bytes_=bytes(i.script_sig)))


# ---- identity, coinbase, finality
@ob('C06', 't.hash()')
def tx_hash(t: Tx):
    return dsha(ser_tx(t))


@ob('C06', 't.hex_hash()')
def tx_hex_hash(t: Tx):
    return dsha(ser_tx(t))[::-1].hex()


@ob('C06', 'i.is_coinbase()')
def input_is_coinbase(i: TxInput):
    return i.prev_idx == 0xffffffff and i.prev_hash == ZERO


@ob('C06', 't.is_coinbase()', pre='len(t.inputs) >= 1')
def tx_is_coinbase(t: Tx):
    return t.inputs[0].prev_idx == 0xffffffff and t.inputs[0].prev_hash == ZERO


@ob('C06', 'i.is_final()')
def input_is_final(i: TxInput):
    return i.sequence == 0xffffffff


@ob('C06', 't.are_inputs_final()')
def are_inputs_final(t: Tx):
    return all([i.sequence == 0xffffffff for i in t.inputs])


@ob('C06', 't.is_final_for_block(h, ts)')
def is_final_for_block(t: Tx, h: UInt[32], ts: UInt[32]):
    if t.locktime == 0:
        return True
    bound = h if t.locktime < 500000000 else ts
    if t.locktime < bound:
        return True
    return all([i.sequence == 0xffffffff for i in t.inputs])


@ob('C06', 't.total_output_value()')
def total_output_value(t: Tx):
    return sum([o.value for o in t.outputs])


# ---- signature hash (BIP143 with FORKID)
@ob('C05', 'i.to_bytes_for_signature(v, sc)')
def to_bytes_for_signature(i: TxInput, v: SInt[64], sc: Script):
    return (i.prev_hash + le(i.prev_idx, 4) + varbytes(bytes(sc)) + v.to_bytes(8, 'little', signed=True)
            + le(i.sequence, 4))


def sighash(t, n, v, sc, flag):
    if not 0 <= n < len(t.inputs):
        raise IndexError
    if v < 0:
        raise ValueError
    base = flag % 32
    acp = flag // 128 % 2 == 1
    ctx_in = t.inputs[n]
    hp = ZERO if acp else dsha(b''.join([i.prev_hash + le(i.prev_idx, 4) for i in t.inputs]))
    hs = ZERO if acp or base == 2 or base == 3 else dsha(b''.join([le(i.sequence, 4) for i in t.inputs]))
    if base == 2:
        ho = ZERO
    elif base == 3:
        ho = dsha(ser_out(t.outputs[n])) if n < len(t.outputs) else ZERO
    else:
        ho = dsha(b''.join([ser_out(o) for o in t.outputs]))
    return dsha(t.version.to_bytes(4, 'little', signed=True) + hp + hs
                + ctx_in.prev_hash + le(ctx_in.prev_idx, 4) + varbytes(bytes(sc)) + le(v, 8)
                + le(ctx_in.sequence, 4) + ho + le(t.locktime, 4) + le(flag, 4))


@ob('C05', 't.signature_hash(n, v, sc, sighash=SigHash(f))')
def signature_hash(t: Tx, n: Int, v: SInt[64], sc: Script, f: Range[0, 255]):
    return sighash(t, n, v, sc, f)


@ob('C05', 't.signature_hash(n, v, sc)')
def signature_hash_default(t: Tx, n: Int, v: SInt[64], sc: Script):
    return sighash(t, n, v, sc, 0x41)


@ob('C05', 't.signature_hash(n, v, sc, sighash=f)')
def signature_hash_type(t: Tx, n: Range[0, 0], v: Range[0, 5], sc: Script, f: UInt[8]):
    raise AnyError
