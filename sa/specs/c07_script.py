"""Reference: script pushes, numbers, parsing, ASM, templates, opcode table."""
from vt import ob, expect, only, AnyError
from bitcoinx import Script, Ops, ScriptError, TruncatedScriptError
from specs.optable import OPCODES


class shape_Script:
    how = 'ctor'
    script: Bytes


def le(v, n):
    return v.to_bytes(n, 'little')


def push(b):
    n = len(b)
    if n == 0:
        return b'\0'
    if n == 1:
        v = b[0]
        if 1 <= v <= 16:
            return bytes([0x50 + v])
        if v == 0x81:
            return b'\x4f'
    if n <= 75:
        return le(n, 1) + b
    if n < 256:
        return b'\x4c' + le(n, 1) + b
    if n < 65536:
        return b'\x4d' + le(n, 2) + b
    if n >= 1 << 32:
        raise AnyError
    return b'\x4e' + le(n, 4) + b


def number(v):
    """minimal signed-magnitude little-endian encoding"""
    if v == 0:
        return b''
    m = abs(v)
    b = m.to_bytes((m.bit_length() + 7) // 8, 'little')
    if b[-1] >= 128:
        return b + (b'\x80' if v < 0 else b'\0')
    if v < 0:
        return b[:-1] + bytes([b[-1] + 128])
    return b


def value_of(b):
    if len(b) == 0:
        return 0
    m = int.from_bytes(b, 'little')
    if b[-1] >= 128:
        return -int.from_bytes(b[:-1] + bytes([b[-1] - 128]), 'little')
    return m


M = 'specs.c07_script'


@ob('C07', 'push_item(b)')
def push_item(b: Bytes):
    return push(b)


@ob('C07', 'push_int(v)')
def push_int(v: Int):
    return push(number(v))


@ob('C07', 'item_to_int(b)')
def item_to_int(b: Bytes):
    return value_of(b)


@ob('C07 C11', 'push_and_drop_item(b)')
def push_and_drop_item(b: Bytes):
    return push(b) + b'\x75'


@ob('C07 C11', 'push_and_drop_items(xs)')
def push_and_drop_items(xs: List[Bytes]):
    n = len(xs)
    r = b''.join([push(x) for x in xs]) + b'\x6d' * (n // 2)
    if n % 2:
        r = r + b'\x75'
    return r


# ---- building scripts
@ob('C07 C11', 'Script(b) << x')
def append_bytes(b: Bytes, x: Bytes):
    return expect('Script', bytes_=b + push(x))


@ob('C07', 'Script(b) << bytearray(x)')
def append_bytearray(b: Bytes, x: Bytes):
    return expect('Script', bytes_=b + push(x))


@ob('C07 C11', 'Script(b) << v')
def append_int(b: Bytes, v: Int):
    return expect('Script', bytes_=b + push(number(v)))


@ob('C07 C11', 'Script(b) << Ops(v)', pre='v == 0 or 0x4c <= v <= 0xb9')
def append_op(b: Bytes, v: Range[0, 255]):
    return expect('Script', bytes_=b + bytes([v]))


@ob('C07 C11', 's << t')
def append_script(s: Script, t: Script):
    return expect('Script', bytes_=bytes(s) + bytes(t))


@ob('C07', 'Script(b) << x')
def append_other(b: Bytes, x: Union[Str, None]):
    raise TypeError


@ob('C07 C11', 's.push_many([x, OP_DUP, v, t])')
def push_many(s: Script, x: Bytes, v: Int, t: Script):
    return expect('Script', bytes_=bytes(s) + push(x) + b'\x76' + push(number(v)) + bytes(t))


@ob('C07 C11', 's.push_many(xs)')
def push_many_items(s: Script, xs: List[Bytes]):
    return expect('Script', bytes_=bytes(s) + b''.join([push(x) for x in xs]))


# ---- raw bytes, equality, hex
@ob('C07', '(Script(b).to_bytes(), bytes(Script(b)), len(Script(b)), Script(b).to_hex(), str(Script(b)))')
def script_bytes(b: Bytes):
    return b, b, len(b), b.hex(), b.hex()


def changed_later(x):
    b = bytearray(x)
    script = Script(b)
    b.append(7)
    if len(b) > 1:
        b[0] = 0
    return script.to_bytes(), bytes(script), isinstance(script.to_bytes(), bytes), len(script), hash(script)


@ob('C07', 'changed_later(x)', mod=M)
def script_of_bytearray(x: Bytes):
    return x, x, True, len(x), hash(x)


@ob('C07', 'Script.from_hex(b.hex())')
def script_from_hex(b: Bytes):
    return expect('Script', bytes_=b)


@ob('C15', '(s == t, s == bytes(t), s != t or hash(s) == hash(t), hash(s) == hash(bytes(s)), s == bytearray(bytes(t)), s == memoryview(bytes(t)))')
def script_eq(s: Script, t: Script):
    e = bytes(s) == bytes(t)
    return e, e, True, True, e, e


@ob('C15', 's == x')
def script_eq_other(s: Script, x: Union[Int, Str, None]):
    return False


# ---- parsing
def parse(b):
    """operations of a script: data pushes as bytes, anything else as the opcode"""
    out = []
    n = 0
    while n < len(b):
        op = b[n]
        n += 1
        if op <= 0x4e:
            if op < 0x4c:
                k = op
            else:
                w = 1 if op == 0x4c else 2 if op == 0x4d else 4
                if n + w > len(b):
                    raise TruncatedScriptError
                k = int.from_bytes(b[n:n + w], 'little')
                n += w
            if n + k > len(b):
                raise TruncatedScriptError
            out.append(b[n:n + k])
            n += k
        elif op == 0x4f:
            out.append(b'\x81')
        elif 0x51 <= op <= 0x60:
            out.append(bytes([op - 0x50]))
        else:
            out.append(op)
    return out


@ob('C08 C04', 'list(Script(b).ops())', KW=2, erase=True)
def ops(b: Bytes):
    return parse(b)


@ob('C08', 'list(Script(push_item(x) + bytes([op])).ops())', pre='op > 0x60 and len(x) < 4294967296')
def ops_of_push(x: Bytes, op: UInt[8]):
    return [x, op]


def strip(b):
    """operations that matter: OP_NOP and (push.., drop) pairs removed, OP_0 closing a truncated script"""
    out = []
    n = 0
    while n < len(b):
        op = b[n]
        n += 1
        if op <= 0x4e:
            if op < 0x4c:
                k = op
            else:
                w = 1 if op == 0x4c else 2 if op == 0x4d else 4
                if n + w > len(b):
                    return out + [0]
                k = int.from_bytes(b[n:n + w], 'little')
                n += w
            if n + k > len(b):
                return out + [0]
            out.append(b[n:n + k])
            n += k
        elif op == 0x4f:
            out.append(b'\x81')
        elif 0x51 <= op <= 0x60:
            out.append(bytes([op - 0x50]))
        elif op == 0x61:
            pass
        elif op == 0x75 and len(out) and isinstance(out[-1], bytes):
            out.pop()
        elif op == 0x6d and len(out) >= 2 and isinstance(out[-1], bytes) and isinstance(out[-2], bytes):
            out.pop()
            out.pop()
        else:
            out.append(op)
    return out


def template(b):
    st = strip(b)
    return bytes([0x4c if isinstance(x, bytes) else x for x in st]), [x for x in st if isinstance(x, bytes)]


@ob('C11', 'Script(b).to_template()', KW=2, erase=True)
def to_template(b: Bytes):
    return template(b)


@ob('C11', 'Script(push_item(x) + push_item(y) + bytes([op])).to_template()', pre='op > 0x60 and len(x) < 4294967296 and len(y) < 4294967296')
def template_drop(x: Bytes, y: Bytes, op: UInt[8]):
    if op == 0x61:
        return b'\x4c\x4c', [x, y]
    if op == 0x75:
        return b'\x4c', [x]
    if op == 0x6d:
        return b'', []
    return b'\x4c\x4c' + bytes([op]), [x, y]


# ---- the opcode table
@ob('C12', 'sorted((n, int(v)) for n, v in Ops.__members__.items())')
def opcode_table():
    return sorted(OPCODES.items())


@ob('C12', '(OP_0, OP_PUSHDATA1, OP_1NEGATE, OP_1, OP_16, OP_NOP, OP_RETURN, OP_DROP, OP_2DROP, OP_DUP, OP_EQUAL,'
    ' OP_EQUALVERIFY, OP_HASH160, OP_CHECKSIG, OP_CHECKMULTISIG, OP_NOP10, OP_CODESEPARATOR, OP_SPLIT)')
def opcode_globals():
    return (0, 0x4c, 0x4f, 0x51, 0x60, 0x61, 0x6a, 0x75, 0x6d, 0x76, 0x87, 0x88, 0xa9, 0xac, 0xae, 0xb9, 0xab, 0x7f)


# ---- ASM
@ob('C10', 'Script.op_to_asm_word(op, False)')
def asm_word_of_data(op: Bytes):
    if len(op) <= 4:
        return str(value_of(op))
    return op.hex()


@ob('C10', 'Script.op_to_asm_word(op, True)', pre='len(op) < 9 or len(op) > 73 or op[0] != 0x30')
def asm_word_of_data_sig(op: Bytes):
    if len(op) <= 4:
        return str(value_of(op))
    return op.hex()


@ob('C10', 'Script.op_to_asm_word(v, d)', pre='v == 0xff or 0xba <= v')
def asm_word_of_unknown(v: Range[0, 255], d: Bool):
    return 'OP_INVALIDOPCODE' if v == 0xff else 'OP_UNKNOWN'


@ob('C10 C12', '[Script.op_to_asm_word(v, False) for v in range(0x50, 0xba)]')
def asm_words_of_opcodes():
    first = {}
    for n, v in OPCODES.items():
        if v not in first or n in ('OP_CHECKLOCKTIMEVERIFY', 'OP_CHECKSEQUENCEVERIFY') or n == f'OP_{v - 0x50}':
            first[v] = n
    return [first[v] for v in range(0x50, 0xba)]


@ob('C10', '[Script.asm_word_to_bytes(n) for n in sorted(Ops.__members__)]')
def asm_opcodes_to_bytes():
    return [bytes([OPCODES[n]]) for n in sorted(OPCODES)]


@ob('C10', 'Script.asm_word_to_bytes("OP_" + w)', pre='("OP_" + w) not in Ops.__members__')
def asm_bad_opcode(w: Str):
    raise ScriptError


@ob('C10', 'Script.asm_word_to_bytes(str(v))', pre='-2147483647 <= v <= 2147483647')
def asm_number(v: Int):
    return push(number(v))


# the numbers and the words that are hex instead, at the edges of what is read as a number
WORDS = ('2147483647', '-2147483647', '2147483648', '-2147483648', '-2147483649', '4294967295', '-4294967296', '0000000001',
         '9999999999', '00000000001', '000000000001', '-00000000001', '-0000000001', '0', '-0', '00', '1', '16', '17', '-1',
         '-2', '-127', '-128', '-255', '-256', '-65535', '-65536', '-8388608', '255', '32767', '32768', '8388607', '8388608',
         '012', '0x12', '+12', '1_0', '--1', '-', '1-', 'ab', 'AB', 'aB0', 'abc', 'zz', '\u0661\u0662', '-\u0661', '\xb2',
         'OP_1NEGATE', 'OP_', 'OP', 'op_dup', 'OP_dup', ' OP_DUP', '1 2', '12 ')


def asm_word(w):
    if w.startswith('OP_'):
        if w in OPCODES:
            return bytes([OPCODES[w]])
        return 'ScriptError'
    digits = w[1:] if w[0] == '-' else w
    if len(digits) <= 10 and digits and all(c in '0123456789' for c in digits) and -2147483647 <= int(w) <= 2147483647:
        return push(number(int(w)))
    try:
        return push(bytes.fromhex(w))
    except ValueError:
        return 'ScriptError'


def asm_read(w):
    try:
        return Script.asm_word_to_bytes(w)
    except ScriptError:
        return 'ScriptError'


@ob('C10', '[asm_read(w) for w in WORDS]', mod=M, limit=4000)
def asm_edges():
    return [asm_word(w) for w in WORDS]


@ob('C10', 'Script.from_asm(" ".join(["OP_DUP", "-2147483647", "0a", "OP_0"]) + " 00ff  16 ").to_bytes()')
def from_asm_text():
    return b'\x76\x04\xff\xff\xff\xff\x5a\x00\x02\x00\xff\x60'


@ob('C10', 'Script.asm_word_to_bytes(w)', pre='len(w) >= 1 and not w.startswith("OP_") and w[0] != "-"'
    ' and not w.isdigit()')
def asm_hex(w: Str):
    try:
        b = bytes.fromhex(w)
    except ValueError:
        raise ScriptError
    return push(b)


@ob('C10 C41', 'Script.asm_word_to_bytes(w)', pre='1 <= len(w) and len(w) < 100000')
def asm_only_script_error(w: Str):
    return only(ScriptError)


@ob('C10', 'Script(b).to_asm(False)', pre='len(b) == 0 or b[0] <= 0x4e and 1 + b[0] > len(b) and b[0] < 0x4c')
def asm_error(b: Bytes):
    return '[error]' if len(b) else ''


@ob('C10 C40', 'Script(b).to_asm(d)', KW=2, erase=True, abstract='asmword')
def to_asm(b: Bytes, d: Bool):
    try:
        return ' '.join([Script.op_to_asm_word(op, d) for op in parse(b)])
    except TruncatedScriptError:
        return '[error]'


@ob('C10', '(Script(push_item(x)) << OP_EQUAL << y).to_asm(False)', pre='4 < len(x) < 65536 and 4 < len(y) < 65536')
def to_asm_words(x: Bytes, y: Bytes):
    return x.hex() + ' OP_EQUAL ' + y.hex()


@ob('C10', 'Script.from_asm("OP_DUP OP_HASH160 " + x.hex() + " OP_EQUALVERIFY OP_CHECKSIG")', pre='not x.hex().isdigit()')
def from_asm_p2pkh(x: Bytes[20]):
    return expect('Script', bytes_=b'\x76\xa9\x14' + x + b'\x88\xac')
