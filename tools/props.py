"""The property list.  python3 tools/gen.py writes properties.jsonl and MANIFEST.json from it."""
P = []


def prop(id, title, statement, over, text, why, files, mech, note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why,
                  files=['bitcoinx/' + f for f in files.split()],
                  mech=[dict(name=n, where=w) for n, w in mech], note=note))


I = 'inputs'

prop('C01', 'Variable-length integers have one canonical encoding',
     'Every integer from 0 to 2^64-1 is serialized as the shortest of the 1, 3, 5 and 9 byte little-endian forms and '
     'every other value is rejected with an error; reading returns the encoded value and consumes exactly its bytes. '
     'Length-prefixed byte strings and lists are the count followed by the contents, and reading one back consumes '
     'exactly that much.',
     I, 'all integers, byte strings and streams', 'tests sample a few values at the boundaries; the claim is for every '
     'integer and every stream content', 'packing.py', [('varint packing and reading', 'bitcoinx/packing.py pack_varint, read_varint, pack_varbytes, read_varbytes, pack_list, read_list')])
prop('C02', 'Fixed-width integer codecs and byte/integer/hex conversions are exact',
     'Packing an in-range integer into a fixed-width field gives exactly its little- or big-endian two\'s-complement '
     'bytes, an out-of-range value is an error, and unpacking and reading are the exact inverse. Conversions between integers, byte strings '
     'of given width, display-order hex and raw hashes are exact and inverse to each other.',
     I, 'all integers, byte strings, offsets', 'tests use single sample values per codec', 'packing.py misc.py',
     [('struct-based codecs', 'bitcoinx/packing.py'), ('integer conversions', 'bitcoinx/misc.py')])
prop('C03', 'Transactions follow the wire format exactly',
     'A transaction, its inputs, outputs and outpoints serialize to exactly the network byte layout of their current field values, and '
     'parsing bytes yields exactly the fields at their positions, consuming nothing further. The reported serialized '
     'size of a transaction, input or output always equals the length of its serialization.',
     I, 'all field values, all byte strings', 'tests parse a handful of mainnet transactions; the layout must hold for every '
     'combination of counts and lengths', 'tx.py packing.py',
     [('Tx/TxInput/TxOutput to_bytes, read, size', 'bitcoinx/tx.py')])
prop('C04', 'Truncated data is rejected, never read as something else',
     'Whenever a reader of binary data (integers, variable-length strings, lists, transactions, inputs, outputs, scripts) meets the end of the '
     'data inside an item, it raises an error; it never returns a value built from fewer bytes than the format demands. '
     'This holds also when the interpreter runs with assertions disabled.',
     'inputs configurations', 'all byte strings cut at every position; with and without assertions', 'tests truncate few samples at few positions and always run with assertions enabled',
     'packing.py tx.py script.py', [('read-exactly discipline', 'bitcoinx/packing.py, bitcoinx/script.py Script.ops')])
prop('C05', 'The signature hash commits to exactly the specified fields',
     'For every transaction, input index, amount, script and signature-hash type, the digest to be signed is the double '
     'SHA-256 of exactly the preimage the replay-protected signature-hash algorithm specifies, including what the '
     'ANYONECANPAY, NONE and SINGLE flags leave out. Negative amounts and invalid input indices are errors.',
     I, 'all transactions, indices, amounts, hash types', 'tests check a few known transactions; 256 hash types times index '
     'relations cannot be sampled', 'tx.py', [('signature_hash', 'bitcoinx/tx.py Tx.signature_hash')])
prop('C06', 'Transaction id, hex form, coinbase test and finality follow consensus',
     'The transaction id is the byte-reversed double SHA-256 of the serialization shown as hex; a transaction is coinbase exactly if its first input '
     'spends the null outpoint. A transaction is final exactly when its lock time is zero, is below the block '
     'height or block time it is compared with (as its magnitude selects), or every input has the final sequence number.',
     I, 'all transactions, heights and times', 'finality has boundary cases at 500,000,000 and at equality that tests sample once',
     'tx.py', [('hash, hex_hash, is_coinbase, is_final', 'bitcoinx/tx.py')])
prop('C07', 'Script pushes and script numbers use their canonical encodings',
     'Pushing any byte string produces the minimal push opcode form that pushes exactly these bytes, and pushing an '
     'integer pushes its minimal script-number encoding using the small-integer opcodes where they exist. Script numbers encode '
     'sign-and-magnitude little-endian minimally; decoding inverts it, and minimality testing and minimal re-encoding accept exactly the minimal form.',
     I, 'all byte strings and integers', 'boundaries at 75/76, 255/256, 65535/65536 and sign-bit carries are sampled, not covered',
     'script.py', [('push_item, push_int, int_to_item, item_to_int, is_item_minimally_encoded, minimal_encoding', 'bitcoinx/script.py')])
prop('C08', 'Script iteration yields exactly the encoded operations',
     'Iterating a script yields for each operation either its opcode or exactly the bytes it pushes, in order and covering '
     'the whole script. A push that runs past the end of the script raises a truncation error, also with assertions disabled, and '
     'concatenating pushes reproduces what was pushed.',
     'inputs configurations', 'all byte strings as scripts', 'arbitrary (also hostile) scripts come from the network; tests hold a few',
     'script.py', [('Script.ops', 'bitcoinx/script.py')])
prop('C09', 'Hash helpers compute the documented compositions',
     'Each hash helper equals the documented composition of the standard primitives over its whole input (single and double '
     'SHA-256, RIPEMD-160 of SHA-256, SHA-512, HMAC halves), and hash/hex conversions reverse byte order exactly.',
     I, 'all byte strings', 'tests check one vector each', 'hashes.py', [('hash functions', 'bitcoinx/hashes.py')])
prop('C10', 'Script assembly text converts to and from bytes as specified',
     'Converting a script to assembly text renders every operation as its opcode name, number or hex push, with the documented marker for a '
     'truncated tail; converting text to a script accepts exactly opcode names, decimal integers and hex pushes. '
     'Any other word raises a script error and no other exception type.',
     I, 'all scripts and all words', 'tests use listed words only', 'script.py',
     [('to_asm, from_asm, asm_word_to_bytes, op_to_asm_word', 'bitcoinx/script.py')])
prop('C11', 'Script templates and construction helpers are exact',
     'A script\'s template replaces every push by its length class and leaves other opcodes unchanged, so scripts of '
     'the standard forms are recognised and no others are. Script concatenation and the push helper for several items yield exactly the bytes in order.',
     I, 'all scripts', 'tests cover well-formed instances only', 'script.py', [('to_template', 'bitcoinx/script.py')])
prop('C12', 'The opcode table matches consensus',
     'Every opcode name has its consensus byte value, the aliases share their value, and no byte has two unrelated names.',
     I, 'all 256 byte values', 'no test compares the full table', 'script.py', [('Ops', 'bitcoinx/script.py Ops')])
prop('C13', 'Private keys only exist for valid secrets',
     'Every way of constructing a private key (bytes, integer, hex, arbitrary bytes) yields one only for a 32-byte '
     'secret accepted by the curve library and otherwise raises an error; no operation returns a key holding any other secret. '
     'The byte, integer and hex views all denote that secret, and the public key is derived from it with the same compression and coin.',
     I, 'all constructor arguments', 'tests try a few out-of-range values', 'keys.py misc.py',
     [('PrivateKey.__init__ range check', 'bitcoinx/keys.py')])
prop('C14', 'The curve library is only called within its contract',
     'Whatever arguments of whatever type and length are given to key, signature, encryption and derivation functions, the C library '
     'behind them never gets a buffer shorter than it reads or writes, a length beyond its buffer, a recovery id other than 0 to 3 or an empty list of keys: '
     'such arguments raise an exception first.',
     I, 'all arguments of all types', 'reading or writing beyond a buffer is undefined behaviour in C that usually goes unnoticed in a test',
     'keys.py signature.py bip32.py', [('calls to lib.secp256k1_*', 'bitcoinx/keys.py'), ('calls to lib.secp256k1_*', 'bitcoinx/signature.py')])
prop('C15', 'Equality agrees with value and with hashing',
     'Two objects of the value types (private and public keys, scripts, signatures, addresses, outputs) are equal exactly when '
     'the values they denote are equal, equal objects have equal hashes, and comparison with an unrelated type is '
     'False rather than an error.',
     I, 'all pairs of objects', 'tests compare a few pairs', 'keys.py script.py signature.py', [('__eq__, __hash__', 'bitcoinx/keys.py, script.py, signature.py')])
prop('C16', 'Key arithmetic returns new keys and never changes its operands',
     'Adding to, multiplying and combining keys returns the key given by the curve operation on exactly the given operands, '
     'keeping compression and coin; the operands are left unchanged. An operation the curve library rejects, or a scalar that is not 32 bytes, raises an error.',
     'inputs histories', 'all keys, scalars, sequences of operations', 'a mutated operand shows only in later uses tests do not make',
     'keys.py', [('add, multiply, combine_keys, complement', 'bitcoinx/keys.py')])
prop('C17', 'WIF encoding and decoding are inverse and strict',
     'A WIF string encodes exactly the coin\'s prefix byte, the secret, and the compression marker if the key is '
     'compressed; decoding accepts exactly such payloads with a known prefix and a valid secret and recovers secret, compression and '
     'coin. Every other string is rejected.',
     I, 'all keys, coins, strings', 'tests round-trip random keys but do not enumerate malformed payloads', 'keys.py base58.py coin.py',
     [('to_WIF, from_WIF, from_text, from_minikey', 'bitcoinx/keys.py')])
prop('C18', 'Public keys serialize, hash and render as asked',
     'A public key serializes to the 33- or 65-byte form of the same point, as asked or as it was created; hex, hash, '
     'address, point coordinates and standard scripts are all computed from that serialization. Parsing accepts exactly the encodings the '
     'curve library accepts and remembers which form was used.',
     I, 'all points and compression flags', 'tests use a few keys', 'keys.py address.py', [('to_bytes, hash160, to_address, P2PK_script, P2PKH_script, to_point, from_point', 'bitcoinx/keys.py')])
prop('C19', 'Signatures are made and checked over exactly the documented digest',
     'Signing and verifying (DER, recoverable and Bitcoin signed messages) use the given hasher\'s 32-byte digest of exactly the message, with '
     'the length-prefixed magic for signed messages; verification returns the curve library\'s verdict for that digest, signature '
     'and key. Malformed signatures of any length or content raise the documented error, or make address verification return False, '
     'and never verify.',
     I, 'all messages, signatures, keys, hashers', 'malformed and edge signatures form an unbounded space', 'keys.py signature.py packing.py',
     [('sign*, verify*, from_signed_message', 'bitcoinx/keys.py, bitcoinx/signature.py')])
prop('C20', 'Message encryption authenticates before decrypting',
     'Encryption outputs magic, a fresh ephemeral public key, the AES-CBC ciphertext of the padded message and the HMAC of all of it, with keys derived '
     'from the shared secret. Decryption returns a plaintext only if magic, ephemeral key, HMAC and padding are all valid, and raises only the decryption error for any other input.',
     'inputs fault_sequences', 'all ciphertexts, tampered or not', 'tests flip a few bytes; the claim covers every tampering',
     'keys.py aes.py', [('encrypt_message, decrypt_message, ecdh_shared_secret', 'bitcoinx/keys.py')])
prop('C21', 'Private keys are not disclosed by text conversion or errors',
     'Converting a private key object to text, by str, repr or formatting, or any exception raised by constructing '
     'it (from its bytes, a number, or a text, also one with a wrong checksum) or operating on it, never contains the secret or anything computed from it other than by a one-way hash.',
     I, 'all secrets and operations', 'tests look at one str value', 'keys.py bip32.py base58.py', [('PrivateKey.__str__', 'bitcoinx/keys.py')])
prop('C22', 'Random keys come from the operating system\'s secure source',
     'A random private key is 32 bytes obtained from the operating system\'s secure random source and nothing else, retried until valid; '
     'encryption draws its ephemeral key the same way for every message.',
     I, 'all values the source may return', 'tests cannot tell a weak source from a strong one', 'keys.py mnemonic.py bip32.py', [('from_random', 'bitcoinx/keys.py')])
prop('C29', 'AES-CBC encryption pads and unpads by PKCS#7 strictly',
     'Encryption appends 1 to 16 padding bytes all equal to their count and decryption removes exactly valid padding; decrypting with '
     'the right key returns the plaintext. Wrong lengths and any inconsistent padding raise an error, whichever AES backend is installed.',
     'inputs configurations', 'all data lengths and ciphertexts, both back ends', 'tests run with one back end and few lengths', 'aes.py', [('padding', 'bitcoinx/aes.py')])
prop('C30', 'Signature objects and hash types decode exactly',
     'A transaction signature object splits into the DER part and the one-byte hash type, whose base and flags are decoded bit by bit; '
     'DER, compact and recoverable forms convert into each other exactly as the curve library does. '
     'Malformed values are rejected with the documented error.',
     I, 'all byte strings, all 256 hash types', 'tests cover samples', 'signature.py', [('Signature, SigHash, conversions', 'bitcoinx/signature.py')])
prop('C23', 'BIP32 child derivation follows the standard',
     'A BIP32 key derived from a seed, and every child, neutered or safe child key derived from any extended key, has exactly the '
     'key, chain code, child number, depth and parent fingerprint the BIP32 standard defines; impossible child numbers and '
     'invalid tweaks raise ValueError and yield no key.',
     I, 'all seeds, extended keys and child numbers', 'tests use the published vectors; derivation must be right for every key and index',
     'bip32.py hashes.py', [('from_seed, child, child_safe, public_key, fingerprint', 'bitcoinx/bip32.py')])
prop('C24', 'Extended key strings hold exactly the standard 78 bytes',
     'An extended key string is the Base58Check of version, depth, parent fingerprint, child number, chain code and key in that order; reading '
     'accepts exactly the 78-byte payloads with a known version, a valid key of the right kind and, for private keys, a zero pad byte, '
     'and recovers every field and the coin. Converting back gives the same string.',
     I, 'all extended keys and all payloads', 'malformed payloads form an unbounded space',
     'bip32.py base58.py coin.py', [('extended_key, _from_extended_key, to_extended_key_string', 'bitcoinx/bip32.py')])
prop('C25', 'BIP32 paths parse and print strictly',
     'Parsing a derivation path accepts exactly "m" followed by /-separated decimal numbers below 2^31, each optionally '
     'hardened by a single quote, and returns their child numbers; printing any list of child numbers gives the path that parses '
     'back to it. Everything else raises ValueError or, for wrong types, TypeError.',
     I, 'all strings and child number lists', 'tests list a few bad paths', 'bip32.py',
     [('bip32_decompose_chain_string, bip32_build_chain_string, bip32_validate_derivation', 'bitcoinx/bip32.py')])
prop('C26', 'Base58 and Base58Check encode and decode exactly',
     'Base58 text is the big-endian base-58 number of the bytes with one "1" per leading zero byte, and decoding inverts it for every '
     'byte string. Base58Check decoding returns the payload only if the last four bytes are the start of its double SHA-256; empty '
     'text, any other character and any wrong checksum raise Base58Error.',
     I, 'all byte strings and all texts', 'tests use a few strings; leading zeros, odd lengths and checksum corruption are unbounded',
     'base58.py misc.py', [('base58_encode, base58_decode, base58_encode_check, base58_decode_check, is_minikey', 'bitcoinx/base58.py')])
prop('C27', 'Cashaddr decoding accepts exactly valid addresses',
     'Decoding a cashaddr string returns prefix, kind and hash exactly as encoded, and only if the text is of one case, has a prefix, '
     'valid characters, a correct 40-bit checksum over prefix and payload, zero padding of less than five bits, a known kind and a hash of '
     'the size its version byte says. Everything else raises ValueError.',
     I, 'all texts', 'the checksum detects errors only if every bit of it is computed right; tests flip a few characters',
     'cashaddr.py', [('decode and checksum', 'bitcoinx/cashaddr.py')])
prop('C28', 'Addresses and output classification are faithful',
     'An address text in either format denotes exactly the hash and kind for the given coin, text for another coin or of wrong '
     'length is rejected with an error, and printing an address and reading it back gives the same address. The script of an address or '
     'output is the standard script, and classifying a script recognises exactly the standard forms and recovers their contents.',
     I, 'all address texts, hashes, keys and scripts', 'tests use sample addresses; near-miss scripts and texts are unbounded',
     'address.py script.py', [('Address classes and outputs', 'bitcoinx/address.py'), ('classify_output_script', 'bitcoinx/script.py')])
prop('C31', 'Headers are accepted only with the required bits and enough work',
     'A header offered to a header collection is stored only if its previous header is known, its bits are exactly those the coin '
     'requires at that height and time, and its hash is at most the target of those bits. Otherwise MissingHeader, IncorrectBits or '
     'InsufficientPoW is raised, naming the header, and nothing changes. A header already stored is found again and not stored twice.',
     I, 'all headers offered in any state of the collection', 'a header accepted wrongly is a consensus failure; tests use recorded real headers',
     'chain.py coin.py work.py', [('Headers.connect', 'bitcoinx/chain.py')])
prop('C32', 'Headers and header hashes are exact',
     'A raw 80-byte header deserializes into exactly its six fields, its hash is the double SHA-256, its hash value and target are the '
     'little-endian number and the expansion of its bits, and its work and difficulty follow from them; each coin recognises its '
     'own genesis block.',
     I, 'all 80-byte headers', 'every offset and byte order must be right for all values', 'coin.py work.py', [('Coin, Header', 'bitcoinx/coin.py')])
prop('C33', 'Header storage keeps what is written, also across reopening and interruption',
     'A headers file that is valid and holds the checkpoint header is used as it is, anything else is replaced by a fresh one. '
     'A header read is exactly the last one written at its index, an absent header raises MissingHeader, writing one changes no other, '
     'the count is one more than the greatest index written, and all that is the same when the file is closed and opened again. '
     'At every point of creating the file or appending a header the file holds the old state or the new one.',
     I, 'all file contents, indices and headers; every intermediate state of the file',
     'tests create a few files; crash points and damaged files are unbounded', 'chain.py', [('_HeaderStorage', 'bitcoinx/chain.py')])
prop('C34', 'Chains of headers are tracked and found exactly',
     'After any sequence of connected headers each header belongs to one chain, a chain forks from its parent at the height of its first header, '
     'its tip, height and work are those of its last header and of all work below it, the longest chain is the first with the most work, '
     'and every header is found by hash and, on every chain descending from it, by height, whether cached or not. '
     'Loading the stored headers again gives the same chains.',
     I, 'all sequences of headers, including forks of forks, with arbitrary hashes',
     'the shape of the tree and collisions of shortened hashes are beyond samples', 'chain.py', [('Chain, Headers', 'bitcoinx/chain.py')])
prop('C35', 'Difficulty rules give the required bits',
     'The bits required at each height are exactly those of the coin\'s rules: the fortnightly retarget with its limits, the emergency '
     'adjustment by median times, the 144-block algorithm with its suitable blocks and limits, each from its activation height, '
     'the testnets\' minimum-difficulty rule, and constant bits on regression test networks.',
     I, 'all heights, times and prior headers', 'wrong at a boundary height or for one interval of times is a chain split; tests replay some recorded headers',
     'coin.py work.py', [('required_bits_*', 'bitcoinx/work.py')])
prop('C36', 'Compact targets convert exactly',
     'Expanding compact bits gives the target they stand for, compacting a target gives the canonical bits, rounding down, so that expanding '
     'and compacting canonical bits gives them back, and the work of bits is 2^256 divided by target plus one.',
     I, 'all 32-bit bits and all 256-bit targets', 'sign bit and byte boundaries break only for few values', 'work.py',
     [('bits_to_target, target_to_bits, bits_to_work', 'bitcoinx/work.py')])
prop('C37', 'BIP39 mnemonics are those of the standard',
     'Entropy of 128 to 256 bits becomes the words of BIP39 with their checksum, generated entropy coming from the system; a text is valid '
     'exactly when it has 12, 15, 18, 21 or 24 words of the list and the right checksum, words outside the list being reported; spacing, letter case '
     'and Unicode form do not matter; the seed is the standard stretching of the text; and each bundled list has its 2048 published words, '
     'read correctly under any locale.',
     I, 'all entropy, texts, passphrases and word lists', 'one misplaced checksum or list bit loses a wallet; tests have English samples',
     'mnemonic.py data/', [('BIP39Mnemonic, Wordlists', 'bitcoinx/mnemonic.py')])
prop('C38', 'Electrum mnemonics are those of Electrum',
     'A generated new-style mnemonic is the first from a random start that has the wanted version prefix and, unless allowed, is no old-style one, '
     'with as many words as the entropy asks for; validity follows the seed version hash; an old-style seed and its 12 or 24 words '
     'stand for each other as in Electrum; and texts that are no old-style mnemonic (unknown words, wrong number, parts out of range) are refused.',
     I, 'all seeds, texts, word lists and random values', 'values near the range limits occur once in thousands', 'mnemonic.py', [('ElectrumMnemonic', 'bitcoinx/mnemonic.py')])
prop('C39', 'Coin constants belong to the coin',
     'Each of the networks has its own genesis header, address and key version bytes, prefixes and difficulty rules, exactly the '
     'published ones, and looking a coin up by WIF byte or by extended key version gives the coin that has it and whether the key is private.',
     I, 'all coins, all WIF bytes and all four-byte versions', 'a wrong constant sends money to another network', 'coin.py', [('Coin and its instances', 'bitcoinx/coin.py')])
prop('C40', 'The JSON form of transactions and scripts is faithful',
     'The JSON of a transaction lists its version, locktime, hash and every input and output in order with exactly their values, scripts as hex and ASM, '
     'and, as the flags ask, numbers, size, meaning of the locktime and the classification of output scripts; a coinbase input shows its script as hex and text. '
     'ASM shows a signature with its sighash type only where the item is one.',
     I, 'all transactions, scripts and flag combinations', 'flag combinations, coinbase inputs and signature-like items are combinatorial; tests pin samples',
     'tx.py script.py', [('to_json', 'bitcoinx/tx.py'), ('Script.to_json, to_asm', 'bitcoinx/script.py')])
prop('C41', 'Malformed input is refused with the announced errors only',
     'Whatever bytes or text is given to a decoder of keys, extended keys, chain paths, addresses, WIF, Base58Check, signatures, scripts, hashes, mnemonics or '
     'transactions, it succeeds or raises its announced error, ValueError or a subclass (struct.error for cut-short transaction bytes), '
     'never an internal one such as IndexError, KeyError, AssertionError or AttributeError; classification and ASM printing of scripts never raise.',
     I, 'all bytes and all texts', 'callers catch the announced errors, and one hostile input with another error brings a service down; tests give sample malformed inputs',
     'keys.py bip32.py address.py base58.py script.py tx.py mnemonic.py signature.py', [('decoders', 'bitcoinx/keys.py'), ('decoders', 'bitcoinx/script.py')])
