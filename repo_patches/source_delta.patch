From dd8924aeddead126ad80cb7cd135f1f57a2040b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:43 +0000
Subject: [PATCH 01/12] fix: reject compact signatures that libsecp256k1 cannot
 parse

---
 bitcoinx/signature.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bitcoinx/signature.py b/bitcoinx/signature.py
index c1ee55b..a27477c 100644
--- a/bitcoinx/signature.py
+++ b/bitcoinx/signature.py
@@ -99,7 +99,8 @@ def compact_signature_to_der(compact_sig):
     if not (isinstance(compact_sig, bytes) and len(compact_sig) == 64):
         raise InvalidSignatureError('compact signature must be 64 bytes')
     cdata_sig = ffi.new('secp256k1_ecdsa_signature *')
-    lib.secp256k1_ecdsa_signature_parse_compact(CONTEXT, cdata_sig, compact_sig)
+    if not lib.secp256k1_ecdsa_signature_parse_compact(CONTEXT, cdata_sig, compact_sig):
+        raise InvalidSignatureError('invalid compact signature')
     return _cdata_signature_to_der(cdata_sig)
 
 
-- 
2.43.0


From 4c051c3bd1a7be2a35cb22038104072a265eff5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:43 +0000
Subject: [PATCH 02/12] fix: a BIP32 path part may not end with a newline

---
 bitcoinx/bip32.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoinx/bip32.py b/bitcoinx/bip32.py
index fbfbe58..caacde6 100644
--- a/bitcoinx/bip32.py
+++ b/bitcoinx/bip32.py
@@ -44,7 +44,7 @@ from .packing import pack_be_uint32, unpack_be_uint32, pack_byte
 from .util import cachedproperty
 
 HARDENED = 1 << 31
-PART_REGEX = re.compile("([0-9]+)'?$")
+PART_REGEX = re.compile("([0-9]+)'?\\Z")
 
 
 @attr.s(slots=True, frozen=True, repr=False)
-- 
2.43.0


From 0a6139408e3e1daebab8147992be4069b85f2dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:43 +0000
Subject: [PATCH 03/12] fix: raise ScriptError for ASM words int() cannot
 convert

---
 bitcoinx/script.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bitcoinx/script.py b/bitcoinx/script.py
index e6cd276..3565516 100644
--- a/bitcoinx/script.py
+++ b/bitcoinx/script.py
@@ -476,7 +476,9 @@ class Script:
                 raise ScriptError(f'unrecognized op code {word}') from None
             return pack_byte(opcode)
         # Handle what looks like a decimal, provided it's in-range
-        if word.isdigit() or word[0] == '-' and word[1:].isdigit():
+        # (which it cannot be with more than 10 digits).
+        digits = word[1:] if word[0] == '-' else word
+        if len(digits) <= 10 and digits.isascii() and digits.isdigit():
             value = int(word)
             if abs(value) <= 2147483647:
                 return push_int(value)
-- 
2.43.0


From 100ed69d386f1a67f80aa251ccc1ffa45d41fd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:43 +0000
Subject: [PATCH 04/12] fix: raise the documented errors for base64 with
 non-ASCII characters

---
 bitcoinx/keys.py      | 3 +--
 bitcoinx/signature.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/bitcoinx/keys.py b/bitcoinx/keys.py
index 72e3025..e89ecf6 100644
--- a/bitcoinx/keys.py
+++ b/bitcoinx/keys.py
@@ -29,7 +29,6 @@ __all__ = ('PrivateKey', 'PublicKey', 'CURVE_ORDER', 'DecryptionError', )
 
 
 from base64 import b64decode, b64encode
-from binascii import Error as binascii_Error
 from os import urandom
 
 from electrumsv_secp256k1 import ffi, lib
@@ -297,7 +296,7 @@ class PrivateKey:
         if isinstance(message, str):
             try:
                 message = b64decode(message, validate=True)
-            except binascii_Error:
+            except ValueError:
                 raise DecryptionError('invalid base64 encoding of encrypted message') from None
         mlen = len(magic)
         if len(message) < 81 + mlen:
diff --git a/bitcoinx/signature.py b/bitcoinx/signature.py
index a27477c..df3803e 100644
--- a/bitcoinx/signature.py
+++ b/bitcoinx/signature.py
@@ -31,7 +31,6 @@ __all__ = (
 )
 
 from base64 import b64decode
-from binascii import Error as binascii_Error
 
 from electrumsv_secp256k1 import ffi, lib
 
@@ -152,7 +151,7 @@ def to_recoverable_signature(message_sig):
     if isinstance(message_sig, str):
         try:
             message_sig = b64decode(message_sig, validate=True)
-        except binascii_Error:
+        except ValueError:
             raise InvalidSignatureError('invalid base64 encoding of message signature') from None
     if not isinstance(message_sig, bytes) or len(message_sig) != 65:
         raise InvalidSignatureError('message signature must be 65 bytes')
-- 
2.43.0


From 931a95eb5d50c585d207dbb07d0c5926aa8f674e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:43 +0000
Subject: [PATCH 05/12] fix: cashaddr.decode raises ValueError for empty
 payloads and non-ASCII text

---
 bitcoinx/cashaddr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bitcoinx/cashaddr.py b/bitcoinx/cashaddr.py
index 0578353..4862530 100644
--- a/bitcoinx/cashaddr.py
+++ b/bitcoinx/cashaddr.py
@@ -110,6 +110,8 @@ def _decode_payload(addr):
 
     without the checksum.
     """
+    if not addr.isascii():
+        raise ValueError('invalid characters in address: {}'.format(addr))
     lower = addr.lower()
     if lower != addr and addr.upper() != addr:
         raise ValueError('mixed case in address: {}'.format(addr))
@@ -123,7 +125,7 @@ def _decode_payload(addr):
         raise ValueError('address prefix is missing: {}'.format(addr))
     if not all(33 <= ord(x) <= 126 for x in prefix):
         raise ValueError('invalid address prefix: {}'.format(prefix))
-    if not 8 <= len(payload) <= 124:
+    if not 8 < len(payload) <= 124:
         raise ValueError('address payload has invalid length: {}'
                          .format(len(addr)))
     try:
-- 
2.43.0


From 5d4dfe168e2903bfb532fbfc6e63b8f6a9d88afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:43 +0000
Subject: [PATCH 06/12] fix: detect truncated pushes when assertions are
 disabled

---
 bitcoinx/script.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bitcoinx/script.py b/bitcoinx/script.py
index 3565516..5cd7dde 100644
--- a/bitcoinx/script.py
+++ b/bitcoinx/script.py
@@ -386,7 +386,8 @@ class Script:
                         n += 4
                     data = script[n: n + dlen]
                     n += dlen
-                    assert len(data) == dlen
+                    if len(data) != dlen:
+                        raise TruncatedScriptError
                     yield data
                 except Exception:
                     raise TruncatedScriptError from None
-- 
2.43.0


From 1034cbf003d4b540d6f3f49c4641c02ae6c2085d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:43 +0000
Subject: [PATCH 07/12] fix: give P2SH addresses a KIND so that output scripts
 can be converted to JSON

---
 bitcoinx/address.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bitcoinx/address.py b/bitcoinx/address.py
index 15f7d31..ad64703 100644
--- a/bitcoinx/address.py
+++ b/bitcoinx/address.py
@@ -127,6 +127,8 @@ class P2PKH_Address(Address):
 
 class P2SH_Address(Address):
 
+    KIND = 'scripthash'
+
     def __init__(self, hash160, coin):
         super().__init__(coin)
         self._hash160 = _validate_hash160(hash160)
-- 
2.43.0


From 181fad4d01b9053fe5fcf19f0188870f6ce3c741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:23 +0000
Subject: [PATCH 08/12] fix: write a header to storage before counting it

---
 bitcoinx/chain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bitcoinx/chain.py b/bitcoinx/chain.py
index 2ce8768..05b5bf9 100644
--- a/bitcoinx/chain.py
+++ b/bitcoinx/chain.py
@@ -238,9 +238,10 @@ class _HeaderStorage(object):
         if start >= len(mmap):
             mmap.close()
             mmap = self.mmap = map_file(self.filename, self._offset(index + 5_000))
+        self.mmap[start: start + 80] = raw_header
+        # Count it only now: a header that is counted must exist should we be interrupted
         if index >= len(self):
             self._set_count(index + 1)
-        self.mmap[start: start + 80] = raw_header
 
     def __getitem__(self, key):
         def header(index):
-- 
2.43.0


From 7b329ccf6081a9331fe86b9dc4ea245c5df27450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:23 +0000
Subject: [PATCH 09/12] fix: re-create an empty headers file

---
 bitcoinx/chain.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bitcoinx/chain.py b/bitcoinx/chain.py
index 05b5bf9..a3141bf 100644
--- a/bitcoinx/chain.py
+++ b/bitcoinx/chain.py
@@ -202,7 +202,10 @@ class _HeaderStorage(object):
     def _open_file(self, checkpoint):
         logger.debug(f'opening headers file {self.filename}')
         s = self.struct_reserved
-        self.mmap = map_file(self.filename)
+        try:
+            self.mmap = map_file(self.filename)
+        except ValueError:   # An empty file cannot be mapped
+            raise _BadHeadersFile(f'invalid headers file {self.filename}') from None
         try:
             if len(self.mmap) >= s.size:
                 self.reserved_size, version, self.header_count = s.unpack(self.mmap[:s.size])
-- 
2.43.0


From 022a2dd1af122dce14c8de05d55accbf31c3d325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:24 +0000
Subject: [PATCH 10/12] fix: reading a header at an index before the first
 raises MissingHeader

A sufficiently negative index gave a negative file offset, and the header
read was 80 bytes counted from the end of the file
---
 bitcoinx/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoinx/chain.py b/bitcoinx/chain.py
index a3141bf..d306560 100644
--- a/bitcoinx/chain.py
+++ b/bitcoinx/chain.py
@@ -250,7 +250,7 @@ class _HeaderStorage(object):
         def header(index):
             start = self._offset(index)
             result = self.mmap[start: start + 80]
-            if not result or result == empty_header:
+            if index < 0 or not result or result == empty_header:
                 raise MissingHeader(f'no header at index {index}')
             return result
 
-- 
2.43.0


From 22d865946fbc7914f483efe323223a42bb8075f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:32 +0000
Subject: [PATCH 11/12] fix: read word lists as UTF-8 whatever the locale

---
 bitcoinx/mnemonic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoinx/mnemonic.py b/bitcoinx/mnemonic.py
index 8abdf9d..f4d2836 100644
--- a/bitcoinx/mnemonic.py
+++ b/bitcoinx/mnemonic.py
@@ -74,7 +74,7 @@ class Wordlists:
 
     @classmethod
     def _read_wordlist(cls, filename, expected_count):
-        with open(data_file_path(filename)) as f:
+        with open(data_file_path(filename), encoding='utf-8') as f:
             text = f.read()
         return cls._text_to_wordlist(text, expected_count)
 
-- 
2.43.0


From bfaea1871189dca4e3ec33b17ff523ca529ffa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:41 +0000
Subject: [PATCH 12/12] fix: do not repeat a text in the error about its
 checksum

The text may be a private key with a typing mistake
---
 bitcoinx/base58.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoinx/base58.py b/bitcoinx/base58.py
index 3ea038b..50e212d 100644
--- a/bitcoinx/base58.py
+++ b/bitcoinx/base58.py
@@ -76,7 +76,7 @@ def base58_decode_check(txt):
     be_bytes = base58_decode(txt)
     result, check = be_bytes[:-4], be_bytes[-4:]
     if check != double_sha256(result)[:4]:
-        raise Base58Error(f'invalid base 58 checksum for {txt}')
+        raise Base58Error('invalid base 58 checksum')
     return result
 
 
-- 
2.43.0

