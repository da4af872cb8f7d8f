From f31fa108f5c75b8893a0715322f2df72f72bb7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:08 +0000
Subject: [PATCH 01/21] fix: write a raw header before including it in the
 header count

A crash between the two left a file whose last counted header was empty, and which
then always raised MissingHeader on opening.
---
 bitcoinx/chain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bitcoinx/chain.py b/bitcoinx/chain.py
index 2ce8768..d3014b7 100644
--- a/bitcoinx/chain.py
+++ b/bitcoinx/chain.py
@@ -238,9 +238,10 @@ class _HeaderStorage(object):
         if start >= len(mmap):
             mmap.close()
             mmap = self.mmap = map_file(self.filename, self._offset(index + 5_000))
+        # Write the header before counting it, so that a crash in between loses nothing
+        self.mmap[start: start + 80] = raw_header
         if index >= len(self):
             self._set_count(index + 1)
-        self.mmap[start: start + 80] = raw_header
 
     def __getitem__(self, key):
         def header(index):
-- 
2.43.0


From 183a6aec58d4b1cf229b72b591c5792348a3f6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:08 +0000
Subject: [PATCH 02/21] fix: re-create an empty headers file rather than
 failing to open it

A crash just after the file was created leaves it empty.
---
 bitcoinx/chain.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bitcoinx/chain.py b/bitcoinx/chain.py
index d3014b7..ba6c8b7 100644
--- a/bitcoinx/chain.py
+++ b/bitcoinx/chain.py
@@ -202,7 +202,11 @@ class _HeaderStorage(object):
     def _open_file(self, checkpoint):
         logger.debug(f'opening headers file {self.filename}')
         s = self.struct_reserved
-        self.mmap = map_file(self.filename)
+        try:
+            self.mmap = map_file(self.filename)
+        except ValueError:
+            # Empty files cannot be mapped
+            raise _BadHeadersFile(f'empty headers file {self.filename}') from None
         try:
             if len(self.mmap) >= s.size:
                 self.reserved_size, version, self.header_count = s.unpack(self.mmap[:s.size])
-- 
2.43.0


From d7071befef1fcceb06e1f4c36460a6e59ecb3919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:08 +0000
Subject: [PATCH 03/21] fix: header storage raises MissingHeader for an index
 that is too negative

It returned bytes overlapping the reserved area.
---
 bitcoinx/chain.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bitcoinx/chain.py b/bitcoinx/chain.py
index ba6c8b7..9912952 100644
--- a/bitcoinx/chain.py
+++ b/bitcoinx/chain.py
@@ -258,6 +258,8 @@ class _HeaderStorage(object):
         if isinstance(key, int):
             if key < 0:
                 key += len(self)
+            if key < 0:
+                raise MissingHeader(f'no header at index {key}')
             return header(key)
         elif isinstance(key, slice):
             return [header(index) for index in range(*key.indices(len(self)))]
-- 
2.43.0


From 4444dbdd887178c44e392f5fa73c3e6b6f6efaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:08 +0000
Subject: [PATCH 04/21] fix: give P2SH_Address a KIND

Script.to_json() with CLASSIFY_OUTPUT_SCRIPT raised AttributeError for P2SH outputs.
---
 bitcoinx/address.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bitcoinx/address.py b/bitcoinx/address.py
index 15f7d31..ad64703 100644
--- a/bitcoinx/address.py
+++ b/bitcoinx/address.py
@@ -127,6 +127,8 @@ class P2PKH_Address(Address):
 
 class P2SH_Address(Address):
 
+    KIND = 'scripthash'
+
     def __init__(self, hash160, coin):
         super().__init__(coin)
         self._hash160 = _validate_hash160(hash160)
-- 
2.43.0


From 97a63ea5f1a97e0188a07849e692748e42a44827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:08 +0000
Subject: [PATCH 05/21] fix: reject BIP32 chain strings with a trailing newline

"m/1'\n" was accepted and gave the unhardened index 1.
---
 bitcoinx/bip32.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoinx/bip32.py b/bitcoinx/bip32.py
index fbfbe58..caacde6 100644
--- a/bitcoinx/bip32.py
+++ b/bitcoinx/bip32.py
@@ -44,7 +44,7 @@ from .packing import pack_be_uint32, unpack_be_uint32, pack_byte
 from .util import cachedproperty
 
 HARDENED = 1 << 31
-PART_REGEX = re.compile("([0-9]+)'?$")
+PART_REGEX = re.compile("([0-9]+)'?\\Z")
 
 
 @attr.s(slots=True, frozen=True, repr=False)
-- 
2.43.0


From 8507b43ff0b464736254bc95502341a5caf84128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:08 +0000
Subject: [PATCH 06/21] fix: compact_signature_to_der rejects out-of-range
 values

The DER signature of zeroes was returned if r or s was not less than the curve order.
---
 bitcoinx/signature.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bitcoinx/signature.py b/bitcoinx/signature.py
index c1ee55b..fde49ce 100644
--- a/bitcoinx/signature.py
+++ b/bitcoinx/signature.py
@@ -99,7 +99,8 @@ def compact_signature_to_der(compact_sig):
     if not (isinstance(compact_sig, bytes) and len(compact_sig) == 64):
         raise InvalidSignatureError('compact signature must be 64 bytes')
     cdata_sig = ffi.new('secp256k1_ecdsa_signature *')
-    lib.secp256k1_ecdsa_signature_parse_compact(CONTEXT, cdata_sig, compact_sig)
+    if not lib.secp256k1_ecdsa_signature_parse_compact(CONTEXT, cdata_sig, compact_sig):
+        raise InvalidSignatureError('compact signature value out of range')
     return _cdata_signature_to_der(cdata_sig)
 
 
-- 
2.43.0


From f163f38dc135acc93cdc692f07bc10c43537f362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:08 +0000
Subject: [PATCH 07/21] fix: do not read long all-digit hex words of ASM as
 decimal

An item such as 20 zero bytes did not survive conversion to ASM and back, and non-ASCII
or very long digit strings raised ValueError instead of ScriptError.
---
 bitcoinx/script.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bitcoinx/script.py b/bitcoinx/script.py
index e6cd276..b73edfb 100644
--- a/bitcoinx/script.py
+++ b/bitcoinx/script.py
@@ -475,8 +475,11 @@ class Script:
             except KeyError:
                 raise ScriptError(f'unrecognized op code {word}') from None
             return pack_byte(opcode)
-        # Handle what looks like a decimal, provided it's in-range
-        if word.isdigit() or word[0] == '-' and word[1:].isdigit():
+        # Handle what looks like a decimal, provided it's in-range.  Longer words, and those
+        # padded with zeroes to 10 or more digits, are hex.
+        digits = word[1:] if word[0] == '-' else word
+        if (digits.isascii() and digits.isdigit()
+                and (len(digits) < 10 or len(digits) == 10 and word[0] != '0')):
             value = int(word)
             if abs(value) <= 2147483647:
                 return push_int(value)
-- 
2.43.0


From ca79711919552e697277662350ad7f2e8bd34a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:08 +0000
Subject: [PATCH 08/21] fix: cashaddr.decode rejects the Kelvin sign and empty
 payloads

U+212A lower-cases to "k".  A correct checksum with no payload raised IndexError.
---
 bitcoinx/cashaddr.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bitcoinx/cashaddr.py b/bitcoinx/cashaddr.py
index 0578353..27c20c4 100644
--- a/bitcoinx/cashaddr.py
+++ b/bitcoinx/cashaddr.py
@@ -121,9 +121,10 @@ def _decode_payload(addr):
     prefix, payload = parts
     if not prefix:
         raise ValueError('address prefix is missing: {}'.format(addr))
-    if not all(33 <= ord(x) <= 126 for x in prefix):
+    # Check the original, as a non-ASCII character can have an ASCII lower-case form
+    if not all(33 <= ord(x) <= 126 for x in addr):
         raise ValueError('invalid address prefix: {}'.format(prefix))
-    if not 8 <= len(payload) <= 124:
+    if not 8 < len(payload) <= 124:
         raise ValueError('address payload has invalid length: {}'
                          .format(len(addr)))
     try:
-- 
2.43.0


From 521bd48dfbad163d3df00befb66d2f7e9649b67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:08 +0000
Subject: [PATCH 09/21] fix: read word lists as UTF-8 whatever the locale

---
 bitcoinx/mnemonic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoinx/mnemonic.py b/bitcoinx/mnemonic.py
index 8abdf9d..f4d2836 100644
--- a/bitcoinx/mnemonic.py
+++ b/bitcoinx/mnemonic.py
@@ -74,7 +74,7 @@ class Wordlists:
 
     @classmethod
     def _read_wordlist(cls, filename, expected_count):
-        with open(data_file_path(filename)) as f:
+        with open(data_file_path(filename), encoding='utf-8') as f:
             text = f.read()
         return cls._text_to_wordlist(text, expected_count)
 
-- 
2.43.0


From 8a7743337182228bc3437bd47db7b3a9d56b246e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:08 +0000
Subject: [PATCH 10/21] fix: bip39_wordlist refuses a cached list of the wrong
 length

The word count was not checked if the list had been loaded as an Electrum one.
---
 bitcoinx/mnemonic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bitcoinx/mnemonic.py b/bitcoinx/mnemonic.py
index f4d2836..7b4df7a 100644
--- a/bitcoinx/mnemonic.py
+++ b/bitcoinx/mnemonic.py
@@ -80,9 +80,10 @@ class Wordlists:
 
     @classmethod
     def _cached_wordlist(cls, filename, expected_count):
-        result = cls.cache.get(filename)
+        key = (filename, expected_count)
+        result = cls.cache.get(key)
         if not result:
-            result = cls.cache[filename] = cls._read_wordlist(filename, expected_count)
+            result = cls.cache[key] = cls._read_wordlist(filename, expected_count)
         return result
 
     @classmethod
-- 
2.43.0


From af5647c85e41e40d58bdffef55bec3bc79212be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:08 +0000
Subject: [PATCH 11/21] fix: a non-ASCII message signature is an
 InvalidSignatureError

A plain ValueError was raised, including by verify_message_and_address.
---
 bitcoinx/signature.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bitcoinx/signature.py b/bitcoinx/signature.py
index fde49ce..20db38e 100644
--- a/bitcoinx/signature.py
+++ b/bitcoinx/signature.py
@@ -31,7 +31,6 @@ __all__ = (
 )
 
 from base64 import b64decode
-from binascii import Error as binascii_Error
 
 from electrumsv_secp256k1 import ffi, lib
 
@@ -152,7 +151,7 @@ def to_recoverable_signature(message_sig):
     if isinstance(message_sig, str):
         try:
             message_sig = b64decode(message_sig, validate=True)
-        except binascii_Error:
+        except ValueError:  # binascii.Error, or the text is not ASCII
             raise InvalidSignatureError('invalid base64 encoding of message signature') from None
     if not isinstance(message_sig, bytes) or len(message_sig) != 65:
         raise InvalidSignatureError('message signature must be 65 bytes')
-- 
2.43.0


From eab7642df276fa956443cd043ead6194953ed88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:08 +0000
Subject: [PATCH 12/21] fix: decrypting non-ASCII text raises DecryptionError

---
 bitcoinx/keys.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bitcoinx/keys.py b/bitcoinx/keys.py
index 72e3025..c07e169 100644
--- a/bitcoinx/keys.py
+++ b/bitcoinx/keys.py
@@ -29,7 +29,6 @@ __all__ = ('PrivateKey', 'PublicKey', 'CURVE_ORDER', 'DecryptionError', )
 
 
 from base64 import b64decode, b64encode
-from binascii import Error as binascii_Error
 from os import urandom
 
 from electrumsv_secp256k1 import ffi, lib
@@ -297,7 +296,7 @@ class PrivateKey:
         if isinstance(message, str):
             try:
                 message = b64decode(message, validate=True)
-            except binascii_Error:
+            except ValueError:  # binascii.Error, or the text is not ASCII
                 raise DecryptionError('invalid base64 encoding of encrypted message') from None
         mlen = len(magic)
         if len(message) < 81 + mlen:
-- 
2.43.0


From 144430866cecad52e8e46b5d859602741d153533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:08 +0000
Subject: [PATCH 13/21] fix: only a transaction with a single input can be a
 coinbase

is_coinbase() ignored later inputs, and raised IndexError if there were none.
---
 bitcoinx/tx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoinx/tx.py b/bitcoinx/tx.py
index 98cccc7..a277e41 100644
--- a/bitcoinx/tx.py
+++ b/bitcoinx/tx.py
@@ -57,7 +57,7 @@ class Tx:
 
     def is_coinbase(self):
         '''Return True iff the tx is a coinbase transaction.'''
-        return self.inputs[0].is_coinbase()
+        return len(self.inputs) == 1 and self.inputs[0].is_coinbase()
 
     @classmethod
     def read(cls, read):
-- 
2.43.0


From 4a29c4689ace8cc37ede7cb78ddab60bee6d6980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:13 +0000
Subject: [PATCH 14/21] fix: heights on deeply nested chains do not exhaust the
 stack

---
 bitcoinx/chain.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bitcoinx/chain.py b/bitcoinx/chain.py
index 9912952..84cbd29 100644
--- a/bitcoinx/chain.py
+++ b/bitcoinx/chain.py
@@ -142,13 +142,15 @@ class Chain(object):
 
     def header_index(self, height):
         '''Return the index of the header in storage.'''
-        if height >= self.first_height:
+        chain = self
+        # A loop, as chains can fork from forks more deeply than the recursion limit
+        while height < chain.first_height and chain.parent:
+            chain = chain.parent
+        if height >= chain.first_height:
             try:
-                return self._header_indices[height - self.first_height]
+                return chain._header_indices[height - chain.first_height]
             except IndexError:
                 pass
-        elif self.parent:
-            return self.parent.header_index(height)
         elif height >= 0:
             return height
         raise MissingHeader(f'no header at height {height}')
-- 
2.43.0


From f004c52917d2d7321a135005455db235e6164a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 15/21] fix: more than 65535 chains can be indexed

---
 bitcoinx/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoinx/chain.py b/bitcoinx/chain.py
index 84cbd29..e1e7805 100644
--- a/bitcoinx/chain.py
+++ b/bitcoinx/chain.py
@@ -321,7 +321,7 @@ class Headers(object):
         self._chains = []
         self._short_hashes = bytearray()
         self._heights = array.array('I')
-        self._chain_indices = array.array('H')
+        self._chain_indices = array.array('I')
         self._cache = {}
 
         # Create the base chain out to the checkpoint
-- 
2.43.0


From cfe665be7282d1bb3be8df8261dec0f6c70e4efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:38 +0000
Subject: [PATCH 16/21] fix: a negative index of header storage writes where it
 reads

---
 bitcoinx/chain.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bitcoinx/chain.py b/bitcoinx/chain.py
index e1e7805..f92b426 100644
--- a/bitcoinx/chain.py
+++ b/bitcoinx/chain.py
@@ -269,6 +269,10 @@ class _HeaderStorage(object):
 
     def __setitem__(self, key, raw_header):
         if isinstance(key, int):
+            if key < 0:
+                key += len(self)
+            if key < 0:
+                raise MissingHeader(f'no header at index {key}')
             self._set_raw_header(key, raw_header)
         else:
             raise TypeError(f'key {key} should be an integer')
-- 
2.43.0


From ad567fccbb299775e60203cde2284a9c8fe2f736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:56 +0000
Subject: [PATCH 17/21] fix: truncated scripts are rejected when assertions are
 disabled

---
 bitcoinx/script.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bitcoinx/script.py b/bitcoinx/script.py
index b73edfb..ae18431 100644
--- a/bitcoinx/script.py
+++ b/bitcoinx/script.py
@@ -386,7 +386,8 @@ class Script:
                         n += 4
                     data = script[n: n + dlen]
                     n += dlen
-                    assert len(data) == dlen
+                    if len(data) != dlen:
+                        raise TruncatedScriptError
                     yield data
                 except Exception:
                     raise TruncatedScriptError from None
-- 
2.43.0


From dc774c3f4f9f0f030bc9ec072891ec090da1a46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:58 +0000
Subject: [PATCH 18/21] fix: old Electrum seeds must be hexadecimal

---
 bitcoinx/mnemonic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitcoinx/mnemonic.py b/bitcoinx/mnemonic.py
index 7b4df7a..39f3894 100644
--- a/bitcoinx/mnemonic.py
+++ b/bitcoinx/mnemonic.py
@@ -292,6 +292,9 @@ class ElectrumMnemonic:
     def hex_seed_to_old(cls, hex_seed):
         if len(hex_seed) not in {32, 64}:
             raise ValueError('hex seed has invalid length')
+        # int() is lenient; it accepts signs, underscores, whitespace and a 0x prefix
+        if len(bytes.fromhex(hex_seed)) * 2 != len(hex_seed):
+            raise ValueError('hex seed is not hexadecimal')
 
         def indices(hex_seed, n):
             for chunk in chunks(hex_seed, 8):
-- 
2.43.0


From a412229f27d50e1196a11bb936a8f26c19fb4560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:11 +0000
Subject: [PATCH 19/21] fix: looking up a hash was quadratic in the number of
 headers when it began like another

Each non-matching hit of the four-byte key restarted the search one byte on from
the last start, not from the hit.  Looking up any hash that begins with the same
four bytes as a known header, such as the previous hash of a header sent by a
stranger, could take minutes with the headers of the main chain.
---
 bitcoinx/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitcoinx/chain.py b/bitcoinx/chain.py
index f92b426..ce10aad 100644
--- a/bitcoinx/chain.py
+++ b/bitcoinx/chain.py
@@ -364,7 +364,7 @@ class Headers(object):
                     return raw_header, our_index
             if index == -1:
                 raise MissingHeader(f'no header with hash {hash_to_hex_str(header_hash)}')
-            start += 1
+            start = index + 1
 
     def _read_headers(self):
         '''Read in all the headers from storage.'''
-- 
2.43.0


From 43e6ae5bf865f1fecb3c62bc69fcf8ce263ec868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:58 +0000
Subject: [PATCH 20/21] fix: an input was read with part of its previous hash
 from a stream that gave less

A stream that returns fewer bytes than asked for (as raw files, pipes and
sockets may) made TxInput.read return an input whose previous hash was
short, misreading all that follows; every other field is checked.
---
 bitcoinx/tx.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bitcoinx/tx.py b/bitcoinx/tx.py
index a277e41..c5a0448 100644
--- a/bitcoinx/tx.py
+++ b/bitcoinx/tx.py
@@ -31,6 +31,7 @@ __all__ = (
 import attr
 import datetime
 from io import BytesIO
+from struct import error as struct_error
 
 from .consts import JSONFlags
 from .hashes import hash_to_hex_str, double_sha256
@@ -211,8 +212,11 @@ class TxInput:
 
     @classmethod
     def read(cls, read):
+        prev_hash = read(32)
+        if len(prev_hash) != 32:
+            raise struct_error('prev_hash requires a buffer of 32 bytes')
         return cls(
-            read(32),                       # prev_hash
+            prev_hash,
             read_le_uint32(read),           # prev_idx
             Script(read_varbytes(read)),    # script_sig
             read_le_uint32(read),           # sequence
-- 
2.43.0


From 3435b2d9f5646d959fee11e7b38a844b1db2d0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:33 +0000
Subject: [PATCH 21/21] fix: keep the headers file mapped when growing it fails

If the larger map was refused (no descriptors, memory or space) the old one
had already been closed and the collection was of no more use.
---
 bitcoinx/chain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bitcoinx/chain.py b/bitcoinx/chain.py
index ce10aad..4a89274 100644
--- a/bitcoinx/chain.py
+++ b/bitcoinx/chain.py
@@ -242,8 +242,9 @@ class _HeaderStorage(object):
         mmap = self.mmap
         start = self._offset(index)
         if start >= len(mmap):
+            # If the system refuses a larger map the one we have remains good
+            self.mmap = map_file(self.filename, self._offset(index + 5_000))
             mmap.close()
-            mmap = self.mmap = map_file(self.filename, self._offset(index + 5_000))
         # Write the header before counting it, so that a crash in between loses nothing
         self.mmap[start: start + 80] = raw_header
         if index >= len(self):
-- 
2.43.0

