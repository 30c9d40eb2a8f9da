From aa623712e9e506fa50ccdb9a82bc62fd924fe978 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:36:18 +0000
Subject: [PATCH 01/45] fix: use integer division for byte, bit and block
 counts

On Python 3 '/' yields a float, which cannot size a random read, a range()
or a string repetition, so key generation, padding and streaming all failed.
---
 python/src/keyczar/keyinfo.py |  6 +++---
 python/src/keyczar/keys.py    |  8 ++++----
 python/src/keyczar/util.py    | 12 ++++++------
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/python/src/keyczar/keyinfo.py b/python/src/keyczar/keyinfo.py
index 3a02d87..d033bc9 100644
--- a/python/src/keyczar/keyinfo.py
+++ b/python/src/keyczar/keyinfo.py
@@ -125,10 +125,10 @@ class CipherMode(_NameId):
     self.use_iv = use_iv
     self.GetOutputSize = OutputSizeFn
 
-CBC = CipherMode("CBC", 0, True, lambda b, i: (i / b + 2) * b)
-CTR = CipherMode("CTR", 1, True, lambda b, i: i + b / 2)
+CBC = CipherMode("CBC", 0, True, lambda b, i: (i // b + 2) * b)
+CTR = CipherMode("CTR", 1, True, lambda b, i: i + b // 2)
 ECB = CipherMode("ECB", 2, False, lambda b, i: b)
-DET_CBC = CipherMode("DET_CBC", 3, False, lambda b, i: (i / b + 1) * b)
+DET_CBC = CipherMode("DET_CBC", 3, False, lambda b, i: (i // b + 1) * b)
 modes = {"CBC": CBC, "CTR": CTR, "ECB": ECB, "DET_CBC": DET_CBC}
 
 def GetMode(name):
diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 7a91f0d..e86ba29 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -354,7 +354,7 @@ class AesKey(SymmetricKey):
     @return: an AES key
     @rtype: L{AesKey}
     """
-    key_bytes = util.RandBytes(size / 8)
+    key_bytes = util.RandBytes(size // 8)
     key_string = util.Base64WSEncode(key_bytes)
     hmac_key = HmacKey.Generate()  # use default HMAC-SHA1 key size
     return AesKey(key_string, hmac_key, size)
@@ -419,7 +419,7 @@ class AesKey(SymmetricKey):
     @return: best buffer size
     @rtype: int
     """
-    no_pad_size = self.block_size * (buffer_size / self.block_size)
+    no_pad_size = self.block_size * (buffer_size // self.block_size)
     return max(no_pad_size, self.block_size)
 
   def Encrypt(self, data):
@@ -521,7 +521,7 @@ class HmacKey(SymmetricKey):
     @return: an HMAC-SHA1 key
     @rtype: L{HmacKey}
     """
-    key_bytes = util.RandBytes(size / 8)
+    key_bytes = util.RandBytes(size // 8)
     key_string = util.Base64WSEncode(key_bytes)
     return HmacKey(key_string, size)
 
@@ -850,7 +850,7 @@ class RsaPrivateKey(PrivateKey):
     """
     emsa_encoded = util.MakeEmsaMessage(msg, self.size)
     byte_string = util.BigIntToBytes(self.key.sign(emsa_encoded, None)[0])
-    return util.PadBytes(byte_string, self.size/8 - len(byte_string))
+    return util.PadBytes(byte_string, self.size//8 - len(byte_string))
 
   def Verify(self, msg, sig):
     """@see: L{RsaPublicKey.Verify}"""
diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index d06dced..088fe41 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -246,13 +246,13 @@ def MakeEmsaMessage(msg, modulus_size):
   magic_sha1_header = [0x30, 0x21, 0x30, 0x9, 0x6, 0x5, 0x2b, 0xe, 0x3, 0x2,
                        0x1a, 0x5, 0x0, 0x4, 0x14]
   encoded = "".join([chr(c) for c in magic_sha1_header]) + Hash(msg)
-  pad_string = chr(0xFF) * (modulus_size / 8 - len(encoded) - 3)
+  pad_string = chr(0xFF) * (modulus_size // 8 - len(encoded) - 3)
   return chr(1) + pad_string + chr(0) + encoded
 
 def BinToBytes(bits):
   """Convert bit string to byte string."""
   bits = _PadByte(bits)
-  octets = [bits[8 * i:8 * (i + 1)] for i in range(len(bits) / 8)]
+  octets = [bits[8 * i:8 * (i + 1)] for i in range(len(bits) // 8)]
   return "".join([chr(int(x, 2)) for x in octets])
 
 def BytesToBin(byte_string):
@@ -268,9 +268,9 @@ def IntToBin(n):
   if n == 0 or n == 1:
     return str(n)
   elif n % 2 == 0:
-    return IntToBin(n / 2) + "0"
+    return IntToBin(n // 2) + "0"
   else:
-    return IntToBin(n / 2) + "1"
+    return IntToBin(n // 2) + "1"
 
 def BigIntToBytes(n):
   """Return a big-endian byte string representation of an arbitrary length n."""
@@ -531,7 +531,7 @@ class BufferedIncrementalBase64WSEncoder(codecs.BufferedIncrementalEncoder):
     # and return an (output, length consumed) tuple
     if not final:
       # only output exact multiples of 3-bytes => no padding
-      len_to_write = 3 * (len(input) / 3)
+      len_to_write = 3 * (len(input) // 3)
     else:
       len_to_write = len(input)
     return (Base64WSEncode(input[:len_to_write]), len_to_write)
@@ -658,7 +658,7 @@ class BufferedIncrementalBase64WSDecoder(codecs.BufferedIncrementalDecoder):
     """
     if not final:
       # only output exact multiples of 4-bytes => no padding
-      len_to_read = 4 * (len(input) / 4)
+      len_to_read = 4 * (len(input) // 4)
     else:
       len_to_read = len(input)
     return (Base64WSDecode(input[:len_to_read]), len_to_read)
-- 
2.43.0


From 22333075c0eb25607e48930d47cdb9fdf3845e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:46 +0000
Subject: [PATCH 02/45] fix: convert byte strings at the hash, base64, random
 and struct boundaries

Keyczar keeps raw data in strings holding one character per byte, and its
callers and tests rely on that. hashlib, base64, os.urandom and struct deal in
bytes objects on Python 3, so every key hash, encoding and packed array failed
with a TypeError, and base64 errors (now ValueErrors) escaped undeclared.
---
 python/src/keyczar/util.py | 39 +++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 088fe41..22391a1 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -315,25 +315,35 @@ def TrimBytes(byte_string):
   else:
     return trimmed
 
+def RawBytes(byte_string):
+  """Return a byte string (one character per byte) as a bytes object."""
+  if isinstance(byte_string, bytes):
+    return byte_string
+  return byte_string.encode('latin-1')
+
+def RawString(raw_bytes):
+  """Return a bytes object as a byte string (one character per byte)."""
+  return raw_bytes.decode('latin-1')
+
 def RandBytes(n):
   """Return n random bytes."""
   # This function requires at least Python 2.4.
-  return os.urandom(n)
+  return RawString(os.urandom(n))
 
 def Hash(*inputs):
   """Return a SHA-1 hash over a variable number of inputs."""
   md = sha1()
   for i in inputs:
-    md.update(i)
-  return md.digest()
+    md.update(RawBytes(i))
+  return RawString(md.digest())
 
 def PrefixHash(*inputs):
   """Return a SHA-1 hash over a variable number of inputs."""
   md = sha1()
   for i in inputs:
-    md.update(IntToBytes(len(i)))
-    md.update(i)
-  return md.digest()
+    md.update(RawBytes(IntToBytes(len(i))))
+    md.update(RawBytes(i))
+  return RawString(md.digest())
 
 
 def Encode(s):
@@ -354,7 +364,7 @@ def Base64WSEncode(s):
   @return: Base64 representation of s.
   @rtype: string
   """
-  return base64.urlsafe_b64encode(str(s)).replace("=", "")
+  return RawString(base64.urlsafe_b64encode(RawBytes(s))).replace("=", "")
 
 
 def Decode(s):
@@ -388,9 +398,9 @@ def Base64WSDecode(s):
   elif d == 3:
     s += "="
   try:
-    return base64.urlsafe_b64decode(s)
-  except TypeError:
-    # Decoding raises TypeError if s contains invalid characters.
+    return RawString(base64.urlsafe_b64decode(RawBytes(s)))
+  except ValueError:
+    # Decoding raises ValueError if s contains invalid characters.
     raise errors.Base64DecodingError()
 
 # Struct packed byte array format specifiers used below
@@ -404,7 +414,8 @@ def PackByteArray(array):
   """
   if array is None:
     return ''
-  array_length_header = struct.pack(BIG_ENDIAN_INT_SPECIFIER, len(array))
+  array_length_header = RawString(struct.pack(BIG_ENDIAN_INT_SPECIFIER,
+                                              len(array)))
   return array_length_header + array
 
 def PackMultipleByteArrays(*arrays):
@@ -414,7 +425,8 @@ def PackMultipleByteArrays(*arrays):
   four-byte big-endian integer, followed by the arrays in sequence, each
   length-prefixed by PackByteArray().
   """
-  array_count_header = struct.pack(BIG_ENDIAN_INT_SPECIFIER, len(arrays))
+  array_count_header = RawString(struct.pack(BIG_ENDIAN_INT_SPECIFIER,
+                                             len(arrays)))
   array_contents = ''.join([PackByteArray(a) for a in arrays])
   return array_count_header + array_contents
 
@@ -424,7 +436,8 @@ def UnpackByteArray(data, offset):
   starting from position 'offset'.  Returns a tuple of the data array and the
   offset of the first byte after the end of the extracted array.
   """
-  array_len = struct.unpack(BIG_ENDIAN_INT_SPECIFIER, data[offset:offset + 4])[0]
+  array_len = struct.unpack(BIG_ENDIAN_INT_SPECIFIER,
+                            RawBytes(data[offset:offset + 4]))[0]
   offset += 4
   return data[offset:offset + array_len], offset + array_len
 
-- 
2.43.0


From fd84d13eaa4fc1e817b80f5def0f85dde4778553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:14 +0000
Subject: [PATCH 03/45] fix: exchange bytes with pyasn1 when reading and
 writing keys and signatures

pyasn1 encodes to and decodes from bytes objects on Python 3, and its BIT
STRING no longer pretty-prints in the form ParseX509 cut apart, so DSA
signatures and the PKCS8 and X.509 conversions all failed.
---
 python/src/keyczar/util.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 22391a1..fb22ccc 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -119,7 +119,7 @@ def ParseASN1Sequence(seq):
 #
 #Attributes ::= SET OF Attribute
 def ParsePkcs8(pkcs8):
-  seq = ParseASN1Sequence(decoder.decode(Base64WSDecode(pkcs8))[0])
+  seq = ParseASN1Sequence(decoder.decode(RawBytes(Base64WSDecode(pkcs8)))[0])
   if len(seq) != 3:  # need three fields in PrivateKeyInfo
     raise errors.KeyczarError("Illegal PKCS8 String.")
   version = int(seq[0])
@@ -168,14 +168,13 @@ def ExportDsaPkcs8(params):
 #        algorithm            AlgorithmIdentifier,
 #        subjectPublicKey     BIT STRING  }
 def ParseX509(x509):
-  seq = ParseASN1Sequence(decoder.decode(Base64WSDecode(x509))[0])
+  seq = ParseASN1Sequence(decoder.decode(RawBytes(Base64WSDecode(x509)))[0])
   if len(seq) != 2:  # need two fields in SubjectPublicKeyInfo
     raise errors.KeyczarError("Illegal X.509 String.")
   [oid, alg_params] = ParseASN1Sequence(seq[0])
-  pubkey = decoder.decode(univ.OctetString(BinToBytes(seq[1].
-                                                      prettyPrint()[2:-3])))[0]
-  # Component 1 should be a BIT STRING, get raw bits by discarding extra chars,
-  # then convert to OCTET STRING which can be ASN.1 decoded
+  pubkey = decoder.decode(seq[1].asOctets())[0]
+  # Component 1 should be a BIT STRING, get its raw octets which can be ASN.1
+  # decoded
   params = {}
   if oid == RSA_OID:
     [params['n'], params['e']] = [int(x) for x in ParseASN1Sequence(pubkey)]
@@ -191,7 +190,7 @@ def ParseX509(x509):
 def ExportRsaX509(params):
   oid = ASN1Sequence(RSA_OID, univ.Null())
   key = ASN1Sequence(univ.Integer(params['n']), univ.Integer(params['e']))
-  binkey = BytesToBin(encoder.encode(key))
+  binkey = BytesToBin(RawString(encoder.encode(key)))
   pubkey = univ.BitString("'%s'B" % binkey)  # needs to be a BIT STRING
   seq = ASN1Sequence(oid, pubkey)
   return Base64WSEncode(encoder.encode(seq))
@@ -201,7 +200,7 @@ def ExportDsaX509(params):
                             univ.Integer(params['q']),
                             univ.Integer(params['g']))
   oid = ASN1Sequence(DSA_OID, alg_params)
-  binkey = BytesToBin(encoder.encode(univ.Integer(params['y'])))
+  binkey = BytesToBin(RawString(encoder.encode(univ.Integer(params['y']))))
   pubkey = univ.BitString("'%s'B" % binkey)  # needs to be a BIT STRING
   seq = ASN1Sequence(oid, pubkey)
   return Base64WSEncode(encoder.encode(seq))
@@ -220,7 +219,7 @@ def MakeDsaSig(r, s):
   @rtype: string
   """
   seq = ASN1Sequence(univ.Integer(r), univ.Integer(s))
-  return encoder.encode(seq)
+  return RawString(encoder.encode(seq))
 
 def ParseDsaSig(sig):
   """
@@ -234,7 +233,7 @@ def ParseDsaSig(sig):
 
   @raise KeyczarErrror: if the DSA signature format is invalid
   """
-  seq = decoder.decode(sig)[0]
+  seq = decoder.decode(RawBytes(sig))[0]
   if len(seq) != 2:
     raise errors.KeyczarError("Illegal DSA signature.")
   r = int(seq.getComponentByPosition(0))
-- 
2.43.0


From 9d42e9f19ab092c4d6f2cde6c114cb84f283c874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:15 +0000
Subject: [PATCH 04/45] fix: buffer text, not bytes, in the streaming base64
 decoder

The codecs base classes start out with empty bytes buffers on Python 3, which
cannot be joined with the base64 text read from the stream.
---
 python/src/keyczar/util.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index fb22ccc..ea8bd32 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -650,6 +650,10 @@ class BufferedIncrementalBase64WSDecoder(codecs.BufferedIncrementalDecoder):
   undecoded data outside this optimal size will be buffered.
   """
 
+  def __init__(self, errors='strict'):
+    super(BufferedIncrementalBase64WSDecoder, self).__init__(errors)
+    self.buffer = ''  # Base64 text, not bytes
+
   def _buffer_decode(self, input, errors, final):
     """
     Decodes input and returns the resulting object, buffering any data that is
@@ -739,6 +743,7 @@ class IncrementalBase64WSStreamReader(codecs.StreamReader, object):
 
     """
     super(IncrementalBase64WSStreamReader, self).__init__(stream, errors)
+    self.bytebuffer = ''  # Base64 text, not bytes
     self.decoder = BufferedIncrementalBase64WSDecoder(errors=errors)
 
   def read(self, size=-1, chars=-1, firstline=False):
-- 
2.43.0


From becb524a6f7efe5db063f5acccef48e0701a475e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:15 +0000
Subject: [PATCH 05/45] fix: exchange bytes with the hmac module

hmac only takes and returns bytes objects on Python 3; signing, verifying and
ciphertext authentication failed.
---
 python/src/keyczar/keys.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index e86ba29..1674f43 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -549,7 +549,8 @@ class HmacKey(SymmetricKey):
     @return: raw byte string signature
     @rtype: string
     """
-    return hmac.new(self.key_bytes, msg, sha1).digest()
+    return util.RawString(hmac.new(util.RawBytes(self.key_bytes),
+                                   util.RawBytes(msg), sha1).digest())
 
   def Verify(self, msg, sig_bytes):
     """
@@ -591,10 +592,10 @@ class HmacKeyStream(object):
 
   def __init__(self, hmac_key):
     self.hmac_key = hmac_key
-    self.hmac = hmac.new(self.hmac_key.key_bytes, '', sha1)
+    self.hmac = hmac.new(util.RawBytes(self.hmac_key.key_bytes), b'', sha1)
 
   def Update(self, data):
-      self.hmac.update(data)
+      self.hmac.update(util.RawBytes(data))
 
   def Sign(self):
     """
@@ -603,7 +604,7 @@ class HmacKeyStream(object):
     @return: raw byte string signature
     @rtype: string
     """
-    return self.hmac.digest()
+    return util.RawString(self.hmac.digest())
 
 
 class PrivateKey(AsymmetricKey):
-- 
2.43.0


From 96ac44c7e383be763a07036626790626b0987deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:15 +0000
Subject: [PATCH 06/45] fix: exchange bytes with the AES ciphers

Both PyCrypto's and M2Crypto's ciphers take keys, IVs and data as bytes
objects on Python 3.
---
 python/src/keyczar/keys.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 1674f43..bef40c9 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -199,12 +199,21 @@ class AesKey(SymmetricKey):
       @param mode: the cipher mode
       @type mode: integer (using AES values, e.g. AES.MODE_CBC)
       """
-      self.cipher = AES.new(key_bytes, mode, iv_bytes)
+      self.cipher = AES.new(util.RawBytes(key_bytes), mode,
+                            util.RawBytes(iv_bytes))
 
     def __getattr__(self, name):
       # defer everything to the actual cipher instance
       return getattr(self.cipher, name)
 
+    def decrypt(self, string):
+      """Return decrypted byte string"""
+      return util.RawString(self.cipher.decrypt(util.RawBytes(string)))
+
+    def encrypt(self, string):
+      """Return encrypted byte string"""
+      return util.RawString(self.cipher.encrypt(util.RawBytes(string)))
+
     def final(self):
       """
       Collect any remaining encrypted data i.e. non-block size conforming
@@ -279,8 +288,8 @@ class AesKey(SymmetricKey):
           # EVP requires different mode strings for each key size (in bits)
           mode = 'aes_%s_cbc' %(self.key_size*8)
           cipher = EVP.Cipher(alg=mode,
-                              key=self.key_bytes, 
-                              iv=self.IV,
+                              key=util.RawBytes(self.key_bytes),
+                              iv=util.RawBytes(self.IV),
                               op=selector,
                               padding=0
                              )
@@ -297,7 +306,8 @@ class AesKey(SymmetricKey):
       @return: plaintext string
       @rtype: string
       """
-      return self.__Cipher(self.OP_DECRYPT).update(string)
+      return util.RawString(
+          self.__Cipher(self.OP_DECRYPT).update(util.RawBytes(string)))
 
     def encrypt(self, string):
       """
@@ -309,7 +319,8 @@ class AesKey(SymmetricKey):
       @return: raw byte encrypted string  
       @rtype: string
       """
-      return self.__Cipher(self.OP_ENCRYPT).update(string)
+      return util.RawString(
+          self.__Cipher(self.OP_ENCRYPT).update(util.RawBytes(string)))
 
     def final(self, selector=OP_ACTIVE):
       """
@@ -317,7 +328,7 @@ class AesKey(SymmetricKey):
 
       @return: remaining encrypted data, if any
       """
-      return self.__Cipher(selector).final()
+      return util.RawString(self.__Cipher(selector).final())
 
   def __init__(self, key_string, hmac_key, size=keyinfo.AES.default_size,
                mode=keyinfo.CBC):
-- 
2.43.0


From c66eb3f0c11b1c3a9235000ebc9a2f5557e70959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:15 +0000
Subject: [PATCH 07/45] fix: decrypt and stream with the selected crypto
 library

Only Encrypt() honoured ACTIVE_CRYPT_LIB; Decrypt() and both streams always
used PyCrypto, which also meant that they bypassed the adaptors and so got
bytes objects where byte strings are expected.
---
 python/src/keyczar/keys.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index bef40c9..aa74a70 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -445,7 +445,7 @@ class AesKey(SymmetricKey):
     """
     data = self._Pad(data)
     iv_bytes = util.RandBytes(self.block_size)
-    cipher = self.__CreateCipher(self.key_bytes, iv_bytes)
+    cipher = self._CreateCipher(self.key_bytes, iv_bytes)
     ciph_bytes = cipher.encrypt(data)
     ciph_bytes += cipher.final()
     msg_bytes = self.Header() + iv_bytes + ciph_bytes
@@ -476,10 +476,10 @@ class AesKey(SymmetricKey):
     if not self.hmac_key.Verify(input_bytes[:-util.HLEN], sig_bytes):
       raise errors.InvalidSignatureError()
 
-    plain = AES.new(self.key_bytes, AES.MODE_CBC, iv_bytes).decrypt(ciph_bytes)
+    plain = self._CreateCipher(self.key_bytes, iv_bytes).decrypt(ciph_bytes)
     return self._UnPad(plain)
 
-  def __CreateCipher(self, key_bytes, iv_bytes, mode=AES.MODE_CBC):
+  def _CreateCipher(self, key_bytes, iv_bytes, mode=AES.MODE_CBC):
     """
     Factory function for creating cipher of specified type using the active
     crypto library
@@ -1056,7 +1056,7 @@ class EncryptingStreamWriter(object):
 
     self.__hmac_stream = key.hmac_key.CreateStreamable()
     iv_bytes = util.RandBytes(key.block_size)
-    self.__cipher = AES.new(key.key_bytes, AES.MODE_CBC, iv_bytes)
+    self.__cipher = key._CreateCipher(key.key_bytes, iv_bytes)
 
     hdr = key.Header()
     self.__hmac_stream.Update(hdr + iv_bytes)
@@ -1314,6 +1314,6 @@ class DecryptingStreamReader(object):
         self.__encrypted_buffer = self.__encrypted_buffer[
             reqd_block_size:]
         self.__hmac_stream.Update(iv_bytes)
-        self.__cipher = AES.new(self.__key.key_bytes, AES.MODE_CBC, iv_bytes)
+        self.__cipher = self.__key._CreateCipher(self.__key.key_bytes, iv_bytes)
     return is_data_avail
 
-- 
2.43.0


From 34f6fbfae6605f0910b3d7e5c8a256db6f0e3089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:15 +0000
Subject: [PATCH 08/45] fix: exchange bytes with PyCrypto's RSA and DSA keys

PyCrypto's public key objects take messages and return random and encrypted
data as bytes objects on Python 3.
---
 python/src/keyczar/keys.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index aa74a70..b78cacb 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -661,7 +661,7 @@ class DsaPrivateKey(PrivateKey):
     @return: a DSA private key
     @rtype: L{DsaPrivateKey}
     """
-    key = DSA.generate(size, util.RandBytes)
+    key = DSA.generate(size, lambda n: util.RawBytes(util.RandBytes(n)))
     params = { 'x': util.PadBytes(util.BigIntToBytes(key.x), 1) }
     pubkey = key.publickey()
     pub_params = { 'g': util.PadBytes(util.BigIntToBytes(pubkey.g), 1),
@@ -706,7 +706,7 @@ class DsaPrivateKey(PrivateKey):
     # Need to chose a random k per-message, SystemRandom() is available
     # since Python 2.4.
     k = random.SystemRandom().randint(2, self.key.q-1)
-    (r, s) = self.key.sign(util.Hash(msg), k)
+    (r, s) = self.key.sign(util.RawBytes(util.Hash(msg)), k)
     return util.MakeDsaSig(r, s)
 
   def Verify(self, msg, sig):
@@ -787,7 +787,7 @@ class RsaPrivateKey(PrivateKey):
     @return: a RSA private key
     @rtype: L{RsaPrivateKey}
     """
-    key = RSA.generate(size, util.RandBytes)
+    key = RSA.generate(size, lambda n: util.RawBytes(util.RandBytes(n)))
     #NOTE: PyCrypto stores p < q, u = p^{-1} mod q
     #But OpenSSL and PKCS8 stores q < p, invq = q^{-1} mod p
     #So we have to reverse the p and q values
@@ -847,7 +847,7 @@ class RsaPrivateKey(PrivateKey):
     @rtype: string
     """
     ciph_bytes = input_bytes[keyczar.HEADER_SIZE:]
-    decrypted = self.key.decrypt(ciph_bytes)
+    decrypted = util.RawString(self.key.decrypt(util.RawBytes(ciph_bytes)))
     return self.__Decode(decrypted)
 
   def Sign(self, msg):
@@ -861,7 +861,8 @@ class RsaPrivateKey(PrivateKey):
     @rtype: string
     """
     emsa_encoded = util.MakeEmsaMessage(msg, self.size)
-    byte_string = util.BigIntToBytes(self.key.sign(emsa_encoded, None)[0])
+    byte_string = util.BigIntToBytes(self.key.sign(util.RawBytes(emsa_encoded),
+                                                   None)[0])
     return util.PadBytes(byte_string, self.size//8 - len(byte_string))
 
   def Verify(self, msg, sig):
@@ -931,7 +932,7 @@ class DsaPublicKey(PublicKey):
     """
     try:
       (r, s) = util.ParseDsaSig(sig)
-      return self.key.verify(util.Hash(msg), (r, s))
+      return self.key.verify(util.RawBytes(util.Hash(msg)), (r, s))
     except errors.KeyczarError:
       # if signature is not in correct format
       return False
@@ -1010,7 +1011,8 @@ class RsaPublicKey(PublicKey):
     @rtype: string
     """
     data = self.__Encode(data)
-    ciph_bytes = self.key.encrypt(data, None)[0]  # PyCrypto returns 1-tuple
+    # PyCrypto returns 1-tuple
+    ciph_bytes = util.RawString(self.key.encrypt(util.RawBytes(data), None)[0])
     return self.Header() + ciph_bytes
 
   def Verify(self, msg, sig):
@@ -1027,7 +1029,8 @@ class RsaPublicKey(PublicKey):
     @rtype: boolean
     """
     try:
-      return self.key.verify(util.MakeEmsaMessage(msg, self.size), (util.BytesToLong(sig),))
+      return self.key.verify(util.RawBytes(util.MakeEmsaMessage(msg, self.size)),
+                             (util.BytesToLong(sig),))
     except ValueError:
       # if sig is not a long, it's invalid
       return False
-- 
2.43.0


From d14879b8bd298777d6fdbda43ed7bc72969f1f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:26 +0000
Subject: [PATCH 09/45] fix: return an implementation's output as text from
 _CallImplementation

check_output() returns bytes on Python 3, so the runner logged b'...' and
handed bytes to callers that expect the JSON text the implementation printed.
---
 interop/interop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interop/interop.py b/interop/interop.py
index 513bb2b..d6f22a4 100755
--- a/interop/interop.py
+++ b/interop/interop.py
@@ -298,7 +298,8 @@ class InteropTestRunner(object):
     """ Makes a call to an implementation and returns response """
     args = self.implementations[implementation] + list(params)
     try:
-      return subprocess.check_output(args, stderr=subprocess.STDOUT)
+      return subprocess.check_output(args, stderr=subprocess.STDOUT,
+                                     universal_newlines=True)
     except subprocess.CalledProcessError as e:
       cmd = subprocess.list2cmdline(args)
       raise Exception("%s failed:\n %s" % (cmd, e.output))
-- 
2.43.0


From 8dce60aca35c9b194d9cf65425235c71493251e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:59 +0000
Subject: [PATCH 10/45] fix: raise NoPrimaryKeyError when a key set has no
 primary key

---
 python/src/keyczar/keyczar.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index af20330..3de4054 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -68,7 +68,7 @@ class Keyczar(object, metaclass=util.ABCMeta):
   versions = property(lambda self: [k for k in list(self._keys.keys())
                                     if isinstance(k, keydata.KeyVersion)],
                       doc="""List of versions in key set.""")
-  primary_key = property(lambda self: self.GetKey(self.primary_version),
+  primary_key = property(lambda self: self._GetPrimaryKey(),
                          doc="""The primary key for this key set.""")
 
   def __str__(self):
@@ -125,6 +125,16 @@ class Keyczar(object, metaclass=util.ABCMeta):
     except KeyError:
       raise errors.KeyNotFoundError(key_id)
 
+  def _GetPrimaryKey(self):
+    """
+    Returns the primary key of this key set.
+
+    @raise NoPrimaryKeyError: if this key set has no primary key
+    """
+    if self.primary_version is None:
+      raise errors.NoPrimaryKeyError()
+    return self.GetKey(self.primary_version)
+
   def _AddKey(self, version, key):
     self._keys[version] = self._keys[key.hash_id] = key
     self.metadata.AddVersion(version)
-- 
2.43.0


From f20c80e85bea3bb7975cdefa0366c1a5e220572e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:29 +0000
Subject: [PATCH 11/45] fix: reject a malformed DSA signature instead of
 raising an ASN.1 error

---
 python/src/keyczar/util.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index ea8bd32..42c45fa 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -51,6 +51,7 @@ except ImportError:
 
 from pyasn1.codec.der import decoder
 from pyasn1.codec.der import encoder
+from pyasn1.error import PyAsn1Error
 from pyasn1.type import univ
 
 from . import errors
@@ -233,11 +234,21 @@ def ParseDsaSig(sig):
 
   @raise KeyczarErrror: if the DSA signature format is invalid
   """
-  seq = decoder.decode(RawBytes(sig))[0]
-  if len(seq) != 2:
+  try:
+    seq = decoder.decode(RawBytes(sig))[0]
+    if len(seq) != 2:
+      raise errors.KeyczarError("Illegal DSA signature.")
+    r = seq.getComponentByPosition(0)
+    s = seq.getComponentByPosition(1)
+  except (PyAsn1Error, ValueError, IndexError, TypeError, AttributeError):
+    # not an ASN.1 sequence
+    raise errors.KeyczarError("Illegal DSA signature.")
+  if not isinstance(r, univ.Integer) or not isinstance(s, univ.Integer):
+    raise errors.KeyczarError("Illegal DSA signature.")
+  (r, s) = (int(r), int(s))
+  if sig != MakeDsaSig(r, s):
+    # e.g. trailing bytes, which DER does not allow
     raise errors.KeyczarError("Illegal DSA signature.")
-  r = int(seq.getComponentByPosition(0))
-  s = int(seq.getComponentByPosition(1))
   return (r, s)
 
 def MakeEmsaMessage(msg, modulus_size):
-- 
2.43.0


From 162f63de3556fd00669bd2f0bde84e788e968fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:09 +0000
Subject: [PATCH 12/45] fix: report an OAEP block without a delimiter as a
 decoding error

---
 python/src/keyczar/keys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index b78cacb..95a14a6 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -761,7 +761,7 @@ class RsaPrivateKey(PrivateKey):
       raise errors.KeyczarError("OAEP Decoding Error - hash_id is invalid")
 
     delimited_message = datablock[util.HLEN:].lstrip('\x00')
-    if delimited_message[0] != '\x01':
+    if delimited_message[:1] != '\x01':
       raise errors.KeyczarError("OAEP Decoding Error - expected a 1 value")
     return delimited_message[1:]  # The message
 
-- 
2.43.0


From 335dbd18594a66e45a8862f59eca4441312a6ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:11 +0000
Subject: [PATCH 13/45] fix: count the bytes of an RSA modulus exactly

---
 python/src/keyczar/keys.py | 5 ++---
 python/src/keyczar/util.py | 4 ++++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 95a14a6..0539839 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -22,7 +22,6 @@ of base class Key.
 """
 
 import hmac
-import math
 import random
 try:
   # Import hashlib if Python >= 2.5
@@ -734,7 +733,7 @@ class RsaPrivateKey(PrivateKey):
         "OAEP Decoding Error - encoded_message is too small: %d" % len(encoded_message))
 
     # Step 3b  EM = Y || maskedSeed || maskedDB
-    k = int(math.floor(math.log(self.key.n, 256)) + 1) # num bytes in n
+    k = util.NumBytes(self.key.n) # num bytes in n
     diff_len = k - len(encoded_message)
     # PyCrypto strips out leading zero bytes.
     # In OAEP, the first byte is expected to be a zero, so we can ignore it
@@ -949,7 +948,7 @@ class RsaPublicKey(PublicKey):
   def __Encode(self, msg, label=""):
     if len(label) >= 2**61:  # the input limit for SHA-1
       raise errors.KeyczarError("OAEP parameter string too long.")
-    k = int(math.floor(math.log(self.key.n, 256)) + 1) # num bytes in n
+    k = util.NumBytes(self.key.n) # num bytes in n
     if len(msg) > k - 2 * util.HLEN - 2:
       raise errors.KeyczarError("Message too long to OAEP encode.")
     label_hash = util.Hash(label)
diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 42c45fa..883ddf6 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -291,6 +291,10 @@ def BigIntToBytes(n):
   chars.reverse()
   return "".join(chars)
 
+def NumBytes(n):
+  """Return the number of bytes needed to represent the positive integer n."""
+  return (n.bit_length() + 7) // 8
+
 def IntToBytes(n):
   """Return byte string of 4 big-endian ordered byte_array representing n."""
   byte_array = [m % 256 for m in [n >> 24, n >> 16, n >> 8, n]]
-- 
2.43.0


From 33a32808d368ebbf63082e5f5c1850d1f57ff89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:12 +0000
Subject: [PATCH 14/45] fix: make an RSA ciphertext as long as the modulus

---
 python/src/keyczar/keys.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 0539839..e9acd0a 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -1012,6 +1012,9 @@ class RsaPublicKey(PublicKey):
     data = self.__Encode(data)
     # PyCrypto returns 1-tuple
     ciph_bytes = util.RawString(self.key.encrypt(util.RawBytes(data), None)[0])
+    # PyCrypto strips out leading zero bytes
+    ciph_bytes = util.PadBytes(ciph_bytes,
+                               util.NumBytes(self.key.n) - len(ciph_bytes))
     return self.Header() + ciph_bytes
 
   def Verify(self, msg, sig):
-- 
2.43.0


From 6aac7ef95767a228d3f2b058891a1693d2a4aa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:15 +0000
Subject: [PATCH 15/45] fix: reject RSA signatures and ciphertexts that are out
 of range

---
 python/src/keyczar/keys.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index e9acd0a..9e909b0 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -846,6 +846,8 @@ class RsaPrivateKey(PrivateKey):
     @rtype: string
     """
     ciph_bytes = input_bytes[keyczar.HEADER_SIZE:]
+    if util.BytesToLong(ciph_bytes) >= self.key.n:
+      raise errors.KeyczarError("RSA ciphertext is out of range")
     decrypted = util.RawString(self.key.decrypt(util.RawBytes(ciph_bytes)))
     return self.__Decode(decrypted)
 
@@ -1030,6 +1032,9 @@ class RsaPublicKey(PublicKey):
     @return: True if signature is valid for the message hash_id. False otherwise.
     @rtype: boolean
     """
+    if len(sig) != self.size // 8 or util.BytesToLong(sig) >= self.key.n:
+      # not a signature of the length PKCS #1 requires
+      return False
     try:
       return self.key.verify(util.RawBytes(util.MakeEmsaMessage(msg, self.size)),
                              (util.BytesToLong(sig),))
-- 
2.43.0


From fe7678e6c6732028e939deffc0d44feb1a0c164e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:52 +0000
Subject: [PATCH 16/45] fix: verify a decrypting stream's signature before its
 end, or raise

---
 python/src/keyczar/keys.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 9e909b0..199d6e0 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -1165,6 +1165,7 @@ class DecryptingStreamReader(object):
     self.__cipher = None
     self.__encrypted_buffer = ''
     self.__decrypted_buffer = ''
+    self.__verified = False
     self.__closed = False
 
   def read(self, chars=-1):
@@ -1222,8 +1223,7 @@ class DecryptingStreamReader(object):
       if data_to_decrypt:
         self.__hmac_stream.Update(data_to_decrypt)
         self.__encrypted_buffer = self.__encrypted_buffer[len(data_to_decrypt):]
-        decrypted_data = self.__cipher.decrypt(data_to_decrypt)
-        
+
         if not is_data_avail:
           if len(self.__encrypted_buffer) != util.HLEN:
             raise errors.ShortCiphertextError(len(self.__encrypted_buffer))
@@ -1233,10 +1233,18 @@ class DecryptingStreamReader(object):
           if not self.__key.hmac_key.VerifySignedData(current_sig_bytes, 
                                                       msg_sig_bytes):
             raise errors.InvalidSignatureError()
+          self.__verified = True
+
+        decrypted_data = self.__cipher.decrypt(data_to_decrypt)
+        if not is_data_avail:
           decrypted_data = self.__key._UnPad(decrypted_data)
           
         self.__decrypted_buffer += decrypted_data
         
+    if not is_data_avail and not self.__verified:
+      # the source ended before a complete IV, ciphertext and signature
+      raise errors.ShortCiphertextError(len(self.__encrypted_buffer))
+
     if chars < 0:
       result = self.__decrypted_buffer
       self.__decrypted_buffer = ''
-- 
2.43.0


From 5cb025deba80b72a6753bee6cdeb2748c07a320a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:18 +0000
Subject: [PATCH 17/45] fix: return None from a base64 stream whose source has
 no data yet

---
 python/src/keyczar/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 883ddf6..5feb4ba 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -840,9 +840,9 @@ class IncrementalBase64WSStreamReader(codecs.StreamReader, object):
         self.bytebuffer = data[decodedbytes:]
         # put new characters in the character buffer
         self.charbuffer += newchars
-        # there was no data available
-        if not newdata:
-          break
+      # there was no data available
+      if not newdata:
+        break
 
     if chars < 0:
       # Return everything we've got
-- 
2.43.0


From aa9742be4c80dfc792a35778e797408a47bec56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:21 +0000
Subject: [PATCH 18/45] fix: reject a packed byte array whose length is not
 valid

---
 python/src/keyczar/keyczar.py | 2 ++
 python/src/keyczar/util.py    | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index 3de4054..c3d5449 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -434,6 +434,8 @@ class Verifier(Keyczar):
     @rtype: string
     """
     decoded_data = decoder(signed_data) if decoder else signed_data
+    if len(decoded_data) < HEADER_SIZE:
+      raise errors.ShortSignatureError(len(decoded_data))
 
     data, offset = util.UnpackByteArray(decoded_data, HEADER_SIZE)
     signature = decoded_data[offset:]
diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 5feb4ba..4955622 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -449,10 +449,16 @@ def UnpackByteArray(data, offset):
   Unpacks a length-prefixed byte array packed by PackByteArray() from 'data',
   starting from position 'offset'.  Returns a tuple of the data array and the
   offset of the first byte after the end of the extracted array.
+
+  @raise KeyczarError: if data does not hold a packed byte array at offset
   """
+  if len(data) - offset < 4:
+    raise errors.KeyczarError("Packed byte array is too short.")
   array_len = struct.unpack(BIG_ENDIAN_INT_SPECIFIER,
                             RawBytes(data[offset:offset + 4]))[0]
   offset += 4
+  if not 0 <= array_len <= len(data) - offset:
+    raise errors.KeyczarError("Packed byte array has an invalid length.")
   return data[offset:offset + array_len], offset + array_len
 
 def UnpackMultipleByteArrays(data):
-- 
2.43.0


From e84b081a43fb26ad71e5e732003a379a0bc1c9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:23 +0000
Subject: [PATCH 19/45] fix: reject session material that does not hold a
 session

---
 python/src/keyczar/keyczar.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index c3d5449..62a7394 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -708,7 +708,8 @@ class _Session(object):
     _Session.packed_key.
     """
     unpacked = util.UnpackMultipleByteArrays(packed_key_data)
-    assert len(unpacked) == 2
+    if len(unpacked) != 2:
+      raise errors.KeyczarError("Session material does not hold two keys.")
     aes_key_bytes = unpacked[0]
     hmac_key_bytes = unpacked[1]
     hmac_key = keys.HmacKey(util.Base64WSEncode(hmac_key_bytes), len(hmac_key_bytes) * 8)
@@ -723,10 +724,13 @@ class _Session(object):
     extracted from the provided json_session_data, which must have been produced by
     _Session.json.
     """
-    json_dict = json.loads(json_session_data)
-    aes_key_string = json.dumps(json_dict['key'])
-    return _Session.__Create(keys.AesKey.Read(aes_key_string),
-                             util.Base64WSDecode(json_dict['nonce']))
+    try:
+      json_dict = json.loads(json_session_data)
+      session_key = keys.AesKey.Read(json.dumps(json_dict['key']))
+      nonce = util.Base64WSDecode(json_dict['nonce'])
+    except (ValueError, KeyError, TypeError, AttributeError):
+      raise errors.KeyczarError("Session material is not a JSON session.")
+    return _Session.__Create(session_key, nonce)
 
   @staticmethod
   def __Create(session_key, nonce):
-- 
2.43.0


From 10b3565225cd9e3d34d8361ad2fe545790758b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:45 +0000
Subject: [PATCH 20/45] fix: forget a key when its version is revoked

---
 python/src/keyczar/keyczar.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index 62a7394..c602074 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -139,6 +139,10 @@ class Keyczar(object, metaclass=util.ABCMeta):
     self._keys[version] = self._keys[key.hash_id] = key
     self.metadata.AddVersion(version)
 
+  def _RemoveKey(self, version):
+    key = self._keys.pop(version)
+    self._keys.pop(key.hash_id, None)
+
 class GenericKeyczar(Keyczar):
 
   """To be used by Keyczart."""
@@ -257,6 +261,7 @@ class GenericKeyczar(Keyczar):
     version = self.metadata.GetVersion(version_number)
     if version.status == keyinfo.INACTIVE:
       self.metadata.RemoveVersion(version_number)
+      self._RemoveKey(version)
     else:
       raise errors.KeyczarError("Can't revoke key if not inactive.")
 
-- 
2.43.0


From 239ecbae492887fe95bdd3272e7363e4c54b1970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:47 +0000
Subject: [PATCH 21/45] fix: keep the primary key when adding a version fails

---
 python/src/keyczar/keyczar.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index c602074..db7aeef 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -187,11 +187,6 @@ class GenericKeyczar(Keyczar):
     # Make the new version number the max of the existing versions plus one
     version = keydata.KeyVersion(max_version_number + 1, status, False)
 
-    if status == keyinfo.PRIMARY:
-      if self.primary_version is not None:
-        self.primary_version.status = keyinfo.ACTIVE
-      self.primary_version = version
-
     if size < self.default_size:
       print(("WARNING: %d-bit key size is less than recommended default key"
             "size of %d bits for %s keys."
@@ -203,6 +198,11 @@ class GenericKeyczar(Keyczar):
       if self._keys.get(key.hash_id) is None:
         break
 
+    if status == keyinfo.PRIMARY:
+      if self.primary_version is not None:
+        self.primary_version.status = keyinfo.ACTIVE
+      self.primary_version = version
+
     self._AddKey(version, key)
 
   def Promote(self, version_number):
-- 
2.43.0


From fd55d829b9aa883717569a9abc837b731086ce55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:49 +0000
Subject: [PATCH 22/45] fix: report a key size that PyCrypto can not generate
 as a KeyczarError

---
 python/src/keyczar/keys.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 199d6e0..6378aa5 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -88,6 +88,10 @@ def GenKey(key_type, size=None):
     else:
       msg = "Unsupported key key_type: %s"
     raise errors.KeyczarError(msg % key_type)
+  except ValueError as e:
+    # e.g. PyCrypto does not generate RSA keys of less than 1024 bits
+    raise errors.KeyczarError("Unable to generate a %s key of %d bits: %s"
+                              % (key_type, size, e))
 
 def ReadKey(key_type, key):
   """
-- 
2.43.0


From 2775869dc24fdea167b990716ff74c12dc8a76f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:52 +0000
Subject: [PATCH 23/45] fix: accept '=' in a keyczart flag's value and stop at
 a bad number

---
 python/src/keyczar/keyczart.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/keyczart.py b/python/src/keyczar/keyczart.py
index 4071590..3516986 100644
--- a/python/src/keyczar/keyczart.py
+++ b/python/src/keyczar/keyczart.py
@@ -287,7 +287,7 @@ def main(argv):
       if arg.startswith("--"):
         arg = arg[2:]  # trim leading dashes
         try:
-          [flag, val] = arg.split("=")
+          [flag, val] = arg.split("=", 1)
           flags[GetFlag(flag)] = val
         except ValueError:
           print("Flags incorrectly formatted")
@@ -300,6 +300,7 @@ def main(argv):
     except ValueError:
       print("Size and version flags require an integer")
       Usage()
+      return 1
     
     loc = flags.get(LOCATION)  # all commands need location
     
-- 
2.43.0


From 7f9f7fccabd2ba7a85c7d737adb8da9f9f4f83f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:54 +0000
Subject: [PATCH 24/45] fix: report a key file that can not be removed as a
 KeyczarError

---
 python/src/keyczar/writers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/writers.py b/python/src/keyczar/writers.py
index db011a1..b162be7 100644
--- a/python/src/keyczar/writers.py
+++ b/python/src/keyczar/writers.py
@@ -130,7 +130,11 @@ class FileWriter(Writer):
     """
     Remove the key for the given version.
     """
-    os.remove(os.path.join(self.location, str(version_number)))
+    fname = os.path.join(self.location, str(version_number))
+    try:
+      os.remove(fname)
+    except OSError:
+      raise errors.KeyczarError("Unable to remove file %s." % fname)
 
   def Close(self):
     """
-- 
2.43.0


From 5c4a411000747c3f3ea09b68e531bdb48ccf9106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:56 +0000
Subject: [PATCH 25/45] fix: read unversioned key sets through the pluggable
 readers

---
 python/src/keyczar/keyczar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index db7aeef..e402bd6 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -470,7 +470,7 @@ class UnversionedVerifier(Keyczar):
       perform verify functions.
     @rtype: L{Verifier}
     """
-    return UnversionedVerifier(readers.FileReader(location))
+    return UnversionedVerifier(readers.CreateReader(location))
 
   def IsAcceptablePurpose(self, purpose):
     """Only valid if purpose includes verifying."""
@@ -662,7 +662,7 @@ class UnversionedSigner(UnversionedVerifier):
       perform sign and verify functions.
     @rtype: L{Signer}
     """
-    return UnversionedSigner(readers.FileReader(location))
+    return UnversionedSigner(readers.CreateReader(location))
 
   def IsAcceptablePurpose(self, purpose):
     """Only valid if purpose includes signing."""
-- 
2.43.0


From f43edf7af7736fb3b3d02e8400922492f0e36304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:35 +0000
Subject: [PATCH 26/45] fix: do not call different asymmetric keys equal

---
 python/src/keyczar/keys.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 6378aa5..2c462bc 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -128,7 +128,8 @@ class Key(object):
   def __eq__(self, other):
     return (self.type == other.type and
             self.size == other.size and
-            self.key_string == other.key_string)
+            self.key_string == other.key_string and
+            self.hash_id == other.hash_id)
 
   def __SetSize(self, new_size):
     if self.type.IsValidSize(new_size):
-- 
2.43.0


From 4dec39a57d358981bab72bd7fcfa3ce43eddbdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:37 +0000
Subject: [PATCH 27/45] fix: do not lose a key file when writing it is
 interrupted

---
 python/src/keyczar/util.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 4955622..ff57624 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -25,6 +25,7 @@ import codecs
 import functools
 import math
 import os
+import shutil
 import struct
 import warnings
 import sys
@@ -478,7 +479,8 @@ def UnpackMultipleByteArrays(data):
 
 def WriteFile(data, loc):
   """
-  Writes data to file at given location.
+  Writes data to file at given location. A file that exists there is replaced
+  only once all of the data has been written.
 
   @param data: contents to be written to file
   @type data: string
@@ -488,10 +490,14 @@ def WriteFile(data, loc):
 
   @raise KeyczarError: if unable to write to file because of IOError
   """
+  temp_loc = loc + ".tmp"
   try:
-    f = open(loc, "w")
+    f = open(temp_loc, "w")
+    if os.path.exists(loc):
+      shutil.copymode(loc, temp_loc)
     f.write(data)
     f.close()
+    os.replace(temp_loc, loc)
   except IOError:
     raise errors.KeyczarError("Unable to write to file %s." % loc)
 
-- 
2.43.0


From 0365b9a7c8e3db9ff6af140e0737d10feb30c347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:39 +0000
Subject: [PATCH 28/45] fix: write a key set's keys before the metadata that
 names them

---
 python/src/keyczar/keyczar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index e402bd6..f41910f 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -307,9 +307,10 @@ class GenericKeyczar(Keyczar):
         'Using a string as the writer is deprecated. Use writers.CreateWriter', 
         DeprecationWarning)
     self.metadata.encrypted = (encrypter is not None)
-    writer.WriteMetadata(self.metadata)
+    # The metadata must not name a key that has not been written yet.
     for v in self.versions:
       writer.WriteKey(self.GetKey(v), v.version_number, encrypter)
+    writer.WriteMetadata(self.metadata)
 
 class Encrypter(Keyczar):
   """Capable of encrypting only."""
-- 
2.43.0


From 149611b62944ac0cb864a3955d0dc8d2fc7edb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:05 +0000
Subject: [PATCH 29/45] fix: do not run a keyczart command that has a malformed
 flag

---
 python/src/keyczar/keyczart.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/src/keyczar/keyczart.py b/python/src/keyczar/keyczart.py
index 3516986..8ad8915 100644
--- a/python/src/keyczar/keyczart.py
+++ b/python/src/keyczar/keyczart.py
@@ -292,6 +292,7 @@ def main(argv):
         except ValueError:
           print("Flags incorrectly formatted")
           Usage()
+          return 1
     
     try:
       version = int(flags.get(VERSION, -1))
-- 
2.43.0


From ee0b417955b7fd95eaa9eb69a00c8427d7af35ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:28 +0000
Subject: [PATCH 30/45] fix: report a key file that is not text as unreadable

---
 python/src/keyczar/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index ff57624..d4c34da 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -515,7 +515,7 @@ def ReadFile(loc):
   """
   try:
     return open(loc).read()
-  except IOError:
+  except (IOError, UnicodeDecodeError):
     raise errors.KeyczarError("Unable to read file %s." % loc)
 
 def MGF(seed, mlen):
-- 
2.43.0


From 0df60b5ee8647c1847f5f6c4c8b709871930bb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:23 +0000
Subject: [PATCH 31/45] fix: report packed byte arrays that are too short as a
 Keyczar error

---
 python/src/keyczar/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index d4c34da..16b9e8c 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -466,6 +466,8 @@ def UnpackMultipleByteArrays(data):
   """
   Extracts and returns a list of byte arrays that were packed by
   PackMultipleByteArrays().
+
+  @raise KeyczarError: if data does not hold packed byte arrays
   """
   # The initial integer containing the number of byte arrays that follow is redundant.  We
   # just skip it.
@@ -474,7 +476,8 @@ def UnpackMultipleByteArrays(data):
   while position < len(data):
     array, position = UnpackByteArray(data, position)
     result.append(array)
-  assert position == len(data)
+  if position != len(data):
+    raise errors.KeyczarError("Packed byte arrays are too short.")
   return result
 
 def WriteFile(data, loc):
-- 
2.43.0


From b0de85ede28ef25df927bd0d965ecd3a0058f7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:57 +0000
Subject: [PATCH 32/45] fix: do not read past the header of a stream with an
 unknown key

---
 python/src/keyczar/keys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 2c462bc..5f14b80 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -1312,8 +1312,8 @@ class DecryptingStreamReader(object):
 
       if len(self.__encrypted_buffer) >= keyczar.HEADER_SIZE:
         hdr_bytes = self.__encrypted_buffer[:keyczar.HEADER_SIZE]
-        self.__encrypted_buffer = self.__encrypted_buffer[keyczar.HEADER_SIZE:]
         self.__key = self.__key_set._ParseHeader(hdr_bytes)
+        self.__encrypted_buffer = self.__encrypted_buffer[keyczar.HEADER_SIZE:]
         self.__hmac_stream = self.__key.hmac_key.CreateStreamable()
         self.__hmac_stream.Update(hdr_bytes)
         if self.__buffer_size >= 0:
-- 
2.43.0


From 057b81503948675f874d857352ae16fc57c946c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:46 +0000
Subject: [PATCH 33/45] fix: never return more characters than asked for at the
 end of Base64 streams

---
 python/src/keyczar/util.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 16b9e8c..51ab1be 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -857,6 +857,9 @@ class IncrementalBase64WSStreamReader(codecs.StreamReader, object):
         self.charbuffer += newchars
       # there was no data available
       if not newdata:
+        if newdata == '':
+          # the end of the input, so what is left is not continued
+          self.charbuffer += self.decoder.flush()
         break
 
     if chars < 0:
@@ -872,10 +875,6 @@ class IncrementalBase64WSStreamReader(codecs.StreamReader, object):
     if not result and newdata is None:
       result = None
 
-    if not result and newdata == '':
-      if chars != 0:
-        result = self.decoder.flush()
-
     return result
 
   def decode(self, input, errors='strict'):
-- 
2.43.0


From b33f937fcce07af01a37b86cf3f59b30097bc289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:02 +0000
Subject: [PATCH 34/45] fix: close the underlying stream of a Base64 stream
 writer

---
 python/src/keyczar/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 51ab1be..4dad8a3 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -647,7 +647,7 @@ class IncrementalBase64WSStreamWriter(codecs.StreamWriter, object):
   def close(self):
     """ Flushes and closes the stream """
     self.flush()
-    super(IncrementalBase64WSStreamWriter, self).close()
+    self.stream.close()
 
   def flush(self):
     """
-- 
2.43.0


From fde9a898271dce7fcf596498c36fb17d9554e5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:04 +0000
Subject: [PATCH 35/45] fix: allow a Base64 decoder to be used after reset

---
 python/src/keyczar/util.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 4dad8a3..7f5cde1 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -684,6 +684,11 @@ class BufferedIncrementalBase64WSDecoder(codecs.BufferedIncrementalDecoder):
     super(BufferedIncrementalBase64WSDecoder, self).__init__(errors)
     self.buffer = ''  # Base64 text, not bytes
 
+  def reset(self):
+    """ Forget any buffered data """
+    super(BufferedIncrementalBase64WSDecoder, self).reset()
+    self.buffer = ''
+
   def _buffer_decode(self, input, errors, final):
     """
     Decodes input and returns the resulting object, buffering any data that is
-- 
2.43.0


From 485f028e95b4f5141dfd36621a85716db650fc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:12 +0000
Subject: [PATCH 36/45] fix: convert integers of any size to a bit string

---
 python/src/keyczar/util.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 7f5cde1..d055581 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -276,12 +276,8 @@ def _PadByte(bits):
   return ((8 - r) % 8) * '0' + bits
 
 def IntToBin(n):
-  if n == 0 or n == 1:
-    return str(n)
-  elif n % 2 == 0:
-    return IntToBin(n // 2) + "0"
-  else:
-    return IntToBin(n // 2) + "1"
+  # not recursive, as n can have more bits than the recursion limit
+  return format(n, 'b')
 
 def BigIntToBytes(n):
   """Return a big-endian byte string representation of an arbitrary length n."""
-- 
2.43.0


From 48b8561dd11a11001d8b5461a2380e55b757f002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:02 +0000
Subject: [PATCH 37/45] fix: report malformed PKCS#8 and X.509 data as a
 Keyczar error

---
 python/src/keyczar/util.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index d055581..d744d5f 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -106,6 +106,16 @@ def ASN1Sequence(*vals):
 def ParseASN1Sequence(seq):
   return [seq.getComponentByPosition(i) for i in range(len(seq))]
 
+def RefuseMalformedASN1(parse):
+  """Make a parser of Base64 encoded ASN.1 raise KeyczarError if it is malformed."""
+  @functools.wraps(parse)
+  def wrapper(encoded):
+    try:
+      return parse(encoded)
+    except (PyAsn1Error, ValueError, IndexError, TypeError, AttributeError):
+      raise errors.KeyczarError("Illegal ASN.1 structure.")
+  return wrapper
+
 #PrivateKeyInfo ::= SEQUENCE {
 #  version Version,
 #
@@ -120,6 +130,7 @@ def ParseASN1Sequence(seq):
 #PrivateKey ::= OCTET STRING
 #
 #Attributes ::= SET OF Attribute
+@RefuseMalformedASN1
 def ParsePkcs8(pkcs8):
   seq = ParseASN1Sequence(decoder.decode(RawBytes(Base64WSDecode(pkcs8)))[0])
   if len(seq) != 3:  # need three fields in PrivateKeyInfo
@@ -136,10 +147,14 @@ def ParsePkcs8(pkcs8):
     version = int(key[0])
     if version != 0:
       raise errors.KeyczarError("Unrecognized RSA Private Key Version")
+    if len(key) != len(RSA_PARAMS) + 1:
+      raise errors.KeyczarError("Illegal RSA Private Key.")
     for i in range(len(RSA_PARAMS)):
       params[RSA_PARAMS[i]] = int(key[i+1])
   elif oid == DSA_OID:
     alg_params = ParseASN1Sequence(alg_params)
+    if len(alg_params) != len(DSA_PARAMS):
+      raise errors.KeyczarError("Illegal DSA parameters.")
     for i in range(len(DSA_PARAMS)):
       params[DSA_PARAMS[i]] = int(alg_params[i])
     params['x'] = int(key)
@@ -169,6 +184,7 @@ def ExportDsaPkcs8(params):
 #SubjectPublicKeyInfo  ::=  SEQUENCE  {
 #        algorithm            AlgorithmIdentifier,
 #        subjectPublicKey     BIT STRING  }
+@RefuseMalformedASN1
 def ParseX509(x509):
   seq = ParseASN1Sequence(decoder.decode(RawBytes(Base64WSDecode(x509)))[0])
   if len(seq) != 2:  # need two fields in SubjectPublicKeyInfo
@@ -182,6 +198,8 @@ def ParseX509(x509):
     [params['n'], params['e']] = [int(x) for x in ParseASN1Sequence(pubkey)]
   elif oid == DSA_OID:
     vals = [int(x) for x in ParseASN1Sequence(alg_params)]
+    if len(vals) != len(DSA_PARAMS):
+      raise errors.KeyczarError("Illegal DSA parameters.")
     for i in range(len(DSA_PARAMS)):
       params[DSA_PARAMS[i]] = vals[i]
     params['y'] = int(pubkey)
-- 
2.43.0


From cb7ce973256a88fd511c7e94fd93317ebf37b3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:19 +0000
Subject: [PATCH 38/45] fix: report authentic ciphertext that is not whole
 blocks as a Keyczar error

---
 python/src/keyczar/keys.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 5f14b80..54f2321 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -479,6 +479,9 @@ class AesKey(SymmetricKey):
     sig_bytes = data_bytes[-util.HLEN:]  # last 20 bytes are sig
     if not self.hmac_key.Verify(input_bytes[:-util.HLEN], sig_bytes):
       raise errors.InvalidSignatureError()
+    if not ciph_bytes or len(ciph_bytes) % self.block_size:
+      # padded plaintext is at least one block and always whole ones
+      raise errors.ShortCiphertextError(len(data_bytes))
 
     plain = self._CreateCipher(self.key_bytes, iv_bytes).decrypt(ciph_bytes)
     return self._UnPad(plain)
@@ -1238,6 +1241,8 @@ class DecryptingStreamReader(object):
           if not self.__key.hmac_key.VerifySignedData(current_sig_bytes, 
                                                       msg_sig_bytes):
             raise errors.InvalidSignatureError()
+          if len(data_to_decrypt) % self.__key.block_size:
+            raise errors.ShortCiphertextError(len(data_to_decrypt))
           self.__verified = True
 
         decrypted_data = self.__cipher.decrypt(data_to_decrypt)
-- 
2.43.0


From 8e5b99e40fc143a268fc3c8b01666262d962c645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:54 +0000
Subject: [PATCH 39/45] fix: refuse session material whose keys cannot be used

---
 python/src/keyczar/keyczar.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index f41910f..4dcca66 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -721,6 +721,7 @@ class _Session(object):
     hmac_key = keys.HmacKey(util.Base64WSEncode(hmac_key_bytes), len(hmac_key_bytes) * 8)
     session_key = keys.AesKey(util.Base64WSEncode(aes_key_bytes), hmac_key, len(aes_key_bytes) * 8,
                               keyinfo.CBC)
+    _Session.__CheckKey(session_key)
     return _Session.__Create(session_key, None)
 
   @staticmethod
@@ -734,10 +735,20 @@ class _Session(object):
       json_dict = json.loads(json_session_data)
       session_key = keys.AesKey.Read(json.dumps(json_dict['key']))
       nonce = util.Base64WSDecode(json_dict['nonce'])
+      _Session.__CheckKey(session_key)
     except (ValueError, KeyError, TypeError, AttributeError):
       raise errors.KeyczarError("Session material is not a JSON session.")
     return _Session.__Create(session_key, nonce)
 
+  @staticmethod
+  def __CheckKey(session_key):
+    """
+    Checks that a key found in session material is one that can be used.
+    """
+    session_key.hash_id  # uses all of the key material, which may be no Base64
+    if not keyinfo.AES.IsValidSize(len(session_key.key_bytes) * 8):
+      raise errors.KeyczarError("Session key has an invalid size.")
+
   @staticmethod
   def __Create(session_key, nonce):
     """
-- 
2.43.0


From 86413cd8e8434f423c782541a176ec509097bca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:00 +0000
Subject: [PATCH 40/45] fix: keep interop tests apart whose options differ only
 in name

---
 interop/interop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interop/interop.py b/interop/interop.py
index d6f22a4..12dd723 100755
--- a/interop/interop.py
+++ b/interop/interop.py
@@ -438,8 +438,8 @@ class InteropTestRunner(object):
             generate_implementation,
             operation,
             keyset.name,
-            "_".join(list(generate_options.values())),
-            "_".join(list(test_options.values())),
+            "_".join(["%s=%s"%o for o in list(generate_options.items())]),
+            "_".join(["%s=%s"%o for o in list(test_options.items())]),
             )
 
         test = self.InteropTestGenerator(
-- 
2.43.0


From d7c66f032413a1e2ac0223227d0a9bb98bcfda2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:39 +0000
Subject: [PATCH 41/45] fix: genkey reports a missing location or directory as
 a Keyczar error

---
 python/src/keyczar/keyczart.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/python/src/keyczar/keyczart.py b/python/src/keyczar/keyczart.py
index 8ad8915..2021236 100644
--- a/python/src/keyczar/keyczart.py
+++ b/python/src/keyczar/keyczart.py
@@ -165,6 +165,8 @@ def _CreateCrypter(location):
   return keyczar.Crypter.Read(location)
 
 def GenKeySet(loc):
+  if loc is None:
+    raise errors.KeyczarError("Location missing")
   print("Generating private key sets...")
   for (name, purpose, asymmetric, crypter) in KEYSETS:
     print(".")
@@ -187,10 +189,13 @@ def GenKeySet(loc):
   print("Done!")
 
 def Clean(directory):
-  for filename in os.listdir(directory):
-    path = os.path.join(directory, filename)
-    if not os.path.isdir(path): 
-      os.remove(path)
+  try:
+    for filename in os.listdir(directory):
+      path = os.path.join(directory, filename)
+      if not os.path.isdir(path): 
+        os.remove(path)
+  except OSError as e:
+    raise errors.KeyczarError("Unable to clean %s: %s" % (directory, e))
 
 def UseKey(purpose, loc, dest, crypter=None, msg="This is some test data"):
   reader = readers.CreateReader(loc)
-- 
2.43.0


From 1e1452585766761cdcfdb4f8484ceb11a7113a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:23 +0000
Subject: [PATCH 42/45] fix: refuse RSA ciphertexts extended by leading zero
 bytes

---
 python/src/keyczar/keys.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 54f2321..f27e569 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -854,7 +854,8 @@ class RsaPrivateKey(PrivateKey):
     @rtype: string
     """
     ciph_bytes = input_bytes[keyczar.HEADER_SIZE:]
-    if util.BytesToLong(ciph_bytes) >= self.key.n:
+    if (len(ciph_bytes) > util.NumBytes(self.key.n) or
+        util.BytesToLong(ciph_bytes) >= self.key.n):
       raise errors.KeyczarError("RSA ciphertext is out of range")
     decrypted = util.RawString(self.key.decrypt(util.RawBytes(ciph_bytes)))
     return self.__Decode(decrypted)
-- 
2.43.0


From 51e807701e3706800edc12525ac8a048a535030f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:30 +0000
Subject: [PATCH 43/45] fix: refuse metadata that names a version number twice

---
 python/src/keyczar/keydata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/keydata.py b/python/src/keyczar/keydata.py
index a4938c2..825b85e 100644
--- a/python/src/keyczar/keydata.py
+++ b/python/src/keyczar/keydata.py
@@ -113,7 +113,8 @@ class KeyMetadata(object):
     kmd = KeyMetadata(meta['name'], keyinfo.GetPurpose(meta['purpose']),
                       keyinfo.GetType(meta['type']), meta['encrypted'])
     for version in meta['versions']:
-      kmd.AddVersion(KeyVersion.Read(version))
+      if not kmd.AddVersion(KeyVersion.Read(version)):
+        raise errors.KeyczarError("Version numbers must be unique.")
     return kmd
 
 class KeyVersion(object):
-- 
2.43.0


From 0b93bca38b0634f67a440f909b740754b3b8ef3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:48 +0000
Subject: [PATCH 44/45] fix: refuse keys of an unsupported cipher mode with a
 Keyczar error

---
 python/src/keyczar/keys.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index f27e569..70a9385 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -344,7 +344,8 @@ class AesKey(SymmetricKey):
     self.block_size = AES.block_size
     self.size = size
     # Only CBC mode is actually supported, in spite of what the signature leads you to believe.
-    assert mode == keyinfo.CBC
+    if mode != keyinfo.CBC:
+      raise errors.KeyczarError("Unsupported cipher mode: %s" % mode)
 
   def __str__(self):
     return json.dumps({"mode": str(keyinfo.CBC),
-- 
2.43.0


From 03af437b6a70f26b5f5893f34ee48f54dadcf929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:32 +0000
Subject: [PATCH 45/45] fix: refuse ASN.1 whose lengths or numbers overflow
 with KeyczarError

---
 python/src/keyczar/util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index d744d5f..1e4413e 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -112,7 +112,8 @@ def RefuseMalformedASN1(parse):
   def wrapper(encoded):
     try:
       return parse(encoded)
-    except (PyAsn1Error, ValueError, IndexError, TypeError, AttributeError):
+    except (PyAsn1Error, ValueError, IndexError, TypeError, AttributeError,
+            OverflowError):
       raise errors.KeyczarError("Illegal ASN.1 structure.")
   return wrapper
 
@@ -259,7 +260,8 @@ def ParseDsaSig(sig):
       raise errors.KeyczarError("Illegal DSA signature.")
     r = seq.getComponentByPosition(0)
     s = seq.getComponentByPosition(1)
-  except (PyAsn1Error, ValueError, IndexError, TypeError, AttributeError):
+  except (PyAsn1Error, ValueError, IndexError, TypeError, AttributeError,
+          OverflowError):
     # not an ASN.1 sequence
     raise errors.KeyczarError("Illegal DSA signature.")
   if not isinstance(r, univ.Integer) or not isinstance(s, univ.Integer):
-- 
2.43.0

