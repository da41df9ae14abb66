From 7086ae829662e03274b3e5aa0ffba6fb2376796b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:05 +0000
Subject: [PATCH 01/47] fix: use integer division for key, block and chunk
 sizes

Under Python 3 '/' yields a float, so generating any key, padding any RSA
signature and every streaming buffer computation raised TypeError.
---
 python/src/keyczar/keyinfo.py |  6 +++---
 python/src/keyczar/keys.py    |  8 ++++----
 python/src/keyczar/util.py    | 12 ++++++------
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/python/src/keyczar/keyinfo.py b/python/src/keyczar/keyinfo.py
index 3a02d87..d033bc9 100644
--- a/python/src/keyczar/keyinfo.py
+++ b/python/src/keyczar/keyinfo.py
@@ -125,10 +125,10 @@ class CipherMode(_NameId):
     self.use_iv = use_iv
     self.GetOutputSize = OutputSizeFn
 
-CBC = CipherMode("CBC", 0, True, lambda b, i: (i / b + 2) * b)
-CTR = CipherMode("CTR", 1, True, lambda b, i: i + b / 2)
+CBC = CipherMode("CBC", 0, True, lambda b, i: (i // b + 2) * b)
+CTR = CipherMode("CTR", 1, True, lambda b, i: i + b // 2)
 ECB = CipherMode("ECB", 2, False, lambda b, i: b)
-DET_CBC = CipherMode("DET_CBC", 3, False, lambda b, i: (i / b + 1) * b)
+DET_CBC = CipherMode("DET_CBC", 3, False, lambda b, i: (i // b + 1) * b)
 modes = {"CBC": CBC, "CTR": CTR, "ECB": ECB, "DET_CBC": DET_CBC}
 
 def GetMode(name):
diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 7a91f0d..e86ba29 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -354,7 +354,7 @@ class AesKey(SymmetricKey):
     @return: an AES key
     @rtype: L{AesKey}
     """
-    key_bytes = util.RandBytes(size / 8)
+    key_bytes = util.RandBytes(size // 8)
     key_string = util.Base64WSEncode(key_bytes)
     hmac_key = HmacKey.Generate()  # use default HMAC-SHA1 key size
     return AesKey(key_string, hmac_key, size)
@@ -419,7 +419,7 @@ class AesKey(SymmetricKey):
     @return: best buffer size
     @rtype: int
     """
-    no_pad_size = self.block_size * (buffer_size / self.block_size)
+    no_pad_size = self.block_size * (buffer_size // self.block_size)
     return max(no_pad_size, self.block_size)
 
   def Encrypt(self, data):
@@ -521,7 +521,7 @@ class HmacKey(SymmetricKey):
     @return: an HMAC-SHA1 key
     @rtype: L{HmacKey}
     """
-    key_bytes = util.RandBytes(size / 8)
+    key_bytes = util.RandBytes(size // 8)
     key_string = util.Base64WSEncode(key_bytes)
     return HmacKey(key_string, size)
 
@@ -850,7 +850,7 @@ class RsaPrivateKey(PrivateKey):
     """
     emsa_encoded = util.MakeEmsaMessage(msg, self.size)
     byte_string = util.BigIntToBytes(self.key.sign(emsa_encoded, None)[0])
-    return util.PadBytes(byte_string, self.size/8 - len(byte_string))
+    return util.PadBytes(byte_string, self.size//8 - len(byte_string))
 
   def Verify(self, msg, sig):
     """@see: L{RsaPublicKey.Verify}"""
diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index d06dced..088fe41 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -246,13 +246,13 @@ def MakeEmsaMessage(msg, modulus_size):
   magic_sha1_header = [0x30, 0x21, 0x30, 0x9, 0x6, 0x5, 0x2b, 0xe, 0x3, 0x2,
                        0x1a, 0x5, 0x0, 0x4, 0x14]
   encoded = "".join([chr(c) for c in magic_sha1_header]) + Hash(msg)
-  pad_string = chr(0xFF) * (modulus_size / 8 - len(encoded) - 3)
+  pad_string = chr(0xFF) * (modulus_size // 8 - len(encoded) - 3)
   return chr(1) + pad_string + chr(0) + encoded
 
 def BinToBytes(bits):
   """Convert bit string to byte string."""
   bits = _PadByte(bits)
-  octets = [bits[8 * i:8 * (i + 1)] for i in range(len(bits) / 8)]
+  octets = [bits[8 * i:8 * (i + 1)] for i in range(len(bits) // 8)]
   return "".join([chr(int(x, 2)) for x in octets])
 
 def BytesToBin(byte_string):
@@ -268,9 +268,9 @@ def IntToBin(n):
   if n == 0 or n == 1:
     return str(n)
   elif n % 2 == 0:
-    return IntToBin(n / 2) + "0"
+    return IntToBin(n // 2) + "0"
   else:
-    return IntToBin(n / 2) + "1"
+    return IntToBin(n // 2) + "1"
 
 def BigIntToBytes(n):
   """Return a big-endian byte string representation of an arbitrary length n."""
@@ -531,7 +531,7 @@ class BufferedIncrementalBase64WSEncoder(codecs.BufferedIncrementalEncoder):
     # and return an (output, length consumed) tuple
     if not final:
       # only output exact multiples of 3-bytes => no padding
-      len_to_write = 3 * (len(input) / 3)
+      len_to_write = 3 * (len(input) // 3)
     else:
       len_to_write = len(input)
     return (Base64WSEncode(input[:len_to_write]), len_to_write)
@@ -658,7 +658,7 @@ class BufferedIncrementalBase64WSDecoder(codecs.BufferedIncrementalDecoder):
     """
     if not final:
       # only output exact multiples of 4-bytes => no padding
-      len_to_read = 4 * (len(input) / 4)
+      len_to_read = 4 * (len(input) // 4)
     else:
       len_to_read = len(input)
     return (Base64WSDecode(input[:len_to_read]), len_to_read)
-- 
2.43.0


From 0c836c3f56e38f1932d46ff7716fc343e7993887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:41 +0000
Subject: [PATCH 02/47] fix: Base64WSEncode/Decode raise TypeError under Python
 3

base64 works on bytes there, while keyczar's byte strings are native strings
with one character per byte; malformed input is reported as ValueError
(binascii.Error), which must surface as Base64DecodingError.
---
 python/src/keyczar/util.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 088fe41..7fb635f 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -68,6 +68,16 @@ except ImportError:
   def abstractproperty(funcobj):
     return property(funcobj)
 
+def ToBytes(byte_string):
+  """Return the bytes of a native byte string (a str of one char per byte)."""
+  if isinstance(byte_string, bytes):
+    return byte_string
+  return byte_string.encode('latin-1')
+
+def FromBytes(raw_bytes):
+  """Return the native byte string (a str of one char per byte) for bytes."""
+  return raw_bytes.decode('latin-1')
+
 HLEN = sha1().digest_size  # length of the hash output
 
 #RSAPrivateKey ::= SEQUENCE {
@@ -354,7 +364,7 @@ def Base64WSEncode(s):
   @return: Base64 representation of s.
   @rtype: string
   """
-  return base64.urlsafe_b64encode(str(s)).replace("=", "")
+  return FromBytes(base64.urlsafe_b64encode(ToBytes(s))).replace("=", "")
 
 
 def Decode(s):
@@ -388,9 +398,9 @@ def Base64WSDecode(s):
   elif d == 3:
     s += "="
   try:
-    return base64.urlsafe_b64decode(s)
-  except TypeError:
-    # Decoding raises TypeError if s contains invalid characters.
+    return FromBytes(base64.urlsafe_b64decode(ToBytes(s)))
+  except ValueError:
+    # Decoding raises ValueError if s contains invalid characters.
     raise errors.Base64DecodingError()
 
 # Struct packed byte array format specifiers used below
-- 
2.43.0


From ccd73f2c55914b909f138cfcc236458ab56935a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:41 +0000
Subject: [PATCH 03/47] fix: random bytes and SHA-1 digests are not native byte
 strings under Python 3

os.urandom and hashlib work on bytes, so computing any key identifier (and
therefore loading or generating any key) raised TypeError.
---
 python/src/keyczar/util.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 7fb635f..14fcdc7 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -328,22 +328,22 @@ def TrimBytes(byte_string):
 def RandBytes(n):
   """Return n random bytes."""
   # This function requires at least Python 2.4.
-  return os.urandom(n)
+  return FromBytes(os.urandom(n))
 
 def Hash(*inputs):
   """Return a SHA-1 hash over a variable number of inputs."""
   md = sha1()
   for i in inputs:
-    md.update(i)
-  return md.digest()
+    md.update(ToBytes(i))
+  return FromBytes(md.digest())
 
 def PrefixHash(*inputs):
   """Return a SHA-1 hash over a variable number of inputs."""
   md = sha1()
   for i in inputs:
-    md.update(IntToBytes(len(i)))
-    md.update(i)
-  return md.digest()
+    md.update(ToBytes(IntToBytes(len(i))))
+    md.update(ToBytes(i))
+  return FromBytes(md.digest())
 
 
 def Encode(s):
-- 
2.43.0


From a3c27fcedca7e7ff250a442171d8a2214b929084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:41 +0000
Subject: [PATCH 04/47] fix: packing byte arrays mixes bytes and str under
 Python 3

Attached signatures and session material could be neither built nor parsed.
---
 python/src/keyczar/util.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 14fcdc7..c5bc81d 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -414,7 +414,8 @@ def PackByteArray(array):
   """
   if array is None:
     return ''
-  array_length_header = struct.pack(BIG_ENDIAN_INT_SPECIFIER, len(array))
+  array_length_header = FromBytes(struct.pack(BIG_ENDIAN_INT_SPECIFIER,
+                                              len(array)))
   return array_length_header + array
 
 def PackMultipleByteArrays(*arrays):
@@ -424,7 +425,8 @@ def PackMultipleByteArrays(*arrays):
   four-byte big-endian integer, followed by the arrays in sequence, each
   length-prefixed by PackByteArray().
   """
-  array_count_header = struct.pack(BIG_ENDIAN_INT_SPECIFIER, len(arrays))
+  array_count_header = FromBytes(struct.pack(BIG_ENDIAN_INT_SPECIFIER,
+                                             len(arrays)))
   array_contents = ''.join([PackByteArray(a) for a in arrays])
   return array_count_header + array_contents
 
@@ -434,7 +436,8 @@ def UnpackByteArray(data, offset):
   starting from position 'offset'.  Returns a tuple of the data array and the
   offset of the first byte after the end of the extracted array.
   """
-  array_len = struct.unpack(BIG_ENDIAN_INT_SPECIFIER, data[offset:offset + 4])[0]
+  array_len = struct.unpack(BIG_ENDIAN_INT_SPECIFIER,
+                            ToBytes(data[offset:offset + 4]))[0]
   offset += 4
   return data[offset:offset + array_len], offset + array_len
 
-- 
2.43.0


From e7b920b8fdf91b95f07cf3b62e67f589f139f89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:41 +0000
Subject: [PATCH 05/47] fix: HMAC signing and verification raise TypeError
 under Python 3

---
 python/src/keyczar/keys.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index e86ba29..1dafef7 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -549,7 +549,8 @@ class HmacKey(SymmetricKey):
     @return: raw byte string signature
     @rtype: string
     """
-    return hmac.new(self.key_bytes, msg, sha1).digest()
+    return util.FromBytes(hmac.new(util.ToBytes(self.key_bytes),
+                                   util.ToBytes(msg), sha1).digest())
 
   def Verify(self, msg, sig_bytes):
     """
@@ -591,10 +592,10 @@ class HmacKeyStream(object):
 
   def __init__(self, hmac_key):
     self.hmac_key = hmac_key
-    self.hmac = hmac.new(self.hmac_key.key_bytes, '', sha1)
+    self.hmac = hmac.new(util.ToBytes(self.hmac_key.key_bytes), b'', sha1)
 
   def Update(self, data):
-      self.hmac.update(data)
+      self.hmac.update(util.ToBytes(data))
 
   def Sign(self):
     """
@@ -603,7 +604,7 @@ class HmacKeyStream(object):
     @return: raw byte string signature
     @rtype: string
     """
-    return self.hmac.digest()
+    return util.FromBytes(self.hmac.digest())
 
 
 class PrivateKey(AsymmetricKey):
-- 
2.43.0


From 8a9f711d9a3602e9dffb5861f5e8395611335330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:42 +0000
Subject: [PATCH 06/47] fix: AES ciphers are fed str instead of bytes under
 Python 3

---
 python/src/keyczar/keys.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 1dafef7..37088d7 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -199,12 +199,21 @@ class AesKey(SymmetricKey):
       @param mode: the cipher mode
       @type mode: integer (using AES values, e.g. AES.MODE_CBC)
       """
-      self.cipher = AES.new(key_bytes, mode, iv_bytes)
+      self.cipher = AES.new(util.ToBytes(key_bytes), mode,
+                            util.ToBytes(iv_bytes))
 
     def __getattr__(self, name):
       # defer everything to the actual cipher instance
       return getattr(self.cipher, name)
 
+    def decrypt(self, string):
+      """Return decrypted byte string"""
+      return util.FromBytes(self.cipher.decrypt(util.ToBytes(string)))
+
+    def encrypt(self, string):
+      """Return encrypted byte string"""
+      return util.FromBytes(self.cipher.encrypt(util.ToBytes(string)))
+
     def final(self):
       """
       Collect any remaining encrypted data i.e. non-block size conforming
@@ -279,8 +288,8 @@ class AesKey(SymmetricKey):
           # EVP requires different mode strings for each key size (in bits)
           mode = 'aes_%s_cbc' %(self.key_size*8)
           cipher = EVP.Cipher(alg=mode,
-                              key=self.key_bytes, 
-                              iv=self.IV,
+                              key=util.ToBytes(self.key_bytes),
+                              iv=util.ToBytes(self.IV),
                               op=selector,
                               padding=0
                              )
@@ -297,7 +306,8 @@ class AesKey(SymmetricKey):
       @return: plaintext string
       @rtype: string
       """
-      return self.__Cipher(self.OP_DECRYPT).update(string)
+      return util.FromBytes(
+          self.__Cipher(self.OP_DECRYPT).update(util.ToBytes(string)))
 
     def encrypt(self, string):
       """
@@ -309,7 +319,8 @@ class AesKey(SymmetricKey):
       @return: raw byte encrypted string  
       @rtype: string
       """
-      return self.__Cipher(self.OP_ENCRYPT).update(string)
+      return util.FromBytes(
+          self.__Cipher(self.OP_ENCRYPT).update(util.ToBytes(string)))
 
     def final(self, selector=OP_ACTIVE):
       """
@@ -317,7 +328,7 @@ class AesKey(SymmetricKey):
 
       @return: remaining encrypted data, if any
       """
-      return self.__Cipher(selector).final()
+      return util.FromBytes(self.__Cipher(selector).final())
 
   def __init__(self, key_string, hmac_key, size=keyinfo.AES.default_size,
                mode=keyinfo.CBC):
-- 
2.43.0


From 92893bbf80c5bae6ff5a235d23c431e8de3701b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:42 +0000
Subject: [PATCH 07/47] fix: decryption and streaming ignore the selected
 crypto library

Only AesKey.Encrypt honoured ACTIVE_CRYPT_LIB; Decrypt and both streams always
used PyCrypto's cipher, bypassing the adaptors (and their byte string
handling), so nothing could be decrypted or streamed.
---
 python/src/keyczar/keys.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 37088d7..11a4618 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -445,7 +445,7 @@ class AesKey(SymmetricKey):
     """
     data = self._Pad(data)
     iv_bytes = util.RandBytes(self.block_size)
-    cipher = self.__CreateCipher(self.key_bytes, iv_bytes)
+    cipher = self._CreateCipher(self.key_bytes, iv_bytes)
     ciph_bytes = cipher.encrypt(data)
     ciph_bytes += cipher.final()
     msg_bytes = self.Header() + iv_bytes + ciph_bytes
@@ -476,10 +476,11 @@ class AesKey(SymmetricKey):
     if not self.hmac_key.Verify(input_bytes[:-util.HLEN], sig_bytes):
       raise errors.InvalidSignatureError()
 
-    plain = AES.new(self.key_bytes, AES.MODE_CBC, iv_bytes).decrypt(ciph_bytes)
+    cipher = self._CreateCipher(self.key_bytes, iv_bytes)
+    plain = cipher.decrypt(ciph_bytes)
     return self._UnPad(plain)
 
-  def __CreateCipher(self, key_bytes, iv_bytes, mode=AES.MODE_CBC):
+  def _CreateCipher(self, key_bytes, iv_bytes, mode=AES.MODE_CBC):
     """
     Factory function for creating cipher of specified type using the active
     crypto library
@@ -1056,7 +1057,7 @@ class EncryptingStreamWriter(object):
 
     self.__hmac_stream = key.hmac_key.CreateStreamable()
     iv_bytes = util.RandBytes(key.block_size)
-    self.__cipher = AES.new(key.key_bytes, AES.MODE_CBC, iv_bytes)
+    self.__cipher = key._CreateCipher(key.key_bytes, iv_bytes)
 
     hdr = key.Header()
     self.__hmac_stream.Update(hdr + iv_bytes)
@@ -1314,6 +1315,6 @@ class DecryptingStreamReader(object):
         self.__encrypted_buffer = self.__encrypted_buffer[
             reqd_block_size:]
         self.__hmac_stream.Update(iv_bytes)
-        self.__cipher = AES.new(self.__key.key_bytes, AES.MODE_CBC, iv_bytes)
+        self.__cipher = self.__key._CreateCipher(self.__key.key_bytes, iv_bytes)
     return is_data_avail
 
-- 
2.43.0


From f95c6e39c61fa3ef132ce802e7d415a1702dc2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:42 +0000
Subject: [PATCH 08/47] fix: RSA and DSA operations pass str to PyCrypto and
 pyasn1 under Python 3

---
 python/src/keyczar/keys.py | 23 +++++++++++++----------
 python/src/keyczar/util.py |  4 ++--
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 11a4618..8d010a5 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -662,7 +662,7 @@ class DsaPrivateKey(PrivateKey):
     @return: a DSA private key
     @rtype: L{DsaPrivateKey}
     """
-    key = DSA.generate(size, util.RandBytes)
+    key = DSA.generate(size, lambda n: util.ToBytes(util.RandBytes(n)))
     params = { 'x': util.PadBytes(util.BigIntToBytes(key.x), 1) }
     pubkey = key.publickey()
     pub_params = { 'g': util.PadBytes(util.BigIntToBytes(pubkey.g), 1),
@@ -707,7 +707,7 @@ class DsaPrivateKey(PrivateKey):
     # Need to chose a random k per-message, SystemRandom() is available
     # since Python 2.4.
     k = random.SystemRandom().randint(2, self.key.q-1)
-    (r, s) = self.key.sign(util.Hash(msg), k)
+    (r, s) = self.key.sign(util.ToBytes(util.Hash(msg)), k)
     return util.MakeDsaSig(r, s)
 
   def Verify(self, msg, sig):
@@ -788,7 +788,7 @@ class RsaPrivateKey(PrivateKey):
     @return: a RSA private key
     @rtype: L{RsaPrivateKey}
     """
-    key = RSA.generate(size, util.RandBytes)
+    key = RSA.generate(size, lambda n: util.ToBytes(util.RandBytes(n)))
     #NOTE: PyCrypto stores p < q, u = p^{-1} mod q
     #But OpenSSL and PKCS8 stores q < p, invq = q^{-1} mod p
     #So we have to reverse the p and q values
@@ -848,8 +848,8 @@ class RsaPrivateKey(PrivateKey):
     @rtype: string
     """
     ciph_bytes = input_bytes[keyczar.HEADER_SIZE:]
-    decrypted = self.key.decrypt(ciph_bytes)
-    return self.__Decode(decrypted)
+    decrypted = self.key.decrypt(util.ToBytes(ciph_bytes))
+    return self.__Decode(util.FromBytes(decrypted))
 
   def Sign(self, msg):
     """
@@ -862,7 +862,8 @@ class RsaPrivateKey(PrivateKey):
     @rtype: string
     """
     emsa_encoded = util.MakeEmsaMessage(msg, self.size)
-    byte_string = util.BigIntToBytes(self.key.sign(emsa_encoded, None)[0])
+    byte_string = util.BigIntToBytes(
+        self.key.sign(util.ToBytes(emsa_encoded), None)[0])
     return util.PadBytes(byte_string, self.size//8 - len(byte_string))
 
   def Verify(self, msg, sig):
@@ -932,7 +933,7 @@ class DsaPublicKey(PublicKey):
     """
     try:
       (r, s) = util.ParseDsaSig(sig)
-      return self.key.verify(util.Hash(msg), (r, s))
+      return self.key.verify(util.ToBytes(util.Hash(msg)), (r, s))
     except errors.KeyczarError:
       # if signature is not in correct format
       return False
@@ -1011,8 +1012,9 @@ class RsaPublicKey(PublicKey):
     @rtype: string
     """
     data = self.__Encode(data)
-    ciph_bytes = self.key.encrypt(data, None)[0]  # PyCrypto returns 1-tuple
-    return self.Header() + ciph_bytes
+    # PyCrypto returns 1-tuple
+    ciph_bytes = self.key.encrypt(util.ToBytes(data), None)[0]
+    return self.Header() + util.FromBytes(ciph_bytes)
 
   def Verify(self, msg, sig):
     """
@@ -1028,7 +1030,8 @@ class RsaPublicKey(PublicKey):
     @rtype: boolean
     """
     try:
-      return self.key.verify(util.MakeEmsaMessage(msg, self.size), (util.BytesToLong(sig),))
+      return self.key.verify(util.ToBytes(util.MakeEmsaMessage(msg, self.size)),
+                             (util.BytesToLong(sig),))
     except ValueError:
       # if sig is not a long, it's invalid
       return False
diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index c5bc81d..7ce3814 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -230,7 +230,7 @@ def MakeDsaSig(r, s):
   @rtype: string
   """
   seq = ASN1Sequence(univ.Integer(r), univ.Integer(s))
-  return encoder.encode(seq)
+  return FromBytes(encoder.encode(seq))
 
 def ParseDsaSig(sig):
   """
@@ -244,7 +244,7 @@ def ParseDsaSig(sig):
 
   @raise KeyczarErrror: if the DSA signature format is invalid
   """
-  seq = decoder.decode(sig)[0]
+  seq = decoder.decode(ToBytes(sig))[0]
   if len(seq) != 2:
     raise errors.KeyczarError("Illegal DSA signature.")
   r = int(seq.getComponentByPosition(0))
-- 
2.43.0


From 59f4482c6b3c4e57e4d82f560a65cdb61aaaa4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:42 +0000
Subject: [PATCH 09/47] fix: incremental Base64 decoding mixes bytes and str
 under Python 3

---
 python/src/keyczar/util.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 7ce3814..fbbdb53 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -651,6 +651,10 @@ class BufferedIncrementalBase64WSDecoder(codecs.BufferedIncrementalDecoder):
   undecoded data outside this optimal size will be buffered.
   """
 
+  def __init__(self, errors='strict'):
+    super(BufferedIncrementalBase64WSDecoder, self).__init__(errors)
+    self.buffer = ''  # the base class starts with bytes in Python 3
+
   def _buffer_decode(self, input, errors, final):
     """
     Decodes input and returns the resulting object, buffering any data that is
@@ -740,6 +744,7 @@ class IncrementalBase64WSStreamReader(codecs.StreamReader, object):
 
     """
     super(IncrementalBase64WSStreamReader, self).__init__(stream, errors)
+    self.bytebuffer = ''  # the base class starts with bytes in Python 3
     self.decoder = BufferedIncrementalBase64WSDecoder(errors=errors)
 
   def read(self, size=-1, chars=-1, firstline=False):
-- 
2.43.0


From ce4ffa5cdc236b6271391bdc5ed6d17f8bb526f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:38 +0000
Subject: [PATCH 10/47] fix: encrypting or signing without a primary key raises
 the wrong error

Encrypt documents NoPrimaryKeyError, but looking up version None raised
KeyNotFoundError('Key with hash_val identifier None not found') first.
---
 python/src/keyczar/keyczar.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index af20330..2ab47f5 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -68,9 +68,14 @@ class Keyczar(object, metaclass=util.ABCMeta):
   versions = property(lambda self: [k for k in list(self._keys.keys())
                                     if isinstance(k, keydata.KeyVersion)],
                       doc="""List of versions in key set.""")
-  primary_key = property(lambda self: self.GetKey(self.primary_version),
+  primary_key = property(lambda self: self.__GetPrimaryKey(),
                          doc="""The primary key for this key set.""")
 
+  def __GetPrimaryKey(self):
+    if self.primary_version is None:
+      raise errors.NoPrimaryKeyError()
+    return self.GetKey(self.primary_version)
+
   def __str__(self):
     return str(self.metadata)
 
-- 
2.43.0


From 21669c737b59646a1b99fd84d7986c289ac60e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:38 +0000
Subject: [PATCH 11/47] fix: a truncated ciphertext stream is reported as a
 clean end of data

A stream cut within its header, IV or signature was never checked against its
signature: read() returned '' as if it held an empty message, and reading on
after InvalidSignatureError did the same. The signature is now checked before
the last blocks are decrypted, and read() reports the end of the data only once
it has been.
---
 python/src/keyczar/keys.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 8d010a5..2115e7f 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -1159,6 +1159,7 @@ class DecryptingStreamReader(object):
     self.__cipher = None
     self.__encrypted_buffer = ''
     self.__decrypted_buffer = ''
+    self.__verified = False
     self.__closed = False
 
   def read(self, chars=-1):
@@ -1216,8 +1217,7 @@ class DecryptingStreamReader(object):
       if data_to_decrypt:
         self.__hmac_stream.Update(data_to_decrypt)
         self.__encrypted_buffer = self.__encrypted_buffer[len(data_to_decrypt):]
-        decrypted_data = self.__cipher.decrypt(data_to_decrypt)
-        
+
         if not is_data_avail:
           if len(self.__encrypted_buffer) != util.HLEN:
             raise errors.ShortCiphertextError(len(self.__encrypted_buffer))
@@ -1227,10 +1227,18 @@ class DecryptingStreamReader(object):
           if not self.__key.hmac_key.VerifySignedData(current_sig_bytes, 
                                                       msg_sig_bytes):
             raise errors.InvalidSignatureError()
+          self.__verified = True
+
+        decrypted_data = self.__cipher.decrypt(data_to_decrypt)
+        if not is_data_avail:
           decrypted_data = self.__key._UnPad(decrypted_data)
-          
+
         self.__decrypted_buffer += decrypted_data
-        
+
+    if not is_data_avail and not self.__verified:
+      # the stream ended before its signature could be checked
+      raise errors.ShortCiphertextError(len(self.__encrypted_buffer))
+
     if chars < 0:
       result = self.__decrypted_buffer
       self.__decrypted_buffer = ''
-- 
2.43.0


From 4a09b714daa19a945afa3598f7f9c5e553efdd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:38 +0000
Subject: [PATCH 12/47] fix: a revoked key stays in the key set object

Revoke removed the version from the metadata only: the revoked key was still
listed in versions, written by Write and exported by PublicKeyExport.
---
 python/src/keyczar/keyczar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index 2ab47f5..b65d5fd 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -252,6 +252,8 @@ class GenericKeyczar(Keyczar):
     version = self.metadata.GetVersion(version_number)
     if version.status == keyinfo.INACTIVE:
       self.metadata.RemoveVersion(version_number)
+      key = self._keys.pop(version)
+      self._keys.pop(key.hash_id, None)
     else:
       raise errors.KeyczarError("Can't revoke key if not inactive.")
 
-- 
2.43.0


From 1e702d701465e4ce85175b2da9b92cf8c5d1bcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:38 +0000
Subject: [PATCH 13/47] fix: a failed AddVersion demotes the primary key

The statuses were switched before the key was generated, so a key type that
cannot be generated (a public key set) lost its primary version.
---
 python/src/keyczar/keyczar.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index b65d5fd..e2fa76e 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -178,11 +178,6 @@ class GenericKeyczar(Keyczar):
     # Make the new version number the max of the existing versions plus one
     version = keydata.KeyVersion(max_version_number + 1, status, False)
 
-    if status == keyinfo.PRIMARY:
-      if self.primary_version is not None:
-        self.primary_version.status = keyinfo.ACTIVE
-      self.primary_version = version
-
     if size < self.default_size:
       print(("WARNING: %d-bit key size is less than recommended default key"
             "size of %d bits for %s keys."
@@ -194,6 +189,11 @@ class GenericKeyczar(Keyczar):
       if self._keys.get(key.hash_id) is None:
         break
 
+    if status == keyinfo.PRIMARY:
+      if self.primary_version is not None:
+        self.primary_version.status = keyinfo.ACTIVE
+      self.primary_version = version
+
     self._AddKey(version, key)
 
   def Promote(self, version_number):
-- 
2.43.0


From 149bb098efbf79e7abdd1182829df48cc53fdeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:40 +0000
Subject: [PATCH 14/47] fix: an interrupted WriteFile leaves a truncated key or
 metadata file

Write to a temporary file next to the target and rename it into place.
---
 python/src/keyczar/util.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index fbbdb53..dabc65e 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -25,6 +25,7 @@ import codecs
 import functools
 import math
 import os
+import shutil
 import struct
 import warnings
 import sys
@@ -468,10 +469,26 @@ def WriteFile(data, loc):
 
   @raise KeyczarError: if unable to write to file because of IOError
   """
+  # Write to a temporary file and rename it, so that an interrupted write cannot
+  # leave a truncated file behind.
+  loc = os.path.realpath(loc)
+  temp = "%s.%d.tmp" % (loc, os.getpid())
   try:
-    f = open(loc, "w")
-    f.write(data)
-    f.close()
+    try:
+      f = open(temp, "w")
+      try:
+        if os.path.exists(loc):
+          shutil.copymode(loc, temp)
+        f.write(data)
+        f.flush()
+        os.fsync(f.fileno())
+      finally:
+        f.close()
+      os.replace(temp, loc)
+    except:
+      if os.path.exists(temp):
+        os.remove(temp)
+      raise
   except IOError:
     raise errors.KeyczarError("Unable to write to file %s." % loc)
 
-- 
2.43.0


From e402896702cdcbcd60b6d45bb6b1a4b07ae507bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:40 +0000
Subject: [PATCH 15/47] fix: metadata is written before the keys it lists

A crash between the two left a key set that could not be loaded.
---
 python/src/keyczar/keyczar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index e2fa76e..5644c35 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -299,9 +299,10 @@ class GenericKeyczar(Keyczar):
         'Using a string as the writer is deprecated. Use writers.CreateWriter', 
         DeprecationWarning)
     self.metadata.encrypted = (encrypter is not None)
-    writer.WriteMetadata(self.metadata)
+    # The metadata goes last: it must never list a key that is not there yet.
     for v in self.versions:
       writer.WriteKey(self.GetKey(v), v.version_number, encrypter)
+    writer.WriteMetadata(self.metadata)
 
 class Encrypter(Keyczar):
   """Capable of encrypting only."""
-- 
2.43.0


From c9ccb356d0d80b16ba2a2f63d2f7d4b126491048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:03 +0000
Subject: [PATCH 16/47] fix: malformed DSA signatures raise pyasn1 errors or
 verify despite trailing data

---
 python/src/keyczar/util.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index dabc65e..7e1aaf1 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -245,11 +245,19 @@ def ParseDsaSig(sig):
 
   @raise KeyczarErrror: if the DSA signature format is invalid
   """
-  seq = decoder.decode(ToBytes(sig))[0]
-  if len(seq) != 2:
+  try:
+    seq = decoder.decode(ToBytes(sig))[0]
+    if len(seq) != 2:
+      raise errors.KeyczarError("Illegal DSA signature.")
+    r = int(seq.getComponentByPosition(0))
+    s = int(seq.getComponentByPosition(1))
+    canonical_sig = MakeDsaSig(r, s)
+  except errors.KeyczarError:
+    raise
+  except Exception:  # pyasn1 leaks all kinds of errors on malformed input
+    raise errors.KeyczarError("Illegal DSA signature.")
+  if canonical_sig != sig:
     raise errors.KeyczarError("Illegal DSA signature.")
-  r = int(seq.getComponentByPosition(0))
-  s = int(seq.getComponentByPosition(1))
   return (r, s)
 
 def MakeEmsaMessage(msg, modulus_size):
-- 
2.43.0


From 17b1c0c160954a8573c2e677862a12bd6aed1735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:03 +0000
Subject: [PATCH 17/47] fix: RSA verification accepts signatures longer or
 larger than the modulus

---
 python/src/keyczar/keys.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 2115e7f..c87e0f7 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -1029,9 +1029,13 @@ class RsaPublicKey(PublicKey):
     @return: True if signature is valid for the message hash_id. False otherwise.
     @rtype: boolean
     """
+    sig_value = util.BytesToLong(sig)
+    if len(sig) > len(util.BigIntToBytes(self.key.n)) or sig_value >= self.key.n:
+      # zero-prefixed or non-reduced variant of a signature
+      return False
     try:
       return self.key.verify(util.ToBytes(util.MakeEmsaMessage(msg, self.size)),
-                             (util.BytesToLong(sig),))
+                             (sig_value,))
     except ValueError:
       # if sig is not a long, it's invalid
       return False
-- 
2.43.0


From ef746d13f07edd8f0f899461074f8eaa5e2a32a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:03 +0000
Subject: [PATCH 18/47] fix: malformed packed arrays and session material raise
 non-Keyczar errors or loop forever

---
 python/src/keyczar/keyczar.py | 15 ++++++++++-----
 python/src/keyczar/util.py    | 12 +++++++++---
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index 5644c35..bc22e54 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -704,7 +704,8 @@ class _Session(object):
     _Session.packed_key.
     """
     unpacked = util.UnpackMultipleByteArrays(packed_key_data)
-    assert len(unpacked) == 2
+    if len(unpacked) != 2:
+      raise errors.KeyczarError("Illegal session key material.")
     aes_key_bytes = unpacked[0]
     hmac_key_bytes = unpacked[1]
     hmac_key = keys.HmacKey(util.Base64WSEncode(hmac_key_bytes), len(hmac_key_bytes) * 8)
@@ -719,10 +720,14 @@ class _Session(object):
     extracted from the provided json_session_data, which must have been produced by
     _Session.json.
     """
-    json_dict = json.loads(json_session_data)
-    aes_key_string = json.dumps(json_dict['key'])
-    return _Session.__Create(keys.AesKey.Read(aes_key_string),
-                             util.Base64WSDecode(json_dict['nonce']))
+    try:
+      json_dict = json.loads(json_session_data)
+      aes_key_string = json.dumps(json_dict['key'])
+      session_key = keys.AesKey.Read(aes_key_string)
+      nonce = util.Base64WSDecode(json_dict['nonce'])
+    except (ValueError, KeyError, TypeError, AttributeError):
+      raise errors.KeyczarError("Illegal session key material.")
+    return _Session.__Create(session_key, nonce)
 
   @staticmethod
   def __Create(session_key, nonce):
diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 7e1aaf1..f57cb63 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -445,8 +445,13 @@ def UnpackByteArray(data, offset):
   starting from position 'offset'.  Returns a tuple of the data array and the
   offset of the first byte after the end of the extracted array.
   """
-  array_len = struct.unpack(BIG_ENDIAN_INT_SPECIFIER,
-                            ToBytes(data[offset:offset + 4]))[0]
+  try:
+    array_len = struct.unpack(BIG_ENDIAN_INT_SPECIFIER,
+                              ToBytes(data[offset:offset + 4]))[0]
+  except struct.error:
+    raise errors.KeyczarError("Truncated byte array.")
+  if array_len < 0:
+    raise errors.KeyczarError("Illegal byte array length %d." % array_len)
   offset += 4
   return data[offset:offset + array_len], offset + array_len
 
@@ -462,7 +467,8 @@ def UnpackMultipleByteArrays(data):
   while position < len(data):
     array, position = UnpackByteArray(data, position)
     result.append(array)
-  assert position == len(data)
+  if position != len(data):
+    raise errors.KeyczarError("Truncated byte array.")
   return result
 
 def WriteFile(data, loc):
-- 
2.43.0


From 319e69cb2a03a8740ebd887638497fd40c521017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:03 +0000
Subject: [PATCH 19/47] fix: OAEP block without delimiter raises IndexError

---
 python/src/keyczar/keys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index c87e0f7..ae09d1b 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -762,7 +762,7 @@ class RsaPrivateKey(PrivateKey):
       raise errors.KeyczarError("OAEP Decoding Error - hash_id is invalid")
 
     delimited_message = datablock[util.HLEN:].lstrip('\x00')
-    if delimited_message[0] != '\x01':
+    if delimited_message[:1] != '\x01':
       raise errors.KeyczarError("OAEP Decoding Error - expected a 1 value")
     return delimited_message[1:]  # The message
 
-- 
2.43.0


From b71767c904e1a105aee60a22db336fe5efc3d8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:04 +0000
Subject: [PATCH 20/47] fix: interop _CallImplementation returns bytes instead
 of text under Python 3

---
 interop/interop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interop/interop.py b/interop/interop.py
index 513bb2b..d6f22a4 100755
--- a/interop/interop.py
+++ b/interop/interop.py
@@ -298,7 +298,8 @@ class InteropTestRunner(object):
     """ Makes a call to an implementation and returns response """
     args = self.implementations[implementation] + list(params)
     try:
-      return subprocess.check_output(args, stderr=subprocess.STDOUT)
+      return subprocess.check_output(args, stderr=subprocess.STDOUT,
+                                     universal_newlines=True)
     except subprocess.CalledProcessError as e:
       cmd = subprocess.list2cmdline(args)
       raise Exception("%s failed:\n %s" % (cmd, e.output))
-- 
2.43.0


From 39999c31728c768fdc14b785a89a54e2c7681335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:45 +0000
Subject: [PATCH 21/47] fix: session material with an unusable AES key fails
 late with a non-Keyczar error

---
 python/src/keyczar/keyczar.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index bc22e54..b94e1e8 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -708,6 +708,8 @@ class _Session(object):
       raise errors.KeyczarError("Illegal session key material.")
     aes_key_bytes = unpacked[0]
     hmac_key_bytes = unpacked[1]
+    if not keyinfo.AES.IsValidSize(len(aes_key_bytes) * 8):
+      raise errors.KeyczarError("Illegal session key material.")
     hmac_key = keys.HmacKey(util.Base64WSEncode(hmac_key_bytes), len(hmac_key_bytes) * 8)
     session_key = keys.AesKey(util.Base64WSEncode(aes_key_bytes), hmac_key, len(aes_key_bytes) * 8,
                               keyinfo.CBC)
@@ -724,8 +726,11 @@ class _Session(object):
       json_dict = json.loads(json_session_data)
       aes_key_string = json.dumps(json_dict['key'])
       session_key = keys.AesKey.Read(aes_key_string)
+      session_key.hmac_key.key_bytes  # must be decodable, too
+      if not keyinfo.AES.IsValidSize(len(session_key.key_bytes) * 8):
+        raise ValueError("illegal AES key size")
       nonce = util.Base64WSDecode(json_dict['nonce'])
-    except (ValueError, KeyError, TypeError, AttributeError):
+    except (ValueError, KeyError, TypeError, AttributeError, AssertionError):
       raise errors.KeyczarError("Illegal session key material.")
     return _Session.__Create(session_key, nonce)
 
-- 
2.43.0


From 15a33f3f8b0578ae889957e46c456a5a454a9575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:45 +0000
Subject: [PATCH 22/47] fix: PKCS8 and X.509 parsing and export fail under
 Python 3

---
 python/src/keyczar/util.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index f57cb63..05e5971 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -130,14 +130,14 @@ def ParseASN1Sequence(seq):
 #
 #Attributes ::= SET OF Attribute
 def ParsePkcs8(pkcs8):
-  seq = ParseASN1Sequence(decoder.decode(Base64WSDecode(pkcs8))[0])
+  seq = ParseASN1Sequence(decoder.decode(ToBytes(Base64WSDecode(pkcs8)))[0])
   if len(seq) != 3:  # need three fields in PrivateKeyInfo
     raise errors.KeyczarError("Illegal PKCS8 String.")
   version = int(seq[0])
   if version != 0:
       raise errors.KeyczarError("Unrecognized PKCS8 Version")
   [oid, alg_params] = ParseASN1Sequence(seq[1])
-  key = decoder.decode(seq[2])[0]
+  key = decoder.decode(seq[2].asOctets())[0]
   # Component 2 is an OCTET STRING which is further decoded
   params = {}
   if oid == RSA_OID:
@@ -179,14 +179,12 @@ def ExportDsaPkcs8(params):
 #        algorithm            AlgorithmIdentifier,
 #        subjectPublicKey     BIT STRING  }
 def ParseX509(x509):
-  seq = ParseASN1Sequence(decoder.decode(Base64WSDecode(x509))[0])
+  seq = ParseASN1Sequence(decoder.decode(ToBytes(Base64WSDecode(x509)))[0])
   if len(seq) != 2:  # need two fields in SubjectPublicKeyInfo
     raise errors.KeyczarError("Illegal X.509 String.")
   [oid, alg_params] = ParseASN1Sequence(seq[0])
-  pubkey = decoder.decode(univ.OctetString(BinToBytes(seq[1].
-                                                      prettyPrint()[2:-3])))[0]
-  # Component 1 should be a BIT STRING, get raw bits by discarding extra chars,
-  # then convert to OCTET STRING which can be ASN.1 decoded
+  # Component 1 should be a BIT STRING, whose bytes can be ASN.1 decoded
+  pubkey = decoder.decode(seq[1].asOctets())[0]
   params = {}
   if oid == RSA_OID:
     [params['n'], params['e']] = [int(x) for x in ParseASN1Sequence(pubkey)]
@@ -202,7 +200,7 @@ def ParseX509(x509):
 def ExportRsaX509(params):
   oid = ASN1Sequence(RSA_OID, univ.Null())
   key = ASN1Sequence(univ.Integer(params['n']), univ.Integer(params['e']))
-  binkey = BytesToBin(encoder.encode(key))
+  binkey = BytesToBin(FromBytes(encoder.encode(key)))
   pubkey = univ.BitString("'%s'B" % binkey)  # needs to be a BIT STRING
   seq = ASN1Sequence(oid, pubkey)
   return Base64WSEncode(encoder.encode(seq))
@@ -212,7 +210,7 @@ def ExportDsaX509(params):
                             univ.Integer(params['q']),
                             univ.Integer(params['g']))
   oid = ASN1Sequence(DSA_OID, alg_params)
-  binkey = BytesToBin(encoder.encode(univ.Integer(params['y'])))
+  binkey = BytesToBin(FromBytes(encoder.encode(univ.Integer(params['y']))))
   pubkey = univ.BitString("'%s'B" % binkey)  # needs to be a BIT STRING
   seq = ASN1Sequence(oid, pubkey)
   return Base64WSEncode(encoder.encode(seq))
-- 
2.43.0


From 9642217dc819540d71e050b1fd0ee84fbf942752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:57 +0000
Subject: [PATCH 23/47] fix: keyczart carries on after rejecting a malformed
 flag

addkey with a malformed --crypter flag wrote the key set unencrypted.
---
 python/src/keyczar/keyczart.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/keyczart.py b/python/src/keyczar/keyczart.py
index 4071590..8ad8915 100644
--- a/python/src/keyczar/keyczart.py
+++ b/python/src/keyczar/keyczart.py
@@ -287,11 +287,12 @@ def main(argv):
       if arg.startswith("--"):
         arg = arg[2:]  # trim leading dashes
         try:
-          [flag, val] = arg.split("=")
+          [flag, val] = arg.split("=", 1)
           flags[GetFlag(flag)] = val
         except ValueError:
           print("Flags incorrectly formatted")
           Usage()
+          return 1
     
     try:
       version = int(flags.get(VERSION, -1))
@@ -300,6 +301,7 @@ def main(argv):
     except ValueError:
       print("Size and version flags require an integer")
       Usage()
+      return 1
     
     loc = flags.get(LOCATION)  # all commands need location
     
-- 
2.43.0


From ba77251789f9ef0d9e7d3883b4b8f98d12595f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:08 +0000
Subject: [PATCH 24/47] fix: RSA ciphertexts with leading zero bytes are
 shorter than the modulus

---
 python/src/keyczar/keys.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index ae09d1b..f6ef02f 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -1013,8 +1013,10 @@ class RsaPublicKey(PublicKey):
     """
     data = self.__Encode(data)
     # PyCrypto returns 1-tuple
-    ciph_bytes = self.key.encrypt(util.ToBytes(data), None)[0]
-    return self.Header() + util.FromBytes(ciph_bytes)
+    ciph_bytes = util.FromBytes(self.key.encrypt(util.ToBytes(data), None)[0])
+    # PyCrypto strips leading zero bytes, the ciphertext has the modulus length
+    return self.Header() + util.PadBytes(ciph_bytes,
+                                         len(data) - len(ciph_bytes))
 
   def Verify(self, msg, sig):
     """
-- 
2.43.0


From 9aa8ce482d22f111bf60218b92e275f5265ea4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:17 +0000
Subject: [PATCH 25/47] fix: Base64WSDecode counts tabs as Base64 characters

---
 python/src/keyczar/util.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 05e5971..a5d868a 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -395,8 +395,7 @@ def Base64WSDecode(s):
   @raise Base64DecodingError: If length of string (ignoring whitespace) is one
     more than a multiple of four.
   """
-  s = ''.join(s.splitlines())
-  s = str(s.replace(" ", ""))  # kill whitespace, make string (not unicode)
+  s = ''.join(s.split())  # kill whitespace
   d = len(s) % 4
   if d == 1:
     raise errors.Base64DecodingError()
-- 
2.43.0


From dd3dde22c6eafa2acec290feacff46a516e776bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:06 +0000
Subject: [PATCH 26/47] fix: incremental Base64 decoding miscounts groups that
 contain whitespace

---
 python/src/keyczar/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index a5d868a..4116229 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -724,8 +724,9 @@ class BufferedIncrementalBase64WSDecoder(codecs.BufferedIncrementalDecoder):
     @return: plaintext representation of input.
     @rtype: string
     """
-    result = super(BufferedIncrementalBase64WSDecoder, self).decode(input,
-                                                                  final=final)
+    # whitespace must not count for the no-padding length
+    result = super(BufferedIncrementalBase64WSDecoder, self).decode(
+        ''.join(input.split()), final=final)
     return (result, len(input))
 
   def flush(self):
-- 
2.43.0


From 4e4e1020989f79426efaa3fcc266f352a77c13f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:06 +0000
Subject: [PATCH 27/47] fix: signed AES ciphertexts without whole blocks raise
 non-Keyczar errors

---
 python/src/keyczar/keys.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index f6ef02f..1daa3b5 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -475,6 +475,8 @@ class AesKey(SymmetricKey):
     sig_bytes = data_bytes[-util.HLEN:]  # last 20 bytes are sig
     if not self.hmac_key.Verify(input_bytes[:-util.HLEN], sig_bytes):
       raise errors.InvalidSignatureError()
+    if not ciph_bytes or len(ciph_bytes) % self.block_size:
+      raise errors.ShortCiphertextError(len(data_bytes))
 
     cipher = self._CreateCipher(self.key_bytes, iv_bytes)
     plain = cipher.decrypt(ciph_bytes)
@@ -1233,6 +1235,8 @@ class DecryptingStreamReader(object):
           if not self.__key.hmac_key.VerifySignedData(current_sig_bytes, 
                                                       msg_sig_bytes):
             raise errors.InvalidSignatureError()
+          if len(data_to_decrypt) % self.__key.block_size:
+            raise errors.ShortCiphertextError(len(data_to_decrypt))
           self.__verified = True
 
         decrypted_data = self.__cipher.decrypt(data_to_decrypt)
-- 
2.43.0


From 903f2d42050f6830d3e62422d41c55e40ae2e0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:01 +0000
Subject: [PATCH 28/47] fix: DSA signatures zero-padded by the Java
 implementation are refused

---
 python/src/keyczar/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 4116229..b22f212 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -254,7 +254,8 @@ def ParseDsaSig(sig):
     raise
   except Exception:  # pyasn1 leaks all kinds of errors on malformed input
     raise errors.KeyczarError("Illegal DSA signature.")
-  if canonical_sig != sig:
+  # The Java implementation pads attached signatures with trailing zero bytes.
+  if canonical_sig + chr(0) * (len(sig) - len(canonical_sig)) != sig:
     raise errors.KeyczarError("Illegal DSA signature.")
   return (r, s)
 
-- 
2.43.0


From 46d649eee0ac3f0c9e21f234b4c55a4ed9f8d8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:56 +0000
Subject: [PATCH 29/47] fix: report an undecodable key or metadata file as a
 Keyczar error

A damaged file that is no valid text raised UnicodeDecodeError, which is
not an IOError.
---
 python/src/keyczar/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index b22f212..f57f794 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -518,7 +518,7 @@ def ReadFile(loc):
   """
   try:
     return open(loc).read()
-  except IOError:
+  except (IOError, UnicodeDecodeError):
     raise errors.KeyczarError("Unable to read file %s." % loc)
 
 def MGF(seed, mlen):
-- 
2.43.0


From 58761ada81a4fbbf2f5173f0db2a0b44594cafb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:38 +0000
Subject: [PATCH 30/47] fix: a ciphertext stream with a refused header is read
 on after the header

---
 python/src/keyczar/keys.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 1daa3b5..1c8ba74 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -1311,8 +1311,9 @@ class DecryptingStreamReader(object):
 
       if len(self.__encrypted_buffer) >= keyczar.HEADER_SIZE:
         hdr_bytes = self.__encrypted_buffer[:keyczar.HEADER_SIZE]
-        self.__encrypted_buffer = self.__encrypted_buffer[keyczar.HEADER_SIZE:]
+        # a header that is refused stays, so that a later read fails as well
         self.__key = self.__key_set._ParseHeader(hdr_bytes)
+        self.__encrypted_buffer = self.__encrypted_buffer[keyczar.HEADER_SIZE:]
         self.__hmac_stream = self.__key.hmac_key.CreateStreamable()
         self.__hmac_stream.Update(hdr_bytes)
         if self.__buffer_size >= 0:
-- 
2.43.0


From c409b5239f99cb66090ef2dbb7fbedb43f6824f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:38 +0000
Subject: [PATCH 31/47] fix: a raw ciphertext stream loses bytes when its
 source raises BlockingIOError

---
 python/src/keyczar/keys.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 1c8ba74..9cc74e8 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -1283,7 +1283,10 @@ class DecryptingStreamReader(object):
     need_more_data = True
     result = ''
     while need_more_data:
-      read_bytes = self.__input_stream.read(size)
+      try:
+        read_bytes = self.__input_stream.read(size)
+      except util.BlockingIOError:
+        read_bytes = None
       if read_bytes:
         result += read_bytes
       elif read_bytes is not None:
-- 
2.43.0


From 89c3566ebdd5e843451e80376a219f99c1f97080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:38 +0000
Subject: [PATCH 32/47] fix: flushing a Base64 stream does not flush its output
 when the encoder is empty

---
 python/src/keyczar/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index f57f794..bcbe265 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -656,7 +656,7 @@ class IncrementalBase64WSStreamWriter(codecs.StreamWriter, object):
     result = self.encoder.flush()
     if result:
       self.stream.write(result)
-      self.stream.flush()
+    self.stream.flush()
 
   def encode(self, input, errors='strict'):
     """
-- 
2.43.0


From a48962259e6ad27aa12a47bbbabe34858741bc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:34 +0000
Subject: [PATCH 33/47] fix: read(0) of a Base64 stream decodes an incomplete
 group

---
 python/src/keyczar/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index bcbe265..1238887 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -874,7 +874,8 @@ class IncrementalBase64WSStreamReader(codecs.StreamReader, object):
       result = None
 
     if not result and newdata == '':
-      if chars != 0:
+      # nothing was asked for if size or chars is 0, so this is not the end
+      if chars != 0 and size != 0:
         result = self.decoder.flush()
 
     return result
-- 
2.43.0


From a72e1f10a7912061ee246907fc2bbdf615b01d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:34 +0000
Subject: [PATCH 34/47] fix: the last read of a Base64 stream returns more than
 the requested characters

---
 python/src/keyczar/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 1238887..e823c72 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -877,6 +877,9 @@ class IncrementalBase64WSStreamReader(codecs.StreamReader, object):
       # nothing was asked for if size or chars is 0, so this is not the end
       if chars != 0 and size != 0:
         result = self.decoder.flush()
+        if chars > 0:
+          self.charbuffer = result[chars:]
+          result = result[:chars]
 
     return result
 
-- 
2.43.0


From d25ba6c595da64fee69c4b0d997e4a11dd827e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:44 +0000
Subject: [PATCH 35/47] fix: closing a Base64 stream writer raises
 AttributeError

---
 python/src/keyczar/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index e823c72..00e84a4 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -647,7 +647,7 @@ class IncrementalBase64WSStreamWriter(codecs.StreamWriter, object):
   def close(self):
     """ Flushes and closes the stream """
     self.flush()
-    super(IncrementalBase64WSStreamWriter, self).close()
+    self.stream.close()
 
   def flush(self):
     """
-- 
2.43.0


From eebe59fbff7048bce75a77e0e7bb259a3fc25280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:17 +0000
Subject: [PATCH 36/47] fix: interop.py exits with status 0 when interop tests
 fail

---
 interop/interop.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/interop/interop.py b/interop/interop.py
index d6f22a4..feadbf6 100755
--- a/interop/interop.py
+++ b/interop/interop.py
@@ -520,7 +520,7 @@ class InteropTestRunner(object):
 
   def RunTests(self):
     suite = unittest.TestLoader().loadTestsFromTestCase(self.InteropTest)
-    unittest.TextTestRunner().run(suite)
+    return unittest.TextTestRunner().run(suite).wasSuccessful()
 
 
 def Usage():
@@ -576,7 +576,8 @@ def main(argv):
   logger.Output("Generating Data")
   runner.SetupInteropTests()
   logger.Output("Running Tests")
-  runner.RunTests()
+  if not runner.RunTests():
+    return 1
 
 if __name__ == "__main__":
   sys.exit(main(sys.argv[1:]))
-- 
2.43.0


From 983999c340972fd2eab7f046e87079b803650add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:17 +0000
Subject: [PATCH 37/47] fix: interop tests whose option values spell the same
 name replace each other

---
 interop/interop.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interop/interop.py b/interop/interop.py
index feadbf6..28ebf4c 100755
--- a/interop/interop.py
+++ b/interop/interop.py
@@ -427,6 +427,7 @@ class InteropTestRunner(object):
 
     Should be called before loaded into unittest
     """
+    test_names = set()
     for params in self._GenerateAll():
       generate_implementation, operation, keyset, generate_options = params
       output = self._Generate(
@@ -441,6 +442,9 @@ class InteropTestRunner(object):
             "_".join(list(generate_options.values())),
             "_".join(list(test_options.values())),
             )
+        while test_name in test_names:  # never replace another test
+          test_name += "_"
+        test_names.add(test_name)
 
         test = self.InteropTestGenerator(
             output,
-- 
2.43.0


From 6bb24168741bab226016a80d38c1863d5800a6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:12 +0000
Subject: [PATCH 38/47] fix: keyczart ignored arguments that are not --flags,
 e.g. -crypter=... left keys in the clear

---
 python/src/keyczar/keyczart.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/keyczart.py b/python/src/keyczar/keyczart.py
index 8ad8915..a5e4e66 100644
--- a/python/src/keyczar/keyczart.py
+++ b/python/src/keyczar/keyczart.py
@@ -283,7 +283,7 @@ def main(argv):
   else:
     cmd = GetCommand(argv[0])   
     flags = {}
-    for arg in argv:
+    for arg in argv[1:]:
       if arg.startswith("--"):
         arg = arg[2:]  # trim leading dashes
         try:
@@ -293,6 +293,10 @@ def main(argv):
           print("Flags incorrectly formatted")
           Usage()
           return 1
+      else:
+        print("Flags incorrectly formatted")
+        Usage()
+        return 1
     
     try:
       version = int(flags.get(VERSION, -1))
-- 
2.43.0


From da375a5ea23d198a59a4ae9e5a65ae557dfc927f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:28 +0000
Subject: [PATCH 39/47] fix: closing an encrypted reader leaves the underlying
 reader open

---
 python/src/keyczar/readers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/src/keyczar/readers.py b/python/src/keyczar/readers.py
index 43932b1..1a94223 100644
--- a/python/src/keyczar/readers.py
+++ b/python/src/keyczar/readers.py
@@ -152,8 +152,7 @@ class EncryptedReader(Reader):
     return self._crypter.Decrypt(self._reader.GetKey(version_number))
 
   def Close(self):
-    # Nothing to close - util.ReadFile() closes it
-    return
+    self._reader.Close()
 
   @classmethod
   def CreateReader(cls, location):
-- 
2.43.0


From 445cc9fcc9b292efc1b611cf342ee43ef05efcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:28 +0000
Subject: [PATCH 40/47] fix: unversioned signers and verifiers read only from
 the file backend

---
 python/src/keyczar/keyczar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index b94e1e8..5331937 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -461,7 +461,7 @@ class UnversionedVerifier(Keyczar):
       perform verify functions.
     @rtype: L{Verifier}
     """
-    return UnversionedVerifier(readers.FileReader(location))
+    return UnversionedVerifier(readers.CreateReader(location))
 
   def IsAcceptablePurpose(self, purpose):
     """Only valid if purpose includes verifying."""
@@ -653,7 +653,7 @@ class UnversionedSigner(UnversionedVerifier):
       perform sign and verify functions.
     @rtype: L{Signer}
     """
-    return UnversionedSigner(readers.FileReader(location))
+    return UnversionedSigner(readers.CreateReader(location))
 
   def IsAcceptablePurpose(self, purpose):
     """Only valid if purpose includes signing."""
-- 
2.43.0


From 0896b9de404aafb8caf3aa3c47a95ac7da420a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:13 +0000
Subject: [PATCH 41/47] fix: Write to a location (a string) never closes the
 writer it creates

---
 python/src/keyczar/keyczar.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index 5331937..e33e5a3 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -298,6 +298,11 @@ class GenericKeyczar(Keyczar):
       warnings.warn(
         'Using a string as the writer is deprecated. Use writers.CreateWriter', 
         DeprecationWarning)
+      try:
+        self.Write(writer, encrypter)
+      finally:
+        writer.Close()
+      return
     self.metadata.encrypted = (encrypter is not None)
     # The metadata goes last: it must never list a key that is not there yet.
     for v in self.versions:
-- 
2.43.0


From ac54d150cb3106703ecc09f323428abb30434fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:34 +0000
Subject: [PATCH 42/47] fix: PKCS8 and X.509 encodings with a wrong number of
 inner fields are accepted or raise IndexError

---
 python/src/keyczar/util.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 00e84a4..d8491e8 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -115,6 +115,16 @@ def ASN1Sequence(*vals):
 def ParseASN1Sequence(seq):
   return [seq.getComponentByPosition(i) for i in range(len(seq))]
 
+def _ParseFields(seq, count):
+  """Return the fields of an ASN.1 sequence that must have count of them."""
+  try:
+    fields = ParseASN1Sequence(seq)
+  except (TypeError, AttributeError):  # not a sequence at all
+    fields = None
+  if fields is None or len(fields) != count:
+    raise errors.KeyczarError("Illegal number of ASN.1 fields.")
+  return fields
+
 #PrivateKeyInfo ::= SEQUENCE {
 #  version Version,
 #
@@ -136,19 +146,19 @@ def ParsePkcs8(pkcs8):
   version = int(seq[0])
   if version != 0:
       raise errors.KeyczarError("Unrecognized PKCS8 Version")
-  [oid, alg_params] = ParseASN1Sequence(seq[1])
+  [oid, alg_params] = _ParseFields(seq[1], 2)
   key = decoder.decode(seq[2].asOctets())[0]
   # Component 2 is an OCTET STRING which is further decoded
   params = {}
   if oid == RSA_OID:
-    key = ParseASN1Sequence(key)
+    key = _ParseFields(key, len(RSA_PARAMS) + 1)
     version = int(key[0])
     if version != 0:
       raise errors.KeyczarError("Unrecognized RSA Private Key Version")
     for i in range(len(RSA_PARAMS)):
       params[RSA_PARAMS[i]] = int(key[i+1])
   elif oid == DSA_OID:
-    alg_params = ParseASN1Sequence(alg_params)
+    alg_params = _ParseFields(alg_params, len(DSA_PARAMS))
     for i in range(len(DSA_PARAMS)):
       params[DSA_PARAMS[i]] = int(alg_params[i])
     params['x'] = int(key)
@@ -182,14 +192,14 @@ def ParseX509(x509):
   seq = ParseASN1Sequence(decoder.decode(ToBytes(Base64WSDecode(x509)))[0])
   if len(seq) != 2:  # need two fields in SubjectPublicKeyInfo
     raise errors.KeyczarError("Illegal X.509 String.")
-  [oid, alg_params] = ParseASN1Sequence(seq[0])
+  [oid, alg_params] = _ParseFields(seq[0], 2)
   # Component 1 should be a BIT STRING, whose bytes can be ASN.1 decoded
   pubkey = decoder.decode(seq[1].asOctets())[0]
   params = {}
   if oid == RSA_OID:
-    [params['n'], params['e']] = [int(x) for x in ParseASN1Sequence(pubkey)]
+    [params['n'], params['e']] = [int(x) for x in _ParseFields(pubkey, 2)]
   elif oid == DSA_OID:
-    vals = [int(x) for x in ParseASN1Sequence(alg_params)]
+    vals = [int(x) for x in _ParseFields(alg_params, len(DSA_PARAMS))]
     for i in range(len(DSA_PARAMS)):
       params[DSA_PARAMS[i]] = vals[i]
     params['y'] = int(pubkey)
-- 
2.43.0


From 19c90943a5eab5f02e3ca847a94df32a038b6916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:34 +0000
Subject: [PATCH 43/47] fix: deeply nested session material raises
 RecursionError

---
 python/src/keyczar/keyczar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index e33e5a3..d09be6b 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -735,7 +735,8 @@ class _Session(object):
       if not keyinfo.AES.IsValidSize(len(session_key.key_bytes) * 8):
         raise ValueError("illegal AES key size")
       nonce = util.Base64WSDecode(json_dict['nonce'])
-    except (ValueError, KeyError, TypeError, AttributeError, AssertionError):
+    except (ValueError, KeyError, TypeError, AttributeError, AssertionError,
+            RuntimeError):  # RuntimeError: nested too deeply for json
       raise errors.KeyczarError("Illegal session key material.")
     return _Session.__Create(session_key, nonce)
 
-- 
2.43.0


From 39a6fbceee327e25849c80f3761f0c46fcd73432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:43 +0000
Subject: [PATCH 44/47] fix: IntToBin exceeds the recursion limit for numbers
 of 1000 bits

---
 python/src/keyczar/util.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index d8491e8..740e65d 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -293,12 +293,7 @@ def _PadByte(bits):
   return ((8 - r) % 8) * '0' + bits
 
 def IntToBin(n):
-  if n == 0 or n == 1:
-    return str(n)
-  elif n % 2 == 0:
-    return IntToBin(n // 2) + "0"
-  else:
-    return IntToBin(n // 2) + "1"
+  return "{0:b}".format(n)
 
 def BigIntToBytes(n):
   """Return a big-endian byte string representation of an arbitrary length n."""
-- 
2.43.0


From b9cded864aaf637ca3a29829ba866d7bd8b29ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:43 +0000
Subject: [PATCH 45/47] fix: OAEP uses a rounded modulus length for moduli just
 below a power of 256

---
 python/src/keyczar/keys.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 9cc74e8..60e8864 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -22,7 +22,6 @@ of base class Key.
 """
 
 import hmac
-import math
 import random
 try:
   # Import hashlib if Python >= 2.5
@@ -737,7 +736,7 @@ class RsaPrivateKey(PrivateKey):
         "OAEP Decoding Error - encoded_message is too small: %d" % len(encoded_message))
 
     # Step 3b  EM = Y || maskedSeed || maskedDB
-    k = int(math.floor(math.log(self.key.n, 256)) + 1) # num bytes in n
+    k = len(util.BigIntToBytes(self.key.n)) # num bytes in n
     diff_len = k - len(encoded_message)
     # PyCrypto strips out leading zero bytes.
     # In OAEP, the first byte is expected to be a zero, so we can ignore it
@@ -952,7 +951,7 @@ class RsaPublicKey(PublicKey):
   def __Encode(self, msg, label=""):
     if len(label) >= 2**61:  # the input limit for SHA-1
       raise errors.KeyczarError("OAEP parameter string too long.")
-    k = int(math.floor(math.log(self.key.n, 256)) + 1) # num bytes in n
+    k = len(util.BigIntToBytes(self.key.n)) # num bytes in n
     if len(msg) > k - 2 * util.HLEN - 2:
       raise errors.KeyczarError("Message too long to OAEP encode.")
     label_hash = util.Hash(label)
-- 
2.43.0


From 16fc9091fc2e6b4ea584f3baca986a034ee90646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:43 +0000
Subject: [PATCH 46/47] fix: pubkey to the location of the key set overwrites
 the private keys

---
 python/src/keyczar/keyczart.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/keyczar/keyczart.py b/python/src/keyczar/keyczart.py
index a5e4e66..db50eaa 100644
--- a/python/src/keyczar/keyczart.py
+++ b/python/src/keyczar/keyczart.py
@@ -129,6 +129,8 @@ def PubKey(loc, dest):
   if mock is None and dest is None:  # not required when testing
     raise errors.KeyczarError("Must define destination")
   czar = CreateGenericKeyczar(loc)
+  if mock is None and os.path.realpath(dest) == os.path.realpath(loc):
+    raise errors.KeyczarError("Destination is the location of the key set")
   czar.PublicKeyExport(dest, mock)  # supply mock for testing if enabled
 
 def Promote(loc, num):
-- 
2.43.0


From 26421a4eacf7bc33530a97f9ac802c230ea3f055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:11 +0000
Subject: [PATCH 47/47] fix: verifying a long RSA signature takes hours

BytesToLong computed a power of 256 for every byte, so that the time grew
with the cube of the length: 20 kB took 4 s, 1 MB would take days.
---
 python/src/keyczar/util.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 740e65d..fec1430 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -310,8 +310,7 @@ def IntToBytes(n):
   return "".join([chr(b) for b in byte_array])  # byte array to byte string
 
 def BytesToLong(byte_string):
-  l = len(byte_string)
-  return int(sum([ord(byte_string[i]) * 256**(l - 1 - i) for i in range(l)]))
+  return int.from_bytes(ToBytes(byte_string), 'big')
 
 def Xor(a, b):
   """Return a ^ b as a byte string where a and b are byte strings."""
-- 
2.43.0

