From 6d37eb8e7d5e6670f28d54e087b4375b0c926495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:04 +0000
Subject: [PATCH 01/37] fix: use integer division for sizes and bit counts
 under Python 3

Key generation, buffer sizing, EMSA padding and bit-string conversion computed
float sizes with '/', so every key generation and every incremental codec call
raised TypeError.
---
 python/src/keyczar/keyinfo.py |  6 +++---
 python/src/keyczar/keys.py    |  8 ++++----
 python/src/keyczar/util.py    | 12 ++++++------
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/python/src/keyczar/keyinfo.py b/python/src/keyczar/keyinfo.py
index 3a02d87..d033bc9 100644
--- a/python/src/keyczar/keyinfo.py
+++ b/python/src/keyczar/keyinfo.py
@@ -125,10 +125,10 @@ class CipherMode(_NameId):
     self.use_iv = use_iv
     self.GetOutputSize = OutputSizeFn
 
-CBC = CipherMode("CBC", 0, True, lambda b, i: (i / b + 2) * b)
-CTR = CipherMode("CTR", 1, True, lambda b, i: i + b / 2)
+CBC = CipherMode("CBC", 0, True, lambda b, i: (i // b + 2) * b)
+CTR = CipherMode("CTR", 1, True, lambda b, i: i + b // 2)
 ECB = CipherMode("ECB", 2, False, lambda b, i: b)
-DET_CBC = CipherMode("DET_CBC", 3, False, lambda b, i: (i / b + 1) * b)
+DET_CBC = CipherMode("DET_CBC", 3, False, lambda b, i: (i // b + 1) * b)
 modes = {"CBC": CBC, "CTR": CTR, "ECB": ECB, "DET_CBC": DET_CBC}
 
 def GetMode(name):
diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 7a91f0d..e86ba29 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -354,7 +354,7 @@ class AesKey(SymmetricKey):
     @return: an AES key
     @rtype: L{AesKey}
     """
-    key_bytes = util.RandBytes(size / 8)
+    key_bytes = util.RandBytes(size // 8)
     key_string = util.Base64WSEncode(key_bytes)
     hmac_key = HmacKey.Generate()  # use default HMAC-SHA1 key size
     return AesKey(key_string, hmac_key, size)
@@ -419,7 +419,7 @@ class AesKey(SymmetricKey):
     @return: best buffer size
     @rtype: int
     """
-    no_pad_size = self.block_size * (buffer_size / self.block_size)
+    no_pad_size = self.block_size * (buffer_size // self.block_size)
     return max(no_pad_size, self.block_size)
 
   def Encrypt(self, data):
@@ -521,7 +521,7 @@ class HmacKey(SymmetricKey):
     @return: an HMAC-SHA1 key
     @rtype: L{HmacKey}
     """
-    key_bytes = util.RandBytes(size / 8)
+    key_bytes = util.RandBytes(size // 8)
     key_string = util.Base64WSEncode(key_bytes)
     return HmacKey(key_string, size)
 
@@ -850,7 +850,7 @@ class RsaPrivateKey(PrivateKey):
     """
     emsa_encoded = util.MakeEmsaMessage(msg, self.size)
     byte_string = util.BigIntToBytes(self.key.sign(emsa_encoded, None)[0])
-    return util.PadBytes(byte_string, self.size/8 - len(byte_string))
+    return util.PadBytes(byte_string, self.size//8 - len(byte_string))
 
   def Verify(self, msg, sig):
     """@see: L{RsaPublicKey.Verify}"""
diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index d06dced..088fe41 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -246,13 +246,13 @@ def MakeEmsaMessage(msg, modulus_size):
   magic_sha1_header = [0x30, 0x21, 0x30, 0x9, 0x6, 0x5, 0x2b, 0xe, 0x3, 0x2,
                        0x1a, 0x5, 0x0, 0x4, 0x14]
   encoded = "".join([chr(c) for c in magic_sha1_header]) + Hash(msg)
-  pad_string = chr(0xFF) * (modulus_size / 8 - len(encoded) - 3)
+  pad_string = chr(0xFF) * (modulus_size // 8 - len(encoded) - 3)
   return chr(1) + pad_string + chr(0) + encoded
 
 def BinToBytes(bits):
   """Convert bit string to byte string."""
   bits = _PadByte(bits)
-  octets = [bits[8 * i:8 * (i + 1)] for i in range(len(bits) / 8)]
+  octets = [bits[8 * i:8 * (i + 1)] for i in range(len(bits) // 8)]
   return "".join([chr(int(x, 2)) for x in octets])
 
 def BytesToBin(byte_string):
@@ -268,9 +268,9 @@ def IntToBin(n):
   if n == 0 or n == 1:
     return str(n)
   elif n % 2 == 0:
-    return IntToBin(n / 2) + "0"
+    return IntToBin(n // 2) + "0"
   else:
-    return IntToBin(n / 2) + "1"
+    return IntToBin(n // 2) + "1"
 
 def BigIntToBytes(n):
   """Return a big-endian byte string representation of an arbitrary length n."""
@@ -531,7 +531,7 @@ class BufferedIncrementalBase64WSEncoder(codecs.BufferedIncrementalEncoder):
     # and return an (output, length consumed) tuple
     if not final:
       # only output exact multiples of 3-bytes => no padding
-      len_to_write = 3 * (len(input) / 3)
+      len_to_write = 3 * (len(input) // 3)
     else:
       len_to_write = len(input)
     return (Base64WSEncode(input[:len_to_write]), len_to_write)
@@ -658,7 +658,7 @@ class BufferedIncrementalBase64WSDecoder(codecs.BufferedIncrementalDecoder):
     """
     if not final:
       # only output exact multiples of 4-bytes => no padding
-      len_to_read = 4 * (len(input) / 4)
+      len_to_read = 4 * (len(input) // 4)
     else:
       len_to_read = len(input)
     return (Base64WSDecode(input[:len_to_read]), len_to_read)
-- 
2.43.0


From 0c9d643151b3065fc9df52793f065ea277a57e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:37 +0000
Subject: [PATCH 02/37] fix: convert between byte strings and bytes at util's
 library boundaries

The package keeps byte strings as str with one character per byte, as its
callers and tests do.  base64, hashlib, struct, os.urandom and pyasn1 take and
return bytes under Python 3, so encoding, hashing, packing and ASN.1 handling
all raised TypeError.
---
 python/src/keyczar/util.py | 54 ++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 19 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 088fe41..4ed8aa0 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -95,6 +95,17 @@ DEFAULT_STREAM_BUFF_SIZE = 4096
 # environment variable that holds a list of additional plugin backend paths
 BACKEND_PATHS_ENV_VAR = 'KEYCZAR_BACKEND_PATHS'
 
+# Byte strings are held as str, one character (0-255) per byte.  The libraries
+# underneath deal in bytes, so convert on the way in and on the way out.
+
+def ByteStringToBytes(s):
+  """Return the bytes object holding the same bytes as byte string s."""
+  return s.encode('latin-1') if isinstance(s, str) else bytes(s)
+
+def BytesToByteString(b):
+  """Return the byte string holding the same bytes as bytes object b."""
+  return b if isinstance(b, str) else bytes(b).decode('latin-1')
+
 def ASN1Sequence(*vals):
   seq = univ.Sequence()
   for i in range(len(vals)):
@@ -119,7 +130,8 @@ def ParseASN1Sequence(seq):
 #
 #Attributes ::= SET OF Attribute
 def ParsePkcs8(pkcs8):
-  seq = ParseASN1Sequence(decoder.decode(Base64WSDecode(pkcs8))[0])
+  seq = ParseASN1Sequence(decoder.decode(
+      ByteStringToBytes(Base64WSDecode(pkcs8)))[0])
   if len(seq) != 3:  # need three fields in PrivateKeyInfo
     raise errors.KeyczarError("Illegal PKCS8 String.")
   version = int(seq[0])
@@ -168,7 +180,8 @@ def ExportDsaPkcs8(params):
 #        algorithm            AlgorithmIdentifier,
 #        subjectPublicKey     BIT STRING  }
 def ParseX509(x509):
-  seq = ParseASN1Sequence(decoder.decode(Base64WSDecode(x509))[0])
+  seq = ParseASN1Sequence(decoder.decode(
+      ByteStringToBytes(Base64WSDecode(x509)))[0])
   if len(seq) != 2:  # need two fields in SubjectPublicKeyInfo
     raise errors.KeyczarError("Illegal X.509 String.")
   [oid, alg_params] = ParseASN1Sequence(seq[0])
@@ -191,7 +204,7 @@ def ParseX509(x509):
 def ExportRsaX509(params):
   oid = ASN1Sequence(RSA_OID, univ.Null())
   key = ASN1Sequence(univ.Integer(params['n']), univ.Integer(params['e']))
-  binkey = BytesToBin(encoder.encode(key))
+  binkey = BytesToBin(BytesToByteString(encoder.encode(key)))
   pubkey = univ.BitString("'%s'B" % binkey)  # needs to be a BIT STRING
   seq = ASN1Sequence(oid, pubkey)
   return Base64WSEncode(encoder.encode(seq))
@@ -201,7 +214,8 @@ def ExportDsaX509(params):
                             univ.Integer(params['q']),
                             univ.Integer(params['g']))
   oid = ASN1Sequence(DSA_OID, alg_params)
-  binkey = BytesToBin(encoder.encode(univ.Integer(params['y'])))
+  binkey = BytesToBin(BytesToByteString(
+      encoder.encode(univ.Integer(params['y']))))
   pubkey = univ.BitString("'%s'B" % binkey)  # needs to be a BIT STRING
   seq = ASN1Sequence(oid, pubkey)
   return Base64WSEncode(encoder.encode(seq))
@@ -220,7 +234,7 @@ def MakeDsaSig(r, s):
   @rtype: string
   """
   seq = ASN1Sequence(univ.Integer(r), univ.Integer(s))
-  return encoder.encode(seq)
+  return BytesToByteString(encoder.encode(seq))
 
 def ParseDsaSig(sig):
   """
@@ -234,7 +248,7 @@ def ParseDsaSig(sig):
 
   @raise KeyczarErrror: if the DSA signature format is invalid
   """
-  seq = decoder.decode(sig)[0]
+  seq = decoder.decode(ByteStringToBytes(sig))[0]
   if len(seq) != 2:
     raise errors.KeyczarError("Illegal DSA signature.")
   r = int(seq.getComponentByPosition(0))
@@ -318,22 +332,22 @@ def TrimBytes(byte_string):
 def RandBytes(n):
   """Return n random bytes."""
   # This function requires at least Python 2.4.
-  return os.urandom(n)
+  return BytesToByteString(os.urandom(n))
 
 def Hash(*inputs):
   """Return a SHA-1 hash over a variable number of inputs."""
   md = sha1()
   for i in inputs:
-    md.update(i)
-  return md.digest()
+    md.update(ByteStringToBytes(i))
+  return BytesToByteString(md.digest())
 
 def PrefixHash(*inputs):
   """Return a SHA-1 hash over a variable number of inputs."""
   md = sha1()
   for i in inputs:
-    md.update(IntToBytes(len(i)))
-    md.update(i)
-  return md.digest()
+    md.update(ByteStringToBytes(IntToBytes(len(i))))
+    md.update(ByteStringToBytes(i))
+  return BytesToByteString(md.digest())
 
 
 def Encode(s):
@@ -354,7 +368,8 @@ def Base64WSEncode(s):
   @return: Base64 representation of s.
   @rtype: string
   """
-  return base64.urlsafe_b64encode(str(s)).replace("=", "")
+  encoded = base64.urlsafe_b64encode(ByteStringToBytes(s))
+  return BytesToByteString(encoded).replace("=", "")
 
 
 def Decode(s):
@@ -388,9 +403,9 @@ def Base64WSDecode(s):
   elif d == 3:
     s += "="
   try:
-    return base64.urlsafe_b64decode(s)
-  except TypeError:
-    # Decoding raises TypeError if s contains invalid characters.
+    return BytesToByteString(base64.urlsafe_b64decode(s))
+  except (TypeError, ValueError):
+    # Decoding raises ValueError if s contains invalid characters.
     raise errors.Base64DecodingError()
 
 # Struct packed byte array format specifiers used below
@@ -405,7 +420,7 @@ def PackByteArray(array):
   if array is None:
     return ''
   array_length_header = struct.pack(BIG_ENDIAN_INT_SPECIFIER, len(array))
-  return array_length_header + array
+  return BytesToByteString(array_length_header) + array
 
 def PackMultipleByteArrays(*arrays):
   """
@@ -416,7 +431,7 @@ def PackMultipleByteArrays(*arrays):
   """
   array_count_header = struct.pack(BIG_ENDIAN_INT_SPECIFIER, len(arrays))
   array_contents = ''.join([PackByteArray(a) for a in arrays])
-  return array_count_header + array_contents
+  return BytesToByteString(array_count_header) + array_contents
 
 def UnpackByteArray(data, offset):
   """
@@ -424,7 +439,8 @@ def UnpackByteArray(data, offset):
   starting from position 'offset'.  Returns a tuple of the data array and the
   offset of the first byte after the end of the extracted array.
   """
-  array_len = struct.unpack(BIG_ENDIAN_INT_SPECIFIER, data[offset:offset + 4])[0]
+  array_len = struct.unpack(BIG_ENDIAN_INT_SPECIFIER,
+                            ByteStringToBytes(data[offset:offset + 4]))[0]
   offset += 4
   return data[offset:offset + array_len], offset + array_len
 
-- 
2.43.0


From e8dc8a5805883bfc61aaa2014b8bc29f841ad24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:37 +0000
Subject: [PATCH 03/37] fix: hand bytes to hmac, AES, RSA and DSA primitives

hmac, PyCrypto and M2Crypto take and return bytes under Python 3; give them
bytes and turn their results back into the byte strings the package uses.
---
 python/src/keyczar/keys.py | 59 +++++++++++++++++++++++++-------------
 1 file changed, 39 insertions(+), 20 deletions(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index e86ba29..8aea7d7 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -199,12 +199,23 @@ class AesKey(SymmetricKey):
       @param mode: the cipher mode
       @type mode: integer (using AES values, e.g. AES.MODE_CBC)
       """
-      self.cipher = AES.new(key_bytes, mode, iv_bytes)
+      self.cipher = AES.new(util.ByteStringToBytes(key_bytes), mode,
+                            util.ByteStringToBytes(iv_bytes))
 
     def __getattr__(self, name):
       # defer everything to the actual cipher instance
       return getattr(self.cipher, name)
 
+    def encrypt(self, string):
+      """Return encrypted byte string"""
+      return util.BytesToByteString(
+          self.cipher.encrypt(util.ByteStringToBytes(string)))
+
+    def decrypt(self, string):
+      """Return decrypted byte string"""
+      return util.BytesToByteString(
+          self.cipher.decrypt(util.ByteStringToBytes(string)))
+
     def final(self):
       """
       Collect any remaining encrypted data i.e. non-block size conforming
@@ -279,8 +290,8 @@ class AesKey(SymmetricKey):
           # EVP requires different mode strings for each key size (in bits)
           mode = 'aes_%s_cbc' %(self.key_size*8)
           cipher = EVP.Cipher(alg=mode,
-                              key=self.key_bytes, 
-                              iv=self.IV,
+                              key=util.ByteStringToBytes(self.key_bytes),
+                              iv=util.ByteStringToBytes(self.IV),
                               op=selector,
                               padding=0
                              )
@@ -297,7 +308,8 @@ class AesKey(SymmetricKey):
       @return: plaintext string
       @rtype: string
       """
-      return self.__Cipher(self.OP_DECRYPT).update(string)
+      return util.BytesToByteString(self.__Cipher(self.OP_DECRYPT).update(
+          util.ByteStringToBytes(string)))
 
     def encrypt(self, string):
       """
@@ -309,7 +321,8 @@ class AesKey(SymmetricKey):
       @return: raw byte encrypted string  
       @rtype: string
       """
-      return self.__Cipher(self.OP_ENCRYPT).update(string)
+      return util.BytesToByteString(self.__Cipher(self.OP_ENCRYPT).update(
+          util.ByteStringToBytes(string)))
 
     def final(self, selector=OP_ACTIVE):
       """
@@ -317,7 +330,7 @@ class AesKey(SymmetricKey):
 
       @return: remaining encrypted data, if any
       """
-      return self.__Cipher(selector).final()
+      return util.BytesToByteString(self.__Cipher(selector).final())
 
   def __init__(self, key_string, hmac_key, size=keyinfo.AES.default_size,
                mode=keyinfo.CBC):
@@ -549,7 +562,9 @@ class HmacKey(SymmetricKey):
     @return: raw byte string signature
     @rtype: string
     """
-    return hmac.new(self.key_bytes, msg, sha1).digest()
+    mac = hmac.new(util.ByteStringToBytes(self.key_bytes),
+                   util.ByteStringToBytes(msg), sha1)
+    return util.BytesToByteString(mac.digest())
 
   def Verify(self, msg, sig_bytes):
     """
@@ -591,10 +606,11 @@ class HmacKeyStream(object):
 
   def __init__(self, hmac_key):
     self.hmac_key = hmac_key
-    self.hmac = hmac.new(self.hmac_key.key_bytes, '', sha1)
+    self.hmac = hmac.new(util.ByteStringToBytes(self.hmac_key.key_bytes), b'',
+                         sha1)
 
   def Update(self, data):
-      self.hmac.update(data)
+      self.hmac.update(util.ByteStringToBytes(data))
 
   def Sign(self):
     """
@@ -603,7 +619,7 @@ class HmacKeyStream(object):
     @return: raw byte string signature
     @rtype: string
     """
-    return self.hmac.digest()
+    return util.BytesToByteString(self.hmac.digest())
 
 
 class PrivateKey(AsymmetricKey):
@@ -649,7 +665,7 @@ class DsaPrivateKey(PrivateKey):
     @return: a DSA private key
     @rtype: L{DsaPrivateKey}
     """
-    key = DSA.generate(size, util.RandBytes)
+    key = DSA.generate(size, lambda n: util.ByteStringToBytes(util.RandBytes(n)))
     params = { 'x': util.PadBytes(util.BigIntToBytes(key.x), 1) }
     pubkey = key.publickey()
     pub_params = { 'g': util.PadBytes(util.BigIntToBytes(pubkey.g), 1),
@@ -694,7 +710,7 @@ class DsaPrivateKey(PrivateKey):
     # Need to chose a random k per-message, SystemRandom() is available
     # since Python 2.4.
     k = random.SystemRandom().randint(2, self.key.q-1)
-    (r, s) = self.key.sign(util.Hash(msg), k)
+    (r, s) = self.key.sign(util.ByteStringToBytes(util.Hash(msg)), k)
     return util.MakeDsaSig(r, s)
 
   def Verify(self, msg, sig):
@@ -775,7 +791,7 @@ class RsaPrivateKey(PrivateKey):
     @return: a RSA private key
     @rtype: L{RsaPrivateKey}
     """
-    key = RSA.generate(size, util.RandBytes)
+    key = RSA.generate(size, lambda n: util.ByteStringToBytes(util.RandBytes(n)))
     #NOTE: PyCrypto stores p < q, u = p^{-1} mod q
     #But OpenSSL and PKCS8 stores q < p, invq = q^{-1} mod p
     #So we have to reverse the p and q values
@@ -835,8 +851,8 @@ class RsaPrivateKey(PrivateKey):
     @rtype: string
     """
     ciph_bytes = input_bytes[keyczar.HEADER_SIZE:]
-    decrypted = self.key.decrypt(ciph_bytes)
-    return self.__Decode(decrypted)
+    decrypted = self.key.decrypt(util.ByteStringToBytes(ciph_bytes))
+    return self.__Decode(util.BytesToByteString(decrypted))
 
   def Sign(self, msg):
     """
@@ -849,7 +865,8 @@ class RsaPrivateKey(PrivateKey):
     @rtype: string
     """
     emsa_encoded = util.MakeEmsaMessage(msg, self.size)
-    byte_string = util.BigIntToBytes(self.key.sign(emsa_encoded, None)[0])
+    byte_string = util.BigIntToBytes(
+        self.key.sign(util.ByteStringToBytes(emsa_encoded), None)[0])
     return util.PadBytes(byte_string, self.size//8 - len(byte_string))
 
   def Verify(self, msg, sig):
@@ -919,7 +936,7 @@ class DsaPublicKey(PublicKey):
     """
     try:
       (r, s) = util.ParseDsaSig(sig)
-      return self.key.verify(util.Hash(msg), (r, s))
+      return self.key.verify(util.ByteStringToBytes(util.Hash(msg)), (r, s))
     except errors.KeyczarError:
       # if signature is not in correct format
       return False
@@ -998,8 +1015,9 @@ class RsaPublicKey(PublicKey):
     @rtype: string
     """
     data = self.__Encode(data)
-    ciph_bytes = self.key.encrypt(data, None)[0]  # PyCrypto returns 1-tuple
-    return self.Header() + ciph_bytes
+    ciph_bytes = self.key.encrypt(util.ByteStringToBytes(data),
+                                  None)[0]  # PyCrypto returns 1-tuple
+    return self.Header() + util.BytesToByteString(ciph_bytes)
 
   def Verify(self, msg, sig):
     """
@@ -1015,7 +1033,8 @@ class RsaPublicKey(PublicKey):
     @rtype: boolean
     """
     try:
-      return self.key.verify(util.MakeEmsaMessage(msg, self.size), (util.BytesToLong(sig),))
+      emsa_encoded = util.ByteStringToBytes(util.MakeEmsaMessage(msg, self.size))
+      return self.key.verify(emsa_encoded, (util.BytesToLong(sig),))
     except ValueError:
       # if sig is not a long, it's invalid
       return False
-- 
2.43.0


From e20c83bd4e39a087c82426712ecf21f009ea921d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:10 +0000
Subject: [PATCH 04/37] fix: decrypt and stream with the active crypto library

Encrypt() used the library ACTIVE_CRYPT_LIB selects, but Decrypt() and both
streams always used PyCrypto's AES, which does not work on Python 3.12.
---
 python/src/keyczar/keys.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 8aea7d7..c4808e0 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -447,7 +447,7 @@ class AesKey(SymmetricKey):
     """
     data = self._Pad(data)
     iv_bytes = util.RandBytes(self.block_size)
-    cipher = self.__CreateCipher(self.key_bytes, iv_bytes)
+    cipher = self._CreateCipher(self.key_bytes, iv_bytes)
     ciph_bytes = cipher.encrypt(data)
     ciph_bytes += cipher.final()
     msg_bytes = self.Header() + iv_bytes + ciph_bytes
@@ -478,10 +478,10 @@ class AesKey(SymmetricKey):
     if not self.hmac_key.Verify(input_bytes[:-util.HLEN], sig_bytes):
       raise errors.InvalidSignatureError()
 
-    plain = AES.new(self.key_bytes, AES.MODE_CBC, iv_bytes).decrypt(ciph_bytes)
+    plain = self._CreateCipher(self.key_bytes, iv_bytes).decrypt(ciph_bytes)
     return self._UnPad(plain)
 
-  def __CreateCipher(self, key_bytes, iv_bytes, mode=AES.MODE_CBC):
+  def _CreateCipher(self, key_bytes, iv_bytes, mode=AES.MODE_CBC):
     """
     Factory function for creating cipher of specified type using the active
     crypto library
@@ -1063,7 +1063,7 @@ class EncryptingStreamWriter(object):
 
     self.__hmac_stream = key.hmac_key.CreateStreamable()
     iv_bytes = util.RandBytes(key.block_size)
-    self.__cipher = AES.new(key.key_bytes, AES.MODE_CBC, iv_bytes)
+    self.__cipher = key._CreateCipher(key.key_bytes, iv_bytes)
 
     hdr = key.Header()
     self.__hmac_stream.Update(hdr + iv_bytes)
@@ -1321,6 +1321,6 @@ class DecryptingStreamReader(object):
         self.__encrypted_buffer = self.__encrypted_buffer[
             reqd_block_size:]
         self.__hmac_stream.Update(iv_bytes)
-        self.__cipher = AES.new(self.__key.key_bytes, AES.MODE_CBC, iv_bytes)
+        self.__cipher = self.__key._CreateCipher(self.__key.key_bytes, iv_bytes)
     return is_data_avail
 
-- 
2.43.0


From d01e481bc850618e84c1ddfa740f0c55df2009bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:12 +0000
Subject: [PATCH 05/37] fix: keep text in the Base64 stream reader's input
 buffers

codecs starts its undecoded-input buffers as bytes under Python 3, and adding
the Base64 text read from the stream to them raised TypeError.
---
 python/src/keyczar/util.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 4ed8aa0..9ac4d69 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -654,6 +654,14 @@ class BufferedIncrementalBase64WSDecoder(codecs.BufferedIncrementalDecoder):
   undecoded data outside this optimal size will be buffered.
   """
 
+  def __init__(self, errors='strict'):
+    super(BufferedIncrementalBase64WSDecoder, self).__init__(errors)
+    self.buffer = ''  # the input is text, the parent assumes bytes
+
+  def reset(self):
+    super(BufferedIncrementalBase64WSDecoder, self).reset()
+    self.buffer = ''
+
   def _buffer_decode(self, input, errors, final):
     """
     Decodes input and returns the resulting object, buffering any data that is
@@ -743,8 +751,15 @@ class IncrementalBase64WSStreamReader(codecs.StreamReader, object):
 
     """
     super(IncrementalBase64WSStreamReader, self).__init__(stream, errors)
+    self.bytebuffer = ''  # the input is text, the parent assumes bytes
     self.decoder = BufferedIncrementalBase64WSDecoder(errors=errors)
 
+  def reset(self):
+    """ Discards everything buffered, so reading can start afresh """
+    super(IncrementalBase64WSStreamReader, self).reset()
+    self.bytebuffer = ''
+    self.decoder.reset()
+
   def read(self, size=-1, chars=-1, firstline=False):
     """ 
     Decodes data from the input stream and returns the resulting object.
-- 
2.43.0


From 8867355131a0c6e5b6cab534e239a4e26674bc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:12 +0000
Subject: [PATCH 06/37] fix: Base64 stream reader returns None when no data is
 available

A source that reports 'no data yet' (None or BlockingIOError) made read() spin
for ever instead of returning None as documented.
---
 python/src/keyczar/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 9ac4d69..069748d 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -839,9 +839,9 @@ class IncrementalBase64WSStreamReader(codecs.StreamReader, object):
         self.bytebuffer = data[decodedbytes:]
         # put new characters in the character buffer
         self.charbuffer += newchars
-        # there was no data available
-        if not newdata:
-          break
+      # there was no data available
+      if not newdata:
+        break
 
     if chars < 0:
       # Return everything we've got
-- 
2.43.0


From 9978dc099e7ad9ae5f75bf4a2111b4c08c97edb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:11 +0000
Subject: [PATCH 07/37] fix: read the public key out of an X.509 bit string by
 its octets

pyasn1's prettyPrint() of a BIT STRING is a decimal number, not quoted bits, so
ParseX509() could not parse any public key.
---
 python/src/keyczar/util.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 069748d..5e93a72 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -185,10 +185,8 @@ def ParseX509(x509):
   if len(seq) != 2:  # need two fields in SubjectPublicKeyInfo
     raise errors.KeyczarError("Illegal X.509 String.")
   [oid, alg_params] = ParseASN1Sequence(seq[0])
-  pubkey = decoder.decode(univ.OctetString(BinToBytes(seq[1].
-                                                      prettyPrint()[2:-3])))[0]
-  # Component 1 should be a BIT STRING, get raw bits by discarding extra chars,
-  # then convert to OCTET STRING which can be ASN.1 decoded
+  pubkey = decoder.decode(seq[1].asOctets())[0]
+  # Component 1 should be a BIT STRING, whose octets can be ASN.1 decoded
   params = {}
   if oid == RSA_OID:
     [params['n'], params['e']] = [int(x) for x in ParseASN1Sequence(pubkey)]
-- 
2.43.0


From dde06f23645f9ac36d8a036f5d7f65c707240878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:11 +0000
Subject: [PATCH 08/37] fix: interop runner returns an implementation's output
 as text

subprocess gives bytes under Python 3: the output did not compare equal to
text, and a failing implementation's output was reported as a bytes literal.
---
 interop/interop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interop/interop.py b/interop/interop.py
index 513bb2b..d6f22a4 100755
--- a/interop/interop.py
+++ b/interop/interop.py
@@ -298,7 +298,8 @@ class InteropTestRunner(object):
     """ Makes a call to an implementation and returns response """
     args = self.implementations[implementation] + list(params)
     try:
-      return subprocess.check_output(args, stderr=subprocess.STDOUT)
+      return subprocess.check_output(args, stderr=subprocess.STDOUT,
+                                     universal_newlines=True)
     except subprocess.CalledProcessError as e:
       cmd = subprocess.list2cmdline(args)
       raise Exception("%s failed:\n %s" % (cmd, e.output))
-- 
2.43.0


From 0012a87b7ea805efe9d4d7cdb588249c1bb9821a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:33 +0000
Subject: [PATCH 09/37] fix: store files atomically and durably

WriteFile truncated the file in place and never synced it: a crash or a
full disk in the middle left an empty or partial metadata or key file.
---
 python/src/keyczar/util.py | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 5e93a72..5b28aba 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -25,6 +25,7 @@ import codecs
 import functools
 import math
 import os
+import shutil
 import struct
 import warnings
 import sys
@@ -469,13 +470,36 @@ def WriteFile(data, loc):
 
   @raise KeyczarError: if unable to write to file because of IOError
   """
+  # Write a temporary file and move it into place once it is safely stored, so
+  # that whatever happens loc holds either its old contents or all of data.
+  tmp = loc + ".tmp"
   try:
-    f = open(loc, "w")
-    f.write(data)
-    f.close()
+    try:
+      with open(tmp, "w") as f:
+        if os.path.exists(loc):
+          shutil.copymode(loc, tmp)
+        f.write(data)
+        f.flush()
+        os.fsync(f.fileno())
+      os.replace(tmp, loc)
+    except IOError:
+      if os.path.exists(tmp):
+        os.remove(tmp)
+      raise
+    _SyncDirectory(os.path.dirname(loc) or os.curdir)
   except IOError:
     raise errors.KeyczarError("Unable to write to file %s." % loc)
 
+def _SyncDirectory(loc):
+  """Make sure changes to the directory at given location are stored."""
+  if not hasattr(os, 'O_DIRECTORY'):
+    return  # directories can't be opened on this platform
+  fd = os.open(loc, os.O_RDONLY | os.O_DIRECTORY)
+  try:
+    os.fsync(fd)
+  finally:
+    os.close(fd)
+
 def ReadFile(loc):
   """
   Read data from file at given location.
-- 
2.43.0


From bf99fcdeb2e61d8b33341011ad0d6aa1f17a28e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:33 +0000
Subject: [PATCH 10/37] fix: write a key set's keys before its metadata

The metadata was written first, so that a crash before the new key was
written, or a reader in between, found metadata naming a missing key.
---
 python/src/keyczar/keyczar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index af20330..bc29581 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -292,9 +292,10 @@ class GenericKeyczar(Keyczar):
         'Using a string as the writer is deprecated. Use writers.CreateWriter', 
         DeprecationWarning)
     self.metadata.encrypted = (encrypter is not None)
-    writer.WriteMetadata(self.metadata)
+    # metadata goes last, so it never refers to a key that isn't stored yet
     for v in self.versions:
       writer.WriteKey(self.GetKey(v), v.version_number, encrypter)
+    writer.WriteMetadata(self.metadata)
 
 class Encrypter(Keyczar):
   """Capable of encrypting only."""
-- 
2.43.0


From ba71635e9bd0e0ca03e93e6641ea480e58fbac22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:33 +0000
Subject: [PATCH 11/37] fix: report a missing primary key as NoPrimaryKeyError

Encrypting and signing looked None up as a key identifier and raised
KeyNotFoundError instead of the documented NoPrimaryKeyError.
---
 python/src/keyczar/keyczar.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index bc29581..dc9ed70 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -68,8 +68,13 @@ class Keyczar(object, metaclass=util.ABCMeta):
   versions = property(lambda self: [k for k in list(self._keys.keys())
                                     if isinstance(k, keydata.KeyVersion)],
                       doc="""List of versions in key set.""")
-  primary_key = property(lambda self: self.GetKey(self.primary_version),
-                         doc="""The primary key for this key set.""")
+
+  @property
+  def primary_key(self):
+    """The primary key for this key set."""
+    if self.primary_version is None:
+      raise errors.NoPrimaryKeyError()
+    return self.GetKey(self.primary_version)
 
   def __str__(self):
     return str(self.metadata)
-- 
2.43.0


From f7c22a7126d68a7264fccb6029d5fafd1c754e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:33 +0000
Subject: [PATCH 12/37] fix: forget a revoked key

Revoke dropped the version from the metadata only; the key set object
kept the key, went on writing and exporting it, and exported its version.
---
 python/src/keyczar/keyczar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index dc9ed70..51fe289 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -252,6 +252,8 @@ class GenericKeyczar(Keyczar):
     version = self.metadata.GetVersion(version_number)
     if version.status == keyinfo.INACTIVE:
       self.metadata.RemoveVersion(version_number)
+      key = self._keys.pop(version)
+      self._keys.pop(key.hash_id, None)
     else:
       raise errors.KeyczarError("Can't revoke key if not inactive.")
 
-- 
2.43.0


From 1f3c6080666f75b4741fb571d2c9d6272666ad9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:33 +0000
Subject: [PATCH 13/37] fix: FileWriter.Remove raises KeyczarError as
 documented

---
 python/src/keyczar/writers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/writers.py b/python/src/keyczar/writers.py
index db011a1..952da2a 100644
--- a/python/src/keyczar/writers.py
+++ b/python/src/keyczar/writers.py
@@ -130,7 +130,11 @@ class FileWriter(Writer):
     """
     Remove the key for the given version.
     """
-    os.remove(os.path.join(self.location, str(version_number)))
+    fname = os.path.join(self.location, str(version_number))
+    try:
+      os.remove(fname)
+    except IOError:
+      raise errors.KeyczarError("Unable to remove file %s." % fname)
 
   def Close(self):
     """
-- 
2.43.0


From 3eaeaf1a41bcdadb9db5dc35f0ba8b6c00dd093c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:12 +0000
Subject: [PATCH 14/37] fix: Base64 stream reader never returns more than chars
 characters

What was left in the decoder at the end of the input was returned past
the limit given, and only by the read after the one that met the end.
---
 python/src/keyczar/util.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 5b28aba..0679c44 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -863,6 +863,9 @@ class IncrementalBase64WSStreamReader(codecs.StreamReader, object):
         self.charbuffer += newchars
       # there was no data available
       if not newdata:
+        if newdata is not None:
+          # end of input, so what is left has to be complete
+          self.charbuffer += self.decoder.flush()
         break
 
     if chars < 0:
@@ -878,10 +881,6 @@ class IncrementalBase64WSStreamReader(codecs.StreamReader, object):
     if not result and newdata is None:
       result = None
 
-    if not result and newdata == '':
-      if chars != 0:
-        result = self.decoder.flush()
-
     return result
 
   def decode(self, input, errors='strict'):
-- 
2.43.0


From 5ec2870ba5978d40b63256be2b7cd8cfe296b73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:12 +0000
Subject: [PATCH 15/37] fix: a decrypting stream never ends cleanly without a
 verified signature

Input cut off in the header, in the IV or within the last signature's
length, and reading on after a failure, looked like the end of an
empty message.
---
 python/src/keyczar/keys.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index c4808e0..2eac128 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -1162,6 +1162,7 @@ class DecryptingStreamReader(object):
     self.__cipher = None
     self.__encrypted_buffer = ''
     self.__decrypted_buffer = ''
+    self.__verified = False
     self.__closed = False
 
   def read(self, chars=-1):
@@ -1231,9 +1232,14 @@ class DecryptingStreamReader(object):
                                                       msg_sig_bytes):
             raise errors.InvalidSignatureError()
           decrypted_data = self.__key._UnPad(decrypted_data)
+          self.__verified = True
           
         self.__decrypted_buffer += decrypted_data
         
+    if not is_data_avail and not self.__verified:
+      # the input ended before there was a signature to verify, or it was bad
+      raise errors.ShortCiphertextError(len(self.__encrypted_buffer))
+
     if chars < 0:
       result = self.__decrypted_buffer
       self.__decrypted_buffer = ''
-- 
2.43.0


From 2fa9bb97fc722316e1af9fc5936c345140b048f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:12 +0000
Subject: [PATCH 16/37] fix: reject malformed DSA signatures with KeyczarError

ASN.1 decoding errors of a damaged signature escaped from Verify.
---
 python/src/keyczar/util.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 0679c44..f5e225f 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -52,6 +52,7 @@ except ImportError:
 
 from pyasn1.codec.der import decoder
 from pyasn1.codec.der import encoder
+from pyasn1.error import PyAsn1Error
 from pyasn1.type import univ
 
 from . import errors
@@ -247,11 +248,14 @@ def ParseDsaSig(sig):
 
   @raise KeyczarErrror: if the DSA signature format is invalid
   """
-  seq = decoder.decode(ByteStringToBytes(sig))[0]
-  if len(seq) != 2:
+  try:
+    seq = decoder.decode(ByteStringToBytes(sig))[0]
+    if len(seq) != 2:
+      raise errors.KeyczarError("Illegal DSA signature.")
+    r = int(seq.getComponentByPosition(0))
+    s = int(seq.getComponentByPosition(1))
+  except (PyAsn1Error, AttributeError, IndexError, TypeError, ValueError):
     raise errors.KeyczarError("Illegal DSA signature.")
-  r = int(seq.getComponentByPosition(0))
-  s = int(seq.getComponentByPosition(1))
   return (r, s)
 
 def MakeEmsaMessage(msg, modulus_size):
-- 
2.43.0


From 07601805f5a340dd8044995e029b0a12529d213c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:56 +0000
Subject: [PATCH 17/37] fix: reject malformed packed byte arrays with
 KeyczarError

Damaged or cut-off attached signatures raised struct.error from
AttachedVerify; a negative length could make unpacking loop for ever.
---
 python/src/keyczar/util.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index f5e225f..6e4f7f5 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -441,10 +441,16 @@ def UnpackByteArray(data, offset):
   Unpacks a length-prefixed byte array packed by PackByteArray() from 'data',
   starting from position 'offset'.  Returns a tuple of the data array and the
   offset of the first byte after the end of the extracted array.
+
+  @raise KeyczarError: if data does not hold such an array at 'offset'
   """
+  if len(data) < offset + 4:
+    raise errors.KeyczarError("Packed byte array is too short.")
   array_len = struct.unpack(BIG_ENDIAN_INT_SPECIFIER,
                             ByteStringToBytes(data[offset:offset + 4]))[0]
   offset += 4
+  if not 0 <= array_len <= len(data) - offset:
+    raise errors.KeyczarError("Packed byte array has an illegal length.")
   return data[offset:offset + array_len], offset + array_len
 
 def UnpackMultipleByteArrays(data):
-- 
2.43.0


From 11b1edbc0aada47457f1dc3896b1d226326f9b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:56 +0000
Subject: [PATCH 18/37] fix: reject malformed session material with
 KeyczarError

Material of another kind of session, or any other message of the key
set, raised AssertionError, KeyError or a JSON error.
---
 python/src/keyczar/keyczar.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index 51fe289..00946c0 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -704,7 +704,8 @@ class _Session(object):
     _Session.packed_key.
     """
     unpacked = util.UnpackMultipleByteArrays(packed_key_data)
-    assert len(unpacked) == 2
+    if len(unpacked) != 2:
+      raise errors.KeyczarError("Malformed session material.")
     aes_key_bytes = unpacked[0]
     hmac_key_bytes = unpacked[1]
     hmac_key = keys.HmacKey(util.Base64WSEncode(hmac_key_bytes), len(hmac_key_bytes) * 8)
@@ -719,10 +720,13 @@ class _Session(object):
     extracted from the provided json_session_data, which must have been produced by
     _Session.json.
     """
-    json_dict = json.loads(json_session_data)
-    aes_key_string = json.dumps(json_dict['key'])
-    return _Session.__Create(keys.AesKey.Read(aes_key_string),
-                             util.Base64WSDecode(json_dict['nonce']))
+    try:
+      json_dict = json.loads(json_session_data)
+      aes_key_string = json.dumps(json_dict['key'])
+      return _Session.__Create(keys.AesKey.Read(aes_key_string),
+                               util.Base64WSDecode(json_dict['nonce']))
+    except (AttributeError, KeyError, TypeError, ValueError):
+      raise errors.KeyczarError("Malformed session material.")
 
   @staticmethod
   def __Create(session_key, nonce):
-- 
2.43.0


From e9e6fa773d260c3efed422074db0f1d84823a2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:47 +0000
Subject: [PATCH 19/37] fix: interop run fails when an interop test fails

The outcome of the tests was dropped and the runner always exited with 0.
---
 interop/interop.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/interop/interop.py b/interop/interop.py
index d6f22a4..371ec09 100755
--- a/interop/interop.py
+++ b/interop/interop.py
@@ -519,8 +519,9 @@ class InteropTestRunner(object):
     pass
 
   def RunTests(self):
+    """ Runs the tests and returns whether all of them passed """
     suite = unittest.TestLoader().loadTestsFromTestCase(self.InteropTest)
-    unittest.TextTestRunner().run(suite)
+    return unittest.TextTestRunner().run(suite).wasSuccessful()
 
 
 def Usage():
@@ -576,7 +577,8 @@ def main(argv):
   logger.Output("Generating Data")
   runner.SetupInteropTests()
   logger.Output("Running Tests")
-  runner.RunTests()
+  if not runner.RunTests():
+    return 1
 
 if __name__ == "__main__":
   sys.exit(main(sys.argv[1:]))
-- 
2.43.0


From da66eff0db8db0f683642809a91b2f5fd05aafa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:47 +0000
Subject: [PATCH 20/37] fix: ReadFile reports undecodable contents as
 KeyczarError

A damaged byte in a key or metadata file raised UnicodeDecodeError.
---
 python/src/keyczar/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 6e4f7f5..9a1f260 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -524,7 +524,7 @@ def ReadFile(loc):
   """
   try:
     return open(loc).read()
-  except IOError:
+  except (IOError, UnicodeError):
     raise errors.KeyczarError("Unable to read file %s." % loc)
 
 def MGF(seed, mlen):
-- 
2.43.0


From 9e244fc1a946c3df43683273a8bbac5f0c9325e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:39 +0000
Subject: [PATCH 21/37] fix: create refuses when an existing keyset cannot be
 examined

os.path.exists() is false when stat fails, so creating over a keyset
whose metadata file could not be examined replaced the metadata.
---
 python/src/keyczar/writers.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/writers.py b/python/src/keyczar/writers.py
index 952da2a..e848616 100644
--- a/python/src/keyczar/writers.py
+++ b/python/src/keyczar/writers.py
@@ -111,7 +111,15 @@ class FileWriter(Writer):
     Write the metadata for the key.
     """
     fname = os.path.join(self.location, "meta")
-    if not overwrite and os.path.exists(fname):
+    if not overwrite:
+      # os.path.exists() would take a file it cannot examine as absent
+      try:
+        os.stat(fname)
+      except FileNotFoundError:
+        pass
+      except OSError:
+        raise errors.KeyczarError("Unable to examine file %s." % fname)
+      else:
         raise errors.KeyczarError("File:%s already exists" %fname)
     util.WriteFile(str(metadata), fname)
     return
-- 
2.43.0


From 92adc737ff540bae040f8dd79a85361e9e8907b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:13 +0000
Subject: [PATCH 22/37] fix: DSA signature whose parts are not integers is a
 KeyczarError

A damaged signature may decode as ASN.1 REAL, whose conversion to int
raises OverflowError.
---
 python/src/keyczar/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 9a1f260..1ab40b5 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -250,7 +250,8 @@ def ParseDsaSig(sig):
   """
   try:
     seq = decoder.decode(ByteStringToBytes(sig))[0]
-    if len(seq) != 2:
+    if len(seq) != 2 or not all(isinstance(seq.getComponentByPosition(i),
+                                           univ.Integer) for i in (0, 1)):
       raise errors.KeyczarError("Illegal DSA signature.")
     r = int(seq.getComponentByPosition(0))
     s = int(seq.getComponentByPosition(1))
-- 
2.43.0


From 746e4dbadc307114ad38ca3f9fabcbc3e70ebcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:26 +0000
Subject: [PATCH 23/37] fix: an encrypting stream stays failed after its output
 failed

Writing or flushing again after the output stream raised an error left data
the output never got out of the CBC chain and the signature, or padded twice:
the result carried a valid signature over a plaintext nobody wrote.
---
 python/src/keyczar/keys.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 2eac128..2449f33 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -1060,6 +1060,7 @@ class EncryptingStreamWriter(object):
     self.__output_stream = output_stream
     self.__data = ''
     self.__closed = False
+    self.__failed = False
 
     self.__hmac_stream = key.hmac_key.CreateStreamable()
     iv_bytes = util.RandBytes(key.block_size)
@@ -1075,8 +1076,11 @@ class EncryptingStreamWriter(object):
 
     @param data: data to be encrypted.
     @type data: string
+
+    @raise KeyczarError: if an earlier write to the output stream failed
     """
     self.__CheckOpen('write')
+    self.__CheckOutput()
     self.__data += data
     encrypt_buffer_size = self.__key._NoPadBufferSize(len(self.__data))
 
@@ -1092,11 +1096,16 @@ class EncryptingStreamWriter(object):
     Flush this stream. 
     Writes all remaining encrypted data to the output stream.
     Will also flush the associated output stream.
+
+    @raise KeyczarError: if an earlier write to the output stream failed
     """
     self.__CheckOpen('flush')
+    self.__CheckOutput()
     self.__WriteEncrypted(self.__data, pad=True)
+    self.__failed = True
     self.__output_stream.write(self.__hmac_stream.Sign())
     self.__output_stream.flush()
+    self.__failed = False
 
   def close(self):
     """
@@ -1125,7 +1134,9 @@ class EncryptingStreamWriter(object):
       data = self.__key._Pad(data)
 
     encrypted_bytes = self.__cipher.encrypt(data)
+    self.__failed = True
     self.__output_stream.write(encrypted_bytes)
+    self.__failed = False
     self.__hmac_stream.Update(encrypted_bytes)
 
   def __CheckOpen(self, operation):
@@ -1133,6 +1144,16 @@ class EncryptingStreamWriter(object):
     if self.__closed:
       raise ValueError('%s() on a closed stream is not permitted' %operation)
 
+  def __CheckOutput(self):
+    """
+    Helper to ensure nothing is added after the output stream failed: it is not
+    known what reached it, and the cipher is already past the lost data, so
+    going on would sign a ciphertext of something that was never written.
+    """
+    if self.__failed:
+      raise errors.KeyczarError("The output stream failed, "
+                                "this ciphertext cannot be completed")
+
 class DecryptingStreamReader(object):
   """
   A stream capable of decrypting a source ciphertext byte stream
-- 
2.43.0


From 5dd67eaf19b84a19567a053ffbf346de17c94d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:26 +0000
Subject: [PATCH 24/37] fix: a cut-off stream is a KeyczarError with every
 crypto library

pycrypto refuses to decrypt an incomplete block with a ValueError, so check the
signature before decrypting the last part.
---
 python/src/keyczar/keys.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 2449f33..844db7c 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -1241,8 +1241,7 @@ class DecryptingStreamReader(object):
       if data_to_decrypt:
         self.__hmac_stream.Update(data_to_decrypt)
         self.__encrypted_buffer = self.__encrypted_buffer[len(data_to_decrypt):]
-        decrypted_data = self.__cipher.decrypt(data_to_decrypt)
-        
+
         if not is_data_avail:
           if len(self.__encrypted_buffer) != util.HLEN:
             raise errors.ShortCiphertextError(len(self.__encrypted_buffer))
@@ -1252,9 +1251,13 @@ class DecryptingStreamReader(object):
           if not self.__key.hmac_key.VerifySignedData(current_sig_bytes, 
                                                       msg_sig_bytes):
             raise errors.InvalidSignatureError()
+
+        # only a signed ciphertext is sure to end with a complete block
+        decrypted_data = self.__cipher.decrypt(data_to_decrypt)
+        if not is_data_avail:
           decrypted_data = self.__key._UnPad(decrypted_data)
           self.__verified = True
-          
+
         self.__decrypted_buffer += decrypted_data
         
     if not is_data_avail and not self.__verified:
-- 
2.43.0


From 9c23ef55c6c0f594c52f4f2c1852a11faa750aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:16 +0000
Subject: [PATCH 25/37] fix: a decrypting stream returns None while its source
 has no data

read() spun until the source delivered, so a program that feeds and reads a
stream by turns hung, though None is what callers are told to expect.
---
 python/src/keyczar/keys.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 844db7c..ebb0403 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -1198,6 +1198,10 @@ class DecryptingStreamReader(object):
     less, if there are not enough characters available.
     @type chars: integer
 
+    @return: the plaintext, None if the source stream has no data available for
+    now, or an empty string at the verified end of the ciphertext.
+    @rtype: string
+
     @raise ShortCiphertextError: if the ciphertext is too short to have IV & Sig
     @raise InvalidSignatureError: if the signature doesn't correspond to payload
     @raise KeyNotFoundError: if key specified in header doesn't exist
@@ -1215,8 +1219,7 @@ class DecryptingStreamReader(object):
       data_to_decrypt = ''
       need_more_data = True
       while need_more_data:
-        read_bytes, is_data_avail = self.__ReadBytes(self.__key.block_size,
-                                                     block=False)
+        read_bytes, is_data_avail = self.__ReadBytes(self.__key.block_size)
         if read_bytes:
           self.__encrypted_buffer += read_bytes
 
@@ -1236,7 +1239,9 @@ class DecryptingStreamReader(object):
         else:
           data_to_decrypt = available_data
 
-        need_more_data = (is_data_avail and not data_to_decrypt)
+        # fewer bytes than requested => no more data is available for now
+        need_more_data = (is_data_avail and not data_to_decrypt and
+                          len(read_bytes) >= self.__key.block_size)
 
       if data_to_decrypt:
         self.__hmac_stream.Update(data_to_decrypt)
@@ -1289,11 +1294,11 @@ class DecryptingStreamReader(object):
     if self.__closed:
       raise ValueError('%s() on a closed stream is not permitted' %operation)
 
-  def __ReadBytes(self, size, block=True):
+  def __ReadBytes(self, size):
     """
-    Helper to read bytes from the input stream. If requested will block until
-    required number of bytes is read or input data is exhausted.  Returns a
-    tuple of (the data bytes read, is more data available).
+    Helper to read bytes from the input stream, until the required number of
+    bytes is read, no data is available for now or input data is exhausted.
+    Returns a tuple of (the data bytes read, is more data available).
     """
     need_more_data = True
     result = ''
@@ -1303,7 +1308,7 @@ class DecryptingStreamReader(object):
         result += read_bytes
       elif read_bytes is not None:
         return (result, False)
-      elif not block:
+      else:
         return (result, True)
       need_more_data = (len(result) < size)
 
-- 
2.43.0


From 143e478d622a91d32b1bfc323f156133d0a0c603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:16 +0000
Subject: [PATCH 26/37] fix: closing a Base64 stream writer closes its stream

codecs.StreamWriter has no close(), so this raised AttributeError.
---
 python/src/keyczar/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 1ab40b5..d591983 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -654,7 +654,7 @@ class IncrementalBase64WSStreamWriter(codecs.StreamWriter, object):
   def close(self):
     """ Flushes and closes the stream """
     self.flush()
-    super(IncrementalBase64WSStreamWriter, self).close()
+    self.stream.close()
 
   def flush(self):
     """
-- 
2.43.0


From 9c4c43bd92229b42d9eb87902973dfb7eba2ffd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:46 +0000
Subject: [PATCH 27/37] fix: interop tests of different combinations have
 different names

Names were made of the option values alone, joined with underscores, so two
combinations whose values contain underscores got the same name and only one
of them was tested.
---
 interop/interop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interop/interop.py b/interop/interop.py
index 371ec09..82f2ccb 100755
--- a/interop/interop.py
+++ b/interop/interop.py
@@ -438,8 +438,8 @@ class InteropTestRunner(object):
             generate_implementation,
             operation,
             keyset.name,
-            "_".join(list(generate_options.values())),
-            "_".join(list(test_options.values())),
+            "_".join(["%s=%s"%o for o in list(generate_options.items())]),
+            "_".join(["%s=%s"%o for o in list(test_options.items())]),
             )
 
         test = self.InteropTestGenerator(
-- 
2.43.0


From c53762b482551249149513607efb1286ee7a689b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:06 +0000
Subject: [PATCH 28/37] fix: keep undecodable Base64 input, so that a stream
 cannot end cleanly after its error

---
 python/src/keyczar/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index d591983..47a238f 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -858,6 +858,8 @@ class IncrementalBase64WSStreamReader(codecs.StreamReader, object):
       if newdata is not None:
         # decode bytes (those remaining from the last call included)
         data = self.bytebuffer + newdata
+        # input that can't be decoded stays, reading on fails again
+        self.bytebuffer = data
         try:
           newchars, decodedbytes = self.decode(data, self.errors)
         except UnicodeDecodeError as exc:
-- 
2.43.0


From dc7ea37ca5505c0cb74044c08a821b94dc9404e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:07 +0000
Subject: [PATCH 29/37] fix: report an OAEP block without delimiter as a
 decoding error

---
 python/src/keyczar/keys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index ebb0403..66c3779 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -765,7 +765,7 @@ class RsaPrivateKey(PrivateKey):
       raise errors.KeyczarError("OAEP Decoding Error - hash_id is invalid")
 
     delimited_message = datablock[util.HLEN:].lstrip('\x00')
-    if delimited_message[0] != '\x01':
+    if delimited_message[:1] != '\x01':
       raise errors.KeyczarError("OAEP Decoding Error - expected a 1 value")
     return delimited_message[1:]  # The message
 
-- 
2.43.0


From a9b1366f6f63454a38d12be77855eb98391e4122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:07 +0000
Subject: [PATCH 30/37] fix: make the removal of a revoked key durable

---
 python/src/keyczar/writers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/src/keyczar/writers.py b/python/src/keyczar/writers.py
index e848616..4ebff5c 100644
--- a/python/src/keyczar/writers.py
+++ b/python/src/keyczar/writers.py
@@ -141,6 +141,7 @@ class FileWriter(Writer):
     fname = os.path.join(self.location, str(version_number))
     try:
       os.remove(fname)
+      util._SyncDirectory(self.location)
     except IOError:
       raise errors.KeyczarError("Unable to remove file %s." % fname)
 
-- 
2.43.0


From 763baa8f51977e3f4611ca0312668da0974fbea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:59 +0000
Subject: [PATCH 31/37] fix: keyczart refuses malformed flags instead of
 carrying on without them

---
 python/src/keyczar/keyczart.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/src/keyczar/keyczart.py b/python/src/keyczar/keyczart.py
index 4071590..3409922 100644
--- a/python/src/keyczar/keyczart.py
+++ b/python/src/keyczar/keyczart.py
@@ -287,19 +287,19 @@ def main(argv):
       if arg.startswith("--"):
         arg = arg[2:]  # trim leading dashes
         try:
-          [flag, val] = arg.split("=")
+          [flag, val] = arg.split("=", 1)
           flags[GetFlag(flag)] = val
         except ValueError:
-          print("Flags incorrectly formatted")
           Usage()
+          raise errors.KeyczarError("Flags incorrectly formatted")
     
     try:
       version = int(flags.get(VERSION, -1))
       size = int(flags.get(SIZE, -1))
       # -1 if non-existent
     except ValueError:
-      print("Size and version flags require an integer")
       Usage()
+      raise errors.KeyczarError("Size and version flags require an integer")
     
     loc = flags.get(LOCATION)  # all commands need location
     
-- 
2.43.0


From fe8c646ff465812436e9b5d9b477808e79d52383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:24 +0000
Subject: [PATCH 32/37] fix: EncryptedReader.Close closes the reader it wraps

---
 python/src/keyczar/readers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/src/keyczar/readers.py b/python/src/keyczar/readers.py
index 43932b1..1a94223 100644
--- a/python/src/keyczar/readers.py
+++ b/python/src/keyczar/readers.py
@@ -152,8 +152,7 @@ class EncryptedReader(Reader):
     return self._crypter.Decrypt(self._reader.GetKey(version_number))
 
   def Close(self):
-    # Nothing to close - util.ReadFile() closes it
-    return
+    self._reader.Close()
 
   @classmethod
   def CreateReader(cls, location):
-- 
2.43.0


From b24eeb3b237b937411674d90f2cb9491bbd710dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:24 +0000
Subject: [PATCH 33/37] fix: GenericKeyczar.Write closes the writer it creates
 for a location

---
 python/src/keyczar/keyczar.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index 00946c0..cf79fa7 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -295,9 +295,14 @@ class GenericKeyczar(Keyczar):
     """
     if isinstance(writer, str):
       writer = writers.CreateWriter(writer)
-      warnings.warn(
-        'Using a string as the writer is deprecated. Use writers.CreateWriter', 
-        DeprecationWarning)
+      try:
+        warnings.warn(
+          'Using a string as the writer is deprecated. Use writers.CreateWriter',
+          DeprecationWarning)
+        self.Write(writer, encrypter)
+      finally:
+        writer.Close()
+      return
     self.metadata.encrypted = (encrypter is not None)
     # metadata goes last, so it never refers to a key that isn't stored yet
     for v in self.versions:
-- 
2.43.0


From ddfda182cff3035ab8e4c887681c7ceaec2af032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:24 +0000
Subject: [PATCH 34/37] fix: UnversionedVerifier.Read and
 UnversionedSigner.Read support every backend

---
 python/src/keyczar/keyczar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index cf79fa7..6b3022e 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -466,7 +466,7 @@ class UnversionedVerifier(Keyczar):
       perform verify functions.
     @rtype: L{Verifier}
     """
-    return UnversionedVerifier(readers.FileReader(location))
+    return UnversionedVerifier(readers.CreateReader(location))
 
   def IsAcceptablePurpose(self, purpose):
     """Only valid if purpose includes verifying."""
@@ -658,7 +658,7 @@ class UnversionedSigner(UnversionedVerifier):
       perform sign and verify functions.
     @rtype: L{Signer}
     """
-    return UnversionedSigner(readers.FileReader(location))
+    return UnversionedSigner(readers.CreateReader(location))
 
   def IsAcceptablePurpose(self, purpose):
     """Only valid if purpose includes signing."""
-- 
2.43.0


From f6d9667fd2a0a701c1fbad965ae155698a425a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:24 +0000
Subject: [PATCH 35/37] fix: the Read methods close the reader they create

---
 python/src/keyczar/keyczar.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index 6b3022e..9d56156 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -37,6 +37,14 @@ VERSION_BYTE = '\x00'
 KEY_HASH_SIZE = 4
 HEADER_SIZE = 1 + KEY_HASH_SIZE
 
+def _Open(keyczar_class, location):
+  """Return a keyczar_class object for location, cleaning up its reader."""
+  reader = readers.CreateReader(location)
+  try:
+    return keyczar_class(reader)
+  finally:
+    reader.Close()
+
 class Keyczar(object, metaclass=util.ABCMeta):
   """Abstract Keyczar base class."""
 
@@ -108,7 +116,7 @@ class Keyczar(object, metaclass=util.ABCMeta):
     @return: a Keyczar to manage the keys stored at the given location
     @rtype: L{Keyczar}
     """
-    return Keyczar(readers.CreateReader(location))
+    return _Open(Keyczar, location)
 
   def IsAcceptablePurpose(self, purpose):
     """Indicates whether purpose is valid. Abstract method."""
@@ -141,7 +149,7 @@ class GenericKeyczar(Keyczar):
   @staticmethod
   def Read(location):
     """Return a GenericKeyczar created from FileReader at given location."""
-    return GenericKeyczar(readers.CreateReader(location))
+    return _Open(GenericKeyczar, location)
 
   def IsAcceptablePurpose(self, purpose):
     """All purposes ok for Keyczart."""
@@ -324,7 +332,7 @@ class Encrypter(Keyczar):
       perform encryption functions.
     @rtype: L{Encrypter}
     """
-    return Encrypter(readers.CreateReader(location))
+    return _Open(Encrypter, location)
 
   def IsAcceptablePurpose(self, purpose):
     """Only valid if purpose includes encrypting."""
@@ -394,7 +402,7 @@ class Verifier(Keyczar):
       perform verify functions.
     @rtype: L{Verifier}
     """
-    return Verifier(readers.CreateReader(location))
+    return _Open(Verifier, location)
 
   def IsAcceptablePurpose(self, purpose):
     """Only valid if purpose includes verifying."""
@@ -466,7 +474,7 @@ class UnversionedVerifier(Keyczar):
       perform verify functions.
     @rtype: L{Verifier}
     """
-    return UnversionedVerifier(readers.CreateReader(location))
+    return _Open(UnversionedVerifier, location)
 
   def IsAcceptablePurpose(self, purpose):
     """Only valid if purpose includes verifying."""
@@ -515,7 +523,7 @@ class Crypter(Encrypter):
       perform encryption and decryption functions.
     @rtype: L{Crypter}
     """
-    return Crypter(readers.CreateReader(location))
+    return _Open(Crypter, location)
 
   def IsAcceptablePurpose(self, purpose):
     """Only valid if purpose includes decrypting"""
@@ -591,7 +599,7 @@ class Signer(Verifier):
       perform sign and verify functions.
     @rtype: L{Signer}
     """
-    return Signer(readers.CreateReader(location))
+    return _Open(Signer, location)
 
   def IsAcceptablePurpose(self, purpose):
     """Only valid if purpose includes signing."""
@@ -658,7 +666,7 @@ class UnversionedSigner(UnversionedVerifier):
       perform sign and verify functions.
     @rtype: L{Signer}
     """
-    return UnversionedSigner(readers.CreateReader(location))
+    return _Open(UnversionedSigner, location)
 
   def IsAcceptablePurpose(self, purpose):
     """Only valid if purpose includes signing."""
-- 
2.43.0


From baf9824055f698d6355f56754e430fbbc05a73b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:28 +0000
Subject: [PATCH 36/37] fix: a failed AddVersion leaves the primary version as
 it was

---
 python/src/keyczar/keyczar.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index 9d56156..9f02025 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -186,11 +186,6 @@ class GenericKeyczar(Keyczar):
     # Make the new version number the max of the existing versions plus one
     version = keydata.KeyVersion(max_version_number + 1, status, False)
 
-    if status == keyinfo.PRIMARY:
-      if self.primary_version is not None:
-        self.primary_version.status = keyinfo.ACTIVE
-      self.primary_version = version
-
     if size < self.default_size:
       print(("WARNING: %d-bit key size is less than recommended default key"
             "size of %d bits for %s keys."
@@ -202,6 +197,11 @@ class GenericKeyczar(Keyczar):
       if self._keys.get(key.hash_id) is None:
         break
 
+    if status == keyinfo.PRIMARY:
+      if self.primary_version is not None:
+        self.primary_version.status = keyinfo.ACTIVE
+      self.primary_version = version
+
     self._AddKey(version, key)
 
   def Promote(self, version_number):
-- 
2.43.0


From 5d90af40995aa2482cdac9a5babae925e95e6b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:49 +0000
Subject: [PATCH 37/37] fix: a decrypting stream keeps what it read before its
 source failed

---
 python/src/keyczar/keys.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 66c3779..7163cb9 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -1303,7 +1303,12 @@ class DecryptingStreamReader(object):
     need_more_data = True
     result = ''
     while need_more_data:
-      read_bytes = self.__input_stream.read(size)
+      try:
+        read_bytes = self.__input_stream.read(size)
+      except Exception:
+        # keep what was read before, for when reading is tried again
+        self.__encrypted_buffer += result
+        raise
       if read_bytes:
         result += read_bytes
       elif read_bytes is not None:
-- 
2.43.0

