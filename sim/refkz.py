"""Independent reference implementation of the Keyczar formats, on bytes.

Written from the format description (version byte, 4-byte key hash, CBC with
PKCS5 padding and HMAC-SHA1; RSA-OAEP and PKCS#1 v1.5 with SHA-1; DSA with
SHA-1 and DER; JSON key files), sharing no code with the package under test.
"""
import base64
import hashlib
import hmac as hmac_mod
import json
import struct

VERSION = b'\0'


class RefError(Exception):
  pass


def b64e(b):
  return base64.urlsafe_b64encode(b).rstrip(b'=').decode('ascii')


def b64d(s):
  if isinstance(s, bytes):
    s = s.decode('ascii')
  s = ''.join(s.split())
  if any(c not in 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'
         '0123456789-_' for c in s.rstrip('=')):
    raise RefError('bad base64')
  s = s.rstrip('=')
  if len(s) % 4 == 1:
    raise RefError('bad base64 length')
  return base64.urlsafe_b64decode(s + '=' * (-len(s) % 4))


def sha1(*parts):
  h = hashlib.sha1()
  for p in parts:
    h.update(p)
  return h.digest()


def i4(n):
  return struct.pack('>I', n)


def trim(b):
  b = b.lstrip(b'\0')
  return b or b'\0'


def i2b(n):
  return n.to_bytes(max(1, (n.bit_length() + 7) // 8), 'big')


def b2i(b):
  return int.from_bytes(b, 'big')


def mpi(n):
  """Big integer as Java's BigInteger.toByteArray writes it."""
  return n.to_bytes(n.bit_length() // 8 + 1, 'big')


def pack(b):
  return i4(len(b)) + b


def _aes(key, iv, data, op):
  from M2Crypto import EVP
  c = EVP.Cipher(alg='aes_%d_cbc' % (len(key) * 8), key=key, iv=iv, op=op,
                 padding=0)
  return c.update(data) if data else b''


class Hmac(object):
  type = 'HMAC_SHA1'

  def __init__(self, key, size=256):
    self.key, self.size = key, size
    self.hash = sha1(key)[:4]

  @classmethod
  def parse(cls, d):
    return cls(b64d(d['hmacKeyString']), d['size'])

  def dump(self):
    return {'hmacKeyString': b64e(self.key), 'size': self.size}

  def mac(self, data):
    return hmac_mod.new(self.key, data, hashlib.sha1).digest()

  def sign(self, data, rand=None):
    return self.mac(data)

  def verify(self, data, sig):
    return sig == self.mac(data)

  def secrets(self):
    return [self.key]

  def ident(self):
    return ('HMAC', self.key.hex(), self.size)


class Aes(object):
  type = 'AES'

  def __init__(self, key, hk, size=None):
    self.key, self.hk = key, hk
    self.size = size or len(key) * 8
    self.hash = sha1(i4(len(key)), key, hk.key)[:4]

  @classmethod
  def parse(cls, d):
    if d['mode'] != 'CBC':
      raise RefError('mode')
    return cls(b64d(d['aesKeyString']), Hmac.parse(d['hmacKey']), d['size'])

  def dump(self):
    return {'hmacKey': self.hk.dump(), 'aesKeyString': b64e(self.key),
            'mode': 'CBC', 'size': self.size}

  def encrypt(self, data, rand):
    pad = 16 - len(data) % 16
    iv = rand(16)
    body = VERSION + self.hash + iv + _aes(self.key, iv,
                                           data + bytes([pad]) * pad, 1)
    return body + self.hk.mac(body)

  def decrypt(self, msg):
    if len(msg) < 5 + 16 + 16 + 20 or (len(msg) - 41) % 16:
      raise RefError('length')
    body, mac = msg[:-20], msg[-20:]
    if self.hk.mac(body) != mac:
      raise RefError('mac')
    plain = _aes(self.key, body[5:21], body[21:], 0)
    pad = plain[-1]
    if not 1 <= pad <= 16 or plain[-pad:] != bytes([pad]) * pad:
      raise RefError('padding')
    return plain[:-pad]

  def secrets(self):
    return [self.key, self.hk.key]

  def ident(self):
    return ('AES', self.key.hex(), self.hk.key.hex(), self.size)


def _mgf(seed, n):
  out = b''
  i = 0
  while len(out) < n:
    out += sha1(seed, i4(i))
    i += 1
  return out[:n]


def _xor(a, b):
  return bytes(x ^ y for x, y in zip(a, b))


class RsaPub(object):
  type = 'RSA_PUB'

  def __init__(self, n, e, size=None):
    self.n, self.e = n, e
    self.size = size or n.bit_length()
    self.k = (n.bit_length() + 7) // 8
    self.hash = sha1(pack(i2b(n)), pack(i2b(e)))[:4]

  @classmethod
  def parse(cls, d):
    return cls(b2i(b64d(d['modulus'])), b2i(b64d(d['publicExponent'])),
               d['size'])

  def dump(self):
    return {'publicExponent': b64e(mpi(self.e)), 'modulus': b64e(mpi(self.n)),
            'size': self.size}

  def encrypt(self, data, rand):
    k = self.k
    if len(data) > k - 42:
      raise RefError('too long')
    db = sha1(b'') + b'\0' * (k - len(data) - 42) + b'\1' + data
    return self.encrypt_block(b'\0', db, rand)

  def encrypt_block(self, first, db, rand):
    k = self.k
    seed = rand(20)
    mdb = _xor(db, _mgf(seed, k - 21))
    mseed = _xor(seed, _mgf(mdb, 20))
    c = pow(b2i(first + mseed + mdb), self.e, self.n)
    return VERSION + self.hash + c.to_bytes(k, 'big')

  def _emsa(self, data):
    t = bytes.fromhex('3021300906052b0e03021a05000414') + sha1(data)
    return b'\0\1' + b'\xff' * (self.k - len(t) - 3) + b'\0' + t

  def verify(self, data, sig):
    return pow(b2i(sig), self.e, self.n) == b2i(self._emsa(data))

  def secrets(self):
    return []

  def ident(self):
    return ('RSA_PUB', self.n, self.e, self.size)


class RsaPriv(object):
  type = 'RSA_PRIV'

  def __init__(self, pub, d, p, q, size=None):
    self.pub, self.d, self.p, self.q = pub, d, p, q
    self.size = size or pub.size
    self.hash = pub.hash

  @classmethod
  def parse(cls, j):
    pub = RsaPub.parse(j['publicKey'])
    k = cls(pub, b2i(b64d(j['privateExponent'])), b2i(b64d(j['primeP'])),
            b2i(b64d(j['primeQ'])), j['size'])
    p, q = k.p, k.q
    if p * q != pub.n or p < 3 or q < 3:
      raise RefError('inconsistent RSA key')
    if k.d * pub.e % (p - 1) != 1 or k.d * pub.e % (q - 1) != 1:
      raise RefError('RSA exponents do not match')
    if b2i(b64d(j['primeExponentP'])) != k.d % (p - 1) or \
       b2i(b64d(j['primeExponentQ'])) != k.d % (q - 1) or \
       b2i(b64d(j['crtCoefficient'])) != pow(q, -1, p):
      raise RefError('inconsistent RSA CRT parameters')
    return k

  def dump(self):
    p, q = self.p, self.q
    return {'publicKey': self.pub.dump(), 'privateExponent': b64e(mpi(self.d)),
            'primeP': b64e(mpi(p)), 'primeQ': b64e(mpi(q)),
            'primeExponentP': b64e(mpi(self.d % (p - 1))),
            'primeExponentQ': b64e(mpi(self.d % (q - 1))),
            'crtCoefficient': b64e(mpi(pow(q, -1, p))), 'size': self.size}

  def _priv(self, c):
    p, q = self.p, self.q
    mp, mq = pow(c, self.d % (p - 1), p), pow(c, self.d % (q - 1), q)
    return mq + q * ((mp - mq) * pow(q, -1, p) % p)

  def encrypt(self, data, rand):
    return self.pub.encrypt(data, rand)

  def decrypt(self, msg):
    c = b2i(msg[5:])
    k = self.pub.k
    if c >= self.pub.n:
      raise RefError('range')
    em = self._priv(c).to_bytes(k, 'big')
    seed = _xor(em[1:21], _mgf(em[21:], 20))
    db = _xor(em[21:], _mgf(seed, k - 21))
    if em[0] or db[:20] != sha1(b''):
      raise RefError('oaep')
    rest = db[20:].lstrip(b'\0')
    if rest[:1] != b'\1':
      raise RefError('oaep')
    return rest[1:]

  def sign(self, data, rand=None):
    return self._priv(b2i(self.pub._emsa(data))).to_bytes(self.pub.k, 'big')

  def verify(self, data, sig):
    return self.pub.verify(data, sig)

  def secrets(self):
    p, q = self.p, self.q
    return [i2b(x) for x in (self.d, p, q, self.d % (p - 1), self.d % (q - 1),
                             pow(q, -1, p))]

  def ident(self):
    return ('RSA_PRIV', self.pub.ident(), self.d, self.p, self.q, self.size)


def _der_int(n):
  b = mpi(n)
  assert len(b) < 128
  return b'\x02' + bytes([len(b)]) + b


def dsa_der(r, s):
  body = _der_int(r) + _der_int(s)
  return b'\x30' + bytes([len(body)]) + body


class DsaPub(object):
  type = 'DSA_PUB'

  def __init__(self, p, q, g, y, size=1024):
    self.p, self.q, self.g, self.y, self.size = p, q, g, y, size
    self.hash = sha1(*[pack(i2b(v)) for v in (p, q, g, y)])[:4]

  @classmethod
  def parse(cls, d):
    return cls(*[b2i(b64d(d[k])) for k in 'pqgy'], size=d['size'])

  def dump(self):
    return {'q': b64e(mpi(self.q)), 'p': b64e(mpi(self.p)),
            'y': b64e(mpi(self.y)), 'g': b64e(mpi(self.g)), 'size': self.size}

  def verify(self, data, sig):
    try:
      r, s = parse_dsa(sig)
    except (RefError, IndexError):
      return False
    q = self.q
    if not (0 < r < q and 0 < s < q):
      return False
    w = pow(s, -1, q)
    h = b2i(sha1(data))
    v = pow(self.g, h * w % q, self.p) * pow(self.y, r * w % q, self.p)
    return v % self.p % q == r

  def secrets(self):
    return []

  def ident(self):
    return ('DSA_PUB', self.p, self.q, self.g, self.y, self.size)


def parse_dsa(sig):
  """Strict DER of SEQUENCE { r, s }."""
  if len(sig) < 8 or sig[0] != 0x30 or sig[1] != len(sig) - 2 or sig[1] > 127:
    raise RefError('der')
  out = []
  pos = 2
  for _ in range(2):
    if sig[pos] != 2:
      raise RefError('der')
    n = sig[pos + 1]
    v = sig[pos + 2:pos + 2 + n]
    if len(v) != n or not n:
      raise RefError('der')
    out.append(b2i(v))
    pos += 2 + n
  if pos != len(sig):
    raise RefError('der')
  return out


class DsaPriv(object):
  type = 'DSA_PRIV'

  def __init__(self, pub, x, size=1024):
    self.pub, self.x, self.size = pub, x, size
    self.hash = pub.hash

  @classmethod
  def parse(cls, d):
    k = cls(DsaPub.parse(d['publicKey']), b2i(b64d(d['x'])), d['size'])
    if pow(k.pub.g, k.x, k.pub.p) != k.pub.y:
      raise RefError('inconsistent DSA key')
    return k

  def dump(self):
    return {'publicKey': self.pub.dump(), 'x': b64e(mpi(self.x)),
            'size': self.size}

  def sign(self, data, rand):
    p = self.pub
    while True:
      k = b2i(rand(28)) % p.q
      if k < 2:
        continue
      r = pow(p.g, k, p.p) % p.q
      s = pow(k, -1, p.q) * (b2i(sha1(data)) + self.x * r) % p.q
      if r and s:
        body = _der_int(r) + _der_int(s)
        return b'\x30' + bytes([len(body)]) + body

  def verify(self, data, sig):
    return self.pub.verify(data, sig)

  def secrets(self):
    return [i2b(self.x)]

  def ident(self):
    return ('DSA_PRIV', self.pub.ident(), self.x, self.size)


KEY_TYPES = {c.type: c for c in (Aes, Hmac, RsaPriv, RsaPub, DsaPriv, DsaPub)}


_parsed = {}


def parse_key(type_, raw):
  """Key of a key file; keys are values, so equal files share one."""
  k = _parsed.get((type_, raw))
  if k is None:
    k = KEY_TYPES[type_].parse(json.loads(raw.decode('utf-8')))
    if len(_parsed) > 2000:
      _parsed.clear()
    _parsed[(type_, raw)] = k
  return k


class Keyset(object):
  """A parsed keyset."""

  def __init__(self, name, purpose, type_, encrypted=False):
    self.name, self.purpose, self.type, self.encrypted = (name, purpose, type_,
                                                          encrypted)
    self.versions = {}      # number -> [status, exportable]
    self.keys = {}          # number -> key

  @classmethod
  def parse(cls, files, crypter=None):
    """files: {name: bytes}; crypter: Keyset decrypting the key files."""
    if 'meta' not in files:
      raise RefError('no metadata')
    try:
      m = json.loads(files['meta'].decode('utf-8'))
      ks = cls(m['name'], m['purpose'], m['type'], m['encrypted'])
      for v in m['versions']:
        if v['versionNumber'] in ks.versions:
          raise RefError('duplicate version')
        if v['status'] not in ('PRIMARY', 'ACTIVE', 'INACTIVE'):
          raise RefError('status')
        ks.versions[v['versionNumber']] = [v['status'], v['exportable']]
    except (ValueError, KeyError, TypeError) as e:
      raise RefError('metadata: %r' % e)
    for n in ks.versions:
      if str(n) not in files:
        raise RefError('key %s is missing' % n)
      raw = files[str(n)]
      if ks.encrypted:
        if crypter is None:
          raise RefError('crypter needed')
        raw = crypter.decrypt(b64d(raw))
      try:
        ks.keys[n] = parse_key(ks.type, raw)
      except (ValueError, KeyError, TypeError) as e:
        raise RefError('key %s: %r' % (n, e))
    return ks

  def dump(self, crypter=None, rand=None, indent=None):
    """{name: bytes}, the way another implementation lays it out."""
    files = {}
    for n, k in self.keys.items():
      t = json.dumps(k.dump(), indent=indent).encode()
      if crypter is not None:
        t = b64e(crypter.encrypt(t, rand)).encode()
      files[str(n)] = t
    files['meta'] = json.dumps({
        'encrypted': crypter is not None,
        'versions': [{'exportable': e, 'versionNumber': n, 'status': s}
                     for n, (s, e) in sorted(self.versions.items(),
                                             reverse=True)],
        'type': self.type, 'name': self.name, 'purpose': self.purpose},
                               indent=indent).encode()
    return files

  def picture(self):
    """Comparable value: everything a user can tell apart."""
    return (self.name, self.purpose, self.type, self.encrypted,
            tuple(sorted((n, self.versions[n][0], self.versions[n][1],
                          self.keys[n].ident()) for n in self.versions)))

  def statuses(self):
    return {n: s for n, (s, _) in self.versions.items()}

  def primary(self):
    for n, (s, _) in sorted(self.versions.items()):
      if s == 'PRIMARY':
        return self.keys[n]
    raise RefError('no primary')

  def by_hash(self, h):
    for k in self.keys.values():
      if k.hash == h:
        return k
    raise RefError('key not found')

  def version_of(self, h):
    for n, k in sorted(self.keys.items()):
      if k.hash == h:
        return n
    return None

  def encrypt(self, data, rand):
    return self.primary().encrypt(data, rand)

  def decrypt(self, msg):
    if msg[:1] != VERSION or len(msg) < 5:
      raise RefError('header')
    return self.by_hash(msg[1:5]).decrypt(msg)

  def sign(self, data, rand):
    k = self.primary()
    return VERSION + k.hash + k.sign(data + VERSION, rand)

  def verify(self, data, sig):
    if sig[:1] != VERSION or len(sig) < 5:
      raise RefError('header')
    return self.by_hash(sig[1:5]).verify(data + VERSION, sig[5:])

  def attached_sign(self, data, nonce, rand):
    k = self.primary()
    return (VERSION + k.hash + pack(data) +
            k.sign(data + pack(nonce) + VERSION, rand))

  def attached_verify(self, blob, nonce):
    if blob[:1] != VERSION or len(blob) < 9:
      raise RefError('header')
    n = struct.unpack('>I', blob[5:9])[0]
    data, sig = blob[9:9 + n], blob[9 + n:]
    if len(data) != n:
      raise RefError('length')
    k = self.by_hash(blob[1:5])
    return data if k.verify(data + pack(nonce) + VERSION, sig) else None

  def unversioned_sign(self, data, rand):
    return self.primary().sign(data, rand)

  def unversioned_verify(self, data, sig):
    return any(k.verify(data, sig) for k in self.keys.values())

  def public(self):
    purpose = {'SIGN_AND_VERIFY': 'VERIFY',
               'DECRYPT_AND_ENCRYPT': 'ENCRYPT'}[self.purpose]
    ks = Keyset(self.name, purpose, self.type.replace('PRIV', 'PUB'), False)
    for n in self.versions:
      ks.versions[n] = list(self.versions[n])
      ks.keys[n] = self.keys[n].pub
    return ks

  def secrets(self):
    out = []
    for k in self.keys.values():
      out.extend(k.secrets())
    return out


# sessions -------------------------------------------------------------------

class Session(object):
  def __init__(self, key, nonce=None):
    self.key, self.nonce = key, nonce

  @classmethod
  def new(cls, rand, signed):
    return cls(Aes(rand(16), Hmac(rand(32))), rand(16) if signed else None)

  def material(self):
    if self.nonce is None:
      return i4(2) + pack(self.key.key) + pack(self.key.hk.key)
    return json.dumps({'nonce': b64e(self.nonce),
                       'key': self.key.dump()}).encode()

  @classmethod
  def load(cls, plain, signed):
    if signed:
      d = json.loads(plain.decode())
      return cls(Aes.parse(d['key']), b64d(d['nonce']))
    if plain[:4] != i4(2):
      raise RefError('session')
    n = struct.unpack('>I', plain[4:8])[0]
    a = plain[8:8 + n]
    rest = plain[8 + n:]
    if struct.unpack('>I', rest[:4])[0] != len(rest) - 4:
      raise RefError('session')
    return cls(Aes(a, Hmac(rest[4:])))


# leak search ------------------------------------------------------------------

def needles(secret):
  """Byte patterns that would give a secret away in a stored file."""
  out = set()
  forms = {secret}
  if len(secret) < 12:
    return []
  out.add(secret)
  out.add(secret.hex().encode())
  out.add(secret.hex().upper().encode())
  out.add(str(b2i(secret)).encode())
  for f in forms:
    for shift in range(3):
      for enc in (base64.urlsafe_b64encode, base64.b64encode):
        t = enc(b'\0' * shift + f).rstrip(b'=')
        # drop the characters that mix in neighbouring bytes
        lead = 0 if shift == 0 else (2 if shift == 1 else 3)
        core = t[lead:]
        if (shift + len(f)) % 3:
          core = core[:-1]
        out.add(core)
  return sorted(out)
