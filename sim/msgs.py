"""Producing and consuming messages through the public interface."""
from . import refkz
from . import world as W
from .common import B, S, CRYPT

CRYPT_HOWS = ('b64', 'raw', 'stream64', 'streamraw')
SIGN_HOWS = ('det64', 'detraw', 'att64', 'attraw', 'unv64', 'unvraw')


class Sink(object):
  """Output stream of a process."""

  def __init__(self):
    self.parts = []
    self.flushed = 0

  def write(self, s):
    if not isinstance(s, str):
      raise TypeError('text stream got %s' % type(s).__name__)
    self.parts.append(s)
    return len(s)

  def flush(self):
    self.flushed += 1

  def value(self):
    return ''.join(self.parts)


class Source(object):
  """Plain input stream."""

  def __init__(self, s):
    self.s = s
    self.pos = 0

  def read(self, n=-1):
    if n is None or n < 0:
      n = len(self.s)
    out = self.s[self.pos:self.pos + n]
    self.pos += len(out)
    return out


def hows(kind):
  if kind == 'aes':
    return CRYPT_HOWS
  if kind == 'rsa':
    return ('b64', 'raw')
  return SIGN_HOWS


def role_for(how, kind, making=True):
  if kind in CRYPT:
    return 'Encrypter' if making else 'Crypter'
  if how.startswith('unv'):
    return 'UnversionedSigner' if making else 'UnversionedVerifier'
  return 'Signer' if making else 'Verifier'


def produce(obj, how, data, nonce='', sink=None, pieces=None):
  """Returns the message (str)."""
  if how == 'b64':
    return obj.Encrypt(data)
  if how == 'raw':
    return obj.Encrypt(data, None)
  if how.startswith('stream'):
    sink = sink if sink is not None else Sink()
    if how == 'stream64':
      s = obj.CreateEncryptingStreamWriter(sink)
    else:
      s = obj.CreateEncryptingStreamWriter(sink, encoder=None)
    pos = 0
    for n in pieces or [len(data)]:
      s.write(data[pos:pos + n])
      pos += n
    if pos < len(data):
      s.write(data[pos:])
    s.flush()
    return sink.value()
  if how == 'det64' or how == 'unv64':
    return obj.Sign(data)
  if how == 'detraw' or how == 'unvraw':
    return obj.Sign(data, None)
  if how == 'att64':
    return obj.AttachedSign(data, nonce)
  if how == 'attraw':
    return obj.AttachedSign(data, nonce, None)
  raise W.HarnessError(how)


def consume(obj, how, msg, data=None, nonce='', via=None):
  """Plaintext; or True/False; or the attached data/None."""
  if how in ('b64', 'raw', 'stream64', 'streamraw'):
    text = how.endswith('64')
    if via == 'stream':
      src = Source(msg)
      r = (obj.CreateDecryptingStreamReader(src) if text else
           obj.CreateDecryptingStreamReader(src, decoder=None))
      out = []
      for _ in range(len(msg) + 20):
        part = r.read()
        if part is None:
          continue
        if part == '':
          return ''.join(out)
        out.append(part)
      raise W.Violation('no-progress', 'stream of %d characters does not end' %
                        len(msg))
    return obj.Decrypt(msg) if text else obj.Decrypt(msg, None)
  if how in ('det64', 'unv64'):
    return obj.Verify(data, msg)
  if how in ('detraw', 'unvraw'):
    return obj.Verify(data, msg, None)
  if how == 'att64':
    return obj.AttachedVerify(msg, nonce)
  if how == 'attraw':
    return obj.AttachedVerify(msg, nonce, None)
  raise W.HarnessError(how)


def raw_of(how, msg):
  """The bytes of a message."""
  return refkz.b64d(msg) if how.endswith('64') else B(msg)


def made_by(how, msg, key, data, nonce=''):
  """Was msg made for data with exactly this (reference) key?"""
  try:
    raw = raw_of(how, msg)
    if how in ('b64', 'raw', 'stream64', 'streamraw'):
      return raw[:5] == b'\0' + key.hash and key.decrypt(raw) == B(data)
    if how.startswith('det'):
      return (raw[:5] == b'\0' + key.hash and
              bool(key.verify(B(data) + b'\0', raw[5:])))
    if how.startswith('unv'):
      return bool(key.verify(B(data), raw))
    body = b'\0' + key.hash + refkz.pack(B(data))
    return (raw[:len(body)] == body and
            bool(key.verify(B(data) + refkz.pack(B(nonce)) + b'\0',
                            raw[len(body):])))
  except (refkz.RefError, ValueError):
    return False


def ref_make(ks, how, data, nonce, rand, version=None):
  """The same message made by the reference implementation.

  By the primary key, or by the given version as if it were (still) primary.
  """
  d, n = B(data), B(nonce)
  if version is not None:
    ks = _With(ks, version)
  if how in ('b64', 'raw', 'stream64', 'streamraw'):
    raw = ks.encrypt(d, rand)
  elif how.startswith('det'):
    raw = ks.sign(d, rand)
  elif how.startswith('unv'):
    raw = ks.unversioned_sign(d, rand)
  else:
    raw = ks.attached_sign(d, n, rand)
  return refkz.b64e(raw) if how.endswith('64') else S(raw)


class _With(refkz.Keyset):
  """A keyset as it was when another version was primary."""

  def __init__(self, ks, version):
    self.__dict__.update(ks.__dict__)
    self.chosen = ks.keys[version]

  def primary(self):
    return self.chosen


def ref_take(ks, how, msg, data, nonce):
  """What the reference implementation makes of a message."""
  raw = raw_of(how, msg)
  if how in ('b64', 'raw', 'stream64', 'streamraw'):
    return S(ks.decrypt(raw))
  if how.startswith('det'):
    return bool(ks.verify(B(data), raw))
  if how.startswith('unv'):
    return bool(ks.unversioned_verify(B(data), raw))
  v = ks.attached_verify(raw, B(nonce))
  return None if v is None else S(v)
