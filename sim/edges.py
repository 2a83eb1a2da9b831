"""Steering random choices to rare but legitimate corners.

A masked OAEP seed, a ciphertext number, a signature or a DSA integer starts
with a zero byte once in 256 times; messages of that shape are where length
handling goes wrong.  The simulated entropy source makes them on purpose.
"""
import contextlib
import random

from . import refkz

RSA = ('oaep0', 'oaep00', 'ct0')


def gen(rng, kind, share=0.05):
  """An edge for a message of this kind, or None."""
  if rng.random() >= share:
    return None
  if kind == 'rsa':
    return rng.choice(('oaep0', 'oaep0', 'oaep0', 'ct0', 'ct0', 'oaep00')
                      if rng.random() < 0.2 else ('oaep0', 'ct0'))
  if kind == 'rsasign':
    return 'sig0'
  if kind == 'dsa':
    return 'short'
  return None


def oaep_seed(pub, text, edge, seed):
  """Seed bytes with which encrypting text hits the edge."""
  rng = random.Random('oaep/%s' % seed)
  k = pub.k
  if len(text) > k - 42:
    return None
  db = refkz.sha1(b'') + b'\0' * (k - len(text) - 42) + b'\1' + text
  want = {'oaep0': 1, 'oaep00': 2, 'ct0': 0}[edge]
  for _ in range(300000 if want == 2 else 4000):
    s = rng.randbytes(20)
    mdb = refkz._xor(db, refkz._mgf(s, k - 21))
    ms = refkz._xor(s, refkz._mgf(mdb, 20))
    if want:
      if not any(ms[:want]):
        return s
    elif pow(refkz.b2i(ms + mdb), pub.e, pub.n).bit_length() <= 8 * (k - 1):
      return s
  return None


@contextlib.contextmanager
def steer(site, edge, key, text, seed):
  """Our side: have the entropy source hit an encryption edge."""
  f = {}
  if edge in RSA:
    s = oaep_seed(getattr(key, 'pub', key), text.encode('latin-1'), edge, seed)
    if s is not None:
      f = {20: [s]}
  site.w.entropy.force = f
  try:
    yield
  finally:
    site.w.entropy.force = {}


def hit(edge, sig, key):
  """Does this signature lie on the edge?"""
  if edge == 'sig0':
    return sig[:1] == b'\0'
  if edge == 'short':
    q = getattr(key, 'pub', key).q
    try:
      r, s = refkz.parse_dsa(sig)
    except (refkz.RefError, IndexError):
      return True
    return min(r, s).bit_length() <= q.bit_length() - 9
  return True


def tries(edge, key):
  """How often to sign until the edge is hit."""
  if edge == 'sig0':
    return 300 if key.size <= 1024 else 1
  if edge == 'short':
    return 160
  return 1
