"""Shared pieces of the scenarios: deployment, workload data, oracle helpers."""
import contextlib
import errno
import json
import random

from . import refkz
from . import world as W

ROOT = W.ROOT
Violation = W.Violation

# kind -> (create flags, key type, sizes the simulated world generates)
KINDS = {
    'aes': (['--purpose=crypt'], 'AES', (128, 192, 256)),
    'hmac': (['--purpose=sign'], 'HMAC_SHA1', (256,)),
    'rsa': (['--purpose=crypt', '--asymmetric=rsa'], 'RSA_PRIV', (1024, 2048)),
    'rsasign': (['--purpose=sign', '--asymmetric=rsa'], 'RSA_PRIV',
                (1024, 2048)),
    'dsa': (['--purpose=sign', '--asymmetric=dsa'], 'DSA_PRIV', (1024,)),
}
PURPOSE = {'aes': 'DECRYPT_AND_ENCRYPT', 'rsa': 'DECRYPT_AND_ENCRYPT',
           'hmac': 'SIGN_AND_VERIFY', 'rsasign': 'SIGN_AND_VERIFY',
           'dsa': 'SIGN_AND_VERIFY'}
DEFAULT_SIZE = {'aes': 128, 'hmac': 256, 'rsa': 2048, 'rsasign': 2048,
                'dsa': 1024}
CRYPT = ('aes', 'rsa')
SIGN = ('hmac', 'rsasign', 'dsa')
ASYM = ('rsa', 'rsasign', 'dsa')
STATUSES = ('PRIMARY', 'ACTIVE', 'INACTIVE')
PURPOSES = ('DECRYPT_AND_ENCRYPT', 'ENCRYPT', 'SIGN_AND_VERIFY', 'VERIFY')

ERRNOS = {'ENOSPC': errno.ENOSPC, 'EIO': errno.EIO, 'EACCES': errno.EACCES,
          'EDQUOT': errno.EDQUOT, 'EROFS': errno.EROFS, 'EMFILE': errno.EMFILE,
          'EPERM': errno.EPERM}


def weighted(rng, table):
  """table: [(weight, value)]"""
  total = sum(w for w, _ in table)
  x = rng.random() * total
  for w, v in table:
    x -= w
    if x < 0:
      return v
  return table[-1][1]


def gen_kind(rng, kinds=None):
  return weighted(rng, [(w, k) for w, k in ((6, 'aes'), (4, 'hmac'), (2, 'rsa'),
                                            (2, 'rsasign'), (2, 'dsa'))
                        if kinds is None or k in kinds])


def gen_size(rng, kind):
  """A size, mostly the cheap ones; None means default."""
  if kind in ('rsa', 'rsasign'):
    return weighted(rng, [(8, 1024), (1, 2048), (0.5, None)])
  if rng.random() < 0.4:
    return None
  return rng.choice(KINDS[kind][2])


# ----------------------------------------------------------------------------
# data: plans carry [style, length, seed]

def gen_data(rng, maxlen=200):
  r = rng.random()
  if r < 0.12:
    n = 0
  elif r < 0.45:
    n = rng.choice((1, 2, 3, 15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65))
  elif r < 0.9:
    n = rng.randrange(0, maxlen + 1)
  else:
    n = rng.choice((127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097))
  n = min(n, maxlen)
  return [rng.choice(('rnd', 'rnd', 'rnd', 'zero', 'ff', 'pad', 'text', 'high',
                      'nulend', 'nulstart')), n, rng.randrange(1 << 30)]


def data(spec):
  """Expand to a byte string (str of characters 0-255)."""
  style, n, seed = spec
  if n <= 0:
    return ''
  r = random.Random('data/%s' % seed)
  if style == 'zero':
    s = '\0' * n
  elif style == 'ff':
    s = '\xff' * n
  elif style == 'pad':
    s = chr(1 + seed % 16) * n
  elif style == 'text':
    s = ''.join(r.choice('abcdefghij \n\r\t=-_+/') for _ in range(n))
  elif style == 'high':
    s = ''.join(chr(r.randrange(128, 256)) for _ in range(n))
  else:
    s = r.randbytes(n).decode('latin-1')
    if style == 'nulend':
      s = s[:-1] + '\0'
    elif style == 'nulstart':
      s = '\0' + s[1:]
  return s


def B(s):
  return s.encode('latin-1')


def S(b):
  return bytes(b).decode('latin-1')


def seed_of(rng):
  return rng.randrange(1 << 40)


# ----------------------------------------------------------------------------
# the deployment

class Site(object):
  """One simulated deployment: a file system and processes."""

  def __init__(self, plan, ctx):
    self.ctx = ctx
    self.lib = plan.get('lib')
    self.w = W.World(plan.get('wseed', 0))
    self.w.entropy.bias = plan.get('bias')
    W.set_world(self.w)
    self.w.fs.h_mkdirs(ROOT)
    self.nproc = 0
    self.shortio = plan.get('shortio')
    self.events = []          # (time, seq, what): simulated network
    self.seq = 0

  # processes ------------------------------------------------------------------
  def proc(self, name=None, points=None):
    """A freshly started process."""
    self.nproc += 1
    mods = W.load(points)
    if self.lib and hasattr(mods.keys, 'ACTIVE_CRYPT_LIB'):
      mods.keys.ACTIVE_CRYPT_LIB = self.lib
    p = W.Proc(self.w, name or 'p%d' % self.nproc, mods)
    if self.shortio:
      p.fault = self._short
    return p

  def _short(self, proc, idx, name, path, mutating):
    if name in ('read', 'write') and (idx * 7 + self.shortio) % 3 == 0:
      self.ctx.fault('short_' + name)
      return ('short', 0.5)
    return None

  @contextlib.contextmanager
  def on(self, p):
    """Run as process p."""
    old = self.w.proc
    self.w.proc = p
    p.mods.activate()
    try:
      yield p.mods
    finally:
      self.w.proc = old

  def tool(self, argv, seed, p=None):
    """Run a keyczart command in a new process.

    Returns (outcome, exception): 'ok', 'error' (library error), 'other'
    (any other failure) or 'crash'.
    """
    p = p or self.proc('keyczart')
    self.w.entropy.reseed(seed)
    with self.on(p) as K:
      return self.attempt(K, lambda: K.keyczart.main(list(argv)))[:2]

  def attempt(self, K, fn):
    """(outcome, exception, value) of fn()."""
    try:
      v = fn()
      if isinstance(v, int) and not isinstance(v, bool) and v:
        return 'other', SystemExit(v), v
      return 'ok', None, v
    except K.errors.KeyczarError as e:
      return 'error', e, None
    except SystemExit as e:
      return ('other' if e.code else 'ok'), e, None
    except (W.SimCrash, W.ProcessExit) as e:
      return 'crash', e, None
    except (Violation, W.HarnessError):
      raise
    except Exception as e:  # pylint: disable=broad-except
      return 'other', e, None

  # storage ---------------------------------------------------------------------
  def mkdir(self, loc):
    self.w.fs.h_mkdirs(loc)

  def files(self, loc, fs=None):
    fs = fs or self.w.fs
    if not fs.h_exists(loc):
      return {}
    return fs.h_files(loc)

  def stored(self, loc, crypter=None, fs=None):
    """refkz.Keyset of what is stored, or None when there is no keyset."""
    f = self.files(loc, fs)
    if 'meta' not in f:
      return None
    return refkz.Keyset.parse(f, crypter)

  def must_store(self, loc, crypter=None, fs=None, when=''):
    try:
      ks = self.stored(loc, crypter, fs)
    except refkz.RefError as e:
      raise Violation('bad-store', 'stored keyset is broken%s: %s' % (when, e))
    if ks is None:
      raise Violation('bad-store', 'stored keyset is gone%s' % when)
    return ks

  # reading through the real code -----------------------------------------------
  def reader(self, K, loc, crypter=None):
    r = K.readers.CreateReader(loc)
    if crypter is not None:
      r = K.readers.EncryptedReader(r, crypter)
    return r

  def open(self, K, role, loc, crypter_loc=None):
    """Open a keyset in a role, with the crypter of an encrypted keyset."""
    cls = getattr(K.keyczar, role)
    if crypter_loc is None:
      return cls.Read(loc)
    crypter = K.keyczar.Crypter.Read(crypter_loc)
    return cls(self.reader(K, loc, crypter))

  # time --------------------------------------------------------------------------
  def at(self, delay, what):
    self.seq += 1
    self.events.append((self.w.now + delay, self.seq, what))

  def due(self, advance):
    """Let time pass; return what is due, in order."""
    t0 = self.w.now
    self.w.now += advance
    out = sorted([e for e in self.events if e[0] <= self.w.now],
                 key=lambda e: (e[0], e[1]))
    self.events = [e for e in self.events if e[0] > self.w.now]
    self.ctx.simtime += self.w.now - t0
    return [e[2] for e in out]

  def drain(self):
    self.ctx.simtime += max([0] + [e[0] - self.w.now for e in self.events])
    out = sorted(self.events, key=lambda e: (e[0], e[1]))
    self.events = []
    return [e[2] for e in out]


def picture_of(czar):
  """refkz.Keyset made of an opened Keyczar, through its public interface."""
  m = json.loads(str(czar))
  files = {}
  m2 = dict(m)
  m2['encrypted'] = False
  files['meta'] = json.dumps(m2).encode()
  seen = set()
  for v in czar.versions:
    seen.add(v.version_number)
    files[str(v.version_number)] = str(czar.GetKey(v)).encode()
  listed = [v['versionNumber'] for v in m['versions']]
  if sorted(seen) != sorted(listed):
    raise Violation('partial-keyset', 'opened keyset lists versions %s but '
                    'holds keys for %s' % (sorted(listed), sorted(seen)))
  try:
    return refkz.Keyset.parse(files)
  except refkz.RefError as e:
    raise Violation('partial-keyset', 'opened keyset is broken: %s' % e)


def pic(ks):
  """Picture without the encrypted flag (None for no keyset)."""
  if ks is None:
    return None
  p = ks.picture()
  return p[:3] + p[4:]


def brief(ks):
  if ks is None:
    return 'no keyset'
  return '%s/%s{%s}' % (ks.type, ks.purpose, ', '.join(
      '%d:%s:%s' % (n, s, ks.keys[n].hash.hex())
      for n, s in sorted(ks.statuses().items())))


# ----------------------------------------------------------------------------
# administration

class Admin(object):
  """Administers one keyset, plain or encrypted, by tool or by API."""

  def __init__(self, site, kind, loc, crypter_loc=None, name='Test'):
    self.site, self.kind, self.loc = site, kind, loc
    self.crypter_loc = crypter_loc
    self.name = name

  def create(self, seed=0):
    self.site.mkdir(self.loc)
    out, e = self.site.tool(['create', '--location=' + self.loc,
                             '--name=' + self.name] + KINDS[self.kind][0], seed)
    if out != 'ok':
      raise Violation('setup', 'create failed: %r' % e)

  def argv(self, op):
    """keyczart arguments of an op dict."""
    o = op['op']
    a = [o, '--location=' + self.loc]
    if o == 'addkey':
      if op.get('status') is not None:
        a.append('--status=' + op['status'].lower())
      if op.get('size') is not None:
        a.append('--size=%d' % op['size'])
      if self.crypter_loc:
        a.append('--crypter=' + self.crypter_loc)
    elif o in ('promote', 'demote', 'revoke'):
      if op.get('version') is not None:
        a.append('--version=%d' % op['version'])
    elif o == 'pubkey':
      a.append('--destination=' + op['dest'])
    elif o == 'create':
      a += ['--name=' + self.name] + KINDS[self.kind][0]
    return a

  def by_api(self, K, op):
    """The same through the classes (the only way for encrypted keysets)."""
    crypter = (K.keyczar.Crypter.Read(self.crypter_loc)
               if self.crypter_loc else None)
    czar = K.keyczar.GenericKeyczar(self.site.reader(K, self.loc, crypter))
    o = op['op']
    if o == 'addkey':
      status = K.keyinfo.GetStatus((op.get('status') or 'ACTIVE'))
      czar.AddVersion(status, op.get('size'))
    elif o == 'promote':
      czar.Promote(op['version'])
    elif o == 'demote':
      czar.Demote(op['version'])
    elif o == 'revoke':
      czar.Revoke(op['version'])
    elif o == 'pubkey':
      czar.PublicKeyExport(op['dest'])
      return
    else:
      raise W.HarnessError(o)
    writer = K.writers.CreateWriter(self.loc)
    try:
      czar.Write(writer, crypter)
      if o == 'revoke':
        writer.Remove(op['version'])
    finally:
      writer.Close()

  def run(self, op, seed, p=None):
    """Run op in its own process: (outcome, exception)."""
    site = self.site
    api = op.get('api') or (self.crypter_loc and
                            op['op'] not in ('addkey', 'create'))
    if not api:
      return site.tool(self.argv(op), seed, p)
    p = p or site.proc('admin')
    site.w.entropy.reseed(seed)
    with site.on(p) as K:
      return site.attempt(K, lambda: self.by_api(K, op))[:2]

  def parse(self, fs=None):
    return self.site.stored(self.loc, self.ref_crypter(fs), fs)

  def must(self, fs=None, when=''):
    return self.site.must_store(self.loc, self.ref_crypter(fs), fs, when)

  def ref_crypter(self, fs=None):
    if not self.crypter_loc:
      return None
    return self.site.stored(self.crypter_loc, None, fs)


def gen_admin(rng, kind, weights=None):
  """A random, usually valid, administration op.  pick is resolved later."""
  w = weights or {'addkey': 4, 'promote': 4, 'demote': 4, 'revoke': 3}
  o = weighted(rng, [(v, k) for k, v in sorted(w.items())])
  op = {'op': o, 'seed': seed_of(rng), 'pick': rng.randrange(1000)}
  if o == 'addkey':
    op['status'] = weighted(rng, [(5, 'PRIMARY'), (4, 'ACTIVE'), (2, 'INACTIVE'),
                                  (1, None)])
    op['size'] = gen_size(rng, kind)
  return op


def resolve(op, statuses):
  """Fill in the version from pick; prefer versions the op is legal for."""
  o = op['op']
  if o not in ('promote', 'demote', 'revoke') or op.get('version') is not None:
    return dict(op)
  legal = {'promote': ('ACTIVE', 'INACTIVE'), 'demote': ('PRIMARY', 'ACTIVE'),
           'revoke': ('INACTIVE',)}[o]
  nums = sorted(n for n, s in statuses.items() if s in legal)
  op = dict(op)
  if nums:
    op['version'] = nums[op['pick'] % len(nums)]
    op['legal'] = True
  else:
    op['version'] = None
    op['legal'] = False
  return op


def expect(statuses, op):
  """Statuses after op, or None when op must be refused."""
  st = dict(statuses)
  o = op['op']
  if o == 'addkey':
    n = max(list(st) + [0]) + 1
    s = op.get('status') or 'ACTIVE'
    if s == 'PRIMARY':
      st = {k: ('ACTIVE' if v == 'PRIMARY' else v) for k, v in st.items()}
    st[n] = s
    return st
  v = op.get('version')
  if v not in st:
    return None
  cur = st[v]
  if o == 'promote':
    if cur == 'PRIMARY':
      return None
    if cur == 'ACTIVE':
      st = {k: ('ACTIVE' if s == 'PRIMARY' else s) for k, s in st.items()}
      st[v] = 'PRIMARY'
    else:
      st[v] = 'ACTIVE'
    return st
  if o == 'demote':
    if cur == 'INACTIVE':
      return None
    st[v] = 'ACTIVE' if cur == 'PRIMARY' else 'INACTIVE'
    return st
  if o == 'revoke':
    if cur != 'INACTIVE':
      return None
    del st[v]
    return st
  raise W.HarnessError(o)


# ----------------------------------------------------------------------------
# fault plans

def crash_fault(spec, ctx, fired):
  """Kill or tear at the spec['at']-th call."""
  def f(proc, idx, name, path, mutating):
    if idx != spec['at']:
      return None
    fired.append((name, path))
    if spec['mode'] == 'torn' and name == 'write':
      ctx.fault('torn_write_crash')
      return ('torn', spec.get('frac', 0.5))
    ctx.fault('crash_before_' + name)
    proc.dead = True
    raise W.SimCrash()
  return f


def error_fault(spec, ctx, fired):
  """Fail calls from spec['at'] on, spec['count'] times."""
  code = ERRNOS[spec['errno']]

  def f(proc, idx, name, path, mutating):
    if not spec['at'] <= idx < spec['at'] + spec['count']:
      return None
    if spec.get('short') and name in ('read', 'write'):
      fired.append(('short', path))
      ctx.fault('short_' + name)
      return ('short', spec['short'])
    fired.append((name, path))
    ctx.fault('%s_on_%s' % (spec['errno'], name))
    return ('err', code)
  return f


# ----------------------------------------------------------------------------
# scenario base

class Scenario(object):
  id = None
  threaded = False
  must_reach = ()
  rule = ''
  state_measure = 'distinct values of the abstract state named in rule'
  real = ['keyczar package, imported from the working tree']
  stubs = ['file system below %s (in-memory, page cache / durable state)' % ROOT,
           'os.urandom and Crypto.Random (seeded stream)',
           'clock', 'RSA/DSA key generation (fixed pool chosen by entropy)',
           'pycrypto AES block cipher (OpenSSL through M2Crypto)']
  assumptions = ['hash functions, OpenSSL, pycrypto RSA/DSA arithmetic and '
                 'pyasn1 are what they claim to be']
  time_note = ('simulated time is the delay of messages and the clock readings '
               'of the run; the code under test has no timers')
  quick_runs = 400
  thorough_factor = 15

  def list_keys(self, plan):
    return [k for k in ('ops', 'switches') if isinstance(plan.get(k), list)]

  def simplify(self, plan):
    """Yield simpler candidates."""
    for key in ('lib', 'shortio', 'bias'):
      if plan.get(key):
        p = json.loads(json.dumps(plan))
        p[key] = None
        yield p
    ops = plan.get('ops')
    if isinstance(ops, list):
      for i, op in enumerate(ops):
        if not isinstance(op, dict):
          continue
        for key in sorted(op):
          for simple in self.simpler(key, op[key]):
            p = json.loads(json.dumps(plan))
            p['ops'][i][key] = simple
            yield p

  def simpler(self, key, value):
    if key == 'data' and isinstance(value, list):
      if value[1] > 1:
        yield ['text', 1, 0]
        yield ['text', value[1] // 2, 0]
        yield ['text', value[1] - 1, 0]
      if value[0] != 'text':
        yield ['text', value[1], 0]
    elif key == 'delay' and value:
      yield 0
    elif key in ('pick',) and value:
      yield 0


def common_plan(rng):
  return {'wseed': seed_of(rng),
          'lib': rng.choice((None, None, 'pycrypto', 'm2crypto')),
          'shortio': rng.choice((None, None, None, 1, 2)),
          'bias': (rng.choice(sorted(W.BIAS)) if rng.random() < 0.06
                   else None)}
