"""C18: a deployment that mixes this implementation with others."""
import json
import os
import random

from . import edges
from . import msgs
from . import refkz
from . import world as W
from .common import (Admin, Scenario, Site, Violation, ASYM, B, CRYPT, KINDS,
                     PURPOSE, ROOT, S,
                     brief, common_plan, data, expect, gen_admin, gen_data,
                     gen_size, resolve, seed_of, weighted)
from .scen_admin import maxdata

with open(os.path.join(os.path.dirname(__file__), 'golden.json')) as _f:
  GOLDEN = json.load(_f)

ENC, SIG, CRY, OUT = (ROOT + x for x in ('/enc', '/sig', '/cry', '/out'))
LOC = {'e': ENC, 's': SIG}
HUGE = 2048


def golden_kind(name):
  m = json.loads(GOLDEN['sets'][name]['files']['meta'])
  if m['type'] in ('AES', 'HMAC_SHA1'):
    return {'AES': 'aes', 'HMAC_SHA1': 'hmac'}[m['type']]
  if m['type'].endswith('_PUB'):
    return 'pub'
  if m['type'] == 'DSA_PRIV':
    return 'dsa'
  return 'rsa' if 'CRYPT' in m['purpose'] else 'rsasign'


BY_KIND = {}
for _n in sorted(GOLDEN['sets']):
  BY_KIND.setdefault(golden_kind(_n), []).append(_n)


def golden_files(name):
  return {k: v.encode('latin-1')
          for k, v in GOLDEN['sets'][name]['files'].items()}


# what the format fixes in the files we write -------------------------------

INTS = {'RSA_PUB': ('modulus', 'publicExponent'),
        'RSA_PRIV': ('privateExponent', 'primeP', 'primeQ', 'primeExponentP',
                     'primeExponentQ', 'crtCoefficient'),
        'DSA_PUB': ('p', 'q', 'g', 'y'), 'DSA_PRIV': ('x',)}


def strict_b64(s, what):
  if not isinstance(s, str):
    raise Violation('format', '%s is not a string' % what)
  try:
    b = refkz.b64d(s)
  except refkz.RefError as e:
    raise Violation('format', '%s: %s' % (what, e))
  if refkz.b64e(b) != s:
    raise Violation('format', '%s is not unpadded web-safe Base64: ...%r' %
                    (what, s[-8:]))
  return b


def strict_key(type_, d):
  """Would an implementation that takes the format literally read this?"""
  if not isinstance(d.get('size'), int) or isinstance(d.get('size'), bool):
    raise Violation('format', '%s size is %r' % (type_, d.get('size')))
  for k in INTS.get(type_, ()):
    b = strict_b64(d.get(k), '%s %s' % (type_, k))
    if not b or b[0] & 0x80:
      raise Violation('format', '%s %s reads as a negative number' % (type_, k))
  if type_ == 'AES':
    b = strict_b64(d.get('aesKeyString'), 'aesKeyString')
    if len(b) * 8 != d['size']:
      raise Violation('format', 'AES key of %d bytes has size %d' %
                      (len(b), d['size']))
    if d.get('mode') != 'CBC':
      raise Violation('format', 'AES mode is %r' % d.get('mode'))
    strict_key('HMAC_SHA1', d['hmacKey'])
  elif type_ == 'HMAC_SHA1':
    strict_b64(d.get('hmacKeyString'), 'hmacKeyString')
  elif type_.endswith('_PRIV'):
    strict_key(type_.replace('PRIV', 'PUB'), d['publicKey'])


def strict_files(files, crypter, only=None):
  """The files of a keyset we wrote; only: the key files to look at."""
  try:
    m = json.loads(files['meta'].decode('ascii'))
    for f, t in (('name', str), ('purpose', str), ('type', str),
                 ('encrypted', bool), ('versions', list)):
      if not isinstance(m.get(f), t):
        raise Violation('format', 'metadata %s is %r' % (f, m.get(f)))
    for v in m['versions']:
      for f, t in (('versionNumber', int), ('status', str),
                   ('exportable', bool)):
        if not isinstance(v.get(f), t):
          raise Violation('format', 'version %s is %r' % (f, v.get(f)))
      n = str(v['versionNumber'])
      if only is not None and n not in only:
        continue
      raw = files[n]
      if m['encrypted']:
        t = raw.decode('ascii').strip()
        raw = crypter.decrypt(strict_b64(t, 'encrypted key'))
      strict_key(m['type'], json.loads(raw.decode('ascii')))
  except (KeyError, ValueError, refkz.RefError) as e:
    raise Violation('format', 'another implementation cannot read the keyset: '
                    '%r' % e)


def strict_message(how, msg, raw, key, text):
  """What a literal reader of the message formats insists on."""
  if how.endswith('64') and refkz.b64e(raw) != msg:
    raise Violation('format', '%s message is not unpadded web-safe Base64' %
                    how)
  if how in ('b64', 'raw', 'stream64', 'streamraw'):
    return
  sig = raw if how.startswith('unv') else (
      raw[5:] if how.startswith('det') else raw[9 + len(text):])
  pub = getattr(key, 'pub', key)
  if key.type.startswith('RSA'):
    if len(sig) != pub.k:
      raise Violation('format', 'RSA signature of %d bytes for a modulus of %d'
                      % (len(sig), pub.k))
  elif key.type.startswith('DSA'):
    try:
      r, s = refkz.parse_dsa(sig)
    except (refkz.RefError, IndexError):
      raise Violation('format', 'DSA signature is not DER')
    if refkz.dsa_der(r, s) != sig:
      raise Violation('format', 'DSA signature is not canonical DER')


# the other implementations ---------------------------------------------------

class Peer(object):
  """Another implementation, working on the same stored keysets."""

  def __init__(self, site, seed):
    self.site = site
    self.rng = random.Random('peer/%s' % seed)

  def reseed(self, seed):
    self.rng = random.Random('peer/%s' % seed)

  def new_key(self, kind, size):
    r = self.rng.randbytes
    if kind == 'aes':
      return refkz.Aes(r((size or 128) // 8), refkz.Hmac(r(32)))
    if kind == 'hmac':
      return refkz.Hmac(r(32))
    if kind == 'dsa':
      y, g, p, q, x = W._dsa_pick(1024, r(32))
      return refkz.DsaPriv(refkz.DsaPub(p, q, g, y), x)
    n, e, d, p, q = W._rsa_pick(size or 2048, r(32))
    if self.rng.random() < 0.7:
      p, q = q, p
    return refkz.RsaPriv(refkz.RsaPub(n, e), d, p, q)

  def store(self, loc, ks, crypter, old=None, layout=0):
    """Write a keyset the way other implementations lay it out."""
    r = self.rng.randbytes
    for n, k in ks.keys.items():
      if old is not None and n in old.versions:
        continue
      t = self.layout(k.dump(), layout)
      if crypter is not None:
        t = refkz.b64e(crypter.encrypt(t, r)).encode()
      self.site.w.fs.h_write('%s/%d' % (loc, n), t)
    m = json.loads(ks.dump()['meta'].decode())
    m['encrypted'] = crypter is not None
    if layout & 4:
      m['versions'].reverse()
    self.site.w.fs.h_write(loc + '/meta', self.layout(m, layout))
    if old is not None:
      for n in old.versions:
        if n not in ks.versions:
          self.site.w.fs.unlink('%s/%d' % (loc, n))

  def layout(self, d, how):
    """JSON in another field order and with other white space."""
    def shuffled(x):
      if isinstance(x, dict):
        ks = sorted(x)
        if how & 1:
          self.rng.shuffle(ks)
        return {k: shuffled(x[k]) for k in ks}
      return [shuffled(i) for i in x] if isinstance(x, list) else x
    d = shuffled(d)
    if how & 2:
      return (json.dumps(d, indent=3) + '\n').encode()
    return json.dumps(d, separators=(',', ':')).encode()

  def admin(self, loc, kind, ks, op, crypter):
    want = expect(ks.statuses(), op)
    new = refkz.Keyset(ks.name, ks.purpose, ks.type, ks.encrypted)
    for n, s in want.items():
      if n in ks.versions:
        new.versions[n] = [s, ks.versions[n][1]]
        new.keys[n] = ks.keys[n]
      else:
        new.versions[n] = [s, False]
        taken = {k.hash for k in ks.keys.values()}
        while True:
          new.keys[n] = self.new_key(kind, op.get('size'))
          if new.keys[n].hash not in taken:
            break
    self.store(loc, new, crypter, ks, op.get('layout', 0))

  def make(self, key, how, text, nonce, edge, seed):
    """A message made with key."""
    one = refkz.Keyset('', '', key.type)
    one.versions[1] = ['PRIMARY', False]
    one.keys[1] = key
    r = self.rng.randbytes
    if edge in edges.RSA:
      s = edges.oaep_seed(getattr(key, 'pub', key), B(text), edge, seed)
      if s is not None:
        r = lambda n: s
    for i in range(edges.tries(edge, key)):
      t = text + ('%d' % i if edge == 'sig0' and i else '')
      msg = msgs.ref_make(one, how, t, nonce, r)
      if edge not in ('sig0', 'short'):
        break
      raw = msgs.raw_of(how, msg)
      sig = raw if how.startswith('unv') else (
          raw[5:] if how.startswith('det') else raw[9 + len(t):])
      if edges.hit(edge, sig, key):
        break
    return t, msg


# ----------------------------------------------------------------------------

class Exchange(Scenario):
  id = 'C18'
  technique = ('seeded search over histories of deployments that mix this '
               'implementation, an independent implementation of the format '
               'and stored data of other releases, with delayed, duplicated '
               'and reordered messages and shared keysets, checked against '
               'the independent implementation')
  must_reach = ('us_to_peer', 'peer_to_us', 'golden_message', 'golden_public',
                'golden_session', 'peer_admin', 'us_admin', 'us_export',
                'peer_export', 'session_us', 'session_peer',
                'signed_session_us', 'signed_session_peer', 'crypted',
                'after_rotation', 'stale_receiver', 'zero_padded_dsa',
                'java_order', 'genkey')
  rule = ('a run is a seeded history over two shared keysets in which this '
          'implementation and others take turns at creating, rotating and '
          'exporting keysets and at producing and consuming messages; '
          'non-trivial when a message or keyset crossed sides')
  state_measure = '(kind, origin, form of message, from, to, edge)'
  quick_runs = 3750
  real = Scenario.real
  stubs = Scenario.stubs + ['the other implementations (refkz.py, written from '
                            'the format; validated on stored Java and C++ data)']

  def gen_slot(self, rng, kinds):
    kind = weighted(rng, kinds)
    origin = weighted(rng, [(3, 'us'), (3, 'peer'), (3, 'golden')])
    s = {'kind': kind, 'origin': origin, 'crypted': False, 'seed': seed_of(rng)}
    if origin == 'golden':
      s['golden'] = rng.choice(BY_KIND[kind])
    else:
      s['crypted'] = rng.random() < 0.15
      s['layout'] = rng.randrange(8)
      s['setup'] = [{'op': 'addkey', 'seed': seed_of(rng), 'pick': 0,
                     'status': 'PRIMARY' if not i or rng.random() < 0.6
                     else 'ACTIVE', 'size': gen_size(rng, kind)}
                    for i in range(rng.randint(1, 2))]
    return s

  def gen(self, rng, tier, index):
    p = common_plan(rng)
    p['e'] = self.gen_slot(rng, [(4, 'aes'), (3, 'rsa')])
    p['s'] = self.gen_slot(rng, [(3, 'hmac'), (3, 'rsasign'), (4, 'dsa')])
    p['crypter'] = rng.choice(('us', 'peer', 'golden'))
    p['cgolden'] = rng.choice([n for n in BY_KIND['aes']
                               if 'crypted' not in n and 'noprimary' not in n])
    ops = []
    big = p['e']['kind'] == 'rsa' and rng.random() < 0.4
    if big and 'setup' in p['e']:
      for op in p['e']['setup']:
        op['size'] = HUGE
    for _ in range(rng.randint(5, 22)):
      slot = rng.choice('es')
      kind = p[slot]['kind']
      r = rng.random()
      if r < 0.42:
        op = {'op': 'send', 'slot': slot, 'from': rng.choice(('us', 'peer')),
              'how': rng.choice(msgs.hows(kind)), 'seed': seed_of(rng),
              'data': gen_data(rng, maxdata(kind)), 'pick': rng.randrange(1000),
              'nonce': gen_data(rng, rng.choice((0, 20))),
              'delay': rng.choice((0, 0, 3, 30)),
              'copies': rng.choice((1, 1, 2)),
              'to': weighted(rng, [(3, 'other'), (1, 'same')]),
              'via': weighted(rng, [(3, 'fresh'), (1, 'stale'), (1, 'public'),
                                    (1, 'stream')]),
              'old': rng.random() < 0.25, 'pad': rng.random() < 0.3,
              'edge': edges.gen(rng, kind, 0.04)}
      elif r < 0.52:
        op = {'op': 'golden', 'slot': slot, 'pick': rng.randrange(1000),
              'via': weighted(rng, [(3, 'fresh'), (1, 'stale'), (1, 'public')])}
      elif r < 0.64:
        op = {'op': 'session', 'from': rng.choice(('us', 'peer')),
              'signed': rng.random() < 0.5, 'seed': seed_of(rng),
              'texts': [gen_data(rng, 120) for _ in range(rng.randint(0, 2))],
              'raw': rng.random() < 0.2, 'pad': rng.random() < 0.4,
              'via': rng.choice(('private', 'public'))}
      elif r < 0.7:
        op = {'op': 'export', 'slot': slot, 'by': rng.choice(('us', 'peer')),
              'seed': seed_of(rng)}
      elif r < 0.73:
        op = {'op': 'gpublic', 'pick': rng.randrange(1000)}
      elif r < 0.75:
        op = {'op': 'gsession', 'pick': rng.randrange(1000)}
      elif r < 0.79:
        op = {'op': 'reopen', 'slot': slot}
      elif r < 0.794:
        op = {'op': 'genkey', 'seed': seed_of(rng)}
      else:
        op = gen_admin(rng, kind)
        op.update({'admin': True, 'slot': slot, 'layout': rng.randrange(8),
                   'by': rng.choice(('us', 'peer'))})
        if big and slot == 'e' and op.get('size'):
          op['size'] = HUGE
      ops.append(op)
    p['ops'] = ops
    return p

  # the deployment -------------------------------------------------------------

  def crypter(self, site, plan, name=None):
    """Set up the keyset that encrypts other keysets."""
    if site.w.fs.h_exists(CRY):
      return
    site.mkdir(CRY)
    how = 'golden' if name else plan['crypter']
    if how == 'golden':
      for n, b in golden_files(name or plan['cgolden']).items():
        site.w.fs.h_write(CRY + '/' + n, b)
    elif how == 'peer':
      ks = refkz.Keyset('crypter', 'DECRYPT_AND_ENCRYPT', 'AES')
      ks.versions[1] = ['PRIMARY', False]
      ks.keys[1] = self.peer.new_key('aes', 256)
      self.peer.store(CRY, ks, None)
    else:
      a = Admin(site, 'aes', CRY, name='crypter')
      a.create(1)
      self.must_run(a, {'op': 'addkey', 'status': 'PRIMARY', 'size': None}, 2)

  def must_run(self, a, op, seed):
    out, e = a.run(op, seed)
    if out != 'ok':
      raise Violation('admin-failed', '%s: %s %r' % (op['op'], out, e))

  def slot(self, site, plan, which):
    s = plan[which]
    loc = LOC[which]
    kind = s['kind']
    site.mkdir(loc)
    cr = None
    if s['origin'] == 'golden':
      g = GOLDEN['sets'][s['golden']]
      for n, b in golden_files(s['golden']).items():
        site.w.fs.h_write(loc + '/' + n, b)
      if g['crypter']:
        cr = loc + '-cry'
        site.mkdir(cr)
        for n, b in golden_files(g['crypter']).items():
          site.w.fs.h_write(cr + '/' + n, b)
      return Admin(site, kind, loc, cr)
    if s['crypted']:
      self.crypter(site, plan)
      cr = CRY
      self.ctx.probe('crypted')
    a = Admin(site, kind, loc, cr)
    self.peer.reseed(s['seed'])
    if s['origin'] == 'us':
      a.create()
      for op in s['setup']:
        self.must_run(a, op, op['seed'])
      strict_files(site.files(loc), a.ref_crypter())
    else:
      ks = refkz.Keyset('Test', {'aes': 'DECRYPT_AND_ENCRYPT',
                                 'rsa': 'DECRYPT_AND_ENCRYPT'}.get(
                                     kind, 'SIGN_AND_VERIFY'),
                        {'aes': 'AES', 'hmac': 'HMAC_SHA1', 'dsa': 'DSA_PRIV'
                        }.get(kind, 'RSA_PRIV'))
      self.peer.store(loc, ks, a.ref_crypter(), None, s['layout'])
      for op in s['setup']:
        old = site.must_store(loc, a.ref_crypter())
        self.peer.admin(loc, kind, old, dict(op, layout=s['layout']),
                        a.ref_crypter())
    return a

  def run(self, plan, ctx):
    site = self.site = Site(plan, ctx)
    self.ctx = ctx
    self.peer = Peer(site, plan['wseed'])
    self.stale = {}
    self.rotations = 0
    slots = self.slots = {w: self.slot(site, plan, w) for w in 'es'}
    for op in plan['ops']:
      ctx.steps += 1
      for m in site.due(1):
        self.deliver(m)
      if op.get('admin'):
        self.admin(op)
      elif op['op'] == 'send':
        self.send(plan, op)
      elif op['op'] == 'golden':
        self.golden(plan, op)
      elif op['op'] == 'session':
        self.session(op)
      elif op['op'] == 'export':
        self.export(op)
      elif op['op'] == 'gpublic':
        self.gpublic(op)
      elif op['op'] == 'gsession':
        self.gsession(op)
      elif op['op'] == 'reopen':
        self.reopen(op['slot'])
      elif op['op'] == 'genkey':
        self.genkey(op['seed'])
    for m in site.drain():
      self.deliver(m)
    for w in 'es':
      self.same_view(slots[w])

  def keys(self, a):
    """What the stored keyset means to another implementation."""
    try:
      return a.must()
    except Violation as e:
      raise Violation('format', 'another implementation cannot read the '
                      'keyset: %s' % e)

  def same_view(self, a):
    """Our side sees the keyset the other side stored, key by key."""
    ks = self.keys(a)
    site = self.site
    with site.on(site.proc('reader')) as K:
      out, e, obj = site.attempt(K, lambda: site.open(
          K, 'GenericKeyczar', a.loc, a.crypter_loc))
      if out != 'ok':
        raise Violation('cannot-open', '%s: %s %r' % (brief(ks), out, e))
      ids = {v.version_number: refkz.b64d(obj.GetKey(v).hash_id)
             for v in obj.versions}
    want = {n: k.hash for n, k in ks.keys.items()}
    if ids != want:
      raise Violation('key-id', 'key identifiers are %s, other implementations '
                      'compute %s' % ({n: h.hex() for n, h in ids.items()},
                                      {n: h.hex() for n, h in want.items()}))

  # administration -------------------------------------------------------------

  def admin(self, op):
    a = self.slots[op['slot']]
    ks = self.keys(a)
    rop = resolve(op, ks.statuses())
    if op['op'] != 'addkey' and not rop['legal']:
      return
    want = expect(ks.statuses(), rop)
    if op['by'] == 'peer':
      self.peer.reseed(op['seed'])
      self.peer.admin(a.loc, a.kind, ks, rop, a.ref_crypter())
      self.ctx.probe('peer_admin')
    else:
      self.must_run(a, rop, op['seed'])
      self.ctx.probe('us_admin')
      new = sorted(str(n) for n in want if n not in ks.versions)
      strict_files(self.site.files(a.loc), a.ref_crypter(), new)
    after = self.keys(a)
    if after.statuses() != want:
      raise Violation('format', 'after %s by %s the others see %s instead of %s'
                      % (op['op'], op['by'], after.statuses(), want))
    for n in ks.keys:
      if n in after.keys and after.keys[n].ident() != ks.keys[n].ident():
        raise Violation('format', 'key %d reads differently after %s by %s' %
                        (n, op['op'], op['by']))
    self.rotations += 1
    self.ctx.nontrivial = True
    self.ctx.event('admin', op['slot'], op['op'], op['by'])

  def export(self, op):
    """One side exports the public keyset; the other uses it."""
    a = self.slots[op['slot']]
    if a.kind not in ASYM:
      return
    site = self.site
    site.mkdir(OUT)
    ks = self.keys(a)
    if op['by'] == 'us':
      self.must_run(a, {'op': 'pubkey', 'dest': OUT}, op['seed'])
      files = site.files(OUT)
      strict_files(files, None)
      pub = site.must_store(OUT)
      want = ks.public()
      if {n: k.ident() for n, k in pub.keys.items()} != {
          n: k.ident() for n, k in want.keys.items()} or (
              pub.purpose, pub.type) != (want.purpose, want.type):
        raise Violation('format', 'exported keyset reads as %s, not %s' %
                        (brief(pub), brief(want)))
      self.ctx.probe('us_export')
    else:
      self.peer.reseed(op['seed'])
      for n in site.files(OUT):
        site.w.fs.unlink(OUT + '/' + n)
      self.peer.store(OUT, ks.public(), None, None, op['seed'] % 8)
      self.ctx.probe('peer_export')
    if 'PRIMARY' not in ks.statuses().values():
      return
    r = random.Random('export/%s' % op['seed'])
    text = S(r.randbytes(r.choice((0, 1, 16, 40))))
    if a.kind == 'rsa':
      site.w.entropy.reseed(op['seed'])
      with site.on(site.proc('stranger')) as K:
        out, e, msg = site.attempt(
            K, lambda: K.keyczar.Encrypter.Read(OUT).Encrypt(text))
      if out != 'ok':
        raise Violation('refused', 'encrypting to a public keyset exported by '
                        '%s: %s %r' % (op['by'], out, e))
      if not msgs.made_by('b64', msg, ks.primary(), text):
        raise Violation('refused', 'ciphertext made with a public keyset '
                        'exported by %s is not decrypted elsewhere' % op['by'])
    else:
      _, sig = self.peer.make(ks.primary(), 'det64', text, '', None, 0)
      with site.on(site.proc('stranger')) as K:
        out, e, v = site.attempt(
            K, lambda: K.keyczar.Verifier.Read(OUT).Verify(text, sig))
      if out != 'ok' or v is not True:
        raise Violation('refused', 'signature checked with a public keyset '
                        'exported by %s: %s %r' % (op['by'], out, e or v))
    self.ctx.nontrivial = True

  def genkey(self, seed):
    """The test data this implementation generates for the others."""
    site = self.site
    top = ROOT + '/gen'
    kinds = {'aes': 'aes', 'aes-crypted': 'aes', 'hmac': 'hmac', 'rsa': 'rsa',
             'rsa-sign': 'rsasign', 'dsa': 'dsa'}
    for n in list(kinds) + ['dsa.public', 'rsa-sign.public']:
      site.mkdir('%s/%s' % (top, n))
    out, e = site.tool(['genkey', '--location=' + top], seed)
    if out != 'ok':
      raise Violation('genkey', 'generating keysets: %s %r' % (out, e))
    self.ctx.probe('genkey')
    for n, kind in kinds.items():
      loc = top + '/' + n
      cr = site.must_store(top + '/aes') if n == 'aes-crypted' else None
      files = site.files(loc)
      strict_files(files, cr)
      ks = site.must_store(loc, cr)
      if ks.statuses() != {1: 'ACTIVE', 2: 'PRIMARY'} or \
          ks.type != KINDS[kind][1] or ks.purpose != PURPOSE[kind] or \
          ks.encrypted != (cr is not None):
        raise Violation('genkey', '%s is %s' % (n, brief(ks)))
      text = 'This is some test data'
      pub = (site.must_store(loc + '.public')
             if n in ('dsa', 'rsa-sign') else None)
      for v in (1, 2):
        msg = files['%d.out' % v].decode('ascii')
        how = 'b64' if kind in ('aes', 'rsa') else 'det64'
        if not msgs.made_by(how, msg, ks.keys[v], text):
          raise Violation('genkey', 'output %d of %s does not match key %d' %
                          (v, n, v))
        if pub and not (pub.statuses() == ks.statuses() and
                        msgs.made_by(how, msg, pub.keys[v], text)):
          raise Violation('genkey', 'output %d of %s does not match the '
                          'exported keyset %s' % (v, n, brief(pub)))
    self.ctx.nontrivial = True

  # messages -------------------------------------------------------------------

  def reopen(self, which):
    a = self.slots[which]
    ks = self.keys(a)
    p = self.site.proc('longlived')
    objs = {}
    roles = (('Crypter',) if a.kind in CRYPT else
             ('Verifier', 'UnversionedVerifier'))
    with self.site.on(p) as K:
      for role in roles:
        out, e, objs[role] = self.site.attempt(K, lambda: self.site.open(
            K, role, a.loc, a.crypter_loc))
        if out != 'ok':
          raise Violation('cannot-open', '%s: %s %r' % (brief(ks), out, e))
    self.stale[which] = (p, objs, {k.ident() for k in ks.keys.values()})

  def send(self, plan, op):
    a = self.slots[op['slot']]
    ks = self.keys(a)
    site, ctx = self.site, self.ctx
    text, nonce, how, edge = (data(op['data']), data(op['nonce']), op['how'],
                              op['edge'])
    if op['from'] == 'peer':
      key = ks.keys[sorted(ks.keys)[op['pick'] % len(ks.keys)]] if (
          op['old'] and ks.keys) else None
      if key is None:
        if 'PRIMARY' not in ks.statuses().values():
          return
        key = ks.primary()
      self.peer.reseed(op['seed'])
      text, msg = self.peer.make(key, how, text, nonce, edge, op['seed'])
      if (key.type == 'DSA_PRIV' and op['pad'] and how.startswith('att')):
        # the Java implementation fills the signature up to its usual size
        raw = msgs.raw_of(how, msg)
        raw += bytes(max(0, 9 + len(text) + 48 - len(raw)))
        msg = refkz.b64e(raw) if how.endswith('64') else S(raw)
        ctx.probe('zero_padded_dsa')
    else:
      if 'PRIMARY' not in ks.statuses().values():
        return
      key = ks.primary()
      base = text
      p = site.proc('sender')
      with site.on(p) as K:
        out, e, obj = site.attempt(K, lambda: site.open(
            K, msgs.role_for(how, a.kind), a.loc, a.crypter_loc))
        if out != 'ok':
          raise Violation('cannot-open', '%s: %s %r' % (brief(ks), out, e))
        for i in range(edges.tries(edge, key)):
          text = base + ('%d' % i if edge == 'sig0' and i else '')
          site.w.entropy.reseed((op['seed'], i))
          with edges.steer(site, edge, key, text, op['seed']):
            out, e, msg = site.attempt(K, lambda: msgs.produce(
                obj, how, text, nonce))
          if out != 'ok':
            raise Violation('cannot-send', '%s %s %r' % (how, out, e))
          if edge not in ('sig0', 'short'):
            break
          raw = msgs.raw_of(how, msg)
          sig = raw if how.startswith('unv') else (
              raw[5:] if how.startswith('det') else raw[9 + len(text):])
          pub = getattr(key, 'pub', key)
          if edges.hit(edge, sig, key) or (edge == 'sig0' and
                                           len(sig) != pub.k):
            break
      try:
        raw = msgs.raw_of(how, msg)
      except (refkz.RefError, ValueError):
        raise Violation('format', '%s message is not web-safe Base64' % how)
      if not msgs.made_by(how, msg, key, text, nonce):
        raise Violation('refused', '%s message of %d characters (%s) is not '
                        'accepted by another implementation' %
                        (how, len(text), brief(ks)))
      strict_message(how, msg, raw, key, text)
      ctx.probe('us_to_peer')
      ctx.nontrivial = True
    if edge:
      ctx.probe('edge_' + edge)
    m = {'slot': op['slot'], 'how': how, 'msg': msg, 'text': text,
         'nonce': nonce, 'key': key.ident(), 'via': op['via'],
         'from': op['from'], 'rot': self.rotations, 'edge': edge,
         'origin': plan[op['slot']]['origin']}
    for i in range(op['copies']):
      if op['copies'] > 1:
        ctx.fault('net_duplicate')
      if op['to'] == 'same' or op['from'] == 'peer':
        if op['delay']:
          ctx.fault('net_delay')
        site.at(op['delay'] * (i + 1), m)

  def deliver(self, m):
    """A message reaches our side."""
    a = self.slots[m['slot']]
    ks = self.keys(a)
    live = {k.ident() for k in ks.keys.values()}
    how = m['how']
    site, ctx = self.site, self.ctx
    role = msgs.role_for(how, a.kind, False)
    via = m['via']
    if via == 'public' and (a.kind in CRYPT or a.kind not in ASYM):
      via = 'fresh'
    if via == 'stale' and m['slot'] in self.stale:
      p, objs, idents = self.stale[m['slot']]
      if m['key'] not in idents:
        return
      obj = objs[role]
      ctx.probe('stale_receiver')
    else:
      if m['key'] not in live:
        return
      p = site.proc('receiver')
      loc, cl = a.loc, a.crypter_loc
      if via == 'public':
        site.mkdir(OUT)
        self.must_run(a, {'op': 'pubkey', 'dest': OUT}, 1)
        loc, cl = OUT, None
      with site.on(p) as K:
        out, e, obj = site.attempt(K, lambda: site.open(K, role, loc, cl))
      if out != 'ok':
        raise Violation('cannot-open', '%s: %s %r' % (brief(ks), out, e))
    with site.on(p) as K:
      out, e, v = site.attempt(K, lambda: msgs.consume(
          obj, how, m['msg'], m['text'], m['nonce'],
          'stream' if via == 'stream' and a.kind == 'aes' else None))
    want = (True if how.startswith(('det', 'unv')) else m['text'])
    if out != 'ok' or v != want or (want is True and v is not True):
      raise Violation('refused', '%s message of %d characters made by %s '
                      'gave %s %s' % (how, len(m['text']), m['from'], out,
                                      repr(e) if e is not None else
                                      'another value'))
    ctx.nontrivial = True
    ctx.probe('peer_to_us' if m['from'] != 'us' else 'us_to_us')
    if m['rot'] < self.rotations:
      ctx.probe('after_rotation')
    ctx.event('deliver', how, via, m['from'])
    ctx.state(a.kind, m['origin'], how, via, m['from'], m['edge'])

  def golden(self, plan, op):
    """A message stored by another release reaches us."""
    s = plan[op['slot']]
    if s['origin'] != 'golden':
      return
    g = GOLDEN['sets'][s['golden']]
    if not g['msgs']:
      return
    ver, text, msg = g['msgs'][op['pick'] % len(g['msgs'])]
    cr = (refkz.Keyset.parse(golden_files(g['crypter'])) if g['crypter']
          else None)
    key = refkz.Keyset.parse(golden_files(s['golden']), cr).keys[ver]
    self.ctx.probe('golden_message')
    self.deliver({'slot': op['slot'], 'how': 'b64' if s['kind'] in CRYPT else
                  'det64', 'msg': msg, 'text': text, 'nonce': '',
                  'key': key.ident(), 'via': op['via'], 'from': s['golden'],
                  'rot': 0, 'edge': None, 'origin': 'golden'})

  def gpublic(self, op):
    """A public keyset stored by another release is used."""
    names = [n for n in BY_KIND['pub']]
    name = names[op['pick'] % len(names)]
    priv = name[:-len('.public')] if name.endswith('.public') else name[:-4]
    loc = ROOT + '/gpub-' + name.replace('/', '-')
    site = self.site
    site.mkdir(loc)
    for n, b in golden_files(name).items():
      site.w.fs.h_write(loc + '/' + n, b)
    ks = refkz.Keyset.parse(golden_files(priv))
    text = 'This is some test data'
    with site.on(site.proc('stranger')) as K:
      if ks.purpose == 'DECRYPT_AND_ENCRYPT':
        out, e, msg = site.attempt(
            K, lambda: K.keyczar.Encrypter.Read(loc).Encrypt(text))
        good = out == 'ok' and msgs.made_by('b64', msg, ks.primary(), text)
      else:
        sigs = [(t, s) for _, t, s in GOLDEN['sets'][priv]['msgs']]
        sigs.append((text, self.peer.make(ks.primary(), 'det64', text, '',
                                          None, 0)[1]))
        def go():
          v = K.keyczar.Verifier.Read(loc)
          return [v.Verify(t, s) for t, s in sigs]
        out, e, vs = site.attempt(K, go)
        good = out == 'ok' and all(v is True for v in vs)
    if not good:
      raise Violation('refused', 'stored public keyset %s: %s %r' %
                      (name, out, e))
    self.ctx.probe('golden_public')
    self.ctx.nontrivial = True

  # sessions -------------------------------------------------------------------

  def gsession(self, op):
    g = GOLDEN['sessions'][op['pick'] % len(GOLDEN['sessions'])]
    site = self.site
    locs = {}
    for part in ('enc', 'sig'):
      if g[part]:
        locs[part] = ROOT + '/gs-' + part
        site.mkdir(locs[part])
        for n, b in golden_files(g[part]).items():
          site.w.fs.h_write(locs[part] + '/' + n, b)
    with site.on(site.proc('receiver')) as K:
      def go():
        c = K.keyczar.Crypter.Read(locs['enc'])
        if not g['sig']:
          return K.keyczar.SessionDecrypter(c, g['material']).Decrypt(g['msg'])
        return K.keyczar.SignedSessionDecrypter(
            c, K.keyczar.Verifier.Read(locs['sig']), g['material']).Decrypt(
                g['msg'])
      out, e, v = site.attempt(K, go)
    if out != 'ok' or v != g['text']:
      raise Violation('refused', 'stored %s session: %s %r' %
                      ('signed' if g['sig'] else 'plain', out, e))
    self.ctx.probe('golden_session')
    self.ctx.nontrivial = True

  def session(self, op):
    enc, sig = self.slots['e'], self.slots['s']
    eks, sks = self.keys(enc), self.keys(sig)
    signed = op['signed']
    if 'PRIMARY' not in eks.statuses().values() or (
        signed and 'PRIMARY' not in sks.statuses().values()):
      return
    if enc.kind == 'rsa' and signed and (
        eks.primary().pub.k * 8 < HUGE):
      return
    site, ctx = self.site, self.ctx
    texts = [data(d) for d in op['texts']]
    if op['from'] == 'us':
      site.w.entropy.reseed(op['seed'])
      with site.on(site.proc('sender')) as K:
        def go():
          c = site.open(K, 'Encrypter', enc.loc, enc.crypter_loc)
          if signed:
            s = K.keyczar.SignedSessionEncrypter(
                c, site.open(K, 'Signer', sig.loc, sig.crypter_loc))
          else:
            s = K.keyczar.SessionEncrypter(c)
          return s.session_material, [
              s.Encrypt(t, None) if op['raw'] and not signed else s.Encrypt(t)
              for t in texts]
        out, e, made = site.attempt(K, go)
      if out != 'ok':
        raise Violation('cannot-send', 'session: %s %r' % (out, e))
      mat, cts = made
      try:
        ses = refkz.Session.load(eks.decrypt(strict_b64(mat, 'material')),
                                 signed)
        for t, c in zip(texts, cts):
          raw = B(c) if op['raw'] and not signed else strict_b64(c, 'message')
          if signed:
            body = sks.attached_verify(raw, ses.nonce)
            if body is None:
              raise refkz.RefError('signature')
            strict_message('attraw', '', raw, sks.primary(), body)
            raw = body
          if ses.key.decrypt(raw) != B(t):
            raise refkz.RefError('other plaintext')
      except (refkz.RefError, ValueError, KeyError, IndexError) as e:
        raise Violation('refused', '%s session is not accepted by another '
                        'implementation: %r' %
                        ('signed' if signed else 'plain', e))
      ctx.probe('signed_session_us' if signed else 'session_us')
    else:
      self.peer.reseed(op['seed'])
      r = self.peer.rng.randbytes
      ses = refkz.Session.new(r, signed)
      plain = ses.material()
      if signed and op['pad']:
        d = json.loads(plain.decode())
        plain = json.dumps({'key': d['key'], 'nonce': d['nonce']},
                           separators=(',', ':')).encode()
        ctx.probe('java_order')
      mat = refkz.b64e(eks.encrypt(plain, r))
      cts = []
      for t in texts:
        raw = ses.key.encrypt(B(t), r)
        if signed:
          n = len(raw)
          raw = sks.attached_sign(raw, ses.nonce, r)
          if op['pad'] and sig.kind == 'dsa':
            raw += bytes(max(0, 9 + n + 48 - len(raw)))
        cts.append(refkz.b64e(raw))
      with site.on(site.proc('receiver')) as K:
        def go():
          c = site.open(K, 'Crypter', enc.loc, enc.crypter_loc)
          if not signed:
            s = K.keyczar.SessionDecrypter(c, mat)
          else:
            s = K.keyczar.SignedSessionDecrypter(
                c, site.open(K, 'Verifier', sig.loc, sig.crypter_loc), mat)
          return [s.Decrypt(c) for c in cts]
        out, e, vs = site.attempt(K, go)
      if out != 'ok' or vs != texts:
        raise Violation('refused', '%s session of another implementation: '
                        '%s %r' % ('signed' if signed else 'plain', out, e))
      ctx.probe('signed_session_peer' if signed else 'session_peer')
    ctx.nontrivial = True
    ctx.event('session', op['from'], signed)
    ctx.state('session', enc.kind, sig.kind if signed else None, op['from'])
