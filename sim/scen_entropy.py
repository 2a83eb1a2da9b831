"""C13: secrets and IVs come fresh from the system's entropy source."""
import itertools

from . import msgs
from . import refkz
from . import world as W
from .common import (Admin, Scenario, Site, Violation, B, ROOT, common_plan,
                     data, gen_data, gen_kind, gen_size, pic, seed_of, weighted)
from .scen_admin import CR

MIN_SAMPLES = 9      # chance of an accidental pattern below 256**-7


def oaep_seed(key, raw):
  em = key._priv(refkz.b2i(raw[5:])).to_bytes(key.pub.k, 'big')
  return refkz._xor(em[1:21], refkz._mgf(em[21:], 20))


def dsa_k(key, signed, der):
  r, s = refkz.parse_dsa(der)
  q = key.pub.q
  h = refkz.b2i(refkz.sha1(signed))
  return (pow(s, -1, q) * (h + key.x * r) % q).to_bytes(
      (q.bit_length() + 7) // 8, 'big')


class Freshness(Scenario):
  id = 'C13'
  must_reach = ('carried_on', 'addkey', 'encrypt', 'stream', 'rsa_encrypt', 'dsa_sign',
                'session', 'session_message', 'encrypted_keyset',
                'entropy_failed', 'nothing_stored', 'nothing_put_out',
                'recovered', 'other_entropy', 'switched_entropy', 'patterns',
                'restarted', 'attached')
  rule = ('a run is a seeded history of key generation, encryption, streams, '
          'signing and sessions over several keysets and long-lived objects, '
          'executed under one entropy stream, again under another, again with '
          'the stream exchanged half-way, and again with draws failing; '
          'non-trivial when at least four secrets were made')
  state_measure = '(operation, kind, entropy behaviour, outcome)'
  quick_runs = 2500
  assumptions = Scenario.assumptions + [
      'RSA and DSA key generation is judged by the random bytes it is given']

  def gen(self, rng, tier, index):
    p = dict(common_plan(rng), bias=None)
    p['kinds'] = [gen_kind(rng, ('aes', 'rsa', 'dsa', 'hmac', 'rsasign'))
                  for _ in range(rng.randint(1, 3))]
    if 'aes' not in p['kinds'] and rng.random() < 0.7:
      p['kinds'].append('aes')
    p['crypted'] = [rng.random() < 0.25 for _ in p['kinds']]
    ops = []
    for i, k in enumerate(p['kinds']):
      ops.append({'op': 'addkey', 'ks': i, 'size': gen_size(rng, k),
                  'status': 'PRIMARY'})
    burst = rng.random() < 0.5
    for _ in range(rng.randint(4, 14)):
      i = rng.randrange(len(p['kinds']))
      k = p['kinds'][i]
      o = weighted(rng, [(2, 'addkey'), (8, 'use'), (2, 'session'),
                         (2, 'smsg'), (1, 'restart')])
      op = {'op': o, 'ks': i}
      if o == 'addkey':
        op.update({'size': gen_size(rng, k),
                   'status': rng.choice(('PRIMARY', 'ACTIVE', 'INACTIVE')),
                   'carry': rng.random() < 0.4})
      elif o == 'session':
        op.update({'signed': rng.random() < 0.5, 'enc': i,
                   'sig': rng.randrange(len(p['kinds']))})
      elif o == 'smsg':
        op.update({'pick': rng.randrange(100), 'data': gen_data(rng, 60)})
      elif o == 'use':
        op.update({'how': rng.choice(msgs.hows(k)), 'nonce': '',
                   'data': gen_data(rng, 60),
                   'times': weighted(rng, [(6, 1), (2, 2), (2 if burst else 0,
                                                            10)])})
      ops.append(op)
    p['ops'] = ops
    p['switch'] = rng.randrange(100)
    p['fails'] = [[rng.randrange(100), rng.choice((0, 0, 1, 2, 3)),
                   rng.choice((1, 1, 10 ** 9, 10 ** 9))]
                  for _ in range(rng.randint(1, 3))]
    return p

  def list_keys(self, plan):
    return ['ops', 'fails']

  # one execution of the history -----------------------------------------------
  def history(self, plan, ctx, seeds, fail=None):
    """[(op index, category, secret)] of the whole history.

    seeds: op index -> entropy seed.  fail: (op index, draw, count).
    """
    site = Site(plan, ctx)
    ent = site.w.entropy
    ent.record = True
    out = []
    admins, objs, sessions = [], {}, []
    n = itertools.count()

    def reseed(i):
      ent.reseed('%s/%d' % (seeds(i), next(n)))
      ent.draws = []

    crypter = None
    if any(plan['crypted']):
      crypter = Admin(site, 'aes', CR, name='crypter')
      crypter.create('c')
      o, e = crypter.run({'op': 'addkey', 'status': 'PRIMARY', 'size': None},
                         '%s/crypter' % seeds(-1))
      if o != 'ok':
        raise Violation('setup', 'addkey: %r' % e)
      ks = crypter.must()
      out += [(-1, 'aeskey', ks.primary().key), (-1, 'hmackey',
                                                 ks.primary().hk.key)]
    for i, (k, c) in enumerate(zip(plan['kinds'], plan['crypted'])):
      a = Admin(site, k, ROOT + '/ks%d' % i, CR if c else None)
      a.create('x')
      admins.append(a)
    procs = {}

    def opened(i, role):
      """A long-lived object of the keyset in the process of that keyset."""
      if i not in procs:
        procs[i] = site.proc('server%d' % i)
      if (i, role) not in objs:
        with site.on(procs[i]) as K:
          o, e, v = site.attempt(K, lambda: site.open(
              K, role, admins[i].loc, admins[i].crypter_loc))
        if o != 'ok':
          raise Violation('cannot-open', '%s: %r' % (role, e))
        ks = admins[i].must()
        objs[(i, role)] = (v, ks)
      return objs[(i, role)]

    for idx, op in enumerate(plan['ops']):
      ctx.steps += 1
      i = op.get('ks', 0)
      a, kind = admins[i], plan['kinds'][i]
      failing = fail is not None and fail[0] == idx
      for attempt in ((True, False) if failing else (False,)):
        # first with the failing source, then with the recovered one
        reseed(idx)
        ent.fail_at = fail[1] if attempt else None
        ent.fail_count = fail[2] if attempt else 0
        ent.failed = 0
        got = self.do(site, ctx, plan, op, idx, a, kind, opened, objs, procs,
                      sessions, admins, attempt)
        if attempt and ent.failed:
          ctx.fault('entropy_failure')
        ent.fail_at = None
        if got is None:
          if attempt:
            ctx.probe('entropy_failed')
          continue
        if failing and not attempt:
          ctx.probe('recovered')
        need = sum(len(s) for _, s in got)
        have = sum(len(d) for d in ent.draws)
        if have < need:
          raise Violation('too-little-entropy', '%s (%s) made %d bytes of '
                          'secrets out of %d bytes from the system' %
                          (op['op'], kind, need, have))
        out += [(idx, c, s) for c, s in got]
    return out

  def do(self, site, ctx, plan, op, idx, a, kind, opened, objs, procs,
         sessions, admins, broken):
    """Secrets made by one op: [(category, bytes)], or None if it failed."""
    w = site.w
    o = op['op']
    if o == 'restart':
      for key in [k for k in objs if k[0] == op['ks']]:
        del objs[key]
      procs.pop(op['ks'], None)
      ctx.probe('restarted')
      return []
    if o == 'addkey':
      before = a.must()
      old = dict(site.files(a.loc))
      w.keygen_draws = []
      # Admin.run reseeds; hand it the stream that is set up already
      ent = w.entropy
      keep = ent.reseed
      ent.reseed = lambda seed: None
      try:
        if op.get('carry'):
          out, e = self.carry_on(site, ctx, a, op)
        else:
          out, e = a.run({'op': 'addkey', 'status': op['status'],
                          'size': op['size']}, 0)
      finally:
        ent.reseed = keep
      ctx.state('addkey', kind, broken, bool(w.entropy.failed), out)
      if self.failed(ctx, op, kind, out, e, w):
        if pic(a.must(when=' after an entropy failure')) != pic(before):
          raise Violation('stored-without-entropy', 'addkey (%s) failed for '
                          'want of entropy, but the keyset changed' % kind)
        ctx.probe('nothing_stored')
        return None
      ks = a.must()
      new = max(ks.keys)
      key = ks.keys[new]
      got = []
      if kind == 'aes':
        got = [('aeskey', key.key), ('hmackey', key.hk.key)]
      elif kind == 'hmac':
        got = [('hmackey', key.key)]
      else:
        draws = w.keygen_draws
        if not draws:
          raise Violation('too-little-entropy', '%s key without entropy' % kind)
        got = [('keygen', d) for d in draws]
        got.append(('private', refkz.i2b(key.d if kind != 'dsa' else key.x)))
        # the stub draws 32 bytes; the private value is made of them
        got = [g for g in got if g[0] == 'keygen']
      if a.crypter_loc:
        ctx.probe('encrypted_keyset')
        files = site.files(a.loc)
        for name in sorted(files):
          if name.isdigit() and files[name] != old.get(name):
            got.append(('iv', refkz.b64d(files[name])[5:21]))
      ctx.probe('addkey')
      return got
    if o == 'use':
      role = msgs.role_for(op['how'], kind)
      obj, ks = opened(op['ks'], role)
      key = ks.primary()
      if key is None:
        return []
      text = data(op['data'])
      got = []
      for t in range(op['times']):
        sink = msgs.Sink()
        with site.on(procs[op['ks']]) as K:
          out, e, msg = site.attempt(K, lambda: msgs.produce(
              obj, op['how'], text, op['nonce'], sink))
        ctx.state('use', kind, op['how'], broken, bool(w.entropy.failed), out)
        if self.failed(ctx, op, kind, out, e, w):
          if sink.parts and ''.join(sink.parts):
            raise Violation('put-out-without-entropy', 'a stream whose entropy '
                            'failed put out %d characters' %
                            len(sink.value()))
          ctx.probe('nothing_put_out')
          return None
        raw = msgs.raw_of(op['how'], msg)
        if kind == 'aes':
          got.append(('iv', raw[5:21]))
          ctx.probe('stream' if op['how'].startswith('stream') else 'encrypt')
        elif kind == 'rsa':
          got.append(('seed', oaep_seed(key, raw)))
          ctx.probe('rsa_encrypt')
        elif kind == 'dsa':
          if op['how'].startswith('det'):
            s, der = B(text) + b'\0', raw[5:]
          elif op['how'].startswith('unv'):
            s, der = B(text), raw
          else:
            s = B(text) + refkz.pack(B(op['nonce'])) + b'\0'
            der = raw[9 + len(text):]
            ctx.probe('attached')
          got.append(('k', dsa_k(key, s, der)))
          ctx.probe('dsa_sign')
      return got
    if o == 'session':
      ek = plan['kinds'][op['enc']]
      sk = plan['kinds'][op['sig']]
      if ek not in ('aes', 'rsa') or (op['signed'] and sk not in (
          'hmac', 'rsasign', 'dsa')):
        return []
      enc, eks = opened(op['enc'], 'Crypter')
      sig, sks = opened(op['sig'], 'Signer') if op['signed'] else (None, None)
      if eks.primary() is None or (sks is not None and sks.primary() is None):
        return []
      if ek == 'rsa' and eks.primary().size < 2048:
        return []
      with site.on(procs[op['enc']]) as K:
        out, e, s = site.attempt(K, lambda: (
            K.keyczar.SignedSessionEncrypter(enc, sig) if op['signed'] else
            K.keyczar.SessionEncrypter(enc)))
        if out == 'ok':
          out, e, mat = site.attempt(K, lambda: s.session_material)
      ctx.state('session', ek, op['signed'], broken, bool(w.entropy.failed), out)
      if self.failed(ctx, op, ek, out, e, w):
        ctx.probe('nothing_put_out')
        return None
      raw = refkz.b64d(mat)
      key = eks.primary()
      ses = refkz.Session.load(key.decrypt(raw), op['signed'])
      got = [('aeskey', ses.key.key), ('hmackey', ses.key.hk.key)]
      if ses.nonce is not None:
        got.append(('nonce', ses.nonce))
      got.append(('iv', raw[5:21]) if ek == 'aes' else
                 ('seed', oaep_seed(key, raw)))
      sessions.append((procs[op['enc']], s, op['signed']))
      ctx.probe('session')
      return got
    if o == 'smsg':
      if not sessions:
        return []
      home, s, signed = sessions[op['pick'] % len(sessions)]
      with site.on(home) as K:
        out, e, msg = site.attempt(K, lambda: s.Encrypt(data(op['data'])))
      ctx.state('smsg', signed, broken, bool(w.entropy.failed), out)
      if self.failed(ctx, op, 'session', out, e, w):
        ctx.probe('nothing_put_out')
        return None
      raw = refkz.b64d(msg)
      if signed:       # version, hash, length, ciphertext, signature
        raw = raw[9:]
      ctx.probe('session_message')
      return [('iv', raw[5:21])]
    raise W.HarnessError(o)

  def carry_on(self, site, ctx, a, op):
    """An application that writes its keyset also after a failed addition."""
    ent = site.w.entropy

    def go(K):
      crypter = (K.keyczar.Crypter.Read(a.crypter_loc)
                 if a.crypter_loc else None)
      czar = K.keyczar.GenericKeyczar(site.reader(K, a.loc, crypter))
      try:
        czar.AddVersion(K.keyinfo.GetStatus(op['status']), op['size'])
      except Exception:
        if not ent.failed:
          raise
        ent.fail_at = None
        ctx.probe('carried_on')
        self.write(K, a, czar, crypter)
        raise
      self.write(K, a, czar, crypter)
    with site.on(site.proc('admin')) as K:
      return site.attempt(K, lambda: go(K))[:2]

  def write(self, K, a, czar, crypter):
    writer = K.writers.CreateWriter(a.loc)
    try:
      czar.Write(writer, crypter)
    finally:
      writer.Close()

  def failed(self, ctx, op, kind, out, e, w):
    """Did the op fail?  Only a failed entropy source excuses that."""
    if out == 'ok':
      if w.entropy.failed and w.entropy.fail_count > 10 ** 6 and \
          not w.entropy.draws:
        # went through without a single byte of entropy
        return self.without(op, kind)
      return False
    if not w.entropy.failed:
      raise Violation('op-failed', '%s (%s): %s %r' % (op['op'], kind, out, e))
    return True

  def without(self, op, kind):
    if op['op'] in ('addkey', 'session', 'smsg') or kind in ('aes', 'rsa',
                                                             'dsa'):
      raise Violation('entropy-failure-ignored', '%s (%s) succeeded although '
                      'the entropy source failed' % (op['op'], kind))
    return False

  # ------------------------------------------------------------------------------
  def run(self, plan, ctx):
    base = 'a%s' % plan['wseed']
    first = self.history(plan, ctx, lambda i: base)
    for idx, c, s in first:
      ctx.event(idx, c, s.hex())
    self.distinct(first, 'one history')
    if len(first) >= 4:
      ctx.nontrivial = True
    again = self.history(plan, ctx, lambda i: base + 'other')
    self.compare(plan, first, again, 0)
    ctx.probe('other_entropy')
    ops = len(plan['ops'])
    if not ops:
      return
    at = plan['switch'] % ops
    third = self.history(plan, ctx,
                         lambda i: base if i < at else base + 'third')
    self.compare(plan, first, third, at)
    ctx.probe('switched_entropy')
    self.patterns(ctx, first + again + third)
    for which, draw, count in plan['fails']:
      got = self.history(plan, ctx, lambda i: base + 'f%d/%d' % (which, draw),
                         (which % ops, draw, count))
      self.distinct(got, 'a history with a failing entropy source')

  def distinct(self, made, where):
    seen = {}
    for idx, c, s in made:
      if s in seen:
        raise Violation('repeated', 'in %s ops %d (%s) and %d (%s) share the '
                        'same secret %s' % (where, seen[s][0], seen[s][1], idx,
                                            c, s.hex()[:16]))
      seen[s] = (idx, c)

  def compare(self, plan, a, b, start):
    mine = {s: (idx, c) for idx, c, s in a}
    for idx, c, s in b:
      if s in mine and idx >= start:
        raise Violation('not-from-entropy', '%s of op %d (%s) is the same '
                        'though the entropy source gave other bytes' %
                        (c, idx, plan['ops'][idx]['op'] if idx >= 0
                         else 'crypter'))

  def patterns(self, ctx, made):
    """No byte of a kind of secret is constant or a copy of another byte."""
    groups = {}
    for _, c, s in made:
      if c != 'private':
        groups.setdefault((c, len(s)), set()).add(s)
    for (c, n), vals in sorted(groups.items()):
      if len(vals) < MIN_SAMPLES:
        continue
      ctx.probe('patterns')
      cols = [bytes(v[i] for v in sorted(vals)) for i in range(n)]
      for i, col in enumerate(cols):
        if len(set(col)) == 1:
          raise Violation('not-random', 'byte %d of every %s is %d' %
                          (i, c, col[0]))
        if col in cols[:i]:
          raise Violation('not-random', 'bytes %d and %d of every %s are the '
                          'same' % (cols.index(col), i, c))
