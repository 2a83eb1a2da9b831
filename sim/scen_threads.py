"""C14: objects shared between threads."""
import json

from . import msgs
from . import refkz
from . import sched
from . import world as W
from .common import (Admin, Scenario, Site, Violation, ASYM, B, CRYPT, ROOT, S,
                     SIGN, brief, common_plan, data, gen_data, gen_kind,
                     gen_size, seed_of, weighted)
from .scen_admin import CR, setup_crypter


class Threads(Scenario):
  id = 'C14'
  threaded = True
  technique = ('seeded search over statement- and expression-level thread schedules '
               'on shared objects, every result checked against a sequential '
               'reference')
  must_reach = ('encrypt', 'decrypt', 'stream', 'sign', 'verify', 'attached',
                'unversioned', 'open', 'session', 'session_first_use', 'damaged',
                'preempted_inside', 'inside_lines', 'same_object', 'keyinfo',
                'read_stream', 'older_key', 'new_session', 'dsa_secrets')
  rule = ('a run lets 2-4 threads of one process use shared objects, switching '
          'at the statements or expressions a seeded schedule names; non-trivial when '
          'a thread was preempted inside the library')
  state_measure = '(operation, kind, operation of the preempting thread)'
  quick_runs = 10000
  assumptions = Scenario.assumptions + [
      'threads switch between statements and between the calls, attribute and '
      'item accesses of an expression of the package, not inside the C code it '
      'calls']

  def gen(self, rng, tier, index):
    p = common_plan(rng)
    p['shortio'] = None
    p['kinds'] = sorted({gen_kind(rng) for _ in range(rng.randint(1, 3))})
    p['setup'] = {k: [{'status': 'PRIMARY', 'size': gen_size(rng, k),
                       'seed': seed_of(rng)}
                      for _ in range(rng.randint(1, 3))] for k in p['kinds']}
    p['crypted'] = rng.random() < 0.1
    p['points'] = weighted(rng, [(4, 'stmt'), (4, 'fine'), (3, 'store')])
    n = rng.randint(2, 4)
    same = rng.random() < 0.4      # all threads do the same kind of thing
    first = self.gen_op(rng, p['kinds'])
    if 'aes' in p['kinds'] and rng.random() < 0.1:
      # a server under load: every thread opens one session after another
      same = True
      first = {'op': 'newsession', 'kind': 'aes', 'data': ['text', 3, 1],
               'seed': seed_of(rng), 'rounds': rng.randint(2, 4)}
    threads = []
    for _ in range(n):
      ops = []
      for _ in range(rng.randint(1, 4)):
        op = dict(first) if same and rng.random() < 0.8 else self.gen_op(
            rng, p['kinds'])
        op['ver'] = rng.randrange(6)
        if 'data' in op:
          op['data'] = gen_data(rng, 80 if op['kind'] == 'rsa' else 200)
        ops.append(op)
      threads.append(ops)
    p['threads'] = threads
    scale = rng.choice((1, 2, 4, 8, 20, 50, 120, 300, 800))
    if p['points'] == 'fine':
      scale *= rng.choice((1, 2, 4))
    if p['points'] == 'store':
      scale = rng.choice((1, 1, 2, 4))
    p['switches'] = sched.gen_switches(rng, rng.choice((4, 15, 40, 120, 300)),
                                       n, scale)
    p['eseed'] = seed_of(rng)
    return p

  def gen_op(self, rng, kinds):
    k = rng.choice(kinds)
    d = gen_data(rng, 80 if k == 'rsa' else 200)
    table = [(1, 'open')]
    if k in CRYPT:
      table += [(3, 'make'), (3, 'take'), (1, 'bad'), (1, 'session')]
    else:
      table += [(3, 'make'), (3, 'take'), (1, 'bad')]
    if k == 'aes':
      table += [(2, 'session'), (1, 'rstream'), (1, 'newsession')]
    o = weighted(rng, table)
    op = {'op': o, 'kind': k, 'data': d, 'ver': rng.randrange(6)}
    if o in ('make', 'take', 'bad', 'open'):
      op['how'] = rng.choice(msgs.hows(k))
      op['nonce'] = rng.choice(('', 'n', 'nonce'))
      op['seed'] = seed_of(rng)
    elif o in ('session', 'newsession'):
      op['rounds'] = 1
      op['which'] = rng.choice(('enc', 'dec', 'dec', 'both'))
      op['seed'] = seed_of(rng)
    elif o == 'rstream':
      op['b64'] = rng.random() < 0.5
      op['seed'] = seed_of(rng)
    return op

  def list_keys(self, plan):
    return ['threads'] + ['threads.%d' % i for i in
                          range(len(plan['threads']))] + ['switches']

  def simplify(self, plan):
    for c in Scenario.simplify(self, plan):
      yield c
    for i, ops in enumerate(plan['threads']):
      for j, op in enumerate(ops):
        for key in sorted(op):
          for simple in self.simpler(key, op[key]):
            p = json.loads(json.dumps(plan))
            p['threads'][i][j][key] = simple
            yield p
    for i, (gap, pick) in enumerate(plan['switches']):
      if i + 1 < len(plan['switches']):
        p = json.loads(json.dumps(plan))
        p['switches'][i:i + 2] = [[gap + plan['switches'][i + 1][0], pick]]
        yield p

  def run(self, plan, ctx):
    site = Site(plan, ctx)
    w = site.w
    cr = None
    if plan['crypted']:
      setup_crypter(site, 'c')
      cr = CR
    locs, refs = {}, {}
    for k in plan['kinds']:
      a = Admin(site, k, ROOT + '/' + k, cr)
      a.create()
      for s in plan['setup'][k]:
        out, e = a.run({'op': 'addkey', 'status': s['status'],
                        'size': s['size']}, s['seed'])
        if out != 'ok':
          raise Violation('setup', 'addkey: %r' % e)
      locs[k], refs[k] = a.loc, a.must()
    p = site.proc('server', plan['points'])   # fresh: nothing was used in it yet
    shared = {}
    sess = {}
    with site.on(p) as K:
      for k in plan['kinds']:
        for role in (('Encrypter', 'Crypter') if k in CRYPT else
                     ('Signer', 'Verifier', 'UnversionedSigner',
                      'UnversionedVerifier')):
          shared[(k, role)] = site.open(K, role, locs[k], cr)
      for k in plan['kinds']:
        if k == 'aes' or (k == 'rsa' and refs[k].primary().size >= 2048):
          w.entropy.reseed('session')
          enc = K.keyczar.SessionEncrypter(shared[(k, 'Encrypter')])
          mat = enc.session_material
          dec = K.keyczar.SessionDecrypter(shared[(k, 'Crypter')], mat)
          ref = refkz.Session.load(refs[k].decrypt(refkz.b64d(mat)), False)
          sess[k] = (enc, dec, ref, None)
    for k in list(sess):
      signer = [x for x in plan['kinds'] if x in SIGN]
      if k == 'aes' and signer:
        sk = signer[0]
        with site.on(p) as K:
          enc = K.keyczar.SignedSessionEncrypter(shared[(k, 'Encrypter')],
                                                 shared[(sk, 'Signer')])
          mat = enc.session_material
          dec = K.keyczar.SignedSessionDecrypter(
              shared[(k, 'Crypter')], shared[(sk, 'Verifier')], mat)
          ref = refkz.Session.load(refs[k].decrypt(refkz.b64d(mat)), True)
        sess['signed'] = (enc, dec, ref, sk)
    w.entropy.reseed(plan['eseed'])
    s = sched.Sched(w, plan['switches'])
    results = []
    doing = {}

    def body(tid, ops):
      def f():
        for op in ops:
          ctx.steps += 1
          doing[tid] = op['op']
          self.one(site, ctx, s, tid, op, p, shared, sess, refs, locs, cr,
                   results)
          doing[tid] = None
      return f
    inside = [0]

    def on_switch(t):
      others = [o for i, o in doing.items() if o and i != t.tid]
      if others and s.points:
        inside[0] += 1
        ctx.state(doing.get(t.tid), sorted(set(others)), plan['kinds'])
    s.on_switch = on_switch
    for i, ops in enumerate(plan['threads']):
      s.spawn('t%d' % i, body(i, ops), p)
    with site.on(p):
      s.run()
    for t in s.tasks:
      if t.exc is not None:
        if isinstance(t.exc, (Violation, W.SimHang, W.SimDeadlock,
                              W.HarnessError)):
          raise t.exc
        raise t.exc
    ctx.event('points', s.points, 'preempted', s.preempted)
    ctx.fault('preemption', s.preempted)
    ctx.interleaving(s.trail)
    if s.preempted and inside[0]:
      ctx.probe('preempted_inside')
      ctx.nontrivial = True
    if plan['points'] == 'fine':
      ctx.probe('inside_lines')
    users = {}
    for tid, ops in enumerate(plan['threads']):
      for op in ops:
        users.setdefault((op['op'], op['kind']), set()).add(tid)
    if any(len(v) > 1 for v in users.values()):
      ctx.probe('same_object')
    # no IV is ever used twice
    ivs = [iv for kind, iv in results if kind == 'iv']
    if len(set(ivs)) != len(ivs):
      raise Violation('repeated-iv', 'threads used the same IV')
    # nor is the secret of a DSA signature (r is a function of it)
    rs = [r[1:] for r in results if r[0] == 'dsa']
    if len(rs) > 1:
      ctx.probe('dsa_secrets')
    if len(set(rs)) != len(rs):
      raise Violation('repeated-secret', 'threads used the same secret for two '
                      'DSA signatures')
    for r in sorted(results, key=repr):
      ctx.event(*r)

  def one(self, site, ctx, s, tid, op, p, shared, sess, refs, locs, cr,
          results):
    K = p.mods
    k = op['kind']
    text = data(op['data'])
    o = op['op']

    def call(fn, what):
      try:
        return fn()
      except (Violation, W.SimHang, W.SimDeadlock, W.HarnessError):
        raise
      except Exception as e:  # pylint: disable=broad-except
        raise Violation('thread-failed', 'thread %d: %s failed: %s: %s' %
                        (tid, what, type(e).__name__, e))
    if o == 'session':
      key = 'signed' if op['seed'] % 2 and 'signed' in sess else k
      if key not in sess:
        return
      enc, dec, ref, sk = sess[key]
      ctx.probe('session')
      if op['which'] in ('enc', 'both'):
        msg = call(lambda: enc.Encrypt(text), 'session encryption')
        s.in_harness = True
        raw = refkz.b64d(msg)
        if sk:
          out = refs[sk].attached_verify(raw, ref.nonce)
          if out is None:
            raise Violation('mixed-up', 'signed session message is not valid')
          raw = out
        if ref.key.decrypt(raw) != B(text):
          raise Violation('mixed-up', 'session message holds other text')
        results.append(('iv', raw[5:21].hex()))
        s.in_harness = False
        if op['which'] == 'both':
          v = call(lambda: dec.Decrypt(msg), 'session decryption')
          if v != text:
            raise Violation('mixed-up', 'session message decrypts to other text')
      else:
        s.in_harness = True
        r = _rand(op['seed'])
        raw = ref.key.encrypt(B(text), r)
        if sk:
          raw = refs[sk].attached_sign(raw, ref.nonce, r)
        msg = refkz.b64e(raw)
        s.in_harness = False
        ctx.probe('session_first_use')
        v = call(lambda: dec.Decrypt(msg), 'session decryption')
        if v != text:
          raise Violation('mixed-up', 'session message decrypts to other text')
      return
    if o == 'newsession':
      # a session of the thread's own, made through the shared objects
      rounds = op.get('rounds', 1)
      if rounds > 1:
        for _ in range(rounds):
          self.one(site, ctx, s, tid, dict(op, rounds=1), p, shared, sess,
                   refs, locs, cr, results)
        return

      def go():
        enc = K.keyczar.SessionEncrypter(shared[(k, 'Encrypter')])
        msg = enc.Encrypt(text)
        dec = K.keyczar.SessionDecrypter(shared[(k, 'Crypter')],
                                         enc.session_material)
        return enc.session_material, msg, dec.Decrypt(msg), dec.Decrypt(msg)
      mat, msg, v, v2 = call(go, 'a session')
      s.in_harness = True
      ref = refkz.Session.load(refs[k].decrypt(refkz.b64d(mat)), False)
      if v != text or v2 != text or ref.key.decrypt(refkz.b64d(msg)) != B(text):
        raise Violation('mixed-up', 'a session message decrypts to other text')
      results.append(('iv', refkz.b64d(mat)[5:21].hex()))
      results.append(('iv', refkz.b64d(msg)[5:21].hex()))
      s.in_harness = False
      ctx.probe('new_session')
      return
    nums = sorted(refs[k].keys)
    ver = nums[op.get('ver', 0) % len(nums)]
    if o in ('rstream', 'take', 'bad') and \
        refs[k].keys[ver] is not refs[k].primary():
      ctx.probe('older_key')
    if o == 'rstream':
      s.in_harness = True
      msg = msgs.ref_make(refs[k], 'b64' if op['b64'] else 'raw', text, '',
                          _rand(op['seed']), ver)
      s.in_harness = False
      v = call(lambda: msgs.consume(shared[(k, 'Crypter')], 'stream64'
                                    if op['b64'] else 'streamraw', msg,
                                    via='stream'), 'reading a stream')
      if v != text:
        raise Violation('mixed-up', 'a stream gave other text')
      ctx.probe('read_stream')
      return
    how = op['how']
    if o == 'open':
      role = msgs.role_for(how, k, op['seed'] % 2 == 0)
      obj = call(lambda: site.open(K, role, locs[k], cr), 'opening')
      got = call(lambda: str(obj), 'describing')
      if len(json.loads(got)['versions']) != len(refs[k].keys):
        raise Violation('mixed-up', 'an opened keyset lacks versions')
      ctx.probe('open')
      ctx.probe('keyinfo')
      o = 'make' if op['seed'] % 2 == 0 else 'take'
    else:
      role = msgs.role_for(how, k, o == 'make')
      obj = shared[(k, role)]
    if o == 'make':
      msg = call(lambda: msgs.produce(obj, how, text, op['nonce']),
                 '%s by %s' % (how, role))
      s.in_harness = True
      if not msgs.made_by(how, msg, refs[k].primary(), text, op['nonce']):
        raise Violation('mixed-up', '%s gave a message that is not one of the '
                        'primary key for the given data' % how)
      if k == 'aes':
        results.append(('iv', msgs.raw_of(how, msg)[5:21].hex()))
      else:
        results.append((how, len(msg)))
      if k == 'dsa':
        raw = msgs.raw_of(how, msg)
        if how.startswith('att'):
          raw = raw[9 + len(text):]
        elif how.startswith('det'):
          raw = raw[5:]
        results.append(('dsa', '%x' % refkz.parse_dsa(raw)[0]))
      s.in_harness = False
      ctx.probe('encrypt' if k in CRYPT else 'sign')
      if how.startswith('stream'):
        ctx.probe('stream')
    else:
      s.in_harness = True
      msg = msgs.ref_make(refs[k], how, text, op['nonce'], _rand(op['seed']),
                          ver)
      want = True
      sent, given = msg, text
      if o == 'bad':
        ctx.probe('damaged')
        if k in CRYPT:
          raw = bytearray(msgs.raw_of(how, msg))
          raw[-1 - op['seed'] % 15] ^= 1 + op['seed'] % 255
          sent = refkz.b64e(bytes(raw)) if how.endswith('64') else S(raw)
        elif how.startswith('att'):
          raw = bytearray(msgs.raw_of(how, msg))
          raw[5 + 3] ^= 1                      # length of the data
          if k == 'hmac':
            raw = bytearray(msgs.raw_of(how, msg))
            raw[-1] ^= 1
          sent = refkz.b64e(bytes(raw)) if how.endswith('64') else S(raw)
        else:
          given = text + 'x'
        want = False
      s.in_harness = False
      err = None
      try:
        v = msgs.consume(obj, how, sent, given, op['nonce'])
      except (Violation, W.SimHang, W.SimDeadlock, W.HarnessError):
        raise
      except K.errors.KeyczarError as e:
        err, v = e, None
      except Exception as e:  # pylint: disable=broad-except
        raise Violation('thread-failed', 'thread %d: %s by %s failed: %s: %s' %
                        (tid, how, role, type(e).__name__, e))
      good = (True if how[:3] in ('det', 'unv') else text)
      if want and (err is not None or v != good):
        raise Violation('mixed-up', '%s: a genuine message was %s' %
                        (how, 'refused: %r' % err if err else
                         'not accepted' if how in msgs.SIGN_HOWS else
                         'decrypted to other text'))
      if not want and err is None and v not in (None, False):
        raise Violation('mixed-up', '%s: a damaged message was accepted' % how)
      ctx.probe('decrypt' if k in CRYPT else 'verify')
      if how.startswith('att'):
        ctx.probe('attached')
      if how.startswith('unv'):
        ctx.probe('unversioned')


def _rand(seed):
  import random
  r = random.Random('ref/%s' % seed)
  return r.randbytes
