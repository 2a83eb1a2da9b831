"""C01 rotation, C02 primary only, C03 lifecycle, C16 public, C17 roles."""
import json

from . import refkz
from . import world as W
from .common import *  # noqa: F401,F403
from .common import (Admin, Scenario, Site, Violation, ASYM, B, CRYPT,
                     DEFAULT_SIZE, KINDS, PURPOSE, ROOT, SIGN, brief,
                     common_plan, crash_fault, data, error_fault, expect,
                     gen_admin, gen_data, gen_kind, gen_size, pic, picture_of,
                     resolve, seed_of, weighted)
from . import msgs

KS = ROOT + '/ks'
CR = ROOT + '/crypter'
PUB = ROOT + '/pub'


def setup_crypter(site, seed, loc=CR):
  """An AES keyset used to encrypt other keysets."""
  a = Admin(site, 'aes', loc, name='crypter')
  a.create(seed)
  out, e = a.run({'op': 'addkey', 'status': 'PRIMARY', 'size': None}, seed)
  if out != 'ok':
    raise Violation('setup', 'addkey failed: %r' % e)
  return a


def maxdata(kind):
  return 80 if kind == 'rsa' else 300


class Rotation(Scenario):
  """C01: messages in transit while the keyset is rotated."""
  id = 'C01'
  must_reach = ('delivered_live', 'delivered_revoked', 'crash_resolved',
                'delivered_after_rotation', 'delivered_by_public',
                'long_lived', 'revoke_crashed')
  rule = ('a run is a seeded history of rotations, crashes, messages and '
          'deliveries over one keyset; non-trivial when a message was '
          'delivered after at least one rotation since it was made')
  state_measure = ('(kind, multiset of version statuses, message outcome) '
                   'at each delivery')
  quick_runs = 7500

  def gen(self, rng, tier, index):
    kind = gen_kind(rng)
    p = common_plan(rng)
    p.update({'kind': kind, 'crypted': rng.random() < 0.25,
              'long': rng.random() < 0.35})
    ops = [{'op': 'addkey', 'status': 'PRIMARY', 'size': gen_size(rng, kind),
            'seed': seed_of(rng), 'pick': 0}]
    for _ in range(rng.randint(4, 22)):
      r = rng.random()
      if r < 0.42:
        op = gen_admin(rng, kind)
        if rng.random() < (0.3 if op['op'] == 'revoke' else 0.12):
          op['crash'] = {'frac_at': rng.random(), 'seed': seed_of(rng),
                         'mode': rng.choice(('kill', 'kill', 'torn', 'power'))}
          if op['op'] == 'revoke':
            op['crash']['frac_at'] **= 0.4      # late: the key file's removal
        if rng.random() < 0.2:
          op['api'] = True
      elif r < 0.72:
        op = {'op': 'send', 'seed': seed_of(rng),
              'how': rng.choice(msgs.hows(kind)),
              'data': gen_data(rng, maxdata(kind)),
              'nonce': gen_data(rng, 20), 'copies': rng.choice((1, 1, 2, 3)),
              'delays': [round(rng.expovariate(1 / 100.0), 3) for _ in range(3)]}
      elif r < 0.9:
        op = {'op': 'wait', 'time': rng.choice((1, 20, 100, 400))}
      elif kind in ASYM:
        op = {'op': 'pubkey', 'seed': seed_of(rng)}
      else:
        op = {'op': 'wait', 'time': 5}
      ops.append(op)
    p['ops'] = ops
    return p

  def run(self, plan, ctx):
    site = Site(plan, ctx)
    kind = plan['kind']
    cr = None
    if plan['crypted']:
      setup_crypter(site, 'c')
      cr = CR
    a = Admin(site, kind, KS, cr)
    a.create()
    site.mkdir(PUB)
    live = set()             # idents of keys in the model
    gone = set()             # revoked
    pub = None               # idents in the exported set
    epoch = 0
    seeds = set()
    hosts = {}

    def host(name):
      """A process, perhaps one that has served before."""
      if not plan.get('long'):
        return site.proc(name)
      if name not in hosts:
        hosts[name] = site.proc(name)
      else:
        ctx.probe('long_lived')
      return hosts[name]

    def check_all(msg):
      ks = a.must(when=' before delivery')
      p = host('receiver')
      with site.on(p) as K:
        role = msgs.role_for(msg['how'], kind, False)
        out, e, obj = site.attempt(K, lambda: site.open(K, role, KS, cr))
        if out != 'ok':
          raise Violation('stranded', 'cannot open keyset %s: %r' %
                          (brief(ks), e))
        vias = [None, 'stream'] if kind == 'aes' else [None]
        for via in vias:
          out, e, v = site.attempt(K, lambda: msgs.consume(
              obj, msg['how'], msg['msg'], msg['data'], msg['nonce'], via))
          self.judge(ctx, msg, out, e, v, live, ks, epoch)
        if kind in SIGN and not msg['how'].startswith('unv'):
          # the signer itself verifies, too
          obj = site.open(K, 'Signer', KS, cr)
          out, e, v = site.attempt(K, lambda: msgs.consume(
              obj, msg['how'], msg['msg'], msg['data'], msg['nonce']))
          self.judge(ctx, msg, out, e, v, live, ks, epoch)
        if kind in SIGN and pub is not None and msg['ident'] in pub:
          obj = site.open(K, role, PUB)
          out, e, v = site.attempt(K, lambda: msgs.consume(
              obj, msg['how'], msg['msg'], msg['data'], msg['nonce']))
          self.judge(ctx, msg, out, e, v, pub, ks, epoch)
          ctx.probe('delivered_by_public')

    for op in plan['ops']:
      ctx.steps += 1
      o = op['op']
      if o == 'wait':
        for m in site.due(op['time']):
          check_all(m)
      elif o == 'send':
        ks = a.must()
        p = host('sender')
        site.w.entropy.reseed(op['seed'])
        src = (PUB if kind == 'rsa' and pub is not None and op['seed'] % 2
               else KS)
        with site.on(p) as K:
          how = op['how']
          role = msgs.role_for(how, kind)
          out, e, obj = site.attempt(
              K, lambda: site.open(K, role, src, cr if src == KS else None))
          if out != 'ok':
            raise Violation('stranded', 'cannot open %s: %r' % (brief(ks), e))
          text = data(op['data'])
          nonce = data(op['nonce'])
          sks = ks if src == KS else site.must_store(PUB)
          prim = [n for n, s in sks.statuses().items() if s == 'PRIMARY']
          out, e, msg = site.attempt(
              K, lambda: msgs.produce(obj, how, text, nonce))
          ctx.event('send', how, len(text), out)
          if not prim:
            if out == 'ok':
              raise Violation('no-primary', 'message made without a primary key')
            continue
          if out != 'ok':
            raise Violation('cannot-produce', '%s failed with %s: %r' %
                            (how, brief(sks), e))
          ident = self.ident(sks.keys[prim[0]])
          m = {'msg': msg, 'how': how, 'data': text, 'nonce': nonce,
               'ident': ident, 'epoch': epoch}
          for d in op['delays'][:op['copies']]:
            site.at(d, m)
          if op['copies'] > 1:
            ctx.fault('message_duplicated', op['copies'] - 1)
      elif o == 'pubkey':
        if kind not in ASYM:
          continue
        out, e = a.run({'op': 'pubkey', 'dest': PUB}, op['seed'])
        if out != 'ok':
          raise Violation('cannot-export', 'export failed: %r' % e)
        pub = {self.ident(k) for k in site.must_store(PUB).keys.values()}
        epoch += 1
      else:
        pre = a.must()
        rop = resolve(op, pre.statuses())
        if rop['op'] != 'addkey' and not rop.get('legal'):
          continue
        victim = None
        if rop['op'] == 'revoke':
          victim = self.ident(pre.keys[rop['version']])
        p = None
        fired = []
        if op.get('crash'):
          p = site.proc('admin')
          n = self.count(site, a, rop, op['seed'])
          spec = dict(op['crash'], at=int(op['crash']['frac_at'] * n))
          p.fault = crash_fault(spec, ctx, fired)
        out, e = a.run(rop, op['seed'], p)
        ctx.event(rop['op'], rop.get('version'), out, bool(fired))
        if fired and op['crash']['mode'] == 'power':
          import random
          site.w.fs.power_loss(random.Random(op['crash']['seed']))
          ctx.fault('power_loss')
        if out != 'ok' and not fired:
          raise Violation('admin-failed', '%s failed on %s: %r' %
                          (rop, brief(pre), e))
        post = a.must(when=' after %s' % rop['op'])
        epoch += 1
        new = {self.ident(k) for k in post.keys.values()}
        if fired:
          ctx.probe('crash_resolved')
          if rop['op'] == 'revoke':
            ctx.probe('revoke_crashed')
        if rop['op'] == 'addkey':
          added = new - {self.ident(k) for k in pre.keys.values()}
          if kind in ('aes', 'hmac') and op['seed'] not in seeds and \
              added & gone:
            raise Violation('revoked-returned', 'adding a key brought back a '
                            'revoked one: %s' % brief(post))
          live |= added
          seeds.add(op['seed'])
        elif victim is not None and (not fired or victim not in new):
          live.discard(victim)
          gone.add(victim)
        gone -= live
        ctx.state(kind, tuple(sorted(post.statuses().values())))
    for m in site.drain():
      check_all(m)

  def ident(self, key):
    """Identity of the key pair or secret."""
    key = getattr(key, 'pub', key)
    return key.ident()

  def count(self, site, a, rop, seed):
    """File-system calls the op takes, found by a dry run on a clone."""
    with site.w.with_fs(site.w.fs.clone()):
      p = site.proc('dry')
      a.run(rop, seed, p)
    return max(1, p.calls)

  def judge(self, ctx, msg, out, e, v, live, ks, epoch):
    sign = not msg['how'] in msgs.CRYPT_HOWS
    ctx.event('deliver', msg['how'], out, v if isinstance(v, bool) else '')
    if epoch > msg['epoch']:
      ctx.probe('delivered_after_rotation')
      ctx.nontrivial = True
    want = msg['data']
    if msg['ident'] in live:
      ctx.probe('delivered_live')
      if out != 'ok':
        raise Violation('lost-message', '%s message refused although its key is '
                        'still in %s: %r' % (msg['how'], brief(ks), e))
      if sign and not msg['how'].startswith('att'):
        good = v is True or (v and v == 1)
      else:
        good = v == want
      if not good:
        raise Violation('wrong-message', '%s message gave %r, not %r' %
                        (msg['how'], v, want))
    else:
      ctx.probe('delivered_revoked')
      if out == 'other':
        raise Violation('wrong-error', 'revoked message gave %r' % e)
      if out == 'ok' and (not sign or v):
        raise Violation('revoked-accepted', '%s message of a revoked key was '
                        'accepted by %s' % (msg['how'], brief(ks)))


class PrimaryOnly(Scenario):
  """C02: who made this?"""
  id = 'C02'
  must_reach = ('no_primary', 'stale_process', 'stream', 'attached',
                'unversioned', 'session', 'keyfile', 'with_primary')
  rule = ('a run is a seeded history of rotations with processes that open the '
          'keyset at different moments and produce output later; non-trivial '
          'when output was requested from a process whose view differs from '
          'what is stored by then, or without a primary key')
  state_measure = '(kind, statuses seen by the producer, way of producing)'
  quick_runs = 7500

  def gen(self, rng, tier, index):
    kind = gen_kind(rng)
    p = common_plan(rng)
    p.update({'kind': kind, 'crypted': rng.random() < 0.2})
    ops = []
    if rng.random() < 0.9:
      ops.append({'op': 'addkey', 'status': 'PRIMARY', 'size': None if kind ==
                  'aes' else gen_size(rng, kind), 'seed': seed_of(rng),
                  'pick': 0})
    for _ in range(rng.randint(4, 20)):
      r = rng.random()
      if r < 0.4:
        op = gen_admin(rng, kind, {'addkey': 4, 'promote': 3, 'demote': 5,
                                   'revoke': 1})
        if rng.random() < 0.08:
          op['crash'] = {'frac_at': rng.random(), 'mode': 'kill'}
      elif r < 0.6:
        op = {'op': 'open'}
      else:
        hows = list(msgs.hows(kind))
        if kind in CRYPT:
          hows += ['session', 'keyfile'] if kind == 'aes' else ['session']
        op = {'op': 'make', 'seed': seed_of(rng), 'how': rng.choice(hows),
              'pick': rng.randrange(100), 'data': gen_data(rng, maxdata(kind)),
              'nonce': gen_data(rng, 20),
              'pieces': [rng.randrange(1, 40) for _ in range(rng.randint(0, 4))]}
      ops.append(op)
    p['ops'] = ops
    return p

  def run(self, plan, ctx):
    site = Site(plan, ctx)
    kind = plan['kind']
    cr = None
    if plan['crypted']:
      setup_crypter(site, 'c')
      cr = CR
    a = Admin(site, kind, KS, cr)
    a.create()
    procs = []               # (proc, objects by role, keyset at open)
    roles = (('Encrypter', 'Crypter') if kind in CRYPT else
             ('Signer', 'UnversionedSigner'))

    def open_proc():
      ks = a.must()
      p = site.proc('maker')
      with site.on(p) as K:
        objs = {}
        for r in roles:
          out, e, obj = site.attempt(K, lambda: site.open(K, r, KS, cr))
          if out != 'ok':
            raise Violation('cannot-open', '%s of %s: %r' % (r, brief(ks), e))
          objs[r] = obj
      procs.append((p, objs, ks))

    open_proc()
    for op in plan['ops']:
      ctx.steps += 1
      o = op['op']
      if o == 'open':
        open_proc()
      elif o == 'make':
        p, objs, ks = procs[-1 - op['pick'] % len(procs)]
        cur = a.must()
        st = ks.statuses()
        prim = [n for n, s in st.items() if s == 'PRIMARY']
        key = ks.keys[prim[0]] if prim else None
        if pic(cur) != pic(ks):
          ctx.probe('stale_process')
          ctx.nontrivial = True
        if not prim:
          ctx.nontrivial = True
        ctx.state(kind, tuple(sorted(st.values())), op['how'])
        site.w.entropy.reseed(op['seed'])
        with site.on(p) as K:
          self.make(site, ctx, K, kind, objs, ks, key, op)
      else:
        pre = a.must()
        rop = resolve(op, pre.statuses())
        if rop['op'] != 'addkey' and not rop.get('legal'):
          continue
        p = None
        fired = []
        if op.get('crash'):
          p = site.proc('admin')
          p.fault = crash_fault(dict(op['crash'],
                                     at=int(op['crash']['frac_at'] * 40)), ctx,
                                fired)
        out, e = a.run(rop, op['seed'], p)
        ctx.event(rop['op'], rop.get('version'), out)
        if out != 'ok' and not fired:
          raise Violation('admin-failed', '%s failed on %s: %r' %
                          (rop, brief(pre), e))

  def make(self, site, ctx, K, kind, objs, ks, key, op):
    how = op['how']
    text, nonce = data(op['data']), data(op['nonce'])
    if how in ('stream64', 'streamraw'):
      ctx.probe('stream')
    elif how.startswith('att'):
      ctx.probe('attached')
    elif how.startswith('unv'):
      ctx.probe('unversioned')
    elif how == 'session':
      ctx.probe('session')
    elif how == 'keyfile':
      ctx.probe('keyfile')
    if kind in CRYPT:
      obj = objs['Encrypter' if op['pick'] % 2 else 'Crypter']
    elif how.startswith('unv'):
      obj = objs['UnversionedSigner']
    else:
      obj = objs['Signer']
    sink = msgs.Sink()
    side = site.w.fs
    before = side.digest()

    def go():
      if how == 'session':
        return K.keyczar.SessionEncrypter(obj).session_material
      if how == 'keyfile':
        loc = ROOT + '/kf'
        site.mkdir(loc)
        w = K.writers.CreateWriter(loc)
        g = K.keys.GenKey(K.keyinfo.HMAC_SHA1)
        w.WriteKey(g, 1, obj)
        return S_(site.w.fs.h_read(loc + '/1'))
      return msgs.produce(obj, how, text, nonce, sink, op['pieces'])

    out, e, msg = site.attempt(K, go)
    ctx.event('make', how, out, len(text))
    if key is None:
      ctx.probe('no_primary')
      if out == 'ok':
        raise Violation('made-without-primary', '%s produced output from %s' %
                        (how, brief(ks)))
      if not isinstance(e, K.errors.NoPrimaryKeyError):
        raise Violation('wrong-error', '%s without a primary key gave %r' %
                        (how, e))
      if sink.parts:
        raise Violation('made-without-primary', '%s put out %d characters' %
                        (how, len(sink.value())))
      if how == 'keyfile' and side.h_exists(ROOT + '/kf') and \
          side.h_files(ROOT + '/kf') != dict(
              (n[len('/kf/'):], b) for n, b in before
              if n.startswith('/kf/') and b is not None):
        raise Violation('made-without-primary', 'a key file was written')
      return
    ctx.probe('with_primary')
    if out != 'ok':
      raise Violation('cannot-produce', '%s with %s failed: %r' %
                      (how, brief(ks), e))
    if how in ('session', 'keyfile'):
      try:
        raw = refkz.b64d(msg)
        good = raw[:5] == b'\0' + key.hash
        key.decrypt(raw)
      except (refkz.RefError, ValueError):
        good = False
    else:
      good = msgs.made_by(how, msg, key, text, nonce)
    if not good:
      by = [n for n, k in ks.keys.items()
            if how not in ('session', 'keyfile') and
            msgs.made_by(how, msg, k, text, nonce)]
      raise Violation('not-primary', '%s of %d characters was not made with the '
                      'primary key of %s (made by %s)' %
                      (how, len(text), brief(ks), by or 'no key of the set'))


def S_(b):
  return bytes(b).decode('latin-1')


# Requests the tool cannot carry out as asked; V stands for a version number,
# LOC for the keyset, NEW for an empty directory.
BAD_REQUESTS = (
    ['bogus', '--location=LOC'],
    ['ADDKEY', '--location=LOC'],
    ['addkey', '--location=LOC', '--bogus=1'],
    ['addkey', '--location=LOC', '--status'],
    ['addkey', '--location=LOC', '--size=abc'],
    ['addkey', '--location=LOC', '--size='],
    ['addkey', '--location=LOC', '--size=128.5'],
    ['addkey', '--location=LOC', '--status=primary=active'],
    ['addkey', '--location=LOC', '--status='],
    ['addkey', '--location=LOC', '--status=primary', '--version=x'],
    ['addkey'],
    ['addkey', '--location=NEW'],
    ['addkey', '--location=NEW/none'],
    ['addkey', '--location'],
    ['addkey', '--location=LOC', '--crypter=NEW'],
    ['promote', '--location=LOC'],
    ['promote', '--version=V'],
    ['promote', '--location=LOC', '--version=Vx'],
    ['promote', '--location=LOC', '--version'],
    ['promote', '--location=LOC', '--version='],
    ['promote', '--location=LOC', '--version=-V'],
    ['promote', '--location=NEW', '--version=V'],
    ['demote', '--location=LOC'],
    ['demote', '--location=LOC', '--version=V.0'],
    ['demote', '--location=LOC', '--version=-V'],
    ['demote', '--location=LOC', '--versions=V'],
    ['revoke', '--location=LOC'],
    ['revoke', '--version=V'],
    ['revoke', '--location=LOC', '--version=V=V'],
    ['revoke', '--location=LOC', '--version=-V'],
    ['pubkey', '--location=LOC'],
    ['pubkey', '--destination=NEW'],
    ['pubkey', '--location=NEW', '--destination=NEW'],
    ['create', '--location=NEW'],
    ['create', '--location=NEW', '--purpose'],
    ['create', '--location=NEW', '--purpose='],
    ['create', '--location=NEW', '--purpose=bogus'],
    ['create', '--location=NEW', '--purpose=sign', '--asymmetric'],
    ['create', '--location=NEW', '--purpose=crypt', '--bogus=1'],
    ['create', '--purpose=crypt'],
    ['create', '--location=LOC'],
    ['create', '--location=LOC', '--purpose=sign', '--name=again'],
)


class Lifecycle(Scenario):
  """C03: the documented state machine."""
  id = 'C03'
  must_reach = ('refused', 'id_collision', 'create_refused', 'revoked',
                'reused_number', 'bad_size', 'bad_status', 'batch',
                'foreign', 'bad_request', 'created_other', 'chmod')
  rule = ('a run is a seeded sequence of administrative requests, valid and '
          'invalid, through the tool or the classes, each compared with a '
          'reference state machine; non-trivial when at least one request '
          'changed the keyset and one was refused')
  state_measure = '(kind, status by version number)'
  quick_runs = 5500

  def gen(self, rng, tier, index):
    kind = gen_kind(rng)
    p = common_plan(rng)
    p.update({'kind': kind, 'crypted': rng.random() < 0.25})
    if rng.random() < 0.15:
      # a keyset another implementation or a human wrote
      nums = sorted(rng.sample(range(1, 12), rng.randint(1, 4)))
      prim = rng.choice(nums + [None])
      p['foreign'] = {
          'name': rng.choice(('Test', '', 'caf\xe9 \u2603 "x"\\', 'a' * 300)),
          'seed': seed_of(rng), 'layout': rng.randrange(8),
          'versions': [[n, 'PRIMARY' if n == prim else
                        rng.choice(('ACTIVE', 'INACTIVE')),
                        rng.random() < 0.5] for n in nums]}
    ops = []
    for _ in range(rng.randint(3, 24)):
      r = rng.random()
      op = gen_admin(rng, kind, {'addkey': 5, 'promote': 4, 'demote': 4,
                                 'revoke': 3})
      if r < 0.05:
        op = {'op': 'create', 'seed': seed_of(rng)}
      elif r < 0.09:
        op = {'op': 'bad', 'seed': seed_of(rng), 'pick': rng.randrange(1000),
              'which': rng.randrange(len(BAD_REQUESTS))}
      elif r < 0.12:
        op = {'op': 'other', 'seed': seed_of(rng), 'kind': gen_kind(rng),
              'name': rng.choice((None, '', 'a=b', '=', 'x' * 200, 'k "q" \\n',
                                  'caf\xe9 \u2603', '--name=z', 'Test')),
              'upper': rng.random() < 0.3, 'order': rng.randrange(6),
              'taken': rng.random() < 0.2}
      elif r < 0.14 and op['op'] != 'addkey':
        op['version'] = rng.choice((0, 1, 2, 3, 5, 9, 77, -1, -3, 10 ** 9))
      elif r < 0.25 and op['op'] == 'addkey':
        op['size'] = rng.choice((0, 1, 8, 56, 100, 127, 129, 160, 320, 512,
                                 1000, 1023, 1025, 3072, 100000, -5))
      elif r < 0.28 and op['op'] == 'addkey':
        op['status'] = rng.choice(('REVOKED', 'BOGUS', 'PRIMARYX', ''))
      if rng.random() < 0.25:
        op['any'] = True     # any version, legal or not
      if rng.random() < 0.3:
        op['api'] = True
      if rng.random() < 0.15:
        op['samestream'] = True
      if rng.random() < 0.12:
        op['batch'] = [gen_admin(rng, kind) for _ in range(rng.randint(1, 5))]
        for b in op['batch']:
          if rng.random() < 0.3:
            b['any'] = True
          if b['op'] == 'addkey' and rng.random() < 0.2:
            b['size'] = rng.choice((0, 7, 100, 129, 1000, 3072))
      if rng.random() < 0.08:
        op['chmod'] = rng.choice((0o600, 0o640, 0o660, 0o604))
      ops.append(op)
    p['ops'] = ops
    return p

  def run(self, plan, ctx):
    site = Site(plan, ctx)
    kind = plan['kind']
    cr = None
    if plan['crypted']:
      setup_crypter(site, 'c')
      cr = CR
    a = Admin(site, kind, KS, cr)
    a.create()
    model = a.must()
    if model.statuses() or model.type != KINDS[kind][1] or \
        model.purpose != PURPOSE[kind] or model.name != 'Test':
      raise Violation('create', 'create made %s' % brief(model))
    if plan.get('foreign'):
      model = self.foreign(site, a, plan['foreign'])
      ctx.probe('foreign')
    changed = refused = False
    last_seed = None
    repeats = False          # was the entropy stream made to repeat?
    used = set()
    modes = None
    for op in plan['ops']:
      ctx.steps += 1
      st = model.statuses()
      self.same_modes(site, modes)
      if op.get('chmod'):
        for n in site.w.fs.h_files(KS):
          site.w.fs._walk(KS + '/' + n).mode = op['chmod']
        ctx.probe('chmod')
      # a batch may use a version number again, for another file
      modes = None if op.get('batch') else self.modes(site)
      before = site.w.fs.digest()
      if op['op'] == 'create':
        out, e = a.run({'op': 'create'}, op['seed'])
        ctx.probe('create_refused')
        ctx.event('create', out)
        self.refused(site, ctx, 'create over an existing keyset', out, e,
                     before, model)
        refused = True
        continue
      if op['op'] == 'bad':
        n = str(sorted(st)[op['pick'] % len(st)] if st else 1)
        site.mkdir(ROOT + '/new')
        argv = [x.replace('LOC', KS).replace('NEW', ROOT + '/new')
                .replace('V', n) for x in BAD_REQUESTS[op['which']]]
        before = site.w.fs.digest()
        out, e = site.tool(argv, op['seed'])
        ctx.event('bad', op['which'], out)
        ctx.probe('bad_request')
        self.refused(site, ctx, 'keyczart %s' % argv, out, e, before, model)
        refused = True
        continue
      if op['op'] == 'other':
        self.other(site, ctx, op)
        continue
      if op.get('batch'):
        model = self.batch(site, ctx, a, op, model)
        continue
      rop = dict(op)
      if rop['op'] != 'addkey' and rop.get('version') is None:
        if op.get('any') and st:
          rop['version'] = sorted(st)[op['pick'] % len(st)]
        else:
          rop = resolve(op, st)
          if not rop['legal']:
            rop['version'] = sorted(st)[op['pick'] % len(st)] if st else 1
      want = expect(st, rop)
      if rop['op'] == 'addkey':
        size = rop.get('size')
        if kind in ('rsa', 'rsasign') and size in (512, 768):
          continue           # sizes this machine's pycrypto cannot generate
        if size is not None and size not in self.sizes(kind):
          want = None
          ctx.probe('bad_size')
        if size == -1 or (size is None):
          size = DEFAULT_SIZE[kind]
        if rop.get('status') is not None and \
            rop['status'] not in ('PRIMARY', 'ACTIVE', 'INACTIVE'):
          want = None
          ctx.probe('bad_status')
          rop['api'] = False
          if cr:
            rop.pop('api')
      seed = op['seed']
      if op.get('samestream') and last_seed is not None:
        seed = last_seed
        repeats = repeats or rop['op'] == 'addkey'
      if rop['op'] == 'addkey':
        last_seed = seed
      ent0 = site.w.keygen_draws
      out, e = a.run(rop, seed)
      del ent0
      ctx.event(rop['op'], rop.get('version'), rop.get('size'),
                rop.get('status'), out)
      if want is None:
        ctx.probe('refused')
        refused = True
        self.refused(site, ctx, '%s on %s' % (
            {k: rop.get(k) for k in ('op', 'version', 'size', 'status')},
            brief(model)), out, e, before, model)
        model2 = a.must()
        if pic(model2) != pic(model):
          raise Violation('refused-but-changed', '%s became %s' %
                          (brief(model), brief(model2)))
        continue
      if out != 'ok':
        raise Violation('admin-failed', '%s failed on %s: %r' %
                        (rop, brief(model), e))
      changed = True
      new = a.must(when=' after %s' % rop['op'])
      self.compare(ctx, model, new, rop, want,
                   size if rop['op'] == 'addkey' else None, used)
      if rop['op'] == 'addkey' and seed != op['seed']:
        ctx.probe('id_collision')
      if rop['op'] == 'revoke':
        ctx.probe('revoked')
        self.destroyed(site, model, rop['version'], repeats)
      used |= set(new.versions)
      if new.encrypted != bool(cr):
        raise Violation('lifecycle', 'encrypted flag is %s' % new.encrypted)
      model = new
      ctx.state(kind, tuple(sorted(model.statuses().items())))
      self.reopen(site, ctx, a, model)
    self.same_modes(site, modes)
    ctx.nontrivial = changed and refused

  def modes(self, site):
    fs = site.w.fs
    return {n: fs._walk(KS + '/' + n).mode for n in fs.h_files(KS)}

  def same_modes(self, site, old):
    """Rewritten files keep the permissions their owner gave them."""
    new = self.modes(site)
    for n in old or ():
      if n in new and new[n] != old[n]:
        raise Violation('permissions', 'file %s had mode %o and has %o' %
                        (n, old[n], new[n]))

  def other(self, site, ctx, op):
    """Create one more keyset, elsewhere, as asked."""
    ctx.probe('created_other')
    kind = op['kind']
    loc = ROOT + '/ks=%d' % ctx.steps
    site.mkdir(loc)
    if op['taken']:
      site.w.fs.h_write(loc + '/meta', b'{}')
    argv = list(KINDS[kind][0])
    if op['upper']:
      argv = [x.replace('=rsa', '=RSA').replace('=dsa', '=DSA') for x in argv]
    argv.insert(op['order'] % (len(argv) + 1), '--location=' + loc)
    if op['name'] is not None:
      argv.insert(op['order'] % (len(argv) + 1), '--name=' + op['name'])
    before = site.w.fs.digest()
    out, e = site.tool(['create'] + argv, op['seed'])
    ctx.event('other', kind, out)
    if op['taken']:
      self.refused(site, ctx, 'create over an existing file', out, e, before,
                   None)
      return
    if out != 'ok':
      raise Violation('admin-failed', 'create %s failed: %r' % (argv, e))
    ks = site.must_store(loc)
    name = 'Test' if op['name'] is None else op['name']
    if ks.statuses() or ks.type != KINDS[kind][1] or ks.encrypted or \
        ks.purpose != PURPOSE[kind] or ks.name != name or \
        list(site.files(loc)) != ['meta']:
      raise Violation('create', 'create %s made %s named %r' %
                      (argv, brief(ks), ks.name))

  def foreign(self, site, a, spec):
    from .scen_exchange import Peer
    peer = Peer(site, spec['seed'])
    ks = refkz.Keyset(spec['name'], PURPOSE[a.kind], KINDS[a.kind][1])
    for n, status, exportable in spec['versions']:
      ks.versions[n] = [status, exportable]
      while n not in ks.keys or [k.hash for k in ks.keys.values()].count(
          ks.keys[n].hash) > 1:
        ks.keys[n] = peer.new_key(a.kind, 1024 if 'rsa' in a.kind else None)
    peer.store(KS, ks, a.ref_crypter(), None, spec['layout'])
    return a.must()

  def sizes(self, kind):
    return {'aes': (128, 192, 256, -1), 'hmac': (256, -1), 'dsa': (1024, -1)
           }.get(kind, (1024, 2048, 4096, 768, 512, -1))

  def refused(self, site, ctx, what, out, e, before, model):
    if out == 'ok':
      raise Violation('not-refused', '%s was accepted' % what)
    if out != 'error':
      raise Violation('wrong-error', '%s gave %r' % (what, e))
    if site.w.fs.digest() != before:
      raise Violation('refused-but-changed', '%s changed the stored files' % what)

  def compare(self, ctx, old, new, rop, want, size, used):
    if new.statuses() != want:
      raise Violation('lifecycle', '%s: %s became %s, expected %s' %
                      (rop['op'], brief(old), brief(new), sorted(want.items())))
    if (new.name, new.purpose, new.type) != (old.name, old.purpose, old.type):
      raise Violation('lifecycle', '%s changed name, purpose or type' % rop['op'])
    for n in want:
      if n in old.keys:
        if new.keys[n].ident() != old.keys[n].ident():
          raise Violation('lifecycle', '%s changed the key of version %d' %
                          (rop['op'], n))
        if new.versions[n][1] != old.versions[n][1]:
          raise Violation('lifecycle', 'exportable flag changed')
    added = [n for n in want if n not in old.keys]
    for n in added:
      k = new.keys[n]
      if any(o.hash == k.hash for m, o in new.keys.items() if m != n):
        raise Violation('id-collision', 'version %d has the key identifier of '
                        'another version' % n)
      if k.size != size or self.real_size(k) != size:
        raise Violation('lifecycle', 'asked for %d bits, got size %s, %d bits' %
                        (size, k.size, self.real_size(k)))
      if n in used:
        ctx.probe('reused_number')

  def real_size(self, k):
    if isinstance(k, refkz.Aes):
      return len(k.key) * 8
    if isinstance(k, refkz.Hmac):
      return len(k.key) * 8
    if isinstance(k, refkz.RsaPriv):
      return k.pub.n.bit_length()
    return k.pub.p.bit_length()

  def destroyed(self, site, old, version, repeats):
    """The revoked key is nowhere in the keyset's directory."""
    if old.encrypted or repeats:   # repeated entropy: keys share bytes
      if str(version) in site.files(KS):
        raise Violation('key-survives', 'key file %d is still there' % version)
      return
    rest = [o.secrets() for n, o in old.keys.items() if n != version]
    keep = {s for r in rest for s in r}
    for s in old.keys[version].secrets():
      if s in keep:
        continue
      for pat in refkz.needles(s):
        for name, b in site.files(KS).items():
          if pat in b:
            raise Violation('key-survives', 'revoked key %d is still in file %s'
                            % (version, name))

  def reopen(self, site, ctx, a, model):
    p = site.proc('reader')
    with site.on(p) as K:
      out, e, czar = site.attempt(K, lambda: site.open(
          K, 'GenericKeyczar', KS, a.crypter_loc))
      if out != 'ok':
        raise Violation('cannot-open', '%s: %r' % (brief(model), e))
      got = picture_of(czar)
    if pic(got) != pic(model):
      raise Violation('lifecycle', 'opened as %s, stored as %s' %
                      (brief(got), brief(model)))

  def batch(self, site, ctx, a, op, model):
    """Several changes on one object, then one write."""
    ctx.probe('batch')
    p = site.proc('admin')
    site.w.entropy.reseed(op['seed'])
    sizes = {}
    with site.on(p) as K:
      crypter = (K.keyczar.Crypter.Read(a.crypter_loc) if a.crypter_loc
                 else None)
      czar = K.keyczar.GenericKeyczar(site.reader(K, KS, crypter))
      st = model.statuses()
      origin = {n: n for n in st}      # current number -> untouched old key
      removed = []
      for b in op['batch']:
        rop = resolve(b, st)
        if rop['op'] != 'addkey' and not rop['legal']:
          rop['version'] = 12345
        if rop['op'] != 'addkey' and b.get('any') and st:
          rop['version'] = sorted(st)[b['pick'] % len(st)]
        want = expect(st, rop)
        if rop['op'] == 'addkey' and rop.get('size') is not None and \
            rop['size'] not in self.sizes(a.kind):
          want = None

        def go():
          if rop['op'] == 'addkey':
            czar.AddVersion(K.keyinfo.GetStatus(rop.get('status') or 'ACTIVE'),
                            rop.get('size'))
          else:
            getattr(czar, rop['op'].capitalize())(rop['version'])
        out, e, _ = site.attempt(K, go)
        ctx.event('batch', rop['op'], rop.get('version'), out)
        if want is None:
          if out != 'error':
            raise Violation('not-refused', '%s gave %s %r' % (rop, out, e))
          continue
        if out != 'ok':
          raise Violation('admin-failed', '%s failed: %r' % (rop, e))
        if rop['op'] == 'addkey':
          n = max(set(want) - set(st))
          sizes[n] = rop.get('size') or DEFAULT_SIZE[a.kind]
          origin.pop(n, None)
        if rop['op'] == 'revoke':
          origin.pop(rop['version'], None)
          removed.append(rop['version'])
        st = want
      w = K.writers.CreateWriter(KS)

      def store():
        czar.Write(w, crypter)
        for n in sorted(set(removed)):
          if n not in st and n in model.keys:
            w.Remove(n)
      out, e, _ = site.attempt(K, store)
      if out != 'ok':
        raise Violation('admin-failed', 'writing %s failed: %r' % (st, e))
    new = a.must(when=' after a batch')
    if new.statuses() != st:
      raise Violation('lifecycle', 'batch: %s became %s, expected %s' %
                      (brief(model), brief(new), sorted(st.items())))
    for n, o in origin.items():
      if n in st and new.keys[n].ident() != model.keys[o].ident():
        raise Violation('lifecycle', 'batch changed the key of version %d' % n)
    hashes = [k.hash for k in new.keys.values()]
    if len(set(hashes)) != len(hashes):
      raise Violation('id-collision', 'two versions share a key identifier')
    for n, s in sizes.items():
      if n in st and n not in origin and (new.keys[n].size != s or
                                          self.real_size(new.keys[n]) != s):
        raise Violation('lifecycle', 'asked for %s bits, got %s' %
                        (s, new.keys[n].size))
    self.reopen(site, ctx, a, new)
    return new


class PublicExport(Scenario):
  """C16: export of public keysets."""
  id = 'C16'
  must_reach = ('exported', 'export_crashed', 'export_failed', 'reexported',
                'verified_by_public', 'public_encrypted', 'public_refused_role',
                'symmetric_refused', 'encrypted_source', 'no_primary_public',
                'held_exports')
  rule = ('a run is a seeded history of rotations, exports (some crashing or '
          'meeting failing calls) and messages between holders of the private '
          'and the public keyset, with everything written to the destination '
          'searched for private components; non-trivial when an export took '
          'place after a rotation')
  state_measure = '(kind, statuses exported, export number capped, outcome)'
  quick_runs = 5000

  def gen(self, rng, tier, index):
    kind = weighted(rng, [(3, 'rsa'), (3, 'rsasign'), (4, 'dsa'), (0.6, 'aes'),
                          (0.6, 'hmac')])
    p = common_plan(rng)
    p.update({'kind': kind, 'crypted': rng.random() < 0.25})
    ops = [{'op': 'addkey', 'status': 'PRIMARY', 'size': gen_size(rng, kind),
            'seed': seed_of(rng), 'pick': 0}]
    for _ in range(rng.randint(3, 12)):
      r = rng.random()
      if r < 0.38:
        op = gen_admin(rng, kind)
      elif r < 0.41 and kind in ASYM:
        op = {'op': 'held', 'seed': seed_of(rng), 'steps': [
            dict(gen_admin(rng, kind), dest=rng.randrange(2),
                 skip=rng.random() < 0.2) for _ in range(rng.randint(2, 5))]}
      elif r < 0.75:
        op = {'op': 'export', 'seed': seed_of(rng),
              'api': rng.random() < 0.3}
        r2 = rng.random()
        if r2 < 0.3:
          op['crash'] = {'frac_at': round(rng.random(), 6),
                         'mode': rng.choice(('kill', 'torn', 'power')),
                         'frac': rng.choice((0, 0.3, 0.9)),
                         'seed': seed_of(rng)}
        elif r2 < 0.5:
          op['err'] = {'frac_at': round(rng.random(), 6),
                       'count': weighted(rng, [(4, 1), (2, 1000000)]),
                       'errno': rng.choice(('ENOSPC', 'EIO', 'EACCES'))}
      else:
        op = {'op': 'msg', 'seed': seed_of(rng),
              'how': rng.choice(msgs.hows(kind)), 'role': rng.randrange(10),
              'data': gen_data(rng, maxdata(kind)), 'nonce': gen_data(rng, 20)}
      ops.append(op)
    p['ops'] = ops
    return p

  def run(self, plan, ctx):
    import random
    site = Site(plan, ctx)
    w = site.w
    kind = plan['kind']
    cr = None
    if plan['crypted']:
      setup_crypter(site, 'c')
      cr = CR
    a = Admin(site, kind, KS, cr)
    a.create()
    site.mkdir(PUB)
    w.fs.sync_all()
    pubks = None               # what the public keyset must be, when known
    exports = 0
    rotated = 0
    patterns = {}
    found = []

    def look(blob, path):
      blob = bytes(blob)
      for sec, pats in patterns.items():
        for t in pats:
          if t in blob:
            found.append(path)
            return

    for op in plan['ops']:
      ctx.steps += 1
      o = op['op']
      model = a.must()
      if o == 'export':
        xop = {'op': 'pubkey', 'dest': PUB, 'api': op.get('api')}
        if kind not in ASYM:
          before = w.fs.digest()
          out, e = a.run(xop, op['seed'])
          if out == 'ok':
            raise Violation('exported-symmetric', 'pubkey of a %s keyset '
                            'succeeded' % kind)
          if w.fs.digest() != before:
            raise Violation('exported-symmetric', 'pubkey of a %s keyset left '
                            '%s' % (kind, sorted(site.files(PUB))))
          ctx.probe('symmetric_refused')
          ctx.nontrivial = True
          continue
        for k in model.keys.values():
          for sec in k.secrets():
            if sec not in patterns:
              patterns[sec] = refkz.needles(sec)
        p = site.proc('admin')
        fired = []
        if op.get('crash') or op.get('err'):
          with w.with_fs(w.fs.clone()):
            dry = site.proc('dry')
            a.run(xop, op['seed'], dry)
          f = op.get('crash') or op.get('err')
          at = int(f['frac_at'] * dry.calls)
          p.fault = (crash_fault if op.get('crash') else error_fault)(
              dict(f, at=at), ctx, fired)
        w.fs.on_write = lambda node, path: (
            look(node.data, path) if path.startswith(PUB) else None)
        out, e = a.run(xop, op['seed'], p)
        w.fs.on_write = None
        ctx.event('export', out, fired[:1])
        if fired:
          if op.get('crash'):
            ctx.probe('export_crashed')
            if op['crash']['mode'] == 'power':
              w.fs.power_loss(random.Random(op['crash']['seed']))
          else:
            ctx.probe('export_failed')
          self.scan(site, look, found)
          if out != 'ok':
            # export again, undisturbed
            w.fs.on_write = lambda node, path: (
                look(node.data, path) if path.startswith(PUB) else None)
            out, e = a.run(xop, op['seed'])
            w.fs.on_write = None
        if out != 'ok':
          raise Violation('export-failed', 'of %s: %r' % (brief(model), e))
        self.scan(site, look, found)
        w.fs.sync_all()
        want = model.public()
        got = site.must_store(PUB, when=' after the export')
        if got.picture() != want.picture():
          raise Violation('export-differs', 'exported %s from %s' %
                          (brief(got), brief(model)))
        self.same(site, a, model)
        pubks = want
        if cr:
          ctx.probe('encrypted_source')
        ctx.probe('reexported' if exports else 'exported')
        if exports or rotated:
          ctx.nontrivial = True
        exports += 1
        ctx.state(kind, sorted(want.statuses().values()), min(exports, 3))
        self.roles(site, ctx, kind)
      elif o == 'held':
        for k in model.keys.values():
          for sec in k.secrets():
            if sec not in patterns:
              patterns[sec] = refkz.needles(sec)
        pubks = self.held(site, ctx, a, op) or pubks
        self.scan(site, look, found)
        w.fs.sync_all()
        rotated += 1
      elif o == 'msg':
        if pubks is not None:
          self.message(site, ctx, kind, cr, model, pubks, op)
      else:
        rop = resolve(op, model.statuses())
        if o != 'addkey' and not rop['legal']:
          continue
        out, e = a.run(rop, op['seed'])
        if out != 'ok':
          raise Violation('admin-failed', '%s: %r' % (o, e))
        rotated += 1
        w.fs.sync_all()

  def held(self, site, ctx, a, op):
    """A program that keeps the keyset, changes it and exports it again."""
    p = site.proc('program')
    site.w.entropy.reseed(op['seed'])
    site.mkdir(PUB + '2')
    pubks = None
    with site.on(p) as K:
      crypter = (K.keyczar.Crypter.Read(a.crypter_loc)
                 if a.crypter_loc else None)
      czar = K.keyczar.GenericKeyczar(site.reader(K, a.loc, crypter))

      def change(rop):
        if rop['op'] == 'addkey':
          czar.AddVersion(K.keyinfo.GetStatus(rop['status'] or 'ACTIVE'),
                          rop['size'])
        else:
          getattr(czar, rop['op'].title())(rop['version'])
        writer = K.writers.CreateWriter(a.loc)
        try:
          czar.Write(writer, crypter)
          if rop['op'] == 'revoke':
            writer.Remove(rop['version'])
        finally:
          writer.Close()

      for i, step in enumerate(op['steps']):
        rop = resolve(step, a.must().statuses())
        if rop['op'] == 'addkey' or rop['legal']:
          out, e, _ = site.attempt(K, lambda: change(rop))
          if out != 'ok':
            raise Violation('admin-failed', '%s in a program: %r' %
                            (rop['op'], e))
        if step['skip']:
          continue
        dest = PUB + ('2' if step['dest'] else '')
        model = a.must()
        out, e, _ = site.attempt(K, lambda: czar.PublicKeyExport(dest))
        if out != 'ok':
          raise Violation('export-failed', 'of %s by a program: %r' %
                          (brief(model), e))
        got = site.must_store(dest, when=' after the export')
        if got.picture() != model.public().picture():
          raise Violation('export-differs', 'a program exported %s from %s' %
                          (brief(got), brief(model)))
        self.same(site, a, model)
        if i:
          ctx.probe('held_exports')
          ctx.nontrivial = True
        if dest == PUB:
          pubks = got
    ctx.event('held', pubks is not None)
    return pubks

  def scan(self, site, look, found):
    for name, blob in site.files(PUB).items():
      look(blob, PUB + '/' + name)
    if found:
      raise Violation('exposed', 'private component in %s' % sorted(set(found)))

  def same(self, site, a, model):
    if a.must(when=' after the export').picture() != model.picture():
      raise Violation('bystander', 'the export changed the private keyset')

  def roles(self, site, ctx, kind):
    good = ('Encrypter',) if kind == 'rsa' else ('Verifier',
                                                 'UnversionedVerifier')
    for role in ('Encrypter', 'Crypter', 'Signer', 'Verifier',
                 'UnversionedSigner', 'UnversionedVerifier'):
      p = site.proc('holder')
      with site.on(p) as K:
        out, e, _ = site.attempt(K, lambda: site.open(K, role, PUB))
      if role in good:
        if out != 'ok':
          raise Violation('cannot-open', 'public keyset as %s: %r' % (role, e))
      elif out == 'ok':
        raise Violation('role', 'public keyset opens as ' + role)
      else:
        ctx.probe('public_refused_role')

  def message(self, site, ctx, kind, cr, model, pubks, op):
    how, text, nonce = op['how'], data(op['data']), data(op['nonce'])
    site.w.entropy.reseed(op['seed'])
    maker = KS if kind in SIGN else PUB
    mks = model if kind in SIGN else pubks
    prim = [n for n, s in mks.statuses().items() if s == 'PRIMARY']
    p = site.proc('maker')
    with site.on(p) as K:
      out, e, msg = site.attempt(K, lambda: msgs.produce(
          site.open(K, msgs.role_for(how, kind), maker,
                    cr if maker == KS else None), how, text, nonce))
    if not prim:
      if out == 'ok':
        raise Violation('no-primary', 'output without a primary key')
      if maker == PUB:
        ctx.probe('no_primary_public')
      return
    if out != 'ok':
      raise Violation('cannot-use', '%s with %s: %r' % (how, brief(mks), e))
    key = mks.keys[prim[0]]
    tks = pubks if kind in SIGN else model
    there = [k for k in tks.keys.values()
             if (getattr(k, 'pub', k)).ident() == getattr(key, 'pub',
                                                          key).ident()]
    p = site.proc('taker')
    with site.on(p) as K:
      out, e, v = site.attempt(K, lambda: msgs.consume(
          site.open(K, msgs.role_for(how, kind, False),
                    PUB if kind in SIGN else KS,
                    cr if kind not in SIGN else None), how, msg, text, nonce))
    ctx.event('msg', how, bool(there), out)
    good = text if kind == 'rsa' or how.startswith('att') else True
    if there:
      if out != 'ok' or v != good:
        raise Violation('cannot-use', '%s made by %s not taken by %s: %s %r' %
                        (how, brief(mks), brief(tks), out, e or v))
      ctx.probe('verified_by_public' if kind in SIGN else 'public_encrypted')
    elif out == 'ok' and v not in (None, False):
      raise Violation('wrong-accept', '%s made by %s taken by %s' %
                      (how, brief(mks), brief(tks)))


ALLOWED = {'Encrypter': ('ENCRYPT', 'DECRYPT_AND_ENCRYPT'),
           'Crypter': ('DECRYPT_AND_ENCRYPT',),
           'Signer': ('SIGN_AND_VERIFY',),
           'UnversionedSigner': ('SIGN_AND_VERIFY',),
           'Verifier': ('VERIFY', 'SIGN_AND_VERIFY'),
           'UnversionedVerifier': ('VERIFY', 'SIGN_AND_VERIFY')}


class Roles(Scenario):
  """C17: what a keyset opens for."""
  id = 'C17'
  must_reach = ('opened', 'refused_role', 'two_primaries', 'bad_type',
                'bad_purpose', 'bad_status', 'type_mismatch', 'foreign_key',
                'foreign_meta', 'purpose_edit', 'public')
  rule = ('a run is a seeded history of administrative commands; in between '
          'the keyset (and its exported public keyset) is opened in every '
          'role, as stored and after seeded damage to its metadata or files '
          'misplaced between keysets; non-trivial when a refusal was due')
  state_measure = '(purpose, type, damage, role, outcome)'
  quick_runs = 4500

  DAMAGE = ('two_primaries', 'two_primaries', 'bad_type', 'bad_purpose',
            'bad_status', 'type_mismatch', 'foreign_key', 'foreign_meta',
            'purpose_edit')

  def gen(self, rng, tier, index):
    kind = gen_kind(rng)
    p = common_plan(rng)
    p.update({'kind': kind, 'crypted': rng.random() < 0.2,
              'other': rng.choice([k for k in sorted(KINDS) if
                                   KINDS[k][1] != KINDS[kind][1]])})
    ops = [{'op': 'addkey', 'status': 'PRIMARY', 'size': gen_size(rng, kind),
            'seed': seed_of(rng), 'pick': 0}]
    for _ in range(rng.randint(3, 12)):
      r = rng.random()
      if r < 0.35:
        op = gen_admin(rng, kind)
      elif r < 0.5:
        op = {'op': 'open', 'pub': kind in ASYM and rng.random() < 0.5,
              'reader': rng.random() < 0.5}
      else:
        op = {'op': 'damage', 'how': rng.choice(self.DAMAGE),
              'pub': kind in ASYM and rng.random() < 0.3,
              'pick': rng.randrange(1000), 'seed': seed_of(rng),
              'reader': rng.random() < 0.5}
      ops.append(op)
    p['ops'] = ops
    return p

  def run(self, plan, ctx):
    site = Site(plan, ctx)
    w = site.w
    kind = plan['kind']
    cr = None
    if plan['crypted']:
      setup_crypter(site, 'c')
      cr = CR
    a = Admin(site, kind, KS, cr)
    a.create()
    site.mkdir(PUB)
    oth = Admin(site, plan['other'], ROOT + '/other')
    oth.create()
    out, e = oth.run({'op': 'addkey', 'status': 'PRIMARY', 'size': 1024 if
                      plan['other'] in ASYM else None}, 'other')
    if out != 'ok':
      raise Violation('setup', 'addkey: %r' % e)
    for op in plan['ops']:
      ctx.steps += 1
      o = op['op']
      model = a.must()
      if o == 'open':
        loc, c = KS, cr
        if op['pub']:
          out, e = a.run({'op': 'pubkey', 'dest': PUB}, 1)
          if out != 'ok':
            raise Violation('admin-failed', 'pubkey: %r' % e)
          loc, c = PUB, None
          ctx.probe('public')
        purpose = site.must_store(loc, a.ref_crypter() if c else None).purpose
        self.roles(site, ctx, op, loc, c, purpose, True, 'as stored')
      elif o == 'damage':
        with w.with_fs(w.fs.clone()):
          self.damaged(site, ctx, a, oth, cr, model, op)
      else:
        rop = resolve(op, model.statuses())
        if o != 'addkey' and not rop['legal']:
          continue
        out, e = a.run(rop, op['seed'])
        if out != 'ok':
          raise Violation('admin-failed', '%s: %r' % (o, e))

  def damaged(self, site, ctx, a, oth, cr, model, op):
    import random
    w = site.w
    rng = random.Random(op['seed'])
    loc, c = KS, cr
    if op['pub']:
      if a.run({'op': 'pubkey', 'dest': PUB}, 1)[0] != 'ok':
        raise Violation('admin-failed', 'pubkey')
      loc, c = PUB, None
    meta = json.loads(w.fs.h_read(loc + '/meta').decode())
    how = op['how']
    vs = meta['versions']
    generic = True
    if how == 'two_primaries':
      if len(vs) < 2:
        return
      prim = [v for v in vs if v['status'] == 'PRIMARY']
      rest = [v for v in vs if v['status'] != 'PRIMARY']
      if not prim:
        rest.pop(op['pick'] % len(rest))['status'] = 'PRIMARY'
      rest[rng.randrange(len(rest))]['status'] = 'PRIMARY'
    elif how in ('bad_type', 'bad_purpose'):
      f = how[4:]
      meta[f] = self.bad(rng, meta[f])
    elif how == 'bad_status':
      if not vs:
        return
      v = vs[op['pick'] % len(vs)]
      v['status'] = self.bad(rng, v['status'])
    elif how == 'type_mismatch':
      if not vs:
        return
      meta['type'] = rng.choice([t for t in sorted(refkz.KEY_TYPES)
                                 if t != meta['type']])
    elif how == 'purpose_edit':
      meta['purpose'] = rng.choice(('DECRYPT_AND_ENCRYPT', 'ENCRYPT',
                                    'SIGN_AND_VERIFY', 'VERIFY'))
      generic = False
    elif how == 'foreign_key':
      if not vs or c:
        return
      v = vs[op['pick'] % len(vs)]
      w.fs.h_write('%s/%d' % (loc, v['versionNumber']),
                   w.fs.h_read(oth.loc + '/1'))
    elif how == 'foreign_meta':
      if '1' not in site.files(loc) or c:
        return
      meta = json.loads(w.fs.h_read(oth.loc + '/meta').decode())
    w.fs.h_write(loc + '/meta', json.dumps(meta).encode())
    ctx.probe(how)
    ctx.fault('damage_' + how)
    ctx.nontrivial = True
    if how == 'purpose_edit':
      self.roles(site, ctx, op, loc, c, meta['purpose'], False, how)
      return
    self.roles(site, ctx, op, loc, c, None, False, how, generic)

  def bad(self, rng, old):
    cands = [old.lower(), old + ' ', 'X' + old, '', 'NONE', None, 0, old[:-1],
             'REVOKED', old.replace('_', '-')]
    cands = [x for x in cands if x != old and x not in refkz.KEY_TYPES]
    return rng.choice(cands)

  def roles(self, site, ctx, op, loc, c, purpose, must, what, generic=False):
    for role in sorted(ALLOWED) + (['GenericKeyczar'] if generic else []):
      may = purpose in ALLOWED.get(role, ())
      p = site.proc('user')
      with site.on(p) as K:
        def go():
          if op.get('reader') and c is None:
            return getattr(K.keyczar, role)(site.reader(K, loc))
          return site.open(K, role, loc, c)
        out, e, _ = site.attempt(K, go)
      ctx.event(what, role, out)
      ctx.state(purpose, what, role, out)
      if out == 'ok' and not may:
        raise Violation('opened', '%s opened a keyset (%s, purpose %s)' %
                        (role, what, purpose))
      if out != 'ok' and may and must:
        raise Violation('cannot-open', '%s on purpose %s: %r' % (role, purpose,
                                                                e))
      if out == 'ok':
        ctx.probe('opened')
      else:
        ctx.probe('refused_role')
        ctx.nontrivial = True
