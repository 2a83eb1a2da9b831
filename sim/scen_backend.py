"""C20: keysets outside the local file system, through pluggable backends."""
import os
import sys

from . import backend
from . import msgs
from . import refkz
from . import sched
from . import world as W
from .common import (Admin, Scenario, Site, Violation, CRYPT, KINDS, PURPOSE,
                     ROOT, brief, common_plan, data, expect, gen_admin,
                     gen_data, gen_kind, gen_size, pic, picture_of, resolve,
                     seed_of, weighted)
from .scen_admin import maxdata

ENV = 'KEYCZAR_BACKEND_PATHS'
HERE = os.path.dirname(os.path.abspath(__file__))
A, B, NONE = (os.path.join(HERE, 'backends', x) for x in ('a', 'b', 'none'))
PATHS = ([A, B], [B, A], [NONE, A, B], [A, NONE, B], [B, NONE, A, A])


class StoreAdmin(Admin):
  """Administers a keyset in a backend."""

  def create(self, seed=0):
    if ':' not in self.loc:
      self.site.mkdir(self.loc)
    out, e = self.run({'op': 'create'}, seed)
    if out != 'ok':
      raise Violation('cannot-create', 'create failed: %s %r' % (out, e))

  def parse(self, fs=None):
    return self.site.stored(backend.path_of(self.loc), self.ref_crypter(fs), fs)

  def must(self, fs=None, when=''):
    return self.site.must_store(backend.path_of(self.loc),
                                self.ref_crypter(fs), fs, when)

  def ref_crypter(self, fs=None):
    if not self.crypter_loc:
      return None
    return self.site.stored(backend.path_of(self.crypter_loc), None, fs)

  def by_api(self, K, op):
    site = self.site
    crypter = (K.keyczar.Crypter.Read(self.crypter_loc)
               if self.crypter_loc else None)
    czar = open_role(K, 'GenericKeyczar', self.loc, crypter)
    o = op['op']
    if o == 'addkey':
      czar.AddVersion(K.keyinfo.GetStatus(op.get('status') or 'ACTIVE'),
                      op.get('size'))
    else:
      getattr(czar, o.capitalize())(op['version'])
    if op.get('wstr'):
      czar.Write(self.loc, crypter)
      site.ctx.probe('write_to_location')
    else:
      writer = K.writers.CreateWriter(self.loc)
      try:
        czar.Write(writer, crypter)
      finally:
        writer.Close()
    if o == 'revoke':
      writer = K.writers.CreateWriter(self.loc)
      try:
        writer.Remove(op['version'])
      finally:
        writer.Close()


def open_role(K, role, loc, crypter=None):
  cls = getattr(K.keyczar, role)
  if crypter is None:
    return cls.Read(loc)
  r = K.readers.EncryptedReader(K.readers.CreateReader(loc), crypter)
  try:
    return cls(r)
  finally:
    r.Close()


def gen_store_fault(rng):
  return {'frac_at': round(rng.random(), 6), 'mode': rng.choice(
      ('kill', 'kill', 'die', 'die', 'err', 'err', 'lost'))}


class Backends(Scenario):
  id = 'C20'
  threaded = True
  must_reach = ('created', 'changed', 'used', 'encrypted', 'crypter_in_store',
                'copied_in', 'copied_out', 'store_failed', 'answer_lost',
                'killed', 'unclaimed', 'not_plugged_in', 'item_missing',
                'opened_inside', 'commit_on_close', 'write_to_location',
                'refused', 'unversioned', 'copied_twice')
  rule = ('a run is a seeded history of administrative commands, opens in all '
          'roles and messages over keysets in stores reached through plugged '
          'in readers and writers, with failing, unanswered and interrupted '
          'calls of the store and overlapping processes; non-trivial when a '
          'fault or an overlap happened')
  state_measure = '(kind, store mode, command, fault, outcome)'
  quick_runs = 3750
  stubs = Scenario.stubs + ['the store behind the backends (in memory; '
                            'sim/backend.py), two plugged-in backend modules']

  def list_keys(self, plan):
    return ['ops', 'pre']

  def gen(self, rng, tier, index):
    kind = gen_kind(rng)
    p = common_plan(rng)
    p.update({'kind': kind, 'paths': rng.randrange(len(PATHS)),
              'where': rng.choice(('db', 'kv')),
              'mode': rng.choice(('direct', 'commit')),
              'crypter': weighted(rng, [(5, None), (2, 'db'), (1, 'kv'),
                                        (1, 'file')])})
    p['pre'] = [{'op': 'addkey', 'status': rng.choice(('PRIMARY', 'PRIMARY',
                                                       'ACTIVE', 'INACTIVE')),
                 'size': gen_size(rng, kind), 'seed': seed_of(rng), 'pick': 0}
                for _ in range(rng.randint(0, 3))]
    ops = []
    for _ in range(rng.randint(3, 14)):
      r = rng.random()
      if r < 0.46:
        op = gen_admin(rng, kind)
        if rng.random() < 0.35:
          op['api'] = True
          op['wstr'] = rng.random() < 0.4
        if rng.random() < 0.1:
          op['any'] = True
        if rng.random() < 0.4:
          op['fault'] = gen_store_fault(rng)
      elif r < 0.6:
        op = {'op': 'use', 'seed': seed_of(rng), 'how': rng.choice(
            msgs.hows(kind)), 'data': gen_data(rng, maxdata(kind)),
              'nonce': gen_data(rng, 20), 'alt': rng.randrange(2)}
        if rng.random() < 0.2:
          op['fault'] = gen_store_fault(rng)
      elif r < 0.66:
        op = {'op': 'copy', 'seed': seed_of(rng), 'out': rng.random() < 0.5,
              'to': rng.choice(('db', 'kv')), 'wstr': rng.random() < 0.4,
              'wrap': rng.random() < 0.5, 'before': rng.random() < 0.3}
        if rng.random() < 0.3:
          op['fault'] = gen_store_fault(rng)
      elif r < 0.71:
        op = {'op': 'unclaimed', 'seed': seed_of(rng), 'bare':
              rng.random() < 0.4, 'which': rng.randrange(5)}
      elif r < 0.76:
        op = {'op': 'missing', 'pick': rng.randrange(100),
              'role': rng.randrange(10)}
      elif r < 0.82:
        op = {'op': 'create', 'seed': seed_of(rng)}
      else:
        op = gen_admin(rng, kind, rng.choice((None, {'revoke': 5, 'demote': 3,
                                                     'addkey': 1})))
        nread = rng.randint(1, 3)
        op['race'] = {
            'readers': [[rng.randrange(10) for _ in range(rng.randint(1, 3))]
                        for _ in range(nread)],
            'switches': sched.gen_switches(rng, rng.choice((4, 12, 40)),
                                           nread + 1, rng.choice((1, 2, 4, 8)))}
      ops.append(op)
    p['ops'] = ops
    return p

  def run(self, plan, ctx):
    old = os.environ.get(ENV)
    path = list(sys.path)
    os.environ[ENV] = os.pathsep.join(PATHS[plan['paths']])
    try:
      self.history(plan, ctx)
    finally:
      sys.path[:] = path
      if old is None:
        os.environ.pop(ENV, None)
      else:
        os.environ[ENV] = old

  # one piece of work ------------------------------------------------------------
  def work(self, p, fn, fired=None):
    """fn() in process p: it leaves no connection open, writes no file."""
    out, e = fn(p)[:2]
    self.checks(p, out)
    return out, e

  def checks(self, p, out):
    st = self.site.w.backend
    if st.bad:
      raise st.bad
    if out == 'crash':
      st.conns = [c for c in st.conns if c.proc is not p]
    else:
      st.settle([p])
    for name, path, mutating in p.trace:
      if mutating and not name.startswith('store_') and \
          not (path or '').startswith(self.local):
        raise Violation('elsewhere', '%s of %s while working on a keyset in a '
                        'backend' % (name, path))

  def fault(self, spec, n, fired):
    at = int(spec['frac_at'] * n)
    ctx = self.ctx

    def f(proc, idx, name, path, mutating):
      if idx != at or not name.startswith('store_'):
        return None
      fired.append(name)
      ctx.fault('%s_%s' % (spec['mode'], name))
      if spec['mode'] == 'kill':
        proc.dead = True
        raise W.SimCrash()
      return (spec['mode'],)
    return f

  def dry(self, fn):
    """Number of gated calls of fn, tried on a clone of the store."""
    w = self.site.w
    conns = w.backend.conns
    with w.with_fs(w.fs.clone()):
      p = self.site.proc('dry')
      fn(p)
    w.backend.conns = conns
    return max(1, p.calls)

  def history(self, plan, ctx):
    site = self.site = Site(plan, ctx)
    self.ctx = ctx
    self.plan = plan
    self.local = ROOT + '/local'
    site.w.backend = backend.Store(plan['mode'])
    if plan['mode'] == 'commit':
      ctx.probe('commit_on_close')
    site.mkdir(backend.PATH)
    site.mkdir(self.local)
    kind = plan['kind']
    cr = None
    if plan['crypter']:
      cr = (self.local + '/crypter' if plan['crypter'] == 'file' else
            plan['crypter'] + ':crypter')
      c = StoreAdmin(site, 'aes', cr, name='crypter')
      c.create(1)
      self.must_run(c, {'op': 'addkey', 'status': 'PRIMARY', 'size': None}, 2)
      ctx.probe('encrypted')
      if plan['crypter'] != 'file':
        ctx.probe('crypter_in_store')
    self.cr = cr
    a = self.a = StoreAdmin(site, kind, plan['where'] + ':ks', cr)
    a.create()
    ks = a.must(when=' after create')
    if ks.statuses() or ks.type != KINDS[kind][1] or \
        ks.purpose != PURPOSE[kind] or ks.name != 'Test':
      raise Violation('create', 'create made %s' % brief(ks))
    ctx.probe('created')
    for op in plan['pre']:
      self.must_run(a, dict(op), op['seed'])
    for i, op in enumerate(plan['ops']):
      ctx.steps += 1
      o = op['op']
      if op.get('race'):
        self.race(op)
      elif o == 'use':
        self.use(op)
      elif o == 'copy':
        self.copy(op, i)
      elif o == 'unclaimed':
        self.unclaimed(op)
      elif o == 'missing':
        self.missing(op)
      elif o == 'create':
        self.refuse(lambda p: a.run({'op': 'create'}, op['seed'], p),
                    'create over an existing keyset')
      else:
        self.admin(op)

  def must_run(self, a, op, seed):
    p = self.site.proc('admin')
    out, e = self.work(p, lambda p: a.run(op, seed, p))
    if out != 'ok':
      raise Violation('admin-failed', '%s: %s %r' % (op['op'], out, e))

  def refuse(self, fn, what):
    site = self.site
    before = site.w.fs.digest()
    out, e = self.work(site.proc('admin'), fn)
    if out != 'error':
      raise Violation('not-refused', '%s: %s %r' % (what, out, e))
    if site.w.fs.digest() != before:
      raise Violation('refused-but-changed', '%s changed the store' % what)
    self.ctx.probe('refused')

  # administration ---------------------------------------------------------------
  def admin(self, op):
    a, site, ctx = self.a, self.site, self.ctx
    pre = a.must()
    st = pre.statuses()
    rop = resolve(op, st)
    if op['op'] != 'addkey' and (op.get('any') or not rop['legal']):
      rop = dict(op, version=sorted(st)[op['pick'] % len(st)] if st else 1)
    want = expect(st, rop)
    if want is None:
      self.refuse(lambda p: a.run(rop, op['seed'], p), '%s of %s' % (
          rop['op'], brief(pre)))
      return
    p = site.proc('admin')
    fired = []
    if op.get('fault'):
      n = self.dry(lambda p: a.run(rop, op['seed'], p))
      p.fault = self.fault(op['fault'], n, fired)
    out, e = self.work(p, lambda p: a.run(rop, op['seed'], p))
    self.outcome(op.get('fault'), fired, rop['op'], out, e)
    post = a.must(when=' after %s' % rop['op'])
    done = self.is_after(pre, post, want)
    if out == 'ok':
      if not done:
        raise Violation('lifecycle', '%s reported success; %s became %s' %
                        (rop['op'], brief(pre), brief(post)))
      if rop['op'] == 'revoke' and str(rop['version']) in site.files(
          backend.path_of(a.loc)):
        raise Violation('key-survives', 'revoked key is still in the store')
      ctx.probe('changed')
      self.same(a, post)
    elif not done and pic(post) != pic(pre):
      raise Violation('mixed', '%s was cut short (%s); %s became %s' %
                      (rop['op'], fired, brief(pre), brief(post)))

  def outcome(self, fault, fired, what, out, e):
    ctx = self.ctx
    mode = fault['mode'] if fired else None
    ctx.event(what, mode, out)
    ctx.state(self.plan['kind'], self.plan['mode'], what, mode, out)
    if mode:
      ctx.nontrivial = True
      ctx.probe({'err': 'store_failed', 'lost': 'answer_lost'}.get(mode,
                                                                   'killed'))
    if out == 'other':
      raise Violation('wrong-error', '%s with %s: %r' % (what, fired, e))
    if out == 'error' and not fired:
      raise Violation('failed', '%s failed without a fault: %r' % (what, e))
    if mode in ('kill', 'die') and out != 'crash':
      raise Violation('undead', '%s went on after its process was killed' % what)

  def is_after(self, pre, post, want):
    if post.statuses() != want or (post.name, post.purpose, post.type) != (
        pre.name, pre.purpose, pre.type):
      return False
    if post.encrypted != bool(self.cr):
      return False
    return all(post.keys[n].ident() == pre.keys[n].ident()
               for n in want if n in pre.keys)

  def same(self, a, ks, role='GenericKeyczar'):
    """A new process sees exactly what is stored."""
    got = {}

    def go(p):
      with self.site.on(p) as K:
        def f():
          c = K.keyczar.Crypter.Read(a.crypter_loc) if a.crypter_loc else None
          got['ks'] = picture_of(open_role(K, role, a.loc, c))
        return self.site.attempt(K, f)
    out, e = self.work(self.site.proc('reader'), go)
    if out != 'ok':
      raise Violation('cannot-open', '%s of %s: %s %r' % (role, brief(ks), out,
                                                          e))
    if pic(got['ks']) != pic(ks):
      raise Violation('wrong-keys', 'opened as %s, stored as %s' %
                      (brief(got['ks']), brief(ks)))

  def roles(self):
    if self.plan['kind'] in CRYPT:
      return ('GenericKeyczar', 'Crypter', 'Encrypter')
    return ('GenericKeyczar', 'Signer', 'Verifier', 'UnversionedSigner',
            'UnversionedVerifier')

  # use --------------------------------------------------------------------------
  def use(self, op):
    """A message made by one process and taken by another."""
    site, ctx, a = self.site, self.ctx, self.a
    kind = self.plan['kind']
    ks = a.must()
    how = op['how']
    text, nonce = data(op['data']), data(op['nonce'])
    prim = 'PRIMARY' in ks.statuses().values()
    made = {}

    def produce(p):
      site.w.entropy.reseed(op['seed'])
      with site.on(p) as K:
        def f():
          c = K.keyczar.Crypter.Read(self.cr) if self.cr else None
          role = msgs.role_for(how, kind)
          if op['alt'] and role == 'Encrypter':
            role = 'Crypter'
          obj = open_role(K, role, a.loc, c)
          made['m'] = msgs.produce(obj, how, text, nonce)
        return site.attempt(K, f)

    def consume(p):
      with site.on(p) as K:
        def f():
          c = K.keyczar.Crypter.Read(self.cr) if self.cr else None
          role = msgs.role_for(how, kind, False)
          if op['alt'] and role == 'Verifier':
            role = 'Signer'
          obj = open_role(K, role, a.loc, c)
          made['v'] = msgs.consume(obj, how, made['m'], text, nonce)
        return site.attempt(K, f)
    p = site.proc('maker')
    fired = []
    if op.get('fault'):
      p.fault = self.fault(op['fault'], self.dry(produce), fired)
      made.clear()
    out, e = self.work(p, produce)
    if not prim and not fired:
      if out != 'error':
        raise Violation('no-primary', '%s without a primary key: %s %r' %
                        (how, out, e))
      return
    self.outcome(op.get('fault'), fired, 'use', out, e)
    if out != 'ok':
      return
    if not prim or not msgs.made_by(how, made['m'], ks.primary(), text, nonce):
      raise Violation('wrong-key', '%s was not made by the primary key of %s' %
                      (how, brief(ks)))
    out, e = self.work(site.proc('taker'), consume)
    v = made.get('v')
    good = out == 'ok' and (v == text if kind in CRYPT or
                            how.startswith('att') else bool(v))
    if not good:
      raise Violation('lost-message', '%s with %s gave %s %r' %
                      (how, brief(ks), out, e or v))
    ctx.probe('used')
    if how.startswith('unv'):
      ctx.probe('unversioned')

  # moving keysets ---------------------------------------------------------------
  def parse(self, b):
    try:
      return b.parse()
    except refkz.RefError as e:
      raise Violation('bad-store', 'the copy in %s is broken: %s' % (b.loc, e))

  def copy(self, op, i):
    """Into another store or a directory, or back."""
    site, ctx, a = self.site, self.ctx, self.a
    ks = a.must()
    dest = (self.local + '/c%d' % i if op['out'] else '%s:c%d' % (op['to'], i))
    if op['out']:
      site.mkdir(dest)
    cr = self.cr if op['wrap'] else None

    def go(p):
      site.w.entropy.reseed(op['seed'])
      with site.on(p) as K:
        def f():
          c = K.keyczar.Crypter.Read(self.cr) if self.cr else None
          czar = open_role(K, 'GenericKeyczar', a.loc, c)
          if op.get('before'):
            # one object, stored in two places
            w = K.writers.CreateWriter('%s:b%d' % (op['to'], i))
            try:
              czar.Write(w, None if cr else c)
            finally:
              w.Close()
          if op['wstr']:
            czar.Write(dest, c if cr else None)
          else:
            w = K.writers.CreateWriter(dest)
            try:
              czar.Write(w, c if cr else None)
            finally:
              w.Close()
        return site.attempt(K, f)
    p = site.proc('admin')
    fired = []
    if op.get('fault'):
      p.fault = self.fault(op['fault'], self.dry(go), fired)
    out, e = self.work(p, go)
    self.outcome(op.get('fault'), fired, 'copy', out, e)
    if pic(a.must()) != pic(ks):
      raise Violation('copy-changed', 'copying %s changed it' % brief(ks))
    b = StoreAdmin(site, self.plan['kind'], dest, cr)
    new = self.parse(b)
    if out == 'ok':
      if pic(new) != pic(ks):
        raise Violation('copy', '%s was copied as %s' % (brief(ks), brief(new)))
      self.same(b, ks)
      ctx.probe('copied_out' if op['out'] else 'copied_in')
      if op.get('before'):
        b = StoreAdmin(site, self.plan['kind'], '%s:b%d' % (op['to'], i),
                       None if cr else self.cr)
        new = self.parse(b)
        if pic(new) != pic(ks):
          raise Violation('copy', '%s was copied as %s' % (brief(ks),
                                                           brief(new)))
        self.same(b, ks)
        ctx.probe('copied_twice')
    elif new is not None and pic(new) != pic(ks):
      raise Violation('mixed', 'a copy of %s that was cut short is %s' %
                      (brief(ks), brief(new)))

  # locations nobody serves ------------------------------------------------------
  def unclaimed(self, op):
    site = self.site
    loc = 'zz:ks'
    if op['bare']:
      # a process without the backends
      loc = self.a.loc
      os.environ.pop(ENV)
      self.ctx.probe('not_plugged_in')
    self.ctx.probe('unclaimed')
    env = PATHS[self.plan['paths']]

    def go(p):
      if op['which'] == 0:
        return site.tool(['create', '--location=' + loc, '--purpose=sign'],
                         op['seed'], p)
      if op['which'] == 1:
        return site.tool(['addkey', '--location=' + loc], op['seed'], p)
      with site.on(p) as K:
        return site.attempt(K, lambda: {
            2: lambda: K.readers.CreateReader(loc),
            3: lambda: K.writers.CreateWriter(loc),
            4: lambda: K.keyczar.GenericKeyczar.Read(loc)}[op['which']]())
    try:
      self.refuse(go, 'request %d for a location nobody serves' % op['which'])
    finally:
      os.environ[ENV] = os.pathsep.join(env)

  def missing(self, op):
    """An item is gone: opening fails, in every role."""
    site, a = self.site, self.a
    ks = a.must()
    path = backend.path_of(a.loc)
    items = [str(n) for n in sorted(ks.versions)] + ['meta']
    item = items[op['pick'] % len(items)]
    value = site.w.fs.h_read(path + '/' + item)
    site.w.fs.unlink(path + '/' + item)
    roles = self.roles()
    role = roles[op['role'] % len(roles)]

    def go(p):
      with site.on(p) as K:
        return site.attempt(K, lambda: open_role(
            K, role, a.loc,
            K.keyczar.Crypter.Read(self.cr) if self.cr else None))
    self.refuse(go, 'opening without item %s of %s' % (item, brief(ks)))
    self.ctx.probe('item_missing')
    site.w.fs.h_write(path + '/' + item, value)

  # overlapping processes --------------------------------------------------------
  def race(self, op):
    site, ctx, a = self.site, self.ctx, self.a
    w = site.w
    pre = a.must()
    rop = resolve(op, pre.statuses())
    if rop['op'] != 'addkey' and not rop['legal']:
      return
    want = expect(pre.statuses(), rop)
    s = sched.Sched(w, op['race']['switches'])
    result = {}
    opens = []
    bad = []
    roles = self.roles()
    clock = [0]

    def writer():
      out, e = a.run(rop, op['seed'], s.tasks[0].proc)
      result['out'], result['e'] = out, e
      clock[0] = 1

    def opener(tid, picks):
      def f():
        t = s.tasks[tid]
        K = t.proc.mods
        for pick in picks:
          role = roles[pick % len(roles)]
          late = clock[0]
          out, e, obj = site.attempt(K, lambda: open_role(
              K, role, a.loc,
              K.keyczar.Crypter.Read(self.cr) if self.cr else None))
          s.in_harness = True
          try:
            got = picture_of(obj) if out == 'ok' else None
          except Violation as v:
            bad.append(v)
            return
          finally:
            s.in_harness = False
          opens.append((role, late, out, e, got))
      return f
    procs = [site.proc('admin')]
    s.spawn('admin', writer, procs[0])
    for i, picks in enumerate(op['race']['readers']):
      procs.append(site.proc('reader'))
      s.spawn('reader%d' % i, opener(i + 1, picks), procs[-1])
    s.run()
    for t in s.tasks:
      if t.exc is not None:
        raise t.exc
    if bad:
      raise bad[0]
    for p in procs:
      self.checks(p, 'ok')
    ctx.fault('preemption', s.preempted)
    ctx.interleaving(s.trail)
    if result['out'] != 'ok':
      raise Violation('admin-failed', '%s with openers around: %s %r' %
                      (rop['op'], result['out'], result['e']))
    post = a.must(when=' after %s' % rop['op'])
    if not self.is_after(pre, post, want):
      raise Violation('lifecycle', '%s: %s became %s' % (rop['op'], brief(pre),
                                                         brief(post)))
    for role, late, out, e, got in opens:
      ctx.event('race', rop['op'], role, late, out)
      if s.preempted:
        ctx.nontrivial = True
        ctx.probe('opened_inside')
      if out == 'error' and rop['op'] == 'revoke' and not late:
        continue
      if out != 'ok':
        raise Violation('cannot-open', '%s during %s: %s %r' %
                        (role, rop['op'], out, e))
      if pic(got) != pic(post) and (late or pic(got) != pic(pre)):
        raise Violation('mixed', '%s during %s saw %s, neither %s nor %s' %
                        (role, rop['op'], brief(got), brief(pre), brief(post)))
