"""C04 crashes, C05 storage errors, C06 readers during commands, C15 crypted."""
import random

from . import refkz
from . import sched
from . import world as W
from .common import (Admin, Scenario, Site, Violation, ASYM, CRYPT, ERRNOS, KINDS,
                     ROOT, SIGN, brief, common_plan, crash_fault, data,
                     error_fault, expect, gen_admin, gen_data, gen_kind,
                     gen_size, pic, picture_of, resolve, seed_of, weighted)
from . import msgs
from .scen_admin import CR, KS, PUB, setup_crypter

NEW = ROOT + '/new'


class Store(Scenario):
  """Shared by C04 and C05: one command at a time, some meet a fault."""

  def gen_ops(self, rng, kind, crypted, n):
    ops = []
    for _ in range(n):
      r = rng.random()
      if r < 0.66:
        op = gen_admin(rng, kind)
        if rng.random() < 0.2:
          op['api'] = True
      elif r < 0.82 and kind in ASYM:
        op = {'op': 'pubkey', 'seed': seed_of(rng)}
      elif r < 0.93:
        op = {'op': 'createnew', 'seed': seed_of(rng)}
      else:
        op = {'op': 'recreate', 'seed': seed_of(rng)}
      ops.append(op)
    return ops

  def start(self, plan, ctx):
    site = Site(plan, ctx)
    kind = plan['kind']
    cr = None
    if plan['crypted']:
      setup_crypter(site, 'c')
      cr = CR
    a = Admin(site, kind, KS, cr)
    a.create()
    site.mkdir(PUB)
    site.w.fs.sync_all()
    return site, a

  def command(self, site, a, op, model):
    """(target location, callable(proc) -> outcome, changes) or None."""
    o = op['op']
    if o == 'createnew':
      loc = NEW + str(site.newdirs)
      site.newdirs += 1
      site.mkdir(loc)
      b = Admin(site, a.kind, loc)
      return loc, lambda p: b.run({'op': 'create'}, op['seed'], p), b
    if o == 'recreate':
      return a.loc, lambda p: a.run({'op': 'create'}, op['seed'], p), a
    if o == 'pubkey':
      b = Admin(site, a.kind, PUB)
      return PUB, lambda p: a.run({'op': 'pubkey', 'dest': PUB}, op['seed'],
                                  p), b
    rop = resolve(op, model.statuses())
    if rop['op'] != 'addkey' and not rop['legal']:
      return None
    return a.loc, lambda p: a.run(rop, op['seed'], p), a

  def revoked(self, site, op, b, pre, post, what, kind):
    """After a reported success the revoked key's file is gone."""
    if op['op'] != 'revoke':
      return
    for n in set(pre.versions) - set(post.versions):
      if str(n) in site.files(b.loc):
        raise Violation(kind, '%s: the key file of the revoked version %d is '
                        'still there' % (what, n))

  def aim(self, op, fault, dry, at):
    """Aim at what follows the switch to the new metadata in a revocation."""
    if op['op'] != 'revoke' or not fault.get('aim'):
      return at
    names = [t[0] for t in dry.trace]
    if 'unlink' not in names:
      return at
    first = names.index('unlink')
    return first + int(fault['frac_at'] * 1000) % (len(names) - first)

  def reused(self, pre, post):
    """Does a version number carry another key afterwards?"""
    if pre is None or post is None:
      return False
    return any(n in pre.keys and pre.keys[n].ident() != k.ident()
               for n, k in post.keys.items())

  def real_open(self, site, loc, crypter_loc, want, what):
    """Open with the real code and compare with what is stored."""
    p = site.proc('reader')
    with site.on(p) as K:
      out, e, czar = site.attempt(K, lambda: site.open(
          K, 'GenericKeyczar', loc, crypter_loc))
      if want is None:
        if out == 'ok':
          raise Violation('phantom', '%s: a keyset opens where there is none' %
                          what)
        if out != 'error':
          raise Violation('wrong-error', '%s: opening nothing gave %r' %
                          (what, e))
        return
      if out != 'ok':
        raise Violation('cannot-open', '%s: %s does not open: %r' %
                        (what, brief(want), e))
      got = picture_of(czar)
    if pic(got) != pic(want):
      raise Violation('wrong-open', '%s: opened as %s, stored is %s' %
                      (what, brief(got), brief(want)))


class Crashes(Store):
  id = 'C04'
  must_reach = ('resolved_to_pre', 'resolved_to_post', 'durable_checked',
                'torn_write_crash', 'power_loss', 'crash_in_pubkey',
                'crash_in_revoke', 'crash_in_addkey', 'crash_in_createnew',
                'crash_in_promote', 'crash_in_demote')
  rule = ('a run is a seeded history of administrative commands, several of '
          'them stopped at a seeded system call by a kill, a torn write or a '
          'power loss, with a restart after each; non-trivial when a crash '
          'fired inside a command')
  state_measure = ('(command, system call crashed at, mode, resolved to before '
                   'or after)')
  quick_runs = 7500

  def gen(self, rng, tier, index):
    kind = gen_kind(rng)
    p = common_plan(rng)
    p.update({'kind': kind, 'crypted': rng.random() < 0.25})
    ops = [{'op': 'addkey', 'status': 'PRIMARY', 'size': gen_size(rng, kind),
            'seed': seed_of(rng), 'pick': 0}]
    ops += self.gen_ops(rng, kind, p['crypted'], rng.randint(2, 9))
    if rng.random() < 0.2:
      # a revocation, and the number it frees used again
      i = rng.randrange(1, len(ops) + 1)
      ops[i:i] = [{'op': 'addkey', 'status': 'INACTIVE', 'seed': seed_of(rng),
                   'size': gen_size(rng, kind), 'pick': 0},
                  {'op': 'revoke', 'seed': seed_of(rng), 'pick': 999},
                  {'op': 'addkey', 'status': 'ACTIVE', 'seed': seed_of(rng),
                   'size': gen_size(rng, kind), 'pick': 0}]
    for op in ops:
      if rng.random() < 0.5:
        op['crash'] = {'frac_at': round(rng.random() ** (
            0.5 if op['op'] == 'revoke' else 1), 6),
                       'mode': rng.choice(('kill', 'torn', 'power', 'power',
                                           'worst')),
                       'frac': rng.choice((0, 0.1, 0.5, 0.9)),
                       'aim': rng.random() < 0.4, 'seed': seed_of(rng)}
      elif rng.random() < 0.4:
        op['after'] = rng.choice(('worst', 'power'))
        op['aseed'] = seed_of(rng)
    p['ops'] = ops
    return p

  def run(self, plan, ctx):
    site, a = self.start(plan, ctx)
    site.newdirs = 0
    w = site.w
    ever = set()             # keys the keyset has held
    seeds = set()
    for op in plan['ops']:
      ctx.steps += 1
      model = a.must()
      ever |= {k.ident() for k in model.keys.values()}
      cmd = self.command(site, a, op, model)
      if cmd is None:
        continue
      loc, go, b = cmd
      pre = b.parse()
      # dry run on a copy: how many calls, and what it leads to
      with w.with_fs(w.fs.clone()):
        dry = site.proc('dry')
        out0, e0 = go(dry)
        try:
          post = b.parse()
        except refkz.RefError as e:
          raise Violation('bad-store', '%s stored %s' % (op['op'], e))
      refusal = op['op'] == 'recreate'
      if out0 != ('error' if refusal else 'ok'):
        raise Violation('admin-failed', '%s on %s: %s %r' %
                        (op['op'], brief(pre), out0, e0))
      if op['op'] == 'addkey' and a.kind in ('aes', 'hmac'):
        self.fresh(ever, pre, post, op, seeds)
      others = self.others(site, loc)
      exempt = op['op'] == 'pubkey' and self.reused(pre, post)
      crash = op.get('crash')
      p = site.proc('admin')
      fired = []
      what = op['op']
      if crash:
        at = int(crash['frac_at'] * dry.calls)
        if crash['mode'] == 'torn':
          # aim at a write, where there is one
          ws = [i for i, t in enumerate(dry.trace) if t[0] == 'write']
          if ws:
            at = ws[int(crash['frac_at'] * len(ws))]
        at = self.aim(op, crash, dry, at)
        p.fault = crash_fault(dict(crash, at=at), ctx, fired)
      out, e = go(p)
      ctx.event(what, out, fired and fired[0][0])
      if not fired:
        if out != out0:
          raise Violation('admin-failed', '%s: %s %r' % (what, out, e))
        self.check(site, ctx, b, what, [post], op)
        self.revoked(site, op, b, pre, post, what, 'not-atomic')
        if op.get('after'):
          if op['after'] == 'worst':
            w.fs.power_loss(None, worst=True)
          else:
            w.fs.power_loss(random.Random(op['aseed']))
          ctx.fault('power_loss_after_success')
          ctx.probe('durable_checked')
          self.check(site, ctx, b, what + ', then a power loss', [post], op,
                     'not-durable')
          self.revoked(site, op, b, pre, post, what + ', then a power loss',
                       'not-durable')
        else:
          w.fs.sync_all()
      else:
        ctx.nontrivial = True
        ctx.probe('crash_in_' + what)
        if out != 'crash':
          # the code survived its own death notice: a handler swallowed it
          ctx.probe('crash_swallowed')
        if crash['mode'] in ('power', 'worst'):
          w.fs.power_loss(random.Random(crash['seed']),
                          worst=crash['mode'] == 'worst')
          ctx.fault('power_loss')
        else:
          w.fs.sync_all()
        if exempt:
          ctx.probe('exempt_reused_number')
          # repair as an operator would: export again
          if go(site.proc('admin'))[0] != 'ok':
            raise Violation('cannot-recover', 'repeating the export fails')
          self.check(site, ctx, b, what, [post], op)
        else:
          which = self.check(site, ctx, b, '%s stopped at %s (%s)' %
                             (what, fired[0][0], crash['mode']), [pre, post], op)
          ctx.probe('resolved_to_' + ('pre', 'post')[which])
          ctx.state(what, fired[0][0], crash['mode'], which)
        # the keyset stays usable: what is left over is no obstacle
      self.unharmed(site, others, what)
      if fired:
        self.continue_check(site, ctx, b, ever)

  def fresh(self, ever, pre, post, op, seeds):
    """A new version has a new key."""
    old = {k.ident() for k in pre.keys.values()}
    new = {k.ident() for k in post.keys.values()} - old
    if op['seed'] not in seeds and (new & ever or len(post.keys) - len(old) !=
                                    len(new)):
      raise Violation('old-key', 'addkey brought back an earlier key: %s became '
                      '%s' % (brief(pre), brief(post)))
    seeds.add(op['seed'])

  def others(self, site, loc):
    return {d: site.files(d) for d in (KS, PUB, CR) if d != loc}

  def unharmed(self, site, others, what):
    for d, f in others.items():
      now = site.files(d)
      if any(now.get(n) != b for n, b in f.items()):
        raise Violation('bystander', '%s changed files in %s' % (what, d))

  def check(self, site, ctx, b, what, allowed, op, kind='not-atomic'):
    try:
      now = b.parse()
    except refkz.RefError as e:
      raise Violation(kind, '%s: the keyset no longer opens: %s (before %s, '
                      'after %s)' % (what, e, brief(allowed[0]),
                                     brief(allowed[-1])))
    for i, s in enumerate(allowed):
      if (s is None and now is None) or (
          s is not None and now is not None and s.picture() == now.picture()):
        self.real_open(site, b.loc, b.crypter_loc, now, what)
        return i
    raise Violation(kind, '%s: the keyset is %s, not %s' %
                    (what, brief(now), ' or '.join(brief(x) for x in allowed)))

  def continue_check(self, site, ctx, b, ever):
    """After recovery another command works (on a copy)."""
    ks = b.parse()
    if ks is None or ks.purpose in ('VERIFY', 'ENCRYPT'):
      return
    w = site.w
    with w.with_fs(w.fs.clone()):
      out, e = b.run({'op': 'addkey', 'status': 'ACTIVE', 'size': None if
                      b.kind in ('aes', 'hmac', 'dsa') else 1024}, 'cont')
      if out != 'ok':
        raise Violation('cannot-recover', 'addkey after the restart: %r' % e)
      new = b.must(when=' after the restart')
      if b.kind in ('aes', 'hmac') and b.loc == KS:
        self.fresh(ever | {k.ident() for k in ks.keys.values()}, ks, new,
                   {'seed': 'cont'}, set())
      if new.statuses() != expect(ks.statuses(), {'op': 'addkey'}):
        raise Violation('cannot-recover', 'addkey after the restart made %s of '
                        '%s' % (brief(new), brief(ks)))


class StorageErrors(Store):
  id = 'C05'
  must_reach = ('failed_to_pre', 'failed_to_post', 'open_failed', 'retry_ok',
                'held_failed', 'held_stored',
                'missing_key', 'missing_meta', 'error_survived')
  rule = ('a run is a seeded history of administrative commands and opens, in '
          'which seeded system calls fail (once, several times or for good) '
          'or are cut short, and files go missing; non-trivial when an error '
          'was actually delivered to the code')
  state_measure = '(command, system call, errno, outcome, before/after)'
  quick_runs = 6250

  def gen(self, rng, tier, index):
    kind = gen_kind(rng)
    p = common_plan(rng)
    p['shortio'] = None
    p.update({'kind': kind, 'crypted': rng.random() < 0.25})
    ops = [{'op': 'addkey', 'status': 'PRIMARY', 'size': gen_size(rng, kind),
            'seed': seed_of(rng), 'pick': 0}]
    for op in self.gen_ops(rng, kind, p['crypted'], rng.randint(2, 8)):
      ops.append(op)
      if rng.random() < 0.4:
        ops.append({'op': 'open', 'pick': rng.randrange(100)})
      if rng.random() < 0.25:
        ops.append({'op': 'missing', 'pick': rng.randrange(100)})
      if rng.random() < 0.08:
        ops.append({'op': 'held', 'seed': seed_of(rng),
                    'keep': rng.random() < 0.4, 'steps': [
            dict(gen_admin(rng, kind, {'addkey': 2, 'promote': 3, 'demote': 2}),
                 errs=[self.gen_err(rng) for _ in range(rng.choice(
                     (0, 1, 1, 2)))]) for _ in range(rng.randint(1, 4))]})
    if rng.random() < 0.15:
      ops += [{'op': 'addkey', 'status': 'INACTIVE', 'seed': seed_of(rng),
               'size': gen_size(rng, kind), 'pick': 0},
              {'op': 'revoke', 'seed': seed_of(rng), 'pick': 999}]
    for op in ops:
      if rng.random() < 0.6 and op['op'] != 'held':
        op['err'] = self.gen_err(rng)
    p['ops'] = ops
    return p

  def gen_err(self, rng):
    return {'frac_at': round(rng.random(), 6),
            'count': weighted(rng, [(4, 1), (1, 2), (2, 1000000)]),
            'errno': rng.choice(sorted(ERRNOS)),
            'mut': rng.random() < 0.5, 'aim': rng.random() < 0.4,
            'short': rng.choice((None, None, None, 0.3))}

  ROLES = {'aes': ('Crypter', 'Encrypter', 'GenericKeyczar'),
           'rsa': ('Crypter', 'Encrypter', 'GenericKeyczar')}

  def run(self, plan, ctx):
    site, a = self.start(plan, ctx)
    site.newdirs = 0
    w = site.w
    kind = plan['kind']
    roles = self.ROLES.get(kind, ('Signer', 'Verifier', 'UnversionedSigner',
                                  'UnversionedVerifier', 'GenericKeyczar'))
    for op in plan['ops']:
      ctx.steps += 1
      err = op.get('err')
      model = a.must()
      if op['op'] in ('open', 'missing'):
        self.opening(site, ctx, a, op, model, roles)
        continue
      if op['op'] == 'held':
        self.held(site, ctx, a, op)
        w.fs.sync_all()
        continue
      cmd = self.command(site, a, op, model)
      if cmd is None:
        continue
      loc, go, b = cmd
      pre = b.parse()
      snap = w.fs.clone()
      with w.with_fs(w.fs.clone()):
        dry = site.proc('dry')
        out0, e0 = go(dry)
        try:
          post = b.parse()
        except refkz.RefError as e:
          raise Violation('bad-store', '%s stored %s' % (op['op'], e))
      refusal = op['op'] == 'recreate'
      if out0 != ('error' if refusal else 'ok'):
        raise Violation('admin-failed', '%s on %s: %s %r' %
                        (op['op'], brief(pre), out0, e0))
      exempt = op['op'] == 'pubkey' and self.reused(pre, post)
      p = site.proc('admin')
      fired = []
      if err:
        p.fault = error_fault(dict(err, at=self.aim(
            op, err, dry, self.place(err, dry))), ctx, fired)
      out, e = go(p)
      ctx.event(op['op'], out, fired[:3])
      what = '%s with %s on %s' % (op['op'], err and err['errno'],
                                   [f[0] for f in fired[:4]])
      real = [f for f in fired if f[0] != 'short']
      if not real:
        if out != out0:
          raise Violation('admin-failed', '%s: %s %r' % (what, out, e))
        self.is_one_of(site, b, what, [post])
      else:
        ctx.nontrivial = True
        if exempt and out != 'ok':
          ctx.probe('exempt_reused_number')
          w.fs = snap          # the operator restores the destination
          if go(site.proc('admin'))[0] != 'ok':
            raise Violation('cannot-recover', 'repeating the export fails')
          continue
        if out == 'ok':
          # nothing is allowed to be missing behind a reported success
          ctx.probe('error_survived')
          if refusal:
            raise Violation('false-success', '%s over a keyset succeeded' % what)
          self.is_one_of(site, b, what + ' reported success', [post])
          self.revoked(site, op, b, pre, post, what + ' reported success',
                       'false-success')
          with w.with_fs(w.fs.clone()):
            w.fs.power_loss(None, worst=True)
            self.is_one_of(site, b, what + ' reported success, then a power '
                           'loss', [post])
            self.revoked(site, op, b, pre, post, what + ' reported success, '
                         'then a power loss', 'false-success')
        else:
          which = self.is_one_of(site, b, what + ' failed', [pre, post])
          ctx.probe('failed_to_' + ('pre', 'post')[which])
          ctx.state(op['op'], real[0][0], err['errno'], out, which)
          self.usable(site, a)
          if which == 0 and not refusal:
            # errors have stopped: the same command now works
            out2, e2 = go(site.proc('admin'))
            if out2 != 'ok':
              raise Violation('cannot-recover', 'repeating %s fails: %r' %
                              (op['op'], e2))
            ctx.probe('retry_ok')
            if op['op'] != 'addkey':
              self.is_one_of(site, b, 'repeated ' + op['op'], [post])
      w.fs.sync_all()

  def place(self, err, dry):
    idx = range(dry.calls)
    if err['mut']:
      idx = [i for i, t in enumerate(dry.trace) if t[2]] or idx
    return idx[int(err['frac_at'] * len(idx))]

  def is_one_of(self, site, b, what, allowed):
    try:
      now = b.parse()
    except refkz.RefError as e:
      raise Violation('damaged', '%s: the keyset no longer opens: %s (before '
                      '%s)' % (what, e, brief(allowed[0])))
    for i, s in enumerate(allowed):
      if (s is None and now is None) or (
          s is not None and now is not None and s.picture() == now.picture()):
        return i
    raise Violation('damaged', '%s: the keyset is %s, not %s' %
                    (what, brief(now), ' or '.join(brief(x) for x in allowed)))

  def held(self, site, ctx, a, op):
    """A program that keeps one keyset object, and its writes fail."""
    w = site.w
    p = site.proc('program')
    w.entropy.reseed(op['seed'])
    with site.on(p) as K:
      crypter = (K.keyczar.Crypter.Read(a.crypter_loc)
                 if a.crypter_loc else None)
      czar = K.keyczar.GenericKeyczar(site.reader(K, a.loc, crypter))
    last = pic(a.must())
    st = a.must().statuses()

    kept = []

    def write():
      with site.on(p) as K:
        def go():
          if op['keep']:
            # the program keeps its writer, too
            if not kept:
              kept.append(K.writers.CreateWriter(a.loc))
            czar.Write(kept[0], crypter)
            return
          writer = K.writers.CreateWriter(a.loc)
          try:
            czar.Write(writer, crypter)
          finally:
            writer.Close()
        return site.attempt(K, go)[:2]

    n = len(p.trace)
    out, e = write()              # as it is
    if out != 'ok' or pic(a.parse()) != last:
      raise Violation('admin-failed', 'storing the keyset as it is: %r' % e)
    trace = p.trace[n:]
    for step in op['steps']:
      rop = resolve(step, st)
      if rop['op'] != 'addkey' and not rop['legal']:
        continue
      st = expect(st, rop)
      with site.on(p) as K:
        if rop['op'] == 'addkey':
          out, e, _ = site.attempt(K, lambda: czar.AddVersion(
              K.keyinfo.GetStatus(rop['status'] or 'ACTIVE'), rop['size']))
        else:
          out, e, _ = site.attempt(K, lambda: getattr(
              czar, rop['op'].title())(rop['version']))
        if out != 'ok':
          raise Violation('admin-failed', '%s in a program: %r' %
                          (rop['op'], e))
        now = picture_of(czar)
      if now.statuses() != st:
        raise Violation('damaged', '%s in a program gives %s, not %s' %
                        (rop['op'], now.statuses(), st))
      want = pic(now)
      for err in step['errs'] + [None]:
        fired = []
        if err:
          idx = range(len(trace))
          if err['mut']:
            idx = [i for i, t in enumerate(trace) if t[2]] or idx
          p.fault = error_fault(dict(err, at=p.calls + idx[int(
              err['frac_at'] * len(idx))]), ctx, fired)
        n = len(p.trace)
        out, e = write()
        p.fault = None
        if out == 'ok':
          trace = p.trace[n:]
        what = '%s stored by a program with %s on %s' % (
            rop['op'], err and err['errno'], [f[0] for f in fired[:4]])
        real = [f for f in fired if f[0] != 'short']
        try:
          got = pic(a.parse())
        except refkz.RefError as e2:
          raise Violation('damaged', '%s: the keyset no longer opens: %s' %
                          (what, e2))
        if out == 'ok':
          if got != want:
            raise Violation('false-success', '%s: reported success, but it is '
                            'not what is stored' % what)
          with w.with_fs(w.fs.clone()):
            w.fs.power_loss(None, worst=True)
            self.is_one_of(site, a, what + ', reported success, then a power '
                           'loss', [now if not crypter else a.must()])
        elif not real:
          raise Violation('cannot-recover' if step['errs'] else 'admin-failed',
                          '%s: %r' % (what, e))
        else:
          ctx.nontrivial = True
          ctx.probe('held_failed')
          if got not in (last, want):
            raise Violation('damaged', '%s: neither the last keyset nor the '
                            'new one is stored' % what)
        with site.on(p):
          if pic(picture_of(czar)) != want:
            raise Violation('damaged', '%s: the program holds another keyset '
                            'than before' % what)
        last = got
        ctx.event('held', rop['op'], out, fired[:3])
      ctx.probe('held_stored')
      self.usable(site, a)

  def usable(self, site, a):
    self.real_open(site, a.loc, a.crypter_loc, a.must(), 'after errors')

  def opening(self, site, ctx, a, op, model, roles):
    w = site.w
    err = op.get('err')
    role = roles[op['pick'] % len(roles)]
    if op['op'] == 'missing':
      names = sorted(str(n) for n in model.versions) + ['meta']
      name = names[op['pick'] % len(names)]
      ctx.probe('missing_meta' if name == 'meta' else 'missing_key')
      ctx.fault('file_missing')
      ctx.nontrivial = True
      with w.with_fs(w.fs.clone()):
        w.fs.unlink(KS + '/' + name)
        p = site.proc('reader')
        with site.on(p) as K:
          out, e, _ = site.attempt(K, lambda: site.open(K, role, KS,
                                                        a.crypter_loc))
      ctx.event('missing', name, out)
      if out == 'ok':
        raise Violation('partial-open', '%s opened without file %s of %s' %
                        (role, name, brief(model)))
      if out != 'error':
        raise Violation('wrong-error', 'opening without file %s gave %r' %
                        (name, e))
      return
    with w.with_fs(w.fs.clone()):
      dry = site.proc('dry')
      with site.on(dry) as K:
        out, e, _ = site.attempt(K, lambda: site.open(K, role, KS,
                                                      a.crypter_loc))
      if out != 'ok':
        raise Violation('cannot-open', '%s of %s: %r' % (role, brief(model), e))
      p = site.proc('reader')
      fired = []
      if err:
        p.fault = error_fault(dict(err, at=int(err['frac_at'] * dry.calls)),
                              ctx, fired)
      with site.on(p) as K:
        out, e, obj = site.attempt(K, lambda: site.open(K, role, KS,
                                                        a.crypter_loc))
        p.fault = None
        ctx.event('open', role, out, fired[:3])
        if out == 'ok':
          got = picture_of(obj)
          if pic(got) != pic(model):
            raise Violation('partial-open', 'opened as %s, stored is %s' %
                            (brief(got), brief(model)))
        elif out != 'error':
          raise Violation('wrong-error', 'opening with %s on %s gave %r' %
                          (err['errno'], [f[0] for f in fired[:3]], e))
        else:
          ctx.nontrivial = True
          ctx.probe('open_failed')
          if not [f for f in fired if f[0] != 'short']:
            raise Violation('cannot-open', 'short reads made opening fail: %r'
                            % e)
          # errors have stopped
          out, e, obj = site.attempt(K, lambda: site.open(K, role, KS,
                                                          a.crypter_loc))
          if out != 'ok':
            raise Violation('cannot-recover', 'opening again fails: %r' % e)
          if pic(picture_of(obj)) != pic(model):
            raise Violation('cannot-recover', 'opening again gives another '
                            'keyset')
          ctx.probe('retry_ok')


class Readers(Store):
  """C06: openers running while an administrator works."""
  id = 'C06'
  threaded = True
  must_reach = ('opened_inside', 'failed_during_revoke', 'opened_before_state',
                'opened_after_state', 'pub_opened', 'writer_killed')
  rule = ('a run is one administrator process and several opening processes '
          'under a seeded schedule that may switch at every file-system call; '
          'non-trivial when an open overlapped a command')
  state_measure = ('(command overlapped, result of the open: before, after or '
                   'refused, number of versions)')
  quick_runs = 6250

  def gen(self, rng, tier, index):
    kind = gen_kind(rng)
    p = common_plan(rng)
    p['shortio'] = None
    p.update({'kind': kind, 'crypted': rng.random() < 0.25})
    p['pre'] = [{'op': 'addkey', 'status': rng.choice(('PRIMARY', 'INACTIVE',
                                                       'ACTIVE')),
                 'size': gen_size(rng, kind), 'seed': seed_of(rng), 'pick': 0}
                for _ in range(rng.randint(1, 4))]
    w = rng.choice((None, {'revoke': 5, 'demote': 4, 'addkey': 1},
                    {'addkey': 1}, {'promote': 3, 'demote': 2, 'addkey': 1}))
    ops = []
    for _ in range(rng.randint(1, 6)):
      if kind in ASYM and rng.random() < 0.3:
        op = {'op': 'pubkey', 'seed': seed_of(rng)}
      else:
        op = gen_admin(rng, kind, w)
        if rng.random() < 0.2:
          op['api'] = True
      if rng.random() < 0.12:
        op['crash'] = {'frac_at': round(rng.random(), 6), 'mode': 'kill'}
      ops.append(op)
    p['ops'] = ops
    nread = rng.randint(1, 3)
    p['readers'] = [{'roles': [rng.randrange(10) for _ in range(
        rng.randint(1, 8))], 'pub': kind in ASYM and rng.random() < 0.35}
                    for _ in range(nread)]
    p['switches'] = sched.gen_switches(rng, rng.choice((5, 20, 60, 200)),
                                       nread + 1,
                                       rng.choice((1, 2, 4, 8, 16, 40)))
    return p

  def list_keys(self, plan):
    return ['ops', 'pre', 'readers', 'switches']

  def run(self, plan, ctx):
    site, a = self.start(plan, ctx)
    w = site.w
    kind = plan['kind']
    cr = a.crypter_loc
    pub = Admin(site, kind, PUB)
    for op in plan['pre']:
      out, e = a.run(dict(op), op['seed'])
      if out != 'ok':
        raise Violation('admin-failed', 'addkey: %s %r' % (out, e))
    w.fs.sync_all()
    admins = {KS: a, PUB: pub}
    states = {l: [b.parse()] for l, b in admins.items()}
    cmds = {KS: [], PUB: []}          # [name, post number reused]
    started = {KS: 0, PUB: 0}
    opens = []
    roles = {'aes': ('GenericKeyczar', 'Crypter', 'Encrypter'),
             'rsa': ('GenericKeyczar', 'Crypter', 'Encrypter')}.get(
                 kind, ('GenericKeyczar', 'Signer', 'Verifier',
                        'UnversionedSigner', 'UnversionedVerifier'))
    proles = ('GenericKeyczar', 'Encrypter') if kind == 'rsa' else (
        'GenericKeyczar', 'Verifier', 'UnversionedVerifier')
    s = sched.Sched(w, plan['switches'])
    bad = []

    def become(t, p):
      t.proc = p
      w.proc = p
      p.mods.activate()

    def writer():
      t = s.tasks[0]
      for op in plan['ops']:
        ctx.steps += 1
        if op['op'] == 'pubkey':
          loc, rop = PUB, {'op': 'pubkey', 'dest': PUB}
        else:
          loc, rop = KS, resolve(op, states[KS][-1].statuses())
          if rop['op'] != 'addkey' and not rop['legal']:
            continue
        p = site.proc('admin')
        fired = []
        if op.get('crash'):
          s.in_harness = True
          with w.with_fs(w.fs.clone()):
            dry = site.proc('dry')
            a.run(rop, op['seed'], dry)
          s.in_harness = False
          p.fault = crash_fault(dict(op['crash'],
                                     at=int(op['crash']['frac_at'] * dry.calls)),
                                ctx, fired)
        become(t, p)
        cmds[loc].append(rop['op'])
        started[loc] += 1
        out, e = a.run(rop, op['seed'], p)
        become(t, t0)
        if out != 'ok' and not fired:
          bad.append(Violation('admin-failed', '%s with openers around: %s %r' %
                               (rop['op'], out, e)))
          return
        if fired:
          ctx.probe('writer_killed')
        try:
          states[loc].append(admins[loc].parse())
        except refkz.RefError as e:
          bad.append(Violation('bad-store', 'after %s: %s' % (rop['op'], e)))
          return

    def opener(tid, spec):
      def f():
        t = s.tasks[tid]
        loc = PUB if spec['pub'] else KS
        rr = proles if spec['pub'] else roles
        mods = t.proc.mods
        for pick in spec['roles']:
          p = W.Proc(w, 'reader', mods)
          become(t, p)
          role = rr[pick % len(rr)]
          lo = len(states[loc]) - 1
          out, e, obj = site.attempt(
              mods, lambda: site.open(mods, role, loc,
                                      cr if loc == KS else None))
          hi = started[loc]
          s.in_harness = True
          try:
            got = picture_of(obj) if out == 'ok' else None
          except Violation as v:
            bad.append(v)
            return
          finally:
            s.in_harness = False
          opens.append((loc, role, lo, hi, out, e, got))
      return f

    t0 = site.proc('shell')
    s.spawn('writer', writer, t0)
    for i, spec in enumerate(plan['readers']):
      s.spawn('reader%d' % i, opener(i + 1, spec), site.proc('reader'))
    s.run()
    for t in s.tasks:
      if t.exc is not None:
        raise t.exc
    if bad:
      raise bad[0]
    ctx.fault('preemption', s.preempted)
    ctx.interleaving(s.trail)
    for o in opens:
      self.judge(ctx, o, states, cmds)
    # everything has finished: opening works and gives the final state
    for loc in (KS, PUB):
      self.real_open(site, loc, cr if loc == KS else None, states[loc][-1],
                     'after all commands')

  def judge(self, ctx, o, states, cmds):
    loc, role, lo, hi, out, e, got = o
    over = states[loc][lo:hi + 1]
    names = cmds[loc][lo:hi]
    ctx.event('open', loc, role, lo, hi, out)
    if hi > lo:
      ctx.nontrivial = True
      ctx.probe('opened_inside')
      if loc == PUB:
        ctx.probe('pub_opened')
    # a version number that changed hands while the open was under way
    idents = {}
    reused = False
    for s in over:
      for n, k in (s.keys.items() if s is not None else ()):
        if idents.setdefault(n, k.ident()) != k.ident():
          reused = True
    # ... possibly by a command that was killed before its metadata
    if len(names) > 1 and 'addkey' in names:
      numbers = [set(s.versions) if s is not None else set() for s in over]
      for a, b in zip(numbers, numbers[1:]):
        if a and max(a) not in b:
          reused = True
    # the old exported file may still lie there under a reused number
    if loc == PUB and any(s is not None for s in over):
      seen = {}
      for s in states[loc][:hi + 1]:
        for n, k in (s.keys.items() if s is not None else ()):
          if seen.setdefault(n, k.ident()) != k.ident():
            reused = True
    if reused:
      ctx.probe('exempt_reused_number')
      return
    if out == 'ok':
      for i, s in enumerate(over):
        if s is not None and pic(s) == pic(got):
          if hi > lo:
            ctx.probe('opened_after_state' if i else 'opened_before_state')
            ctx.state(names, i, len(s.versions))
          return
      raise Violation('mixed-view', '%s opened %s while the stored keyset was '
                      '%s (during %s)' % (role, brief(got), ' then '.join(
                          brief(s) for s in over), names or 'no command'))
    if out != 'error':
      raise Violation('wrong-error', 'opening during %s gave %r' % (names, e))
    if any(s is None for s in over):
      return
    if loc == KS and 'revoke' in names:
      ctx.probe('failed_during_revoke')
      ctx.state(names, 'refused')
      return
    raise Violation('open-failed', '%s of %s failed during %s: %r' %
                    (role, brief(over[0]), names or 'no command', e))


class AtRest(Store):
  """C15: keys stored with a crypter."""
  id = 'C15'
  must_reach = ('opened', 'no_crypter_refused', 'wrong_crypter_refused',
                'damage_refused', 'plain_command_refused', 'crashed',
                'failed_write', 'crypter_rotated', 'rewrapped',
                'rewrapped_in_place', 'clear_again', 'emptied',
                'rewrapped_by_one')
  rule = ('a run is a seeded history of administrative commands on an '
          'encrypted keyset with crashes, failing calls, damage to stored key '
          'files and openings with the right, a wrong or no crypter, while '
          'every byte that reaches the simulated disk is searched for key '
          'material; non-trivial when a damaged file or wrong crypter was '
          'tried')
  state_measure = '(kind, kind of damage or wrong access, outcome)'
  quick_runs = 7500

  def gen(self, rng, tier, index):
    kind = gen_kind(rng)
    p = common_plan(rng)
    p.update({'kind': kind})
    ops = [{'op': 'addkey', 'status': 'PRIMARY', 'size': gen_size(rng, kind),
            'seed': seed_of(rng), 'pick': 0}]
    for _ in range(rng.randint(3, 12)):
      r = rng.random()
      if r < 0.35:
        op = gen_admin(rng, kind)
        if rng.random() < 0.3:
          op['api'] = True
        r2 = rng.random()
        if r2 < 0.3:
          op['crash'] = {'frac_at': round(rng.random(), 6),
                         'mode': rng.choice(('kill', 'torn', 'power')),
                         'frac': rng.choice((0, 0.1, 0.5, 0.9)),
                         'seed': seed_of(rng)}
        elif r2 < 0.5:
          op['err'] = {'frac_at': round(rng.random(), 6), 'mut': True,
                       'count': weighted(rng, [(4, 1), (1, 2), (2, 1000000)]),
                       'errno': rng.choice(sorted(ERRNOS))}
      elif r < 0.75:
        op = {'op': 'damage', 'pick': rng.randrange(1000), 'seed': seed_of(rng),
              'role': rng.randrange(10),
              'how': rng.choice(('flip', 'flip', 'flip', 'flips', 'cut',
                                 'cutfront', 'extend', 'garbage', 'empty',
                                 'plainjson', 'bytes', 'chop', 'dup'))}
      elif r < 0.9:
        op = {'op': 'open', 'with': rng.choice(('right', 'none', 'wrong')),
              'role': rng.randrange(10)}
      elif r < 0.96:
        op = {'op': 'plaincmd', 'seed': seed_of(rng), 'pick': rng.randrange(99),
              'cmd': rng.choice(('addkey', 'promote', 'demote', 'revoke'))}
      elif rng.random() < 0.6:
        op = {'op': 'rewrap', 'seed': seed_of(rng), 'role': rng.randrange(10),
              'one': rng.random() < 0.5,
              'steps': [[rng.choice(('right', 'other', 'other', 'clear')),
                         rng.random() < 0.4]
                        for _ in range(rng.randint(1, 4))]}
      else:
        op = {'op': 'rotcr', 'seed': seed_of(rng)}
      ops.append(op)
    if rng.random() < 0.06:
      ops += [{'op': 'empty'},
              {'op': 'open', 'with': 'none', 'role': rng.randrange(10)},
              {'op': 'plaincmd', 'seed': seed_of(rng), 'pick': 0,
               'cmd': 'addkey'},
              {'op': 'open', 'with': 'right', 'role': rng.randrange(10)}]
    p['ops'] = ops
    return p

  def run(self, plan, ctx):
    plan = dict(plan, crypted=True)
    site, a = self.start(plan, ctx)
    w = site.w
    kind = plan['kind']
    other = ROOT + '/othercrypter'
    setup_crypter(site, 'o', other)
    cradmin = Admin(site, 'aes', CR)
    w.fs.sync_all()
    roles = {'aes': ('GenericKeyczar', 'Crypter', 'Encrypter'),
             'rsa': ('GenericKeyczar', 'Crypter', 'Encrypter')}.get(
                 kind, ('GenericKeyczar', 'Signer', 'Verifier',
                        'UnversionedSigner', 'UnversionedVerifier'))
    needles = {}
    found = []

    def learn(ks):
      for n, k in (ks.keys.items() if ks else ()):
        for sec in k.secrets():
          if sec not in needles:
            needles[sec] = refkz.needles(sec)

    def look(blob, path):
      blob = bytes(blob)
      for sec, pats in needles.items():
        for t in pats:
          if t in blob:
            found.append((path, t[:12]))
            return

    def scan():
      for path, blob in w.fs.digest():
        if blob is not None:
          look(blob, path)
      if found:
        raise Violation('exposed', 'key material in the clear in %s' %
                        sorted({f[0] for f in found}))

    for op in plan['ops']:
      ctx.steps += 1
      o = op['op']
      model = a.must()
      if o in ('addkey', 'promote', 'demote', 'revoke'):
        rop = resolve(op, model.statuses())
        if o != 'addkey' and not rop['legal']:
          continue
        with w.with_fs(w.fs.clone()):
          dry = site.proc('dry')
          out0, e0 = a.run(rop, op['seed'], dry)
          if out0 != 'ok':
            raise Violation('admin-failed', '%s on %s: %r' % (o, brief(model),
                                                              e0))
          post = a.must(when=' after ' + o)
        if not post.encrypted:
          raise Violation('exposed', 'keyset stored with a crypter is not '
                          'marked encrypted')
        learn(post)
        w.fs.on_write = lambda node, path: look(node.data, path)
        p = site.proc('admin')
        fired = []
        if op.get('crash'):
          at = int(op['crash']['frac_at'] * dry.calls)
          if op['crash']['mode'] == 'torn':
            ws = [i for i, t in enumerate(dry.trace) if t[0] == 'write']
            at = ws[int(op['crash']['frac_at'] * len(ws))] if ws else at
          p.fault = crash_fault(dict(op['crash'], at=at), ctx, fired)
        elif op.get('err'):
          p.fault = error_fault(dict(op['err'], at=StorageErrors.place(
              self, op['err'], dry)), ctx, fired)
        out, e = a.run(rop, op['seed'], p)
        w.fs.on_write = None
        ctx.event(o, out, fired[:2])
        if fired and op.get('crash'):
          ctx.probe('crashed')
          if op['crash']['mode'] == 'power':
            w.fs.power_loss(random.Random(op['crash']['seed']))
            ctx.fault('power_loss')
        elif fired:
          ctx.probe('failed_write')
        elif out != 'ok':
          raise Violation('admin-failed', '%s: %r' % (o, e))
        w.fs.sync_all()
        scan()
      elif o == 'empty':
        # all keys are retired, the keyset stays one for a crypter
        for n in sorted(model.versions):
          while n in a.must().versions:
            st = a.must().statuses()[n]
            out, e = a.run({'op': 'revoke' if st == 'INACTIVE' else 'demote',
                            'version': n}, 1)
            if out != 'ok':
              raise Violation('admin-failed', 'retiring %d: %r' % (n, e))
        if model.versions:
          ctx.probe('emptied')
        w.fs.sync_all()
      elif o == 'plaincmd':
        if not model.encrypted:
          continue
        before = site.files(KS)
        b = Admin(site, kind, KS)
        rop = resolve({'op': op['cmd'], 'pick': op['pick'], 'size': None,
                       'status': 'PRIMARY'}, model.statuses())
        if kind in ('rsa', 'rsasign'):
          rop['size'] = 1024
        if op['cmd'] != 'addkey' and not rop['legal']:
          continue
        out, e = b.run(rop, op['seed'])
        ctx.nontrivial = True
        if out == 'ok':
          raise Violation('opened-without', '%s without the crypter succeeded '
                          'on an encrypted keyset' % op['cmd'])
        if site.files(KS) != before:
          raise Violation('damaged', '%s without the crypter changed an '
                          'encrypted keyset' % op['cmd'])
        ctx.probe('plain_command_refused')
        scan()
      elif o == 'rotcr':
        out, e = cradmin.run({'op': 'addkey', 'status': 'PRIMARY',
                              'size': None}, op['seed'])
        if out != 'ok':
          raise Violation('admin-failed', 'addkey to the crypter: %r' % e)
        w.fs.sync_all()
        ctx.probe('crypter_rotated')
      elif o == 'rewrap':
        learn(model)
        with w.with_fs(w.fs.clone()):
          self.rewrap(site, ctx, op, model, roles, other, needles)
      elif o == 'open':
        loc = {'right': CR, 'none': None, 'wrong': other}[op['with']]
        role = roles[op['role'] % len(roles)]
        if op['with'] != 'right':
          if not (model.encrypted if op['with'] == 'none' else model.versions):
            continue
          ctx.nontrivial = True
        self.access(site, ctx, role, loc, model, op['with'],
                    op['with'] == 'right')
      else:
        nums = sorted(model.versions)
        if not nums:
          continue
        n = nums[op['pick'] % len(nums)]
        path = '%s/%d' % (KS, n)
        rng = random.Random(op['seed'])
        old = w.fs.h_read(path)
        new = self.damage(rng, op['how'], old, model.keys[n])
        if new == old:
          continue
        ctx.nontrivial = True
        ctx.fault('damage_' + op['how'])
        with w.with_fs(w.fs.clone()):
          w.fs.h_write(path, new)
          self.access(site, ctx, roles[op['role'] % len(roles)], CR, model,
                      op['how'] + ' of key file', None)

  def rewrap(self, site, ctx, op, model, roles, other, needles):
    """Write the keyset again, elsewhere or in place, for another crypter."""
    crypters = {'right': CR, 'other': other, 'clear': None}
    src, now = KS, 'right'
    one = []
    role = roles[op['role'] % len(roles)]
    site.w.entropy.reseed(op['seed'])
    for i, (to, inplace) in enumerate(op['steps']):
      dest = src if inplace else ROOT + '/rewrap%d' % i
      site.mkdir(dest)
      p = one[0] if one else site.proc('admin')
      with site.on(p) as K:
        def go():
          czar = one[1] if one else site.open(K, 'GenericKeyczar', src,
                                              crypters[now])
          if op.get('one') and not one:
            one.extend((p, czar))      # a program that keeps the object
          enc = (None if to == 'clear' else
                 K.keyczar.Crypter.Read(crypters[to]) if op['seed'] % 2 else
                 K.keyczar.Encrypter.Read(crypters[to]))
          wr = K.writers.CreateWriter(dest)
          czar.Write(wr, enc)
          wr.Close()
        out, e, _ = site.attempt(K, go)
      what = 'written from %s to %s crypter' % (now, to)
      if out != 'ok':
        raise Violation('admin-failed', 'keyset %s: %r' % (what, e))
      ref = (None if to == 'clear' else
             site.stored(crypters[to]))
      try:
        got = site.stored(dest, ref)
      except refkz.RefError as e:
        raise Violation('wrong-keys', 'keyset %s: %s' % (what, e))
      if pic(got) != pic(model) or got.encrypted != (to != 'clear'):
        raise Violation('wrong-keys', 'keyset %s is stored as %s, encrypted: '
                        '%s' % (what, brief(got), got.encrypted))
      if to != 'clear':
        for name, blob in site.files(dest).items():
          for pats in needles.values():
            if any(t in blob for t in pats):
              raise Violation('exposed', 'keyset %s: key material in the clear '
                              'in %s' % (what, name))
      for c in ('right', 'other', 'clear'):
        if c == to or model.versions and to != 'clear':
          self.access(site, ctx, role, crypters[c], model,
                      'rewrapped for %s, with %s' % (to, c), c == to, dest)
      ctx.probe('rewrapped_in_place' if inplace else 'rewrapped')
      if one and i:
        ctx.probe('rewrapped_by_one')
      if to == 'clear' and now != 'clear':
        ctx.probe('clear_again')
      ctx.nontrivial = True
      src, now = dest, to

  def damage(self, rng, how, old, key):
    b = bytearray(old)
    if how == 'flip':
      i = rng.randrange(len(b))
      b[i] ^= 1 << rng.randrange(8)
    elif how == 'flips':
      for _ in range(rng.randint(2, 6)):
        b[rng.randrange(len(b))] = rng.randrange(256)
    elif how == 'cut':
      del b[rng.randrange(len(b)):]
    elif how == 'cutfront':
      del b[:1 + rng.randrange(len(b))]
    elif how == 'extend':
      b += bytes(rng.choice(b'ABCxyz019-_=+/\n ') for _ in range(
          rng.randint(1, 40)))
    elif how == 'garbage':
      b = bytearray(rng.randbytes(rng.randint(0, 300)))
    elif how == 'empty':
      b = bytearray()
    elif how == 'plainjson':
      # somebody's plain key instead of the encrypted one
      import json
      d = key.dump()
      for f in ('aesKeyString', 'hmacKeyString', 'x', 'privateExponent'):
        if f in d:
          d[f] = refkz.b64e(rng.randbytes(16))
      b = bytearray(json.dumps(d).encode())
    elif how == 'bytes':
      raw = bytearray(refkz.b64d(old))
      raw[rng.randrange(len(raw))] ^= 1 << rng.randrange(8)
      b = bytearray(refkz.b64e(bytes(raw)).encode())
    elif how == 'chop':
      raw = bytearray(refkz.b64d(old))
      i = rng.randrange(len(raw))
      del raw[i:i + rng.choice((1, 4, 16, 32))]
      b = bytearray(refkz.b64e(bytes(raw)).encode())
    elif how == 'dup':
      b = b + b
    return bytes(b)

  def access(self, site, ctx, role, crypter_loc, model, what, want, loc=KS):
    """want: True must open, False must fail, None either but exactly."""
    p = site.proc('reader')
    with site.on(p) as K:
      out, e, obj = site.attempt(K, lambda: site.open(K, role, loc, crypter_loc))
      got = picture_of(obj) if out == 'ok' else None
    ctx.event('access', what, role, out)
    ctx.state(model.type, what, out)
    if out == 'ok':
      if want is False:
        raise Violation('opened-without', '%s opened an encrypted keyset with '
                        '%s crypter' % (role, what))
      if pic(got) != pic(model):
        raise Violation('wrong-keys', '%s: %s opened as %s, stored is %s' %
                        (what, role, brief(got), brief(model)))
      ctx.probe('opened')
      return
    if want is True:
      raise Violation('cannot-open', '%s with the right crypter: %r' %
                      (role, e))
    if out != 'error':
      raise Violation('wrong-error', '%s: opening gave %r' % (what, e))
    ctx.probe({'none': 'no_crypter_refused', 'wrong': 'wrong_crypter_refused'}
              .get(what, 'damage_refused'))
