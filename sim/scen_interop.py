"""C19: the interop runner tests every combination and hides no failure."""
import collections
import contextlib
import io
import itertools
import json
import sys

from . import world as W
from .common import ROOT, Scenario, Site, Violation, error_fault, seed_of, weighted

CWD = ROOT + '/interop'
CRYPTER = 'aes128'

VALUES = ('a', 'b', 'c', 'a_b', 'b_c', '', 'x-1', 'encoded', 'unencoded')


def gen_options(rng, prefix, most):
  out = {}
  for i in range(rng.randint(0, most)):
    vals = rng.sample(VALUES, rng.randint(1, 3))
    out['%s%d' % (prefix, i)] = vals
  return out


def gen_config(rng):
  impls = rng.sample(['python', 'java', 'cpp', 'go'], weighted(
      rng, [(2, 1), (4, 2), (2, 3)]))
  algs = {}
  names = rng.sample(['rsa-crypt', 'rsa-sign', 'dsa', 'hmac', 'ecc', 'des'],
                     rng.randint(0, 3))
  for n in names + ['aes']:
    purpose = {'rsa-crypt': 'crypt', 'des': 'crypt', 'aes': 'crypt'}.get(
        n, 'sign')
    algs[n] = {'purpose': purpose,
               'asymmetric': n in ('rsa-crypt', 'rsa-sign', 'dsa', 'ecc'),
               'keySizes': ([128] + rng.sample([192, 256], rng.randint(0, 1))
                            if n == 'aes' else
                            rng.sample([256, 1024, 2048], rng.randint(1, 2))),
               'createFlags': ['--purpose=' + purpose] + (
                   ['--asymmetric=' + n[:3]]
                   if n in ('rsa-crypt', 'rsa-sign', 'dsa', 'ecc') else []),
               'addKeyFlags': rng.choice(([], [], ['--padding=oaep']))}
  order = sorted(algs)
  rng.shuffle(order)
  algs = {k: algs[k] for k in order}
  crypted = rng.choice((['', CRYPTER], ['', CRYPTER], ['']))
  pub = rng.random() < 0.8
  ks = {}
  for p in ('sign', 'crypt', 'verify', 'encrypt'):
    g = {'cryptedKeySet': crypted} if rng.random() < 0.7 else {}
    t = {}
    if p in ('crypt', 'encrypt'):
      g['class'] = ['crypter', 'encrypter'] if p == 'crypt' else ['encrypter']
      g['pubKey'] = ['public'] if p == 'encrypt' else ['']
    else:
      t['class'] = (['verifier', 'signer'] if p == 'sign' and rng.random() < 0.7
                    else ['verifier'])
      t['pubKey'] = ['public'] if p == 'verify' else ['']
    if not pub and p == 'verify':
      t = {'kind': ['pub']}
    if rng.random() < 0.2:
      t.update(gen_options(rng, 'kt', 1))
    ks[p] = {'generateOptions': g, 'testOptions': t}
  ops = {}
  for n in rng.sample(['unversioned', 'attached', 'sign', 'encrypt',
                       'signedSession', 'stream'], rng.randint(1, 4)):
    o = {'keytype': 'crypt' if n in ('encrypt', 'signedSession', 'stream')
                    else 'sign',
         'generateOptions': gen_options(rng, 'g', 2),
         'testOptions': gen_options(rng, 't', 2) if rng.random() < 0.5 else {}}
    if n == 'signedSession' and rng.random() < 0.7:
      o['generateOptions']['signer'] = 'ALL_SIGNING_KEYS'
    ops[n] = o
  c = {'implementations': {i: [['../%s/interop' % i],
                               ['run', '-cp', '%s/*' % i],
                               ['../%s' % i, '--flag', 'x y']][rng.randrange(3)]
                           for i in impls},
       'algorithms': algs, 'options': ks, 'operations': ops, 'ignored': []}
  every = sorted(a + str(s) for a in algs for s in algs[a]['keySizes'])
  optvals = {}
  for d in [o[w] for o in list(ops.values()) + list(ks.values())
            for w in ('generateOptions', 'testOptions')]:
    for name, vals in d.items():
      if not isinstance(vals, str):
        optvals.setdefault(name, set()).update(vals)
  for _ in range(weighted(rng, [(3, 0), (3, 1), (3, 2), (2, 3)])):
    opts = {}
    r = rng.random()
    if r < 0.35:
      opts = {'*': '*'}
    elif r < 0.95 and optvals:
      for name in rng.sample(sorted(optvals), min(len(optvals),
                                                  rng.randint(1, 2))):
        v = sorted(optvals[name])
        opts[name] = rng.sample(v, rng.randint(1, min(2, len(v))))

    def some(seq, star):
      if rng.random() < star:
        return ['*']
      return rng.sample(sorted(seq), rng.randint(1, min(2, len(seq))))
    c['ignored'].append({'implementation': some(impls, 0.5),
                         'operation': some(ops, 0.5),
                         'algorithm': some(every, 0.5), 'options': opts,
                         'reason': 'reason %d' % rng.randrange(3)})
  return c


# ----------------------------------------------------------------------------
# independent enumeration

def key(d):
  return tuple(sorted(d.items()))


class Expected(object):

  def __init__(self, c):
    self.c = c
    self.names = {}
    for a, d in c['algorithms'].items():
      for s in d['keySizes']:
        self.names[a + str(s)] = (a, s)
    self.gen = collections.Counter()
    self.test = collections.Counter()
    self.consumers = collections.Counter()
    for gi in c['implementations']:
      for op, o in c['operations'].items():
        for name, (a, _) in self.names.items():
          d = c['algorithms'][a]
          if d['purpose'] != o['keytype']:
            continue
          asym = d['asymmetric']
          for variant in (('encrypt', 'crypt') if asym and
                          o['keytype'] == 'crypt' else (o['keytype'],)):
            for go in self.options(op, variant, 'generateOptions'):
              if self.ignored(gi, op, name, go):
                continue
              g = (gi, op, name, key(go))
              self.gen[g] += 1
              tv = {'crypt': ('crypt',), 'encrypt': ('crypt',),
                    'sign': ('sign', 'verify') if asym else ('sign',)}[variant]
              for ti in c['implementations']:
                for v in tv:
                  for to in self.options(op, v, 'testOptions'):
                    both = dict(to)
                    both.update(go)
                    if not self.ignored(ti, op, name, both):
                      self.test[(ti,) + g + (key(to),)] += 1
                      self.consumers[g] += 1

  def options(self, op, variant, which):
    d = dict(self.c['options'][variant][which])
    d.update(self.c['operations'][op][which])
    names = sorted(d)
    lists = []
    for n in names:
      v = d[n]
      if v == 'ALL_SIGNING_KEYS':
        v = [n2 for n2, (a, _) in self.names.items()
             if self.c['algorithms'][a]['purpose'] == 'sign']
      lists.append(v)
    return [dict(zip(names, vals)) for vals in itertools.product(*lists)]

  def ignored(self, impl, op, name, options):
    for r in self.c['ignored']:
      if all('*' in r[f] or v in r[f] for f, v in (
          ('implementation', impl), ('operation', op), ('algorithm', name))):
        if all(n == '*' or (n in options and options[n] in vals)
               for n, vals in r['options'].items()):
          return True
    return False


# ----------------------------------------------------------------------------
# simulated implementations

class Children(object):
  """Answers the runner's child processes during one run of the runner."""

  def __init__(self, site, exp, faults, nrun, paths):
    self.site, self.exp, self.nrun = site, exp, nrun
    self.ctx = site.ctx
    self.faults = {(f['stage'], f['nth']): f for f in faults}
    self.seen = collections.Counter()
    self.calls = []            # (stage, key)
    self.created = collections.Counter()
    self.keysets = {}          # absolute location -> [create flags, [addkey]]
    self.words = []            # lines failing calls put out
    self.outputs = {}          # generate key -> expected "output" or None
    self.failed = []           # failures that the runner has to notice
    self.wobbly = []           # events after which the verdict is open
    self.paths = paths         # implementation -> keyPath of its keysets
    self.refused = None        # create call that cannot work
    self.bad = None            # first violation

  def violate(self, kind, msg):
    if self.bad is None:
      self.bad = (kind, msg)

  def __call__(self, args):
    """args -> (exit code, output bytes); may raise OSError."""
    impl = None
    for i, cmd in self.exp.c['implementations'].items():
      if list(args[:len(cmd)]) == cmd and len(args) == len(cmd) + 1:
        impl = i
    if impl is None:
      self.violate('unknown-call', 'call of no implementation: %r' % (args,))
      return 1, b''
    try:
      a = json.loads(args[-1])
      stage = a['command']
      fn = {'create': self.create, 'generate': self.generate,
            'test': self.test}[stage]
    except (ValueError, KeyError, TypeError):
      self.violate('bad-call', 'call without a valid command: %r' % (args,))
      return 1, b''
    n = self.seen[stage]
    self.seen[stage] += 1
    try:
      what, out = fn(impl, a)
    except (KeyError, TypeError, ValueError, AttributeError) as e:
      self.violate('bad-call', '%s call with bad arguments (%r): %r' %
                   (stage, e, a))
      return 1, b''
    self.ctx.event('call', stage, what)
    self.calls.append((stage, what))
    f = self.faults.get((stage, n))
    if f is None:
      if out is None:
        return 1, b'refused'
      return 0, out
    kind = f['kind']
    self.ctx.fault('child_' + kind)
    if kind in ('exit', 'exit_output', 'signal', 'missing', 'denied'):
      self.failed.append('%s of %s (%s)' % (stage, what, kind))
      if kind == 'missing':
        raise FileNotFoundError(2, 'No such file or directory')
      if kind == 'denied':
        raise PermissionError(13, 'Permission denied')
      if kind == 'signal':
        return -f['code'] % 32 - 32 or -9, (out or b'')[:f['code'] % 7]
      if kind == 'exit_output':
        return f['code'], out
      words = ['Traceback: boom', 'call %d of %s failed' % (n, stage)]
      self.words.append(words)
      if f['code'] % 2:           # on either of its streams
        return f['code'], '\n'.join(words + ['']).encode()
      return f['code'], (words[0] + '\n').encode(), (words[1] + '\n').encode()
    bad = {'garbage': b'Picked up JAVA_OPTIONS {not json',
           'empty': b'', 'truncated': (out or b'')[:len(out or b'') // 2],
           'nonutf8': b'\xff\xfe' + (out or b'')}[kind]
    if stage != 'generate':
      # the output of a create or test call means nothing
      if kind == 'nonutf8':
        self.wobbly.append(kind)
      return 0, bad
    self.outputs[what] = None
    if self.exp.consumers[what] or kind == 'nonutf8':
      if self.exp.consumers[what]:
        self.failed.append('generate %s (%s output)' % (what, kind))
      else:
        self.wobbly.append(kind)
    else:
      self.wobbly.append(kind)
    return 0, bad

  # -- the three commands -----------------------------------------------------
  def create(self, impl, a):
    fs = self.site.w.fs
    made = []
    problem = None
    for cmd in a['keyczartCommands']:
      flags = {}
      for x in cmd[1:]:
        n, _, v = x.partition('=')
        flags[n] = v
      loc = self.where(flags['--location'])
      if cmd[0] == 'create':
        if not fs.h_exists(loc) or fs.h_files(loc):
          problem = '%s is missing or not empty' % loc
        else:
          fs.h_write(loc + '/meta', b'{}')
        self.keysets[loc] = [impl, list(cmd), [], None]
        self.created[loc] += 1
        made.append(loc)
      elif cmd[0] == 'addkey':
        k = self.keysets.get(loc)
        if k is None or k[0] != impl:
          problem = 'no keyset at %s' % loc
        else:
          c = flags.get('--crypter')
          if c is not None and not self.keysets.get(self.where(c), [0, 0, []])[2]:
            problem = 'no crypter at %s' % c
          k[2].append(list(cmd))
          fs.h_write('%s/%d' % (loc, len(k[2])), b'key')
      elif cmd[0] == 'pubkey':
        k = self.keysets.get(loc)
        dest = self.where(flags['--destination'])
        if k is None or not fs.h_exists(dest) or fs.h_files(dest):
          problem = 'cannot export %s to %s' % (loc, dest)
        else:
          k[3] = dest
          fs.h_write(dest + '/meta', b'{}')
      else:
        problem = 'unknown command %r' % (cmd,)
    what = (impl, tuple(made))
    if problem:
      if self.refused is None:
        self.refused = 'create call of %s cannot work: %s' % (impl, problem)
      self.failed.append('create of %s (refused)' % (what,))
      return what, None
    return what, b'Created.\n'

  def where(self, path):
    return path if path.startswith('/') else CWD + '/' + path

  def generate(self, impl, a):
    what = (impl, a['operation'], a['algorithm'], key(a['generateOptions']))
    if self.seen['test'] == 0 and what in self.outputs:
      self.violate('twice', '%s is generated twice' % (what,))
    if what not in self.exp.gen:
      self.violate('extra', 'generate call for %s, which is not to be made' %
                   (what,))
    self.check_path(impl, a['keyPath'])
    self.data = a['testData']
    out = {'output': 'T%d-%d' % (self.nrun, len(self.outputs))}
    if len(self.outputs) % 3 == 1:
      out['sessionMaterial'] = 'line\r\nbreak "q" \u00e9\\'
    self.outputs[what] = out
    text = json.dumps(out)
    return what, (text + ('\n' if len(self.outputs) % 2 else '')).encode()

  def check_path(self, impl, path):
    p = self.where(path).rstrip('/')
    if self.paths.get(impl) not in (None, p):
      self.violate('wrong-keys', 'keysets of %s are in %s, but the call names '
                   '%s' % (impl, self.paths[impl], p))

  def test(self, impl, a):
    gens = [g for g in self.exp.c['implementations']
            if self.paths.get(g) == self.where(a['keyPath']).rstrip('/')]
    go, to = key(a['generateOptions']), key(a['testOptions'])
    if len(gens) != 1:
      self.violate('wrong-keys', 'test call with key path %s' % a['keyPath'])
      return (impl, None, a['operation'], a['algorithm'], go, to), None
    g = (gens[0], a['operation'], a['algorithm'], go)
    what = (impl,) + g + (to,)
    if what not in self.exp.test:
      self.violate('extra', 'test call for %s, which is not to be made' %
                   (what,))
    if ('test', what) in self.tested:
      self.violate('twice', '%s is tested twice' % (what,))
    self.tested.add(('test', what))
    if self.outputs.get(g) is None or a['output'] != self.outputs[g]:
      self.violate('wrong-output', 'test %s got the output %r instead of %r' %
                   (what, a['output'], self.outputs.get(g)))
    if a['testData'] != self.data:
      self.violate('wrong-output', 'test %s got other test data' % (what,))
    return what, b'Test passes\n'


class Runner(Scenario):
  id = 'C19'
  must_reach = ('success', 'failure', 'display', 'create_n', 'rerun',
                'ignored', 'crashed', 'create_fault', 'generate_fault',
                'test_fault', 'fs_fault', 'unused_output', 'output_shown')
  rule = ('a run is a seeded configuration of implementations, algorithms, '
          'options and ignore rules with one to three executions of the runner '
          'over it, in which simulated implementations fail, crash, print '
          'unusable output, the runner is killed or file-system calls fail; '
          'non-trivial when the configuration has at least two test calls and '
          'a fault or an ignore rule')
  state_measure = '(stage, fault kind, verdict of the runner)'
  real = ['interop/interop.py, loaded from the working tree', 'unittest',
          'subprocess.run']
  stubs = ['implementations (simulated child processes below '
           'subprocess.Popen)', 'file system below %s' % ROOT, 'clock']
  assumptions = ['names of implementations, operations and algorithms contain '
                 'no underscores', 'option names of the generating and testing '
                 'side differ']
  quick_runs = 20000

  def gen(self, rng, tier, index):
    while True:
      c = gen_config(rng)
      e = Expected(c)
      if sum(e.test.values()) + sum(e.gen.values()) <= (
          1500 if tier == 'thorough' else 500) and \
          max(list(e.gen.values()) + list(e.test.values()) + [1]) == 1:
        break
    p = {'config': c, 'wseed': seed_of(rng), 'ops': []}
    stages = {'create': 2 * len(c['implementations']) * len(e.names),
              'generate': len(e.gen), 'test': len(e.test)}
    for i in range(rng.randint(1, 3)):
      op = {'op': 'run', 'create': rng.random() < 0.8,
            'verbose': rng.random() < 0.2, 'faults': []}
      if rng.random() < 0.15:
        op['op'] = 'display'
      r = rng.random()
      if r < 0.6:
        for _ in range(1 if rng.random() < 0.8 else 3):
          st = rng.choice([s for s in sorted(stages) if stages[s]] or ['create'])
          kind = rng.choice(('exit', 'exit', 'exit_output', 'signal', 'missing',
                             'denied', 'garbage', 'empty', 'truncated',
                             'nonutf8'))
          op['faults'].append({'stage': st, 'kind': kind,
                               'nth': rng.randrange(max(1, stages[st])),
                               'code': rng.choice((1, 2, 3, 77, 127, 255))})
      elif r < 0.75:
        op['crash'] = {'stage': rng.choice(sorted(stages)),
                       'frac': rng.random()}
      elif r < 0.9:
        op['fs'] = {'at': rng.randrange(60), 'count': rng.choice((1, 1, 2, 9)),
                    'errno': rng.choice(('EACCES', 'EIO', 'ENOSPC', 'EROFS'))}
      p['ops'].append(op)
    return p

  def list_keys(self, plan):
    out = ['ops', 'config.ignored']
    for i, _ in enumerate(plan['ops']):
      out.append('ops.%d.faults' % i)
    return out

  def simplify(self, plan):
    def copy():
      return json.loads(json.dumps(plan))
    for part in ('implementations', 'algorithms', 'operations'):
      for n in list(plan['config'][part]):
        if n != 'aes' and len(plan['config'][part]) > 1:
          p = copy()
          del p['config'][part][n]
          yield p
    for part in ('options', 'operations'):
      for n in plan['config'][part]:
        for w in ('generateOptions', 'testOptions'):
          for o in plan['config'][part][n][w]:
            p = copy()
            del p['config'][part][n][w][o]
            yield p
    for n in plan['config']['algorithms']:
      if len(plan['config']['algorithms'][n]['keySizes']) > 1:
        p = copy()
        del p['config']['algorithms'][n]['keySizes'][1:]
        yield p
    for i, op in enumerate(plan['ops']):
      for k in ('crash', 'fs'):
        if op.get(k):
          p = copy()
          p['ops'][i][k] = None
          yield p

  def run(self, plan, ctx):
    site = Site(plan, ctx)
    c = plan['config']
    exp = Expected(c)
    if max(list(exp.gen.values()) + list(exp.test.values()) + [1]) > 1:
      return           # a minimised plan with indistinguishable combinations
    site.mkdir(CWD + '/config')
    for name, part in (('interopAlgorithms', 'algorithms'),
                       ('ignoredTests', 'ignored'),
                       ('keySetOptions', 'options'),
                       ('operations', 'operations'),
                       ('implementations', 'implementations')):
      site.w.fs.h_write('%s/config/%s.json' % (CWD, name),
                        json.dumps(c[part]).encode())
    site.w.cwd = CWD
    every = sum(1 for i in c['implementations'] for op, o in
                c['operations'].items() for n, (a, _) in exp.names.items()
                if c['algorithms'][a]['purpose'] == o['keytype'])
    if c['ignored'] and len(exp.gen) < every:
      ctx.probe('ignored')
    paths = {}
    done_create = False
    ctx.nontrivial = len(exp.test) >= 2 and bool(
        c['ignored'] or any(o['faults'] or o.get('crash') or o.get('fs')
                            for o in plan['ops']))
    for nrun, op in enumerate(plan['ops']):
      if op['op'] == 'display':
        self.display(site, exp, ctx)
        continue
      create = op['create'] or not done_create
      if not create:
        ctx.probe('create_n')
      elif nrun:
        ctx.probe('rerun')
      done_create = self.once(site, exp, ctx, op, nrun, create, paths) or (
          done_create and not create)
    ctx.steps += site.w.steps

  def runner(self, site, args, children, fault=None):
    """(verdict, lines) of one execution of the runner in a new process."""
    p = W.Proc(site.w, 'interop')
    p.fault = fault
    old = site.w.proc
    site.w.proc = p
    site.w.subprocess = children
    out = io.StringIO()
    err = io.StringIO()
    oldout, olderr = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = out, err
    try:
      m = W.load_interop()
      try:
        r = m.main(list(args))
        verdict = 'success' if not r else 'failure'
      except SystemExit as e:
        verdict = 'failure' if e.code else 'success'
      except W.ProcessExit as e:
        verdict = 'failure' if e.code else 'success'
      except W.SimCrash:
        verdict = 'crash'
      except (Violation, W.HarnessError, W.SimHang):
        raise
      except Exception as e:  # pylint: disable=broad-except
        site.ctx.event('exception', type(e).__name__)
        err.write(str(e))        # as the interpreter would
        verdict = 'failure'
      if p.dead:
        verdict = 'crash'
    finally:
      sys.stdout, sys.stderr = oldout, olderr
      site.w.proc = old
      site.w.subprocess = None
    self.report = (out.getvalue() + '\n' + err.getvalue()).splitlines()
    return verdict, out.getvalue().splitlines()

  def display(self, site, exp, ctx):
    ctx.probe('display')
    kids = Children(site, exp, [], -1, {})
    verdict, lines = self.runner(site, ['display'], kids)
    lines = [l for l in lines if l.strip()]
    if verdict != 'success' or kids.calls:
      raise Violation('display', 'display ends in %s with %d calls' %
                      (verdict, len(kids.calls)))
    if len(lines) != len(exp.test) or len(set(lines)) != len(lines):
      raise Violation('display', 'display lists %d tests (%d different), %d '
                      'would be run' % (len(lines), len(set(lines)),
                                        len(exp.test)))

  def once(self, site, exp, ctx, op, nrun, create, paths):
    c = exp.c
    for i in c['implementations']:
      paths.setdefault(i, CWD + '/keys/' + i)
    kids = Children(site, exp, op['faults'], nrun, paths)
    kids.tested = set()
    kids.data = None
    args = ['--create=' + ('y' if create else 'n')]
    if op['verbose']:
      args.append('--verbose=y')
    fired = []
    fault = error_fault(op['fs'], ctx, fired) if op.get('fs') else None
    crash = op.get('crash')
    handler = kids
    if crash:
      counts = {'create': 2 * len(c['implementations']) * len(exp.names),
                'generate': len(exp.gen), 'test': len(exp.test)}
      at = int(crash['frac'] * counts[crash['stage']])

      def handler(a):
        if kids.seen[crash['stage']] >= at and (
            '"command": "%s"' % crash['stage']) in a[-1]:
          site.w.proc.dead = True
          ctx.fault('runner_killed')
          raise W.SimCrash()
        return kids(a)
    verdict, _ = self.runner(site, args, handler, fault)
    ctx.event('run', nrun, verdict, len(kids.calls))
    for f in op['faults']:
      if kids.seen[f['stage']] > f['nth']:
        ctx.probe(f['stage'] + '_fault')
        ctx.state(f['stage'], f['kind'], verdict)
    if kids.bad:
      raise Violation(*kids.bad)
    if verdict == 'crash':
      ctx.probe('crashed')
      return False
    if kids.refused and not fired:
      raise Violation('bad-create', kids.refused)
    ctx.probe(verdict)
    if fired:
      ctx.probe('fs_fault')
      ctx.state('fs', fired[0][0], verdict)
    if kids.wobbly:
      ctx.probe('unused_output')
    stages = collections.Counter(s for s, _ in kids.calls)
    if verdict == 'success' and kids.failed:
      raise Violation('hidden-failure', 'success was reported although %s '
                      'failed' % kids.failed[0])
    if verdict == 'failure' and not (kids.failed or kids.wobbly or fired):
      raise Violation('false-failure', 'a run without any failure was reported '
                      'as failed (%s)' % dict(stages))
    report = [l.strip() for l in self.report]
    for words in kids.words:
      ctx.probe('output_shown')
      if not all(any(l.endswith(x) for l in report) for x in words):
        raise Violation('output-hidden', 'the report does not show what the '
                        'failing call put out: %r' % words)
    early = [f for f in kids.failed if not f.startswith('test of')]
    if verdict == 'success' or not (early or kids.wobbly or fired):
      # nothing went wrong before the tests: all of it has to be there
      self.complete(exp, kids, create)
    return create and verdict == 'success'

  def complete(self, exp, kids, create):
    c = exp.c
    gens = collections.Counter(w for s, w in kids.calls if s == 'generate')
    tests = collections.Counter(w for s, w in kids.calls if s == 'test')
    for have, want, what in ((gens, exp.gen, 'generated'),
                             (tests, exp.test, 'tested')):
      for w in sorted(want):
        if have[w] != 1:
          raise Violation('missing', '%s was %s %d times' % (w, what, have[w]))
      for w in sorted(have):
        if w not in want:
          raise Violation('extra', '%s was %s' % (w, what))
    if not create:
      if kids.seen['create']:
        raise Violation('extra', 'keys were created although not asked for')
      return
    for i in c['implementations']:
      base = kids.paths[i]
      for name, (a, size) in exp.names.items():
        for suffix in ('', CRYPTER):
          loc = '%s/%s%s' % (base, name, suffix)
          if kids.created[loc] != 1:
            raise Violation('missing', 'keyset %s was created %d times' %
                            (loc, kids.created[loc]))
          _, cflags, adds, pub = kids.keysets[loc]
          d = c['algorithms'][a]
          if not set(d['createFlags']) <= set(cflags) or not adds:
            raise Violation('bad-create', 'keyset %s was created with %s and '
                            '%d keys' % (loc, cflags, len(adds)))
          for add in adds:
            if '--size=%d' % size not in add or \
                '--status=primary' not in add or \
                not set(d['addKeyFlags']) <= set(add):
              raise Violation('bad-create', 'key of %s was added with %s' %
                              (loc, add))
            cr = [x for x in add if x.startswith('--crypter=')]
            if bool(cr) != bool(suffix) or (cr and kids.where(
                cr[0].split('=', 1)[1]) != base + '/' + CRYPTER):
              raise Violation('bad-create', 'key of %s was added with crypter '
                              '%s' % (loc, cr))
          if not suffix and (pub == loc + 'public') != bool(d['asymmetric']):
            raise Violation('bad-create', 'public keyset of %s: %s' %
                            (loc, pub))


