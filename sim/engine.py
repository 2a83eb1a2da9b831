"""Seeded search: run many plans, report and minimise what fails, replay it."""
import collections
import contextlib
import gc
import hashlib
import io
import json
import multiprocessing
import multiprocessing.connection
import os
import random
import signal
import sys
import traceback
import warnings

from . import refkz
from . import world as W

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, 'replays')
EVIDENCE = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.json')

RUN_ALARM_S = 60          # a run takes milliseconds; this only flags a hang
LINE_BUDGET = 30000000    # deterministic budget that decides a flagged hang


class Ctx(object):
  """What a run reports: event log, reach and faults."""

  def __init__(self):
    self.h = hashlib.sha1()
    self.nevents = 0
    self.tail = collections.deque(maxlen=60)
    self.faults = collections.Counter()
    self.probes = collections.Counter()
    self.states = set()
    self.inter = set()
    self.steps = 0
    self.simtime = 0.0
    self.nontrivial = False

  def event(self, *parts):
    s = ' '.join(str(p) for p in parts)
    self.h.update(s.encode('utf-8', 'backslashreplace') + b'\n')
    self.nevents += 1
    self.tail.append(s)

  def fault(self, kind, n=1):
    self.faults[kind] += n

  def probe(self, name, n=1):
    self.probes[name] += n

  def state(self, *parts):
    self.states.add(hashlib.sha1(repr(parts).encode()).hexdigest()[:12])

  def interleaving(self, trail):
    self.inter.add(hashlib.sha1(repr(trail).encode()).hexdigest()[:12])


class RunTimeout(BaseException):
  pass


def _alarm(signum, frame):
  raise RunTimeout()


def derive(seed, prop, index):
  return '%s/%s/%d' % (seed, prop, index)


def make_plan(scen, seed, index, tier):
  rng = random.Random(derive(seed, scen.id, index))
  plan = scen.gen(rng, tier, index)
  plan['_index'] = index
  # what is run is what a replay file would hold
  return json.loads(json.dumps(plan))


def _budget_trace(limit):
  left = [limit]

  def tracer(frame, event, arg):
    if event == 'line':
      left[0] -= 1
      if left[0] < 0:
        raise W.SimHang('line budget used up')
    return tracer
  return tracer


def execute(scen, plan, budget=False):
  """One run in this process.  Returns a result dict."""
  ctx = Ctx()
  plan = json.loads(json.dumps(plan))
  viol = None
  out = io.StringIO()
  random.seed(12345)
  gc.disable()
  old_stdout, old_stderr = sys.stdout, sys.stderr
  try:
    sys.stdout = sys.stderr = out
    if budget:
      sys.settrace(_budget_trace(LINE_BUDGET))
    try:
      scen.run(plan, ctx)
    finally:
      if budget:
        sys.settrace(None)
      sys.stdout, sys.stderr = old_stdout, old_stderr
      W.set_world(None)
  except W.Violation as e:
    viol = [e.kind, e.msg]
  except W.SimHang as e:
    viol = ['no-progress', str(e)]
  except W.SimDeadlock as e:
    viol = ['deadlock', str(e)]
  except refkz.RefError as e:
    # what the code stored or sent is not what the formats say
    viol = ['unreadable', str(e)]
  except Exception as e:  # pylint: disable=broad-except
    # an exception nobody expected: from the code under test, or from us?
    frames = [f.filename for f in traceback.extract_tb(e.__traceback__)]
    if isinstance(e, W.HarnessError) or not any(
        f.startswith(W.REPO + '/') for f in frames):
      raise
    viol = ['unexpected-exception', '%s: %s' % (type(e).__name__, e)]
  finally:
    gc.enable()
  return {'viol': viol, 'hash': ctx.h.hexdigest(), 'events': ctx.nevents,
          'faults': dict(ctx.faults), 'probes': dict(ctx.probes),
          'states': sorted(ctx.states), 'inter': sorted(ctx.inter),
          'steps': ctx.steps, 'simtime': ctx.simtime,
          'nontrivial': ctx.nontrivial, 'tail': list(ctx.tail)}


def guarded(scen, plan):
  """execute(), with a hang turned into a deterministic verdict."""
  signal.signal(signal.SIGALRM, _alarm)
  signal.setitimer(signal.ITIMER_REAL, RUN_ALARM_S)
  try:
    try:
      return execute(scen, plan)
    finally:
      signal.setitimer(signal.ITIMER_REAL, 0)
  except RunTimeout:
    if scen.threaded:
      raise W.HarnessError('threaded run exceeded %d s' % RUN_ALARM_S)
    return execute(scen, plan, budget=True)


# ----------------------------------------------------------------------------
# minimisation

def _fails(scen, plan, kind, cache):
  key = json.dumps(plan, sort_keys=True)
  if key not in cache:
    try:
      r = guarded(scen, plan)
      cache[key] = r['viol'] is not None and r['viol'][0] == kind
    except Exception:  # a shrunk plan the harness cannot run is no candidate
      cache[key] = False
  return cache[key]


def _ddmin(items, test):
  n = 2
  while len(items) >= 1:
    size = max(1, len(items) // n)
    chunks = [(i, min(len(items), i + size)) for i in range(0, len(items), size)]
    done = False
    for a, b in chunks:
      cand = items[:a] + items[b:]
      if test(cand):
        items = cand
        n = max(n - 1, 2)
        done = True
        break
    if not done:
      if size == 1:
        break
      n = min(len(items), n * 2)
  return items


def minimise(scen, plan, kind, limit_s=60):
  t0 = W.real_time()
  cache = {}
  best = plan

  def ok(p):
    if W.real_time() - t0 > limit_s:
      return False
    return _fails(scen, p, kind, cache)

  changed = True
  rounds = 0
  while changed and rounds < 4 and W.real_time() - t0 < limit_s:
    rounds += 1
    before = json.dumps(best, sort_keys=True)
    for key in scen.list_keys(best):
      holder = best
      path = key.split('.')

      def with_list(lst, path=path):
        p = json.loads(json.dumps(best))
        h = p
        for k in path[:-1]:
          h = h[int(k)] if isinstance(h, list) else h[k]
        h[int(path[-1]) if isinstance(h, list) else path[-1]] = lst
        return p
      try:
        for k in path:
          holder = holder[int(k)] if isinstance(holder, list) else holder[k]
      except (KeyError, IndexError):
        continue
      if not isinstance(holder, list) or not holder:
        continue
      lst = _ddmin(list(holder), lambda c: ok(with_list(c)))
      if lst != holder:
        best = with_list(lst)
    for cand in scen.simplify(best):
      if W.real_time() - t0 > limit_s:
        break
      if json.dumps(cand, sort_keys=True) != json.dumps(best, sort_keys=True) \
          and ok(cand):
        best = cand
    changed = json.dumps(best, sort_keys=True) != before
  return best


# ----------------------------------------------------------------------------
# known findings

def known_findings(prop):
  try:
    with open(KNOWN) as f:
      data = json.load(f)
  except FileNotFoundError:
    return []
  return [k for k in data.get('known', []) if k['property'] == prop]


def match_known(known, viol):
  for k in known:
    if k['kind'] == viol[0] and k.get('contains', '') in viol[1]:
      return k
  return None


# ----------------------------------------------------------------------------
# batches

_scen = None


def _empty():
  return {'runs': 0, 'faults': collections.Counter(),
          'probes': collections.Counter(), 'states': set(), 'inter': set(),
          'steps': 0, 'simtime': 0.0, 'nontrivial': 0, 'sigs': set(),
          'hashes': [], 'bad': [], 'error': None, 'sample': None, 'events': 0}


def _work(arg):
  seed, tier, lo, hi = arg
  agg = _empty()
  i = lo
  try:
    for i in range(lo, hi):
      plan = make_plan(_scen, seed, i, tier)
      r = guarded(_scen, plan)
      agg['runs'] += 1
      agg['faults'].update(r['faults'])
      agg['probes'].update(r['probes'])
      agg['states'].update(r['states'])
      agg['inter'].update(r['inter'])
      agg['steps'] += r['steps']
      agg['events'] += r['events']
      agg['simtime'] += r['simtime']
      agg['hashes'].append((i, r['hash']))
      if r['nontrivial']:
        agg['nontrivial'] += 1
        agg['sigs'].add(r['hash'][:16])
        if agg['sample'] is None:
          agg['sample'] = {'index': i, 'plan': plan, 'events': r['tail'][:25]}
      if r['viol']:
        agg['bad'].append((i, r['viol'], plan, r['tail']))
        if len(agg['bad']) >= 3:
          break
  except BaseException:  # harness trouble is not a verdict
    agg['error'] = 'run %d: %s' % (i, traceback.format_exc())
  return agg


def _init():
  sys.unraisablehook = lambda *a: None
  warnings.simplefilter('ignore')
  signal.signal(signal.SIGINT, signal.SIG_DFL)


def batch(scen, seed, tier, runs, jobs, chunk=None, stop_on_bad=True):
  global _scen
  _scen = scen
  chunk = chunk or 20        # independent of the number of workers
  tasks = [(seed, tier, i, min(runs, i + chunk)) for i in range(0, runs, chunk)]
  out = []
  if jobs == 1:
    _init()
    for t in tasks:
      a = _work(t)
      out.append(a)
      if a['error'] or (stop_on_bad and a['bad']):
        break
    return out
  mp = multiprocessing.get_context('fork')
  workers = []
  for _ in range(min(jobs, len(tasks))):
    here, there = mp.Pipe()
    pr = mp.Process(target=_worker, args=(there, here), daemon=True)
    pr.start()
    there.close()
    workers.append((pr, here))
  done = {}
  state = {'next': 0, 'limit': len(tasks)}
  busy = {}

  def feed(conn):
    if state['next'] < state['limit']:
      busy[conn] = state['next']
      conn.send(tasks[state['next']])
      state['next'] += 1
    else:
      busy.pop(conn, None)

  try:
    for _, conn in workers:
      feed(conn)
    while busy:
      for conn in multiprocessing.connection.wait(list(busy)):
        k = busy[conn]
        try:
          a = conn.recv()
        except EOFError:
          a = _empty()
          a['error'] = 'worker died in runs %s-%s' % tasks[k][2:]
          done[k] = a
          state['limit'] = min(state['limit'], k + 1)
          busy.pop(conn)
          continue
        done[k] = a
        if a['error'] or (stop_on_bad and a['bad']):
          # the earlier tasks are finished, so the verdict does not depend on
          # how many workers there are
          state['limit'] = min(state['limit'], k + 1)
        feed(conn)
  finally:
    for pr, conn in workers:
      pr.kill()
      pr.join()
  return [done[k] for k in sorted(done) if k < state['limit']]


def _worker(conn, other):
  other.close()
  _init()
  while True:
    try:
      t = conn.recv()
    except EOFError:
      return
    conn.send(_work(t))


def write_replay(scen, plan, viol, seed, index, tier, tail, result_hash):
  os.makedirs(REPLAYS, exist_ok=True)
  path = os.path.join(REPLAYS, '%s-s%s-i%d.json' % (scen.id, seed, index))
  with open(path, 'w') as f:
    json.dump({'property': scen.id, 'seed': seed, 'index': index, 'tier': tier,
               'violation': {'kind': viol[0], 'message': viol[1]},
               'plan': plan, 'event_hash': result_hash, 'trace': tail}, f,
              indent=1)
    f.write('\n')
  return path


def check(scen, seed, tier, runs, jobs):
  """Run the check; print verdict lines; return exit status."""
  t0 = W.real_time()
  known = known_findings(scen.id)
  parts = batch(scen, seed, tier, runs, jobs)
  agg = {'runs': sum(p['runs'] for p in parts)}
  faults, probes = collections.Counter(), collections.Counter()
  states, inter, sigs = set(), set(), set()
  for p in parts:
    faults.update(p['faults'])
    probes.update(p['probes'])
    states |= p['states']
    inter |= p['inter']
    sigs |= p['sigs']
  errors = [p['error'] for p in parts if p['error']]
  bad = sorted((b for p in parts for b in p['bad']), key=lambda b: b[0])
  wall = W.real_time() - t0
  status = 0
  nviol = 0
  seen_known = set()
  reported = False
  for index, viol, plan, tail in bad:
    k = match_known(known, viol)
    if k:
      seen_known.add(k['id'])
      continue
    nviol += 1
    if reported:
      continue
    reported = True
    _init()
    try:
      small = minimise(scen, plan, viol[0])
      r = guarded(scen, small)
    except Exception:  # minimising is a service, the verdict stands
      traceback.print_exc()
      small, r = plan, guarded(scen, plan)
    if not r['viol']:
      small, r = plan, guarded(scen, plan)
    if not r['viol']:
      errors.append('run %d: violation %s did not reproduce' % (index, viol))
      reported = len(errors) >= 5     # otherwise try the next one
      continue
    path = write_replay(scen, small, r['viol'], seed, index, tier, r['tail'],
                        r['hash'])
    print('violation (%s) in run %d of seed %s: %s' %
          (r['viol'][0], index, seed, r['viol'][1]))
    print('VIOLATION property=%s replay=%s' % (scen.id, path))
    status = 1
  for k in known:
    print('KNOWN-FINDING: property=%s %s' % (scen.id, k['what']))
  missing = [p for p in scen.must_reach if not probes.get(p) and
             not faults.get(p)]
  if errors and status == 0:
    status = 3
  sample = next((p['sample'] for p in parts if p['sample']), None)
  samples = [s for s in (p['sample'] for p in parts) if s][:2] or [sample]
  for s in samples:
    if s:
      s['plan'] = shorten(s['plan'])
  wall = max(wall, 1e-6)
  cov = {
      'evaluations': agg['runs'],
      'distinct_nontrivial': len(sigs),
      'rule': scen.rule,
      'samples': samples,
      'seeds': agg['runs'],
      'runs_per_hour': int(agg['runs'] / wall * 3600),
      'simulated_steps': sum(p['steps'] for p in parts),
      'simulated_time_s': round(sum(p['simtime'] for p in parts), 3),
      'time_note': scen.time_note,
      'events_logged': sum(p['events'] for p in parts),
      'fault_kinds_injected': dict(sorted(faults.items())),
      'probes': dict(sorted(probes.items())),
      'probes_not_reached': missing,
      'distinct_states': len(states),
      'distinct_interleavings': len(inter),
      'state_measure': scen.state_measure,
      'real_components': scen.real,
      'stubbed_components': scen.stubs,
      'first_run_seed': derive(seed, scen.id, 0),
  }
  ev = {'property': scen.id, 'tier': tier, 'seed': seed,
        'level': 'exploration', 'coverage': cov,
        'assumptions': scen.assumptions, 'wall_s': round(wall, 3),
        'violations': nviol}
  os.makedirs(EVIDENCE, exist_ok=True)
  with open(os.path.join(EVIDENCE, scen.id + '.json'), 'w') as f:
    json.dump(ev, f, indent=1, default=str)
    f.write('\n')
  for e in errors:
    sys.stderr.write('HARNESS ERROR %s\n' % e)
  print('%s: %d runs, %d distinct non-trivial, %d states, faults %s, %.1f s%s' %
        (scen.id, agg['runs'], len(sigs), len(states),
         dict(sorted(faults.items())), wall,
         '; NOT REACHED: %s' % missing if missing else ''))
  return status


def shorten(plan):
  s = json.dumps(plan)
  if len(s) <= 3000:
    return plan
  return {'truncated_json': s[:3000]}


def replay(scen, path):
  with open(path) as f:
    data = json.load(f)
  _init()
  r = guarded(scen, data['plan'])
  for t in r['tail']:
    print('  ' + t)
  if r['viol']:
    same = (r['viol'] == [data['violation']['kind'],
                          data['violation']['message']] and
            r['hash'] == data.get('event_hash'))
    print('violation (%s): %s' % tuple(r['viol']))
    print('replay %s' % ('identical to the recorded run' if same else
                         'fails, but differs from the recorded run'))
    print('VIOLATION property=%s replay=%s' % (scen.id, path))
    return 1
  print('replay did not fail')
  return 0


def one(scen, seed, index, tier):
  _init()
  plan = make_plan(scen, seed, index, tier)
  print(json.dumps(plan, indent=1))
  r = guarded(scen, plan)
  for t in r['tail']:
    print('  ' + t)
  print(r['viol'], r['hash'], r['probes'], r['faults'])
  return 1 if r['viol'] else 0
