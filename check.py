#!/usr/bin/env python3
"""Entry point of all checks: check.py C04 [--tier T] [--replay FILE] ..."""
import os
import sys

PY = '/opt/venv/bin/python'
if os.environ.get('KZ_SIM_CHILD') != '1':
  env = dict(os.environ)
  env.update({'KZ_SIM_CHILD': '1', 'PYTHONDONTWRITEBYTECODE': '1'})
  env['PYTHONHASHSEED'] = env.get('KZ_HASHSEED', '0')
  env.pop('KEYCZAR_BACKEND_PATHS', None)
  py = PY if os.path.exists(PY) else sys.executable
  os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import argparse  # noqa: E402

from sim import engine  # noqa: E402
from sim import registry  # noqa: E402
from sim import world  # noqa: E402


def selftest(seed):
  """Loads everything and shows that a run is a function of its seed.

  Decides no property: what a run finds is the check's business, so only a
  run that cannot be executed or repeated fails here.
  """
  for prop, scen in sorted(registry.all_scenarios().items()):
    for i in range(3):
      plan = engine.make_plan(scen, seed, i, 'quick')
      a = engine.guarded(scen, plan)
      b = engine.guarded(scen, plan)
      if (a['hash'], a['viol']) != (b['hash'], b['viol']):
        print('%s run %d is not repeatable' % (prop, i))
        return 2
  print('selftest ok')
  return 0


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('prop', nargs='?')
  ap.add_argument('--selftest', action='store_true',
                  help='a few runs of every scenario, each executed twice')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
  ap.add_argument('--runs', type=int)
  ap.add_argument('--jobs', type=int, default=os.cpu_count() or 1)
  ap.add_argument('--replay')
  ap.add_argument('--one', type=int, help='run a single index, verbosely')
  ap.add_argument('--hashes', action='store_true',
                  help='print the event-log hash of every run')
  args = ap.parse_args()
  seed = int(args.seed)
  world.install()
  if args.selftest:
    return selftest(seed)
  scen = registry.get(args.prop)
  if args.replay:
    return engine.replay(scen, args.replay)
  runs = args.runs or scen.quick_runs * (
      scen.thorough_factor if args.tier == 'thorough' else 1)
  if args.one is not None:
    return engine.one(scen, seed, args.one, args.tier)
  if args.hashes:
    for a in engine.batch(scen, seed, args.tier, runs, args.jobs,
                          stop_on_bad=False):
      if a['error']:
        print(a['error'])
      for i, h in a['hashes']:
        print(i, h)
    return 0
  return engine.check(scen, seed, args.tier, runs, args.jobs)


if __name__ == '__main__':
  sys.exit(main())
