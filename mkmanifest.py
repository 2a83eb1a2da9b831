"""Writes MANIFEST.json from the scenarios."""
import json
import sys

sys.path.insert(0, '.')
from sim import registry  # noqa: E402

NA = {
    'N01': 'Pure function of its input: no scheduling, time, I/O, fault or '
           'multi-party behaviour for a simulation to vary; a plain '
           'property-based test would be the tool, which is another technique.',
    'N02': 'Execution time at the level of single byte comparisons is not '
           'modelled by the simulator (its clock is virtual), so deterministic '
           'simulation cannot observe it.',
}

props = [json.loads(l) for l in open('properties.jsonl')]
scen = registry.all_scenarios()
checks, na = [], []
for p in props:
  i = p['id']
  if i in scen:
    s = scen[i]
    checks.append({
        'property': i,
        'quick_cmd': 'python3 check.py %s --tier quick' % i,
        'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
        'technique': 'deterministic simulation with fault injection: ' +
                     getattr(s, 'technique', 'seeded search over histories and '
                             'fault sequences, checked against a reference '
                             'model'),
        'level': 'exploration',
        'level_note': ('%d seeded runs of the real code in the quick tier, %d '
                       'in the thorough tier; no exhaustiveness is claimed. ' %
                       (s.quick_runs, s.quick_runs * s.thorough_factor)) +
                      'Assumes: ' + '; '.join(s.assumptions) + '. Stubbed: ' +
                      '; '.join(s.stubs) + '.'})
  else:
    na.append({'property': i, 'reason': NA.get(
        i, 'No check is built for it yet.')})
m = {'version': 1, 'setup_cmd': 'python3 check.py --selftest',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: every seam is patched at run time inside the '
              'simulator process. All commits in /repo are "fix:" repairs, '
              'listed in known_findings.json.'}
with open('MANIFEST.json', 'w') as f:
  json.dump(m, f, indent=1)
  f.write('\n')
