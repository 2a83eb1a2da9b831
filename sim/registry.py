"""Which scenario decides which property."""
import importlib

MODULES = ('scen_admin', 'scen_store', 'scen_msg',
           'scen_stream', 'scen_entropy', 'scen_threads', 'scen_interop',
           'scen_exchange', 'scen_backend')


def all_scenarios():
  out = {}
  for m in MODULES:
    mod = importlib.import_module('sim.' + m)
    for v in vars(mod).values():
      if isinstance(v, type) and getattr(v, 'id', None):
        out[v.id] = v()
  return out


def get(prop):
  return all_scenarios()[prop]
