"""The store behind the pluggable backends: a server of named tables.

Every call is a gate of the simulator: the calling process may be preempted,
killed before or after the call takes effect, and the call may fail before it
takes effect or after (the answer is lost).  Tables are kept in the simulated
file system below ROOT/db, where the reference parser finds them.
"""
from . import world as W
from .common import ROOT

PATH = ROOT + '/db'


class Unavailable(Exception):
  pass


class Store(object):
  """mode: 'direct' applies every write at once, 'commit' on closing."""

  def __init__(self, mode):
    self.mode = mode
    self.conns = []
    self.bad = None

  def fail(self, kind, msg):
    self.bad = self.bad or W.Violation(kind, msg)
    raise self.bad

  def settle(self, procs):
    """After work that was not cut short: all is closed and in order."""
    if self.bad:
      raise self.bad
    for c in self.conns:
      if c.proc in procs and not c.closed:
        raise W.Violation('not-closed', 'a %s of %s was left open' % (
            {'r': 'reader', 'w': 'writer'}[c.how], c.location))
    self.conns = [c for c in self.conns if c.proc not in procs]


def path_of(location):
  """Where the items of a location are."""
  for x in ('db:', 'kv:'):
    if location.startswith(x):
      return '%s/%s-%s' % (PATH, x[:2], location[3:])
  return location


def connect(location, how):
  return Conn(W.current(), location, how)


class Conn(object):

  def __init__(self, w, location, how):
    self.w, self.location, self.how = w, location, how
    self.proc = w.proc
    self.closed = False
    self.pending = []
    self.path = path_of(location)
    self.call('connect', '', False, lambda: None)
    w.backend.conns.append(self)

  def call(self, what, item, mutating, effect):
    if self.closed:
      self.w.backend.fail('used-closed', '%s of %s after it was closed' %
                          (what, self.location))
    act = self.w.enter(self.proc, 'store_' + what,
                       '%s/%s' % (self.location, item), mutating)
    if act and act[0] == 'err':
      raise Unavailable('the store does not answer')
    v = effect()
    if act and act[0] == 'die':
      self.proc.dead = True
      raise W.SimCrash()
    if act and act[0] == 'lost':
      raise Unavailable('the answer of the store was lost')
    return v

  def get(self, item):
    def go():
      f = self.w.fs.h_files(self.path) if self.w.fs.h_exists(self.path) else {}
      if item not in f:
        raise Unavailable('no item %s in %s' % (item, self.location))
      return f[item].decode('ascii')
    return self.call('get', item, False, go)

  def change(self, what, item, fn):
    if self.w.backend.mode == 'direct':
      self.call(what, item, True, fn)
    else:
      self.call('prepare', item, False, lambda: self.pending.append(fn))

  def put(self, item, value, overwrite):
    if not overwrite and self.w.fs.h_exists(self.path + '/' + item):
      raise Unavailable('item %s of %s exists' % (item, self.location))

    def go():
      self.w.fs.h_mkdirs(self.path)
      self.w.fs.h_write(self.path + '/' + item, value.encode('ascii'))
    self.change('put', item, go)

  def remove(self, item):
    def go():
      if not self.w.fs.h_exists(self.path + '/' + item):
        raise Unavailable('no item %s in %s' % (item, self.location))
      self.w.fs.unlink(self.path + '/' + item)
    self.change('remove', item, go)

  def close(self):
    if self.closed:
      return

    def go():
      for fn in self.pending:
        fn()
      self.pending = []
    try:
      self.call('commit' if self.pending else 'close', '', bool(self.pending),
                go)
    finally:
      self.closed = True
