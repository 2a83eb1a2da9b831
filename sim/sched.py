"""Baton scheduler: real threads, exactly one runs, the plan decides which.

A schedule is a list of [gap, pick]: let the current thread run `gap` points,
then hand over to the pick-th of the other runnable threads.  When the list is
used up the current thread runs on until it ends or blocks.
"""
import _thread
import threading

from . import world as W

_RealLock = _thread.allocate_lock


class Task(object):
  def __init__(self, tid, name, fn, proc):
    self.tid, self.name, self.fn, self.proc = tid, name, fn, proc
    self.gate = _RealLock()
    self.gate.acquire()
    self.done = False
    self.blocked_on = None
    self.exc = None
    self.result = None
    self.points = 0


class Sched(object):

  def __init__(self, world, switches, on_switch=None, max_points=2000000):
    self.world = world
    self.switches = switches
    self.pos = 0
    self.gap = switches[0][0] if switches else None
    self.tasks = []
    self.current = None
    self.main = _RealLock()
    self.main.acquire()
    self.points = 0
    self.preempted = 0
    self.max_points = max_points
    self.trail = []           # (tid, points it ran) -- identifies interleaving
    self.abort = None
    self.on_switch = on_switch
    self.in_harness = False

  def spawn(self, name, fn, proc):
    t = Task(len(self.tasks), name, fn, proc)
    self.tasks.append(t)
    return t

  # called by the running thread only
  def point(self, kind):
    if self.current is None or self.in_harness:
      return
    if self.abort:
      raise W.SimHang(self.abort)
    self.points += 1
    t = self.tasks[self.current]
    t.points += 1
    if self.points > self.max_points:
      self.abort = 'more than %d scheduling points' % self.max_points
      raise W.SimHang(self.abort)
    if self.gap is None:
      return
    self.gap -= 1
    if self.gap > 0:
      return
    pick = self.switches[self.pos][1]
    self.pos += 1
    self.gap = (self.switches[self.pos][0] if self.pos < len(self.switches)
                else None)
    others = [o for o in self.tasks
              if not o.done and o.blocked_on is None and o.tid != t.tid]
    if not others:
      return
    self.preempted += 1
    self._hand(others[pick % len(others)])
    t.gate.acquire()
    self._resumed(t)
    if self.abort:
      raise W.SimHang(self.abort)

  def _hand(self, nxt):
    self.trail.append((self.current, self.points))
    nxt.gate.release()

  def _resumed(self, t):
    self.current = t.tid
    if self.world.proc is not t.proc:
      self.world.proc = t.proc
      if t.proc.mods is not None:
        t.proc.mods.activate()
    if self.on_switch:
      self.on_switch(t)

  def block(self, lock):
    t = self.tasks[self.current]
    others = [o for o in self.tasks
              if not o.done and o.blocked_on is None and o.tid != t.tid]
    if not others:
      self.abort = 'deadlock'
      raise W.SimDeadlock('all threads wait for locks')
    t.blocked_on = lock
    self._hand(others[0])
    t.gate.acquire()
    self._resumed(t)
    if self.abort:
      raise W.SimHang(self.abort)

  def unblock(self, lock):
    for t in self.tasks:
      if t.blocked_on is lock:
        t.blocked_on = None

  def _body(self, t):
    t.gate.acquire()
    self._resumed(t)
    try:
      t.result = t.fn()
    except BaseException as e:  # pylint: disable=broad-except
      t.exc = e
    t.done = True
    rest = [o for o in self.tasks if not o.done]
    ready = [o for o in rest if o.blocked_on is None]
    if not ready and rest:
      self.abort = self.abort or 'deadlock'
      for o in rest:
        o.blocked_on = None
      ready = rest
    if ready:
      self._hand(ready[0])
    else:
      self.current = None
      self.main.release()

  def run(self):
    old = self.world.proc
    self.world.sched = self
    try:
      for t in self.tasks:
        _thread.start_new_thread(self._body, (t,))
      if self.tasks:
        self.tasks[0].gate.release()
        self.main.acquire()
    finally:
      self.world.sched = None
      self.world.proc = old
      if old.mods is not None:
        old.mods.activate()


def gen_switches(rng, n, ntasks, scale=None):
  """Random schedule; swarm over the typical gap between switches."""
  scale = scale or rng.choice((1, 2, 3, 6, 12, 30, 80, 200))
  out = []
  for _ in range(n):
    gap = 1 + int(rng.expovariate(1.0 / scale))
    out.append([gap, rng.randrange(max(1, ntasks - 1))])
  return out

