"""The simulated world: every seam between keyczar and the outside.

One World is current at a time.  While it is, file access below ROOT, the
entropy source, the clock, locks and process exits go through it; everything
else passes through to the real system.
"""
import ast
import builtins
import errno
import hashlib
import heapq
import importlib.abc
import importlib.util
import io
import json
import os
import random
import sys
import threading
import time
import types
import _io
import _thread

from . import simfs

ROOT = '/simroot'
REPO = os.environ.get('KZ_REPO', '/repo')
SRC = os.path.join(REPO, 'python', 'src')
HERE = os.path.dirname(os.path.abspath(__file__))

_W = None            # the current World
_real = types.SimpleNamespace()


class SimCrash(BaseException):
  """The simulated process stops here."""


class SimHang(BaseException):
  """Step budget of a run used up."""


class SimDeadlock(BaseException):
  """All simulated threads wait for locks."""


class Violation(Exception):
  def __init__(self, kind, msg):
    Exception.__init__(self, '%s: %s' % (kind, msg))
    self.kind = kind
    self.msg = msg


class HarnessError(Exception):
  pass


# ----------------------------------------------------------------------------
# processes and faults

class Proc(object):
  """A simulated process: its own modules, its own life."""

  def __init__(self, world, name='p', mods=None):
    self.world = world
    self.name = name
    self.dead = False
    self.mods = mods
    self.calls = 0           # file-system calls made so far
    self.fault = None        # callable(proc, index, name, path, mutating)
    self.trace = []          # (name, path) of its calls

  def kill(self):
    self.dead = True


class World(object):

  def __init__(self, seed=0):
    self.fs = simfs.SimFS(ROOT)
    self.fds = {}
    self.next_fd = simfs.FD_BASE
    self.cwd = None
    self.proc = Proc(self, 'main')
    self.entropy = Entropy(seed)
    self.now = 1400000000.0
    self.sched = None
    self.exited = None
    self.subprocess = None    # handler(args) for simulated programs
    self.stats = {}
    self.steps = 0
    self.clones = 0

  def count(self, name, n=1):
    self.stats[name] = self.stats.get(name, 0) + n

  def with_fs(self, fs):
    """Use another file system (for example a clone) for a while."""
    world = self

    class _Ctx(object):
      def __enter__(self):
        self.old = world.fs
        world.fs = fs
        return fs

      def __exit__(self, *a):
        world.fs = self.old
        return False
    return _Ctx()

  # gate for every simulated system call
  def enter(self, proc, name, path, mutating):
    if proc.dead:
      raise SimCrash()
    self.steps += 1
    if self.sched is not None:
      self.sched.point('fs')
      if proc.dead:
        raise SimCrash()
    idx = proc.calls
    proc.calls += 1
    proc.trace.append((name, path, mutating))
    if proc.fault is not None:
      return proc.fault(proc, idx, name, path, mutating)
    return None


# ----------------------------------------------------------------------------
# entropy

class EntropyFailure(OSError):
  pass


# shapes of random bytes that trimming, stripping or number conversion would
# damage
BIAS = {'lead0': (b'\0', b''), 'tail0': (b'', b'\0'), 'nl': (b'', b'\n'),
        'space': (b' ', b' '), 'lead00': (b'\0\0', b''), 'tab': (b'\t', b'\r')}


class Entropy(object):
  """Stands in for the operating system's entropy source."""

  def __init__(self, seed):
    self.reseed(seed)
    self.draws = []          # (n, bytes, thread label)
    self.record = False
    self.fail_at = None      # index of the draw (since reseed) that fails
    self.fail_count = 0
    self.failed = 0
    self.total = 0
    self.force = {}          # size -> draws to hand out first
    self.bias = None         # shape every draw is given

  def reseed(self, seed):
    self.rng = random.Random('entropy/%s' % (seed,))
    self.index = 0

  def urandom(self, n):
    i = self.index
    self.index += 1
    self.total += 1
    if self.fail_at is not None and self.fail_at <= i < self.fail_at + self.fail_count:
      self.failed += 1
      raise EntropyFailure(errno.EIO, 'simulated entropy failure')
    b = self.rng.randbytes(n)
    if self.force.get(n):
      b = self.force[n].pop(0)
    elif self.bias and n >= 8:
      front, back = BIAS[self.bias]
      b = front + b[len(front):n - len(back)] + back
    if self.record:
      self.draws.append(b)
    return b


# ----------------------------------------------------------------------------
# file objects

class SimRaw(io.RawIOBase):
  """Unbuffered file over the simulated file system."""

  def __init__(self, fd, closefd=True, name=None):
    self._fd = fd
    self._h = _W.fds[fd]
    self._closefd = closefd
    self.name = name if name is not None else fd
    self.mode = self._h.pymode()

  def fileno(self):
    if self.closed:
      raise ValueError('I/O operation on closed file')
    return self._fd

  def readable(self):
    return self._h.readable

  def writable(self):
    return self._h.writable

  def seekable(self):
    return True

  def isatty(self):
    return False

  def readinto(self, b):
    data = self._h.read(len(b))
    b[:len(data)] = data
    return len(data)

  def readall(self):
    chunks = []
    while True:
      c = self._h.read(1 << 16)
      if not c:
        return b''.join(chunks)
      chunks.append(c)

  def write(self, b):
    return self._h.write(bytes(b))

  def seek(self, off, whence=0):
    return self._h.seek(off, whence)

  def tell(self):
    return self._h.pos

  def truncate(self, size=None):
    if size is None:
      size = self._h.pos
    self._h.truncate(size)
    return size

  def close(self):
    if self.closed:
      return
    try:
      if self._closefd:
        self._h.close(self._fd)
    finally:
      io.RawIOBase.close(self)


class Handle(object):
  """An open file description."""

  def __init__(self, world, proc, fs, node, path, flags):
    self.world, self.proc, self.fs, self.node = world, proc, fs, node
    self.path = path
    self.flags = flags
    acc = flags & os.O_ACCMODE
    self.readable = acc in (os.O_RDONLY, os.O_RDWR)
    self.writable = acc in (os.O_WRONLY, os.O_RDWR)
    self.append = bool(flags & os.O_APPEND)
    self.pos = 0
    self.closed = False

  def pymode(self):
    return 'rb+' if self.readable and self.writable else (
        'wb' if self.writable else 'rb')

  def _check(self):
    if self.closed:
      raise simfs.err(errno.EBADF, self.path)

  def read(self, n):
    self._check()
    act = self.world.enter(self.proc, 'read', self.path, False)
    if act:
      if act[0] == 'err':
        raise simfs.err(act[1], self.path)
      if act[0] == 'short' and n > 1:
        n = max(1, int(n * act[1]))
    if self.node.isdir:
      raise simfs.err(errno.EISDIR, self.path)
    if not self.readable:
      raise simfs.err(errno.EBADF, self.path)
    data = bytes(self.node.data[self.pos:self.pos + n])
    self.pos += len(data)
    return data

  def write(self, b):
    self._check()
    if not self.writable:
      raise simfs.err(errno.EBADF, self.path)
    act = self.world.enter(self.proc, 'write', self.path, True)
    crash = False
    if act:
      if act[0] == 'err':
        raise simfs.err(act[1], self.path)
      if act[0] == 'short' and len(b) > 1:
        b = b[:max(1, int(len(b) * act[1]))]
      if act[0] == 'torn':
        b = b[:int(len(b) * act[1])]
        crash = True
    if b:
      if self.append:
        self.pos = len(self.node.data)
      if self.pos > len(self.node.data):
        self.node.data.extend(b'\0' * (self.pos - len(self.node.data)))
      self.node.data[self.pos:self.pos + len(b)] = b
      self.pos += len(b)
      if self.fs.on_write:
        self.fs.on_write(self.node, self.path)
    if crash:
      self.proc.dead = True
      raise SimCrash()
    return len(b)

  def seek(self, off, whence):
    self._check()
    if whence == 0:
      self.pos = off
    elif whence == 1:
      self.pos += off
    else:
      self.pos = len(self.node.data) + off
    return self.pos

  def truncate(self, size):
    self._check()
    act = self.world.enter(self.proc, 'ftruncate', self.path, True)
    if act and act[0] == 'err':
      raise simfs.err(act[1], self.path)
    d = self.node.data
    if size < len(d):
      del d[size:]
    else:
      d.extend(b'\0' * (size - len(d)))
    if self.fs.on_write:
      self.fs.on_write(self.node, self.path)

  def fsync(self):
    self._check()
    act = self.world.enter(self.proc, 'fsync', self.path, True)
    if act and act[0] == 'err':
      raise simfs.err(act[1], self.path)
    self.fs.fsync_node(self.node)

  def close(self, fd):
    if self.closed:
      return
    if self.proc.dead:
      self.closed = True
      self.world.fds.pop(fd, None)
      return
    act = self.world.enter(self.proc, 'close', self.path, False)
    self.closed = True
    self.world.fds.pop(fd, None)
    if act and act[0] == 'err':
      raise simfs.err(act[1], self.path)


# ----------------------------------------------------------------------------
# patched functions

def _simpath(path):
  """Absolute simulated path, or None if path is not simulated."""
  if _W is None or isinstance(path, int):
    return None
  try:
    p = os.fspath(path)
  except TypeError:
    return None
  if isinstance(p, bytes):
    p = p.decode('utf-8', 'surrogateescape')
  if not p.startswith('/'):
    if _W.cwd is None:
      return None
    p = _W.cwd + '/' + p if p else p
    if not p:
      return None
  if not p.startswith(ROOT):
    return None
  p = os.path.normpath(p)
  if p == ROOT or p.startswith(ROOT + '/'):
    return p
  return None


def _simfd(fd):
  if _W is None or not isinstance(fd, int) or fd < simfs.FD_BASE:
    return None
  h = _W.fds.get(fd)
  if h is None:
    raise simfs.err(errno.EBADF)
  return h


def _gate(name, path, mutating):
  act = _W.enter(_W.proc, name, path, mutating)
  if act and act[0] == 'err':
    raise simfs.err(act[1], path)


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
  p = _simpath(path)
  if p is None:
    return _real.os_open(path, flags, mode, dir_fd=dir_fd)
  _gate('open', p, bool(flags & (os.O_CREAT | os.O_TRUNC)))
  node = _W.fs.open(p, flags, mode)
  fd = _W.next_fd
  _W.next_fd += 1
  _W.fds[fd] = Handle(_W, _W.proc, _W.fs, node, p, flags)
  return fd


def _open(file, mode='r', buffering=-1, encoding=None, errors=None,
          newline=None, closefd=True, opener=None):
  sim = None
  if _W is not None:
    if isinstance(file, int):
      sim = file if file >= simfs.FD_BASE else None
    else:
      sim = _simpath(file)
  if sim is None and not (opener is not None and _W is not None and
                          not isinstance(file, int) and _simpath(file)):
    return _real.open(file, mode, buffering, encoding, errors, newline,
                      closefd, opener)
  flags_set = set(mode)
  if flags_set - set('axrwb+tU') or len(mode) > len(flags_set):
    raise ValueError('invalid mode: %r' % mode)
  creating, reading, writing, appending = ('x' in mode, 'r' in mode,
                                           'w' in mode, 'a' in mode)
  updating, text, binary = '+' in mode, 't' in mode, 'b' in mode
  if text and binary or creating + reading + writing + appending != 1:
    raise ValueError('bad mode: %r' % mode)
  if isinstance(file, int):
    fd = file
  else:
    fl = getattr(os, 'O_CLOEXEC', 0)
    if reading:
      fl |= os.O_RDWR if updating else os.O_RDONLY
    else:
      fl |= (os.O_RDWR if updating else os.O_WRONLY) | os.O_CREAT
      if creating:
        fl |= os.O_EXCL
      if writing:
        fl |= os.O_TRUNC
      if appending:
        fl |= os.O_APPEND
    if opener is not None:
      fd = opener(file, fl)
    else:
      fd = _os_open(sim, fl, 0o666)
  h = _W.fds[fd]
  if h.node.isdir:
    os.close(fd)
    raise simfs.err(errno.EISDIR, h.path)
  raw = SimRaw(fd, closefd, name=file)
  if appending:
    h.pos = len(h.node.data)
  if buffering == 0:
    if not binary:
      raise ValueError("can't have unbuffered text I/O")
    return raw
  size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
  if updating:
    buf = io.BufferedRandom(raw, size)
  elif writing or appending or creating:
    buf = io.BufferedWriter(raw, size)
  else:
    buf = io.BufferedReader(raw, size)
  if binary:
    return buf
  txt = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline,
                         line_buffering=(buffering == 1))
  txt.mode = mode
  return txt


def _os_close(fd):
  h = _simfd(fd)
  if h is None:
    return _real.os_close(fd)
  h.close(fd)


def _os_read(fd, n):
  h = _simfd(fd)
  return _real.os_read(fd, n) if h is None else h.read(n)


def _os_write(fd, b):
  h = _simfd(fd)
  return _real.os_write(fd, b) if h is None else h.write(bytes(b))


def _os_fsync(fd):
  if hasattr(fd, 'fileno'):
    fd = fd.fileno()
  h = _simfd(fd)
  return _real.os_fsync(fd) if h is None else h.fsync()


def _os_fdatasync(fd):
  if hasattr(fd, 'fileno'):
    fd = fd.fileno()
  h = _simfd(fd)
  return _real.os_fdatasync(fd) if h is None else h.fsync()


def _os_sync():
  if _W is None:
    return _real.os_sync()
  _gate('sync', ROOT, True)
  _W.fs.sync_all()


def _os_lseek(fd, pos, how):
  h = _simfd(fd)
  return _real.os_lseek(fd, pos, how) if h is None else h.seek(pos, how)


def _os_ftruncate(fd, n):
  h = _simfd(fd)
  return _real.os_ftruncate(fd, n) if h is None else h.truncate(n)


def _os_truncate(path, n):
  if isinstance(path, int):
    return _os_ftruncate(path, n)
  p = _simpath(path)
  if p is None:
    return _real.os_truncate(path, n)
  fd = _os_open(p, os.O_WRONLY)
  try:
    _W.fds[fd].truncate(n)
  finally:
    _os_close(fd)


def _os_fstat(fd):
  h = _simfd(fd)
  return _real.os_fstat(fd) if h is None else h.fs.stat_node(h.node)


def _os_fchmod(fd, mode):
  h = _simfd(fd)
  if h is None:
    return _real.os_fchmod(fd, mode)
  _gate('chmod', h.path, False)
  h.node.mode = mode & 0o7777


def _os_dup(fd):
  h = _simfd(fd)
  if h is None:
    return _real.os_dup(fd)
  nfd = _W.next_fd
  _W.next_fd += 1
  _W.fds[nfd] = Handle(_W, h.proc, h.fs, h.node, h.path, h.flags)
  return nfd


def _os_stat(path, *, dir_fd=None, follow_symlinks=True):
  h = _simfd(path) if isinstance(path, int) else None
  if h is not None:
    return h.fs.stat_node(h.node)
  p = _simpath(path)
  if p is None:
    return _real.os_stat(path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
  _gate('stat', p, False)
  return _W.fs.stat(p)


def _os_lstat(path, *, dir_fd=None):
  p = _simpath(path)
  if p is None:
    return _real.os_lstat(path, dir_fd=dir_fd)
  _gate('stat', p, False)
  return _W.fs.stat(p)


def _os_access(path, mode, *, dir_fd=None, effective_ids=False,
               follow_symlinks=True):
  p = _simpath(path)
  if p is None:
    return _real.os_access(path, mode, dir_fd=dir_fd,
                           effective_ids=effective_ids,
                           follow_symlinks=follow_symlinks)
  try:
    _gate('stat', p, False)
    _W.fs.stat(p)
    return True
  except OSError:
    return False


def _two(name):
  def f(src, dst, *, src_dir_fd=None, dst_dir_fd=None, **kw):
    s, d = _simpath(src), _simpath(dst)
    if s is None and d is None:
      return getattr(_real, 'os_' + name)(src, dst, src_dir_fd=src_dir_fd,
                                          dst_dir_fd=dst_dir_fd, **kw)
    if s is None or d is None:
      raise simfs.err(errno.EXDEV, str(dst))
    if name == 'link':
      _gate('link', d, True)
      return _W.fs.link(s, d)
    _gate('rename', d, True)
    return _W.fs.rename(s, d)
  return f


def _os_unlink(path, *, dir_fd=None):
  p = _simpath(path)
  if p is None:
    return _real.os_unlink(path, dir_fd=dir_fd)
  _gate('unlink', p, True)
  _W.fs.unlink(p)


def _os_mkdir(path, mode=0o777, *, dir_fd=None):
  p = _simpath(path)
  if p is None:
    return _real.os_mkdir(path, mode, dir_fd=dir_fd)
  _gate('mkdir', p, True)
  _W.fs.mkdir(p, mode)


def _os_rmdir(path, *, dir_fd=None):
  p = _simpath(path)
  if p is None:
    return _real.os_rmdir(path, dir_fd=dir_fd)
  _gate('rmdir', p, True)
  _W.fs.rmdir(p)


def _os_listdir(path='.'):
  p = _simpath(path)
  if p is None:
    return _real.os_listdir(path)
  _gate('listdir', p, False)
  return _W.fs.listdir(p)


class _DirEntry(object):
  def __init__(self, base, name, fs):
    self.name = name
    self.path = base + '/' + name
    self._fs = fs

  def __fspath__(self):
    return self.path

  def is_dir(self, *, follow_symlinks=True):
    return self._fs._walk(_simpath(self.path)).isdir

  def is_file(self, *, follow_symlinks=True):
    return not self.is_dir()

  def is_symlink(self):
    return False

  def stat(self, *, follow_symlinks=True):
    return self._fs.stat(_simpath(self.path))

  def inode(self):
    return self._fs._walk(_simpath(self.path)).ino


class _ScanDir(object):
  def __init__(self, entries):
    self._it = iter(entries)

  def __iter__(self):
    return self

  def __next__(self):
    return next(self._it)

  def __enter__(self):
    return self

  def __exit__(self, *a):
    return None

  def close(self):
    pass


def _os_scandir(path='.'):
  p = _simpath(path)
  if p is None:
    return _real.os_scandir(path)
  _gate('listdir', p, False)
  return _ScanDir([_DirEntry(str(path), n, _W.fs) for n in _W.fs.listdir(p)])


def _os_chmod(path, mode, *, dir_fd=None, follow_symlinks=True):
  if isinstance(path, int):
    return _os_fchmod(path, mode)
  p = _simpath(path)
  if p is None:
    return _real.os_chmod(path, mode, dir_fd=dir_fd,
                          follow_symlinks=follow_symlinks)
  _gate('chmod', p, False)
  _W.fs._walk(p).mode = mode & 0o7777


def _os_utime(path, *a, **kw):
  p = _simpath(path)
  if p is None:
    return _real.os_utime(path, *a, **kw)
  _gate('utime', p, False)


def _os_symlink(src, dst, *a, **kw):
  p = _simpath(dst)
  if p is None:
    return _real.os_symlink(src, dst, *a, **kw)
  raise simfs.err(errno.EPERM, p)


def _os_readlink(path, *a, **kw):
  p = _simpath(path)
  if p is None:
    return _real.os_readlink(path, *a, **kw)
  raise simfs.err(errno.EINVAL, p)


def _os_getcwd():
  if _W is not None and _W.cwd:
    return _W.cwd
  return _real.os_getcwd()


def _os_urandom(n):
  if _W is None:
    return _real.os_urandom(n)
  return _W.entropy.urandom(n)


def _os_getrandom(n, flags=0):
  return _os_urandom(n)


class ProcessExit(BaseException):
  def __init__(self, code):
    BaseException.__init__(self, code)
    self.code = code


def _os_exit(code):
  if _W is None:
    return _real.os__exit(code)
  raise ProcessExit(code)


def _clock(name):
  def f():
    if _W is None:
      return getattr(_real, name)()
    _W.now += 0.001
    return _W.now
  return f


def _clock_ns(name):
  def f():
    if _W is None:
      return getattr(_real, name)()
    _W.now += 0.001
    return int(_W.now * 1e9)
  return f


def _sleep(s):
  if _W is None:
    return _real.sleep(s)
  _W.now += max(0, s)
  if _W.sched is not None:
    _W.sched.point('sleep')


class SimLock(object):
  """threading.Lock/RLock whose waiting is decided by the scheduler."""

  def __init__(self, reentrant=False):
    self._owner = None
    self._count = 0
    self._re = reentrant

  def _me(self):
    if _W is not None and _W.sched is not None:
      return _W.sched.current
    return _thread.get_ident()

  def acquire(self, blocking=True, timeout=-1):
    me = self._me()
    if _W is not None and _W.sched is not None:
      _W.sched.point('lock')
    while self._count and not (self._re and self._owner == me):
      if not blocking:
        return False
      if _W is None or _W.sched is None:
        raise SimDeadlock('lock is never released')
      _W.sched.block(self)
      if timeout is not None and timeout >= 0 and self._count:
        return False
    self._owner = me
    self._count += 1
    return True

  def release(self):
    if not self._count:
      raise RuntimeError('release unlocked lock')
    self._count -= 1
    if not self._count:
      self._owner = None
      if _W is not None and _W.sched is not None:
        _W.sched.unblock(self)

  def locked(self):
    return self._count > 0

  def _is_owned(self):
    return self._count > 0 and self._owner == self._me()

  def __enter__(self):
    self.acquire()
    return self

  def __exit__(self, *a):
    self.release()


class _FakeRandom(object):
  """Crypto.Random over the simulated entropy source."""

  def read(self, n):
    return os.urandom(n)

  def flush(self):
    pass

  def close(self):
    pass

  def reinit(self):
    pass


class SimPopen(object):
  """A child process answered by the world's handler."""

  def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None,
               stderr=None, preexec_fn=None, close_fds=True, shell=False,
               cwd=None, env=None, universal_newlines=None, startupinfo=None,
               creationflags=0, restore_signals=True, start_new_session=False,
               pass_fds=(), *, text=None, encoding=None, errors=None, **kw):
    import shlex
    import subprocess
    w = _W
    if w.proc.dead:
      raise SimCrash()
    self.args = args
    self.pid = 4242
    w.steps += 1
    argv = shlex.split(args) if isinstance(args, str) else [
        os.fspath(a) for a in args]
    res = w.subprocess(argv)
    code, out = res[:2]
    err = res[2] if len(res) > 2 else b''     # what it writes to its stderr
    if w.proc.dead:
      raise SimCrash()
    self._code = code
    self.returncode = None
    self._text = bool(universal_newlines or text or encoding or errors)
    self._enc = (encoding or 'utf-8', errors or 'strict')
    self.stdin = None
    self.stdout = self.stderr = None
    if stderr == subprocess.STDOUT:
      out, err = (out or b'') + err, b''
    self.stdout = self._connect(stdout, out or b'', sys.stdout)
    self.stderr = self._connect(stderr, err, sys.stderr)

  def _connect(self, to, data, inherited):
    """Where one of the child's output streams ends up."""
    import subprocess
    if to == subprocess.PIPE:
      return self._stream(data)
    if to is None:
      to = inherited
    if hasattr(to, 'write') and data:
      try:
        to.write(data)
      except TypeError:
        to.write(data.decode('utf-8', 'replace'))
    return None

  def _stream(self, data):
    raw = io.BytesIO(data)
    if not self._text:
      return raw
    return io.TextIOWrapper(raw, self._enc[0], self._enc[1])

  def communicate(self, input=None, timeout=None):
    self.returncode = self._code
    out = self.stdout.read() if self.stdout else None
    err = self.stderr.read() if self.stderr else None
    return out, err

  def wait(self, timeout=None):
    self.returncode = self._code
    return self.returncode

  def poll(self):
    self.returncode = self._code
    return self.returncode

  def kill(self):
    pass

  terminate = kill

  def send_signal(self, sig):
    pass

  def __enter__(self):
    return self

  def __exit__(self, *a):
    self.wait()


# ----------------------------------------------------------------------------
# crypto seams: what this sandbox's pycrypto cannot run

with open(os.path.join(HERE, 'keypool.json')) as _f:
  _POOL = {k: [[int(x, 16) for x in key] for key in v]
           for k, v in json.load(_f).items()}


_PRIMES = {k: sorted({x for key in v for x in key[3:5]})
           for k, v in _POOL.items() if k.startswith('rsa')}


def _rsa_pick(bits, rand):
  """An RSA key made of two pooled primes that the entropy selects."""
  primes = _PRIMES['rsa%d' % bits]
  h = int.from_bytes(hashlib.sha256(rand).digest(), 'big')
  i = h % len(primes)
  j = (i + 1 + (h >> 64) % (len(primes) - 1)) % len(primes)
  p, q = sorted((primes[i], primes[j]))      # pycrypto: p < q
  e = 65537
  return p * q, e, pow(e, -1, (p - 1) * (q - 1)), p, q


def _dsa_pick(bits, rand):
  """A DSA key over pooled parameters; the entropy is the secret."""
  pool = _POOL['dsa%d' % bits]
  h = hashlib.sha512(rand).digest()
  _, g, p, q, _ = pool[h[0] % len(pool)]
  x = int.from_bytes(h[1:41], 'big') % (q - 2) + 1
  return pow(g, x, p), g, p, q, x


def _rsa_generate(bits, randfunc=None, progress_func=None, e=65537):
  from Crypto.PublicKey import RSA
  if bits < 1024 or bits & 0xff:
    raise ValueError('RSA modulus length must be a multiple of 256 and >= 1024')
  if 'rsa%d' % bits not in _POOL:
    if bits in (1024, 2048, 4096):
      raise HarnessError('no pooled RSA key of %d bits' % bits)
    bits = 2048              # a size nobody may ask for: any key will do
  rf = randfunc or (lambda n: os.urandom(n))
  rand = rf(32)
  if _W is not None:
    _W.keygen_draws.append(bytes(rand))
    _W.count('keypool_rsa')
  n, ee, d, p, q = _rsa_pick(bits, rand)
  u = pow(p, -1, q)
  return RSA.construct((n, ee, d, p, q, u))


def _dsa_generate(bits, randfunc=None, progress_func=None):
  from Crypto.PublicKey import DSA
  rf = randfunc or (lambda n: os.urandom(n))
  rand = rf(32)
  if _W is not None:
    _W.keygen_draws.append(bytes(rand))
    _W.count('keypool_dsa')
  y, g, p, q, x = _dsa_pick(bits, rand)
  return DSA.construct((y, g, p, q, x))


class _AesShim(object):
  """pycrypto's AES interface over OpenSSL (this pycrypto's AES is broken)."""
  block_size = 16

  def __init__(self, key, mode, iv):
    from M2Crypto import EVP
    self._EVP = EVP
    if not isinstance(key, (bytes, bytearray)):
      raise TypeError('key must be bytes')
    if mode != 2:
      raise HarnessError('unexpected AES mode %r' % mode)
    if len(key) not in (16, 24, 32):
      raise ValueError('AES key must be either 16, 24, or 32 bytes long')
    if len(iv) != 16:
      raise ValueError('IV must be 16 bytes long')
    self._key, self.IV, self.mode = bytes(key), bytes(iv), mode
    self.key_size = len(key)
    self._c = {}

  def _run(self, op, data):
    if not isinstance(data, (bytes, bytearray)):
      raise TypeError('argument must be bytes')
    if len(data) % 16:
      raise ValueError('Input strings must be a multiple of 16 in length')
    if op not in self._c:
      self._c[op] = self._EVP.Cipher(alg='aes_%d_cbc' % (len(self._key) * 8),
                                     key=self._key, iv=self.IV, op=op,
                                     padding=0)
    return self._c[op].update(bytes(data)) if data else b''

  def encrypt(self, data):
    return self._run(1, data)

  def decrypt(self, data):
    return self._run(0, data)


def _aes_new(key, mode=1, IV=b'', **kw):
  return _AesShim(key, mode, IV)


# ----------------------------------------------------------------------------
# loading the code under test

_code = {}


_points = None       # None, 'stmt', 'fine' or 'store': where the code gets points


class _Points(ast.NodeTransformer):
  """Puts scheduling points into the functions of a module.

  'stmt': before every statement.  'fine': also after every call, attribute
  and item access, and between the reading and the writing half of x += y.
  'store': only around statements that change something that could be shared.
  """

  def __init__(self, mode):
    self.fine = mode == 'fine'
    self.store = mode == 'store'
    self.depth = 0
    self.init = False
    self.globals = ()

  def _stores(self, st):
    """Does the statement change anything but local variables?"""
    if isinstance(st, ast.Assign):
      targets = st.targets
    elif isinstance(st, (ast.AugAssign, ast.AnnAssign)):
      targets = [st.target]
    elif isinstance(st, ast.Delete):
      targets = st.targets
    elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and \
        isinstance(st.value.func, ast.Attribute):
      return st.value.func.attr in (
          'append', 'update', 'add', 'clear', 'pop', 'setdefault', 'remove',
          'extend', 'insert', 'popitem', 'discard', 'popleft', 'appendleft')
    else:
      return isinstance(st, ast.With)
    flat = []
    for t in targets:
      flat += t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]
    for t in flat:
      if isinstance(t, ast.Subscript) or (isinstance(t, ast.Name) and
                                          t.id in self.globals):
        return True
      if isinstance(t, ast.Attribute) and not (
          self.init and isinstance(t.value, ast.Name) and t.value.id == 'self'):
        return True
    return False

  def _pt(self, node, value=None):
    args = [value] if value is not None else []
    return ast.copy_location(ast.Call(
        func=ast.copy_location(ast.Name('__pt__', ast.Load()), node),
        args=args, keywords=[]), node)

  def _body(self, stmts):
    out = []
    for i, st in enumerate(stmts):
      doc = (i == 0 and isinstance(st, ast.Expr) and
             isinstance(st.value, ast.Constant))
      stores = self.store and self._stores(st)
      st = self.visit(st)
      if self.store:
        if stores:
          out.append(ast.copy_location(ast.Expr(self._pt(st)), st))
        out.append(st)
        if stores:
          out.append(ast.copy_location(ast.Expr(self._pt(st)), st))
        continue
      if not doc and not isinstance(st, (ast.Global, ast.Nonlocal)):
        out.append(ast.copy_location(ast.Expr(self._pt(st)), st))
      out.append(st)
    return out

  def visit_FunctionDef(self, node):
    self.depth += 1
    old = self.init, self.globals
    self.init = node.name == '__init__'
    self.globals = {n for st in ast.walk(node)
                    if isinstance(st, (ast.Global, ast.Nonlocal))
                    for n in st.names}
    node.body = self._body(node.body)
    self.init, self.globals = old
    self.depth -= 1
    return node

  def visit_Lambda(self, node):
    self.depth += 1
    node.body = self.visit(node.body)
    self.depth -= 1
    return node

  def generic_visit(self, node):
    if isinstance(node, ast.pattern):
      return node
    if self.depth:
      for field in ('body', 'orelse', 'finalbody'):
        v = getattr(node, field, None)
        if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
          setattr(node, field, self._body(v))
      for field, v in ast.iter_fields(node):
        if field in ('body', 'orelse', 'finalbody') and isinstance(v, list):
          continue
        if isinstance(v, list):
          setattr(node, field, [self.visit(x) if isinstance(x, ast.AST) else x
                                for x in v])
        elif isinstance(v, ast.AST):
          setattr(node, field, self.visit(v))
      if self.fine:
        if isinstance(node, ast.AugAssign):
          node.value = self._pt(node.value, node.value)
        elif isinstance(node, ast.Call) or (
            isinstance(node, (ast.Attribute, ast.Subscript)) and
            isinstance(node.ctx, ast.Load)):
          return self._pt(node, node)
      return node
    return ast.NodeTransformer.generic_visit(self, node)


def _pt(*value):
  if _W is not None and _W.sched is not None:
    _W.sched.point('code')
  return value[0] if value else None


def _source_code(path):
  key = (path, _points)
  if key not in _code:
    with _real.open(path, 'rb') as f:
      src = f.read()
    if _points:
      src = ast.fix_missing_locations(
          _Points(_points).visit(ast.parse(src, path)))
    _code[key] = compile(src, path, 'exec', dont_inherit=True)
  return _code[key]


class _Loader(importlib.abc.Loader):
  def __init__(self, path):
    self.path = path

  def create_module(self, spec):
    return None

  def exec_module(self, module):
    exec(_source_code(self.path), module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
  """Serves the keyczar package from the working tree, compiled once."""

  def find_spec(self, name, path=None, target=None):
    if name == 'keyczar':
      p = os.path.join(SRC, 'keyczar', '__init__.py')
      spec = importlib.util.spec_from_file_location(
          name, p, loader=_Loader(p),
          submodule_search_locations=[os.path.join(SRC, 'keyczar')])
      return spec
    if name.startswith('keyczar.'):
      p = os.path.join(SRC, *name.split('.')) + '.py'
      if _real.exists(p):
        return importlib.util.spec_from_file_location(name, p,
                                                      loader=_Loader(p))
    return None


class Identities(object):
  """id() of one process: the numbers of dead objects are given out again.

  A real allocator reuses addresses as it likes; this one does so often and as
  a function of the history, so code that takes an address for an identity
  meets a reused one, and meets it again on replay.
  """

  def __init__(self):
    self.live = {}            # address -> [object, number]
    self.free = []
    self.next = 1 << 32
    self.rng = random.Random('ids')

  def __call__(self, obj):
    e = self.live.get(id(obj))
    if e is None:
      for k in list(self.live):
        x = self.live[k]
        if sys.getrefcount(x[0]) <= 2:
          heapq.heappush(self.free, x[1])
          del self.live[k]
      if self.free and self.rng.random() < 0.6:
        n = heapq.heappop(self.free)
      else:
        n = self.next
        self.next += 16
      e = self.live[id(obj)] = [obj, n]
    return e[1]


class Mods(object):
  """One process's copy of the package."""

  def __init__(self, d):
    self._d = d
    self._plugs = {}
    ident = Identities()
    for mod in d.values():
      mod.__dict__.setdefault('id', ident)
    for name, mod in d.items():
      if '.' in name:
        setattr(self, name.split('.', 1)[1], mod)

  _active = None

  def activate(self):
    # backend modules a process has plugged in stay with it
    old = Mods._active
    plugs = {n: m for n, m in sys.modules.items() if n.startswith('kzsim_')}
    if old is not None:
      old._plugs = plugs
    for n in [n for n in sys.modules
              if n == 'keyczar' or n.startswith('keyczar.')] + list(plugs):
      del sys.modules[n]
    sys.modules.update(self._d)
    sys.modules.update(self._plugs)
    Mods._active = self


def load(points=None):
  """Import a fresh copy of the package from the working tree."""
  global _points
  _points = points
  try:
    return _load()
  finally:
    _points = None


def _load():
  for n in [n for n in sys.modules
            if n == 'keyczar' or n.startswith('keyczar.')]:
    del sys.modules[n]
  import keyczar.keyczart  # noqa: F401  pylint: disable=import-outside-toplevel
  import keyczar.readers   # noqa: F401
  d = {n: m for n, m in sys.modules.items()
       if n == 'keyczar' or n.startswith('keyczar.')}
  return Mods(d)


def load_interop():
  """Fresh copy of the interop runner."""
  path = os.path.join(REPO, 'interop', 'interop.py')
  m = types.ModuleType('interop')
  m.__file__ = path
  exec(_source_code(path), m.__dict__)
  return m


# ----------------------------------------------------------------------------
# installing the seams

_installed = False


def install():
  global _installed
  if _installed:
    return
  _installed = True
  import subprocess
  import tempfile  # noqa: F401  (bound before patching)
  r = _real
  r.open = builtins.open
  r.exists = os.path.exists
  for n in ('open', 'close', 'read', 'write', 'fsync', 'fdatasync', 'sync',
            'lseek', 'ftruncate', 'truncate', 'fstat', 'fchmod', 'dup', 'stat',
            'lstat', 'access', 'rename', 'replace', 'link', 'unlink', 'mkdir',
            'rmdir', 'listdir', 'scandir', 'chmod', 'utime', 'symlink',
            'readlink', 'getcwd', 'urandom', 'getrandom', '_exit'):
    setattr(r, 'os_' + n, getattr(os, n))
  r.time, r.monotonic, r.perf_counter = time.time, time.monotonic, time.perf_counter
  r.time_ns, r.monotonic_ns, r.sleep = time.time_ns, time.monotonic_ns, time.sleep
  r.Lock, r.RLock = threading.Lock, threading.RLock
  r.Popen = subprocess.Popen

  # third-party pieces first (with the real system)
  import Crypto.Random
  import Crypto.Random.random  # noqa: F401
  from Crypto.Cipher import AES
  from Crypto.PublicKey import DSA, RSA
  import M2Crypto  # noqa: F401
  import pyasn1.codec.der.decoder  # noqa: F401
  import pyasn1.codec.der.encoder  # noqa: F401

  builtins.__pt__ = _pt
  builtins.open = _open
  io.open = _open
  _io.open = _open
  os.open, os.close, os.read, os.write = _os_open, _os_close, _os_read, _os_write
  os.fsync, os.fdatasync, os.sync = _os_fsync, _os_fdatasync, _os_sync
  os.lseek, os.ftruncate, os.truncate = _os_lseek, _os_ftruncate, _os_truncate
  os.fstat, os.fchmod, os.dup = _os_fstat, _os_fchmod, _os_dup
  os.stat, os.lstat, os.access = _os_stat, _os_lstat, _os_access
  os.rename, os.replace, os.link = _two('rename'), _two('replace'), _two('link')
  os.unlink = os.remove = _os_unlink
  os.mkdir, os.rmdir = _os_mkdir, _os_rmdir
  os.listdir, os.scandir = _os_listdir, _os_scandir
  os.chmod, os.utime = _os_chmod, _os_utime
  os.symlink, os.readlink, os.getcwd = _os_symlink, _os_readlink, _os_getcwd
  os.urandom, os.getrandom, os._exit = _os_urandom, _os_getrandom, _os_exit
  random._urandom = _os_urandom
  time.time, time.monotonic = _clock('time'), _clock('monotonic')
  time.perf_counter = _clock('perf_counter')
  time.time_ns, time.monotonic_ns = _clock_ns('time_ns'), _clock_ns('monotonic_ns')
  time.sleep = _sleep
  threading.Lock = lambda: SimLock(False) if _W is not None else r.Lock()
  threading.RLock = lambda: SimLock(True) if _W is not None else r.RLock()

  fake = _FakeRandom()
  Crypto.Random.new = lambda *a, **k: fake
  Crypto.Random.get_random_bytes = lambda n: os.urandom(n)
  Crypto.Random.atfork = lambda: None
  RSA.generate = _rsa_generate
  DSA.generate = _dsa_generate
  AES.new = _aes_new
  RSA._impl._current_randfunc = fake.read
  DSA._impl._current_randfunc = fake.read

  class Popen(r.Popen):
    """The real one, unless the world answers for child processes."""

    def __new__(cls, *a, **k):
      if _W is not None and _W.subprocess is not None:
        return SimPopen(*a, **k)
      return object.__new__(cls)
  subprocess.Popen = Popen

  sys.meta_path.insert(0, _Finder())
  sys.dont_write_bytecode = True


def set_world(w):
  global _W
  _W = w
  if w is not None:
    if not hasattr(w, 'keygen_draws'):
      w.keygen_draws = []


def current():
  return _W


def real_time():
  return _real.monotonic()
