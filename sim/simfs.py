"""In-memory file system with a crash model, used behind the os/io seam.

State is split into what running processes see (the "page cache") and what is
durable.  Directory changes go to one journal: a power loss keeps a prefix or
a subset of it (everything up to the last directory sync at least).  File data
that was not synced may be lost, kept, cut off or zero-filled by a power loss.
A process kill keeps everything that completed system calls did.
"""
import errno
import os
import stat as stat_mod

FD_BASE = 1 << 20
SEP = '/'


class Inode(object):
  __slots__ = ('ino', 'isdir', 'data', 'synced', 'mode', 'nlink')

  def __init__(self, ino, isdir, mode):
    self.ino = ino
    self.isdir = isdir
    self.data = None if isdir else bytearray()
    self.synced = None if isdir else b''
    self.mode = mode
    self.nlink = 1

  def copy(self):
    n = Inode(self.ino, self.isdir, self.mode)
    n.data = None if self.isdir else bytearray(self.data)
    n.synced = self.synced
    n.nlink = self.nlink
    return n


def err(code, path=None):
  return OSError(code, os.strerror(code), path)


class SimFS(object):
  """All methods take absolute, normalised paths."""

  def __init__(self, root):
    self.root = root.rstrip('/')
    self.inodes = {}
    self.next_ino = 1
    self.dirs = {}        # dir ino -> {name: ino}   (current)
    self.ddirs = {}       # dir ino -> {name: ino}   (durable)
    self.journal = []     # [(dir ino, name, ino or None, ...)] not yet durable
    self.rootino = self._new(True, 0o755).ino
    self.dirs[self.rootino] = {}
    self.ddirs[self.rootino] = {}
    self.on_write = None  # callback(ino, path) after data in a file changed

  # -- helpers ---------------------------------------------------------------
  def _new(self, isdir, mode):
    node = Inode(self.next_ino, isdir, mode)
    self.next_ino += 1
    self.inodes[node.ino] = node
    return node

  def clone(self):
    n = SimFS.__new__(SimFS)
    n.root = self.root
    n.inodes = {k: v.copy() for k, v in self.inodes.items()}
    n.next_ino = self.next_ino
    n.dirs = {k: dict(v) for k, v in self.dirs.items()}
    n.ddirs = {k: dict(v) for k, v in self.ddirs.items()}
    n.journal = list(self.journal)
    n.rootino = self.rootino
    n.on_write = None
    return n

  def _parts(self, path):
    assert path == self.root or path.startswith(self.root + '/'), path
    rest = path[len(self.root):].strip('/')
    return rest.split('/') if rest else []

  def _walk(self, path):
    """Return inode at path or raise."""
    ino = self.rootino
    for part in self._parts(path):
      node = self.inodes[ino]
      if not node.isdir:
        raise err(errno.ENOTDIR, path)
      if part not in self.dirs[ino]:
        raise err(errno.ENOENT, path)
      ino = self.dirs[ino][part]
    return self.inodes[ino]

  def _parent(self, path):
    parts = self._parts(path)
    if not parts:
      raise err(errno.EBUSY, path)
    parent = self._walk(self.root + ''.join('/' + p for p in parts[:-1]))
    if not parent.isdir:
      raise err(errno.ENOTDIR, path)
    return parent.ino, parts[-1]

  def _log(self, changes):
    """changes: list of (dir ino, name, ino|None) applied atomically."""
    for d, name, ino in changes:
      if ino is None:
        self.dirs[d].pop(name, None)
      else:
        self.dirs[d][name] = ino
    self.journal.append(tuple(changes))

  # -- operations --------------------------------------------------------------
  def open(self, path, flags, mode=0o666):
    acc = flags & os.O_ACCMODE
    d, name = (None, None)
    if path == self.root:
      node = self.inodes[self.rootino]
    else:
      d, name = self._parent(path)
      ino = self.dirs[d].get(name)
      node = self.inodes[ino] if ino is not None else None
    if node is None:
      if not flags & os.O_CREAT:
        raise err(errno.ENOENT, path)
      node = self._new(False, mode & ~0o022 & 0o777)
      self._log([(d, name, node.ino)])
    else:
      if flags & os.O_CREAT and flags & os.O_EXCL:
        raise err(errno.EEXIST, path)
      if node.isdir and acc != os.O_RDONLY:
        raise err(errno.EISDIR, path)
      if flags & getattr(os, 'O_DIRECTORY', 0) and not node.isdir:
        raise err(errno.ENOTDIR, path)
      if flags & os.O_TRUNC and acc != os.O_RDONLY and not node.isdir:
        del node.data[:]
        if self.on_write:
          self.on_write(node, path)
    return node

  def rename(self, src, dst):
    sd, sn = self._parent(src)
    if sn not in self.dirs[sd]:
      raise err(errno.ENOENT, src)
    dd, dn = self._parent(dst)
    ino = self.dirs[sd][sn]
    old = self.dirs[dd].get(dn)
    if old == ino:
      return
    if old is not None:
      if self.inodes[old].isdir:
        if not self.inodes[ino].isdir:
          raise err(errno.EISDIR, dst)
        if self.dirs[old]:
          raise err(errno.ENOTEMPTY, dst)
      elif self.inodes[ino].isdir:
        raise err(errno.ENOTDIR, dst)
    self._log([(dd, dn, ino), (sd, sn, None)])

  def unlink(self, path):
    d, name = self._parent(path)
    if name not in self.dirs[d]:
      raise err(errno.ENOENT, path)
    if self.inodes[self.dirs[d][name]].isdir:
      raise err(errno.EISDIR, path)
    self._log([(d, name, None)])

  def link(self, src, dst):
    node = self._walk(src)
    d, name = self._parent(dst)
    if name in self.dirs[d]:
      raise err(errno.EEXIST, dst)
    self._log([(d, name, node.ino)])

  def mkdir(self, path, mode=0o777):
    if path == self.root:
      raise err(errno.EEXIST, path)
    d, name = self._parent(path)
    if name in self.dirs[d]:
      raise err(errno.EEXIST, path)
    node = self._new(True, mode & ~0o022 & 0o777)
    self.dirs[node.ino] = {}
    self.ddirs[node.ino] = {}
    self._log([(d, name, node.ino)])

  def rmdir(self, path):
    d, name = self._parent(path)
    if name not in self.dirs[d]:
      raise err(errno.ENOENT, path)
    ino = self.dirs[d][name]
    if not self.inodes[ino].isdir:
      raise err(errno.ENOTDIR, path)
    if self.dirs[ino]:
      raise err(errno.ENOTEMPTY, path)
    self._log([(d, name, None)])

  def listdir(self, path):
    node = self._walk(path)
    if not node.isdir:
      raise err(errno.ENOTDIR, path)
    return list(self.dirs[node.ino])

  def stat(self, path):
    return self.stat_node(self._walk(path))

  def stat_node(self, node):
    mode = node.mode | (stat_mod.S_IFDIR if node.isdir else stat_mod.S_IFREG)
    size = 4096 if node.isdir else len(node.data)
    return os.stat_result((mode, node.ino, 1, 1, 0, 0, size, 0, 0, 0))

  def fsync_node(self, node):
    if node.isdir:
      last = 0
      for i, changes in enumerate(self.journal):
        if any(c[0] == node.ino for c in changes):
          last = i + 1
      self._commit(last)
    else:
      node.synced = bytes(node.data)

  def _commit(self, count):
    for changes in self.journal[:count]:
      for d, name, ino in changes:
        if ino is None:
          self.ddirs[d].pop(name, None)
        else:
          self.ddirs[d][name] = ino
    del self.journal[:count]

  # -- faults ------------------------------------------------------------------
  def sync_all(self):
    """Everything so far is durable."""
    self._commit(len(self.journal))
    for node in self.inodes.values():
      if not node.isdir:
        node.synced = bytes(node.data)

  def power_loss(self, rng, worst=False):
    """Lose what is not durable, as decided by rng."""
    n = len(self.journal)
    if not worst and rng.random() < 0.25:
      # file systems need not keep the order of what was not synced
      self.journal = [c for c in self.journal if rng.random() < 0.6]
      keep = len(self.journal)
    else:
      keep = 0 if worst else rng.choice((0, n, rng.randint(0, n)))
    self._commit(keep)
    self.journal = []
    self.dirs = {k: dict(v) for k, v in self.ddirs.items()}
    lost = n - keep
    torn = 0
    for ino in sorted(self.inodes):
      node = self.inodes[ino]
      if node.isdir or bytes(node.data) == node.synced:
        continue
      new, old = bytes(node.data), node.synced
      if worst:
        pick = 0
      else:
        pick = rng.randint(0, 4)
      if pick == 0:
        res = old
      elif pick == 1:
        res = new
      elif pick == 2:
        res = new[:rng.randint(0, len(new))]
      elif pick == 3:
        k = rng.randint(0, len(new))
        res = new[:k] + b'\0' * (len(new) - k)
      else:
        res = b''
      if res != new:
        torn += 1
      node.data = bytearray(res)
      node.synced = res
    return lost, torn

  # -- harness access ------------------------------------------------------------
  def h_write(self, path, data, mode=0o644):
    node = self.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, mode)
    node.data[:] = data
    self.sync_all()

  def h_read(self, path):
    node = self._walk(path)
    if node.isdir:
      raise err(errno.EISDIR, path)
    return bytes(node.data)

  def h_exists(self, path):
    try:
      self._walk(path)
      return True
    except OSError:
      return False

  def h_mkdirs(self, path):
    cur = self.root
    for part in self._parts(path):
      cur += '/' + part
      if not self.h_exists(cur):
        self.mkdir(cur, 0o755)
    self.sync_all()

  def h_files(self, path):
    return {n: bytes(self.inodes[i].data)
            for n, i in sorted(self.dirs[self._walk(path).ino].items())
            if not self.inodes[i].isdir}

  def digest(self):
    """Canonical picture of all current files."""
    out = []

    def rec(ino, path):
      for name, child in sorted(self.dirs[ino].items()):
        node = self.inodes[child]
        if node.isdir:
          out.append((path + '/' + name, None))
          rec(child, path + '/' + name)
        else:
          out.append((path + '/' + name, bytes(node.data)))
    rec(self.rootino, '')
    return out
