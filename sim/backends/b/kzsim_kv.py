"""A storage backend for locations kv:NAME, as a deployment would plug it in."""
from keyczar import errors
from keyczar import readers
from keyczar import writers

from sim import backend

PREFIX = 'kv:'


class KvError(errors.KeyczarError):
  """The store failed."""


def ask(fn, *args):
  try:
    return fn(*args)
  except backend.Unavailable as e:
    raise KvError(str(e))


class KvReader(readers.Reader):

  def __init__(self, location):
    self._conn = ask(backend.connect, location, 'r')

  def GetMetadata(self):
    return ask(self._conn.get, 'meta')

  def GetKey(self, version_number):
    return ask(self._conn.get, str(version_number))

  def Close(self):
    ask(self._conn.close)

  @classmethod
  def CreateReader(cls, location):
    if location.startswith(PREFIX):
      return cls(location)


class KvWriter(writers.Writer):

  def __init__(self, location):
    self._conn = ask(backend.connect, location, 'w')

  def WriteMetadata(self, metadata, overwrite=True):
    ask(self._conn.put, 'meta', str(metadata), overwrite)

  def WriteKey(self, key, version_number, encrypter=None):
    key = str(key)
    if encrypter:
      key = encrypter.Encrypt(key)
    ask(self._conn.put, str(version_number), key, True)

  def Remove(self, version_number):
    ask(self._conn.remove, str(version_number))

  def Close(self):
    ask(self._conn.close)

  @classmethod
  def CreateWriter(cls, location):
    if location.startswith(PREFIX):
      return cls(location)
