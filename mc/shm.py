"""A stand-in for multiprocessing.shared_memory.SharedMemory that keeps books.

The memory is anonymous and stays mapped, so that a use after close or unlink is
seen instead of being fatal; nothing is created in /dev/shm.
"""
import itertools
import mmap
import multiprocessing
from multiprocessing import shared_memory as _real
import os


class Book:
  """All blocks of one execution."""

  def __init__(self):
    self.n = itertools.count()
    self.blocks = {}  # name -> Block
    self.errors = []

  def block_errors(self):
    """What is wrong when nobody uses shared memory any more."""
    out = list(self.errors)
    for b in self.blocks.values():
      if b.unlinked != 1:
        out.append(f"block {b.name} was unlinked {b.unlinked} times")
      if b.open:
        out.append(f"{b.open} handles of block {b.name} were not closed")
    return out


class Block:
  def __init__(self, name, size):
    self.name = name
    self.size = size
    self.fd = os.memfd_create(name)
    os.ftruncate(self.fd, max(size, 1))
    self.unlinked = 0
    self.open = 0

  def __del__(self):
    os.close(self.fd)


BOOK = Book()


class SharedMemory:
  def __init__(self, name=None, create=False, size=0, *, track=True):
    book = BOOK
    if create:
      if size <= 0:
        raise ValueError("'size' must be a positive number different from zero")
      name = name or f"psm_{next(book.n)}"
      b = book.blocks[name] = Block(name, size)
    else:
      b = book.blocks.get(name)
      if b is None or b.unlinked:
        raise FileNotFoundError(2, "No such file or directory", name)
    self._b = b
    self._book = book
    self._mmap = mmap.mmap(b.fd, max(b.size, 1))
    self._buf = memoryview(self._mmap)
    self._closed = False
    b.open += 1

  @property
  def name(self):
    return self._b.name

  @property
  def size(self):
    return self._b.size

  @property
  def buf(self):
    return self._buf

  @property
  def closed(self):
    return self._closed

  def close(self):
    if not self._closed:
      self._closed = True
      self._b.open -= 1
      # No access through this handle works any more.

  def unlink(self):
    b = self._b
    b.unlinked += 1
    if b.unlinked > 1:
      self._book.errors.append(f"block {b.name} was unlinked again")
      raise FileNotFoundError(2, "No such file or directory", b.name)

  def __reduce__(self):
    return (self.__class__, (self.name, False, self.size))

  def __del__(self):
    try:
      self.close()
    except AttributeError:
      pass


class Module:
  """Stands in for the module `multiprocessing.shared_memory`."""
  SharedMemory = SharedMemory


class _Package:
  """Stands in for the package `multiprocessing`."""
  shared_memory = Module

  def __getattr__(self, name):
    return getattr(multiprocessing, name)


def install():
  """After grain is imported; however the module imports shared memory."""
  from grain._src.python.ipc import shared_memory_array as sma
  for k, v in list(vars(sma).items()):
    if v is _real or v is Module:
      setattr(sma, k, Module)
    elif v is _real.SharedMemory:
      setattr(sma, k, SharedMemory)
    elif v is multiprocessing:
      setattr(sma, k, _Package())


def reset():
  global BOOK
  BOOK = Book()
