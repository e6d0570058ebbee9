"""Seams: everything nondeterministic the code under test can reach, replaced by simulated versions.

install() must run before any module of the repository is imported.
"""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import random
import sys
import threading
import time as _time
import types
from .core import REPO

real_time, real_monotonic, real_sleep = _time.time, _time.monotonic, _time.sleep
real_Lock, real_RLock = threading.Lock, threading.RLock
EPOCH = 1_600_000_000.0


class Sim:
  """The one active simulation of this process."""
  sched = None          # scheduler, if threads are simulated
  clock = 0.0           # virtual seconds since EPOCH when there is no scheduler
  skew = staticmethod(lambda: 0.0)

  @classmethod
  def now(cls):
    return cls.sched.now if cls.sched is not None else cls.clock


def _vtime():
  return EPOCH + Sim.now() + Sim.skew()


def _vsleep(dt):
  s = Sim.sched
  if s is not None and s.current is not None:
    s.sleep(dt)
  else:
    Sim.clock += max(dt, 0)


class SimRandom(random.Random):
  """Process-wide random source with a controllable bit stream."""
  plan = None           # callable(k) -> int or None, consulted before the real stream
  draws = 0
  tap = None            # callable(what, k, value): told of every draw and of every change of state

  def getrandbits(self, k):
    self.draws += 1
    if self.plan is not None:
      v = self.plan(k)
      if v is not None:
        return v
    if self.tap is None:
      return super().getrandbits(k)
    v = super().getrandbits(k)
    self.tap("bits", k, v)
    return v

  below = 0             # inside randint, choice, shuffle ... (as opposed to getrandbits called by the program)

  def _randbelow(self, n):
    self.below += 1
    try:
      return self._randbelow_with_getrandbits(n)
    finally:
      self.below -= 1

  def random(self):
    return self.getrandbits(53) * (2.0 ** -53)

  def seed(self, *a, **k):
    super().seed(*a, **k)
    if self.tap is not None:
      self.tap("seed", 0, None)

  def setstate(self, state):
    super().setstate(state)
    if self.tap is not None:
      self.tap("setstate", 0, None)


source = SimRandom(1)
_entropy = random.Random(2)


def _urandom(n):
  return _entropy.randbytes(n)


def reseed(seed):
  """Start a run: the process-wide random source and the OS entropy pool."""
  source.plan = None
  source.draws = 0
  source.seed(seed)
  _entropy.seed(seed ^ 0x5DEECE66D)


class SimLock:
  """A lock whose waiters are parked in the simulator."""
  reentrant = False

  def __init__(self):
    self.owner, self.count, self.waiters = None, 0, []

  def _me(self):
    s = Sim.sched
    return (s.current if s is not None and s.current is not None else "main")

  def acquire(self, blocking=True, timeout=-1):
    me = self._me()
    if Sim.sched is not None and self.owner is not me:
      Sim.sched.sync_point()
    while self.owner is not None:
      if self.reentrant and self.owner is me:
        self.count += 1
        return True
      if not blocking:
        return False
      if me == "main":
        raise LockBusy()
      Sim.sched.note("lock-wait")
      if not Sim.sched.wait(self.waiters, None if timeout is None or timeout < 0 else timeout):
        if self.owner is not None:
          return False
    self.owner, self.count = me, 1
    return True

  def release(self):
    if self.owner is None:
      raise RuntimeError("release unlocked lock")
    if self.reentrant and self.owner is not self._me():
      raise RuntimeError("cannot release un-acquired lock")
    self.count -= 1
    if self.count <= 0:
      self.owner, self.count = None, 0
      if Sim.sched is not None:
        Sim.sched.wake_all(self.waiters)
        Sim.sched.sync_point()

  def locked(self):
    return self.owner is not None

  def __enter__(self):
    self.acquire()
    return True

  def __exit__(self, *a):
    self.release()

  # for threading.Condition
  def _is_owned(self):
    return self.owner is not None and self.owner is self._me()

  def _release_save(self):
    c = self.count
    self.count = 1
    self.release()
    return c

  def _acquire_restore(self, c):
    self.acquire()
    self.count = c

  def _at_fork_reinit(self):
    self.__init__()


class SimRLock(SimLock):
  reentrant = True


class LockBusy(BaseException):
  """The observer met a lock held by a parked task; the observation is skipped."""


_root = os.path.realpath(REPO) + os.sep


_transparent = tuple(sys.modules[m].__file__ for m in ("threading",) if getattr(sys.modules[m], "__file__", None))


def _from_repo():
  f = sys._getframe(2)
  for _ in range(6):
    if f is None:
      return False
    name = f.f_code.co_filename
    if name.startswith(_root):
      return True
    if name not in _transparent and not name.startswith("<") and not name.endswith(("queue.py", "functools.py")):
      return False
    f = f.f_back
  return False


class _Factory:
  """Not a function: frameworks keep the lock type as a class attribute."""

  def __init__(self, real, sim):
    self.real, self.sim = real, sim

  def __call__(self, *a):
    return self.sim() if _from_repo() else self.real()


_lock, _rlock = _Factory(real_Lock, SimLock), _Factory(real_RLock, SimRLock)


codes = []            # code objects of the repository, for preemption points


def _collect(code):
  codes.append(code)
  for k in code.co_consts:
    if isinstance(k, types.CodeType):
      _collect(k)


class RepoLoader(importlib.machinery.SourceFileLoader):
  def get_code(self, fullname):
    path = self.get_filename(fullname)
    with open(path, "rb") as f:
      code = compile(f.read(), path, "exec", dont_inherit=True)
    _collect(code)
    return code


class RepoFinder(importlib.abc.MetaPathFinder):
  """starks.X from /repo/starks, and from /repo/misc for the modules that lie there."""

  def find_spec(self, name, path=None, target=None):
    if name == "starks":
      f = os.path.join(REPO, "starks", "__init__.py")
      return importlib.util.spec_from_file_location(
          name, f, loader=RepoLoader(name, f), submodule_search_locations=[os.path.join(REPO, "starks")])
    if name.startswith("starks.") and name.count(".") == 1:
      base = name.split(".")[1]
      for d in ("starks", "misc"):
        f = os.path.join(REPO, d, base + ".py")
        if os.path.exists(f):
          return importlib.util.spec_from_file_location(name, f, loader=RepoLoader(name, f))
    return None


class NullOut:
  encoding = "utf-8"

  def write(self, s):
    return len(s)

  def flush(self):
    pass

  def isatty(self):
    return False


_installed = False


def install():
  global _installed
  if _installed:
    return
  _installed = True
  sys.dont_write_bytecode = True
  _time.time, _time.monotonic, _time.sleep = _vtime, _vtime, _vsleep
  _time.perf_counter = _vtime
  inst = random._inst
  for name in dir(random):
    m = getattr(random, name)
    if getattr(m, "__self__", None) is inst and hasattr(source, name):
      setattr(random, name, getattr(source, name))
  random._inst = source
  os.urandom = _urandom
  random._urandom = _urandom
  threading.Lock, threading.RLock = _lock, _rlock
  sys.meta_path.insert(0, RepoFinder())
  for k in [k for k in sys.modules if k == "starks" or k.startswith("starks.")]:
    del sys.modules[k]
  import warnings
  warnings.simplefilter("ignore")
