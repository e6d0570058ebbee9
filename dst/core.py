"""Core of the simulator: the source of every decision, verdicts, and the minimiser.

A run is a pure function of (code under test, list of choices).  Choices are drawn from a PRNG the
first time and recorded; replaying feeds the recorded list back (0 once it is exhausted, and 0 is
always the simplest decision: no fault, no preemption, first alternative).
"""
import hashlib
import json
import os
import random as _random
import traceback
from collections import Counter

REPO = os.environ.get("DST_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
  def __init__(self, kind, msg=""):
    super().__init__(kind, msg)
    self.kind, self.msg = kind, str(msg)[:2000]


class HarnessError(Exception):
  pass


class Choices:
  """All nondeterminism of a run."""

  def __init__(self, seed=None, recorded=None):
    self.rng = _random.Random(seed) if recorded is None else None
    self.src = recorded
    self.out = []

  def draw(self, n):
    """An integer in [0, n)."""
    if n <= 1:
      return 0
    if self.src is not None:
      i = len(self.out)
      v = self.src[i] if i < len(self.src) else 0
      if v >= n or v < 0:
        v = v % n
    else:
      v = self.rng.randrange(n)
    self.out.append(v)
    return v

  def chance(self, num, den):
    """True with probability num/den; the simple outcome (0) is False."""
    return self.draw(den) >= den - num

  def pick(self, seq):
    return seq[self.draw(len(seq))]

  def between(self, lo, hi):
    return lo + self.draw(hi - lo + 1)

  def weighted(self, pairs):
    """pairs: (weight, value); the first value is the simplest."""
    total = sum(w for w, _ in pairs)
    v = self.draw(total)
    for w, val in pairs:
      if v < w:
        return val
      v -= w

  def subset(self, seq, num=1, den=2):
    return [x for x in seq if self.chance(num, den)]

  def seed64(self):
    return self.draw(1 << 62)

  def shuffled(self, seq):
    seq = list(seq)
    for i in range(len(seq) - 1):
      j = i + self.draw(len(seq) - i)
      seq[i], seq[j] = seq[j], seq[i]
    return seq


class Ctx:
  """What a world gets for one run."""

  def __init__(self, prop, choices, known_ids=(), run=0, tier="quick"):
    self.prop, self.c, self.run_index, self.tier = prop, choices, run, tier
    self.faults, self.probes = Counter(), Counter()
    self.events = []
    self.known_ids = set(known_ids)
    self.known = {}
    self.sim_time = 0.0
    self.nontrivial = False
    self.sample = None
    self.shape = []       # what identifies this execution's interleaving / fault placement

  def log(self, *a):
    if len(self.events) < 5000:
      self.events.append(" ".join(str(x) for x in a))

  def fault(self, kind, n=1):
    self.faults[kind] += n

  def probe(self, name, n=1):
    self.probes[name] += n

  def mark(self, x):
    self.shape.append(x)

  def require(self, cond, kind, msg=""):
    if not cond:
      raise Violation(kind, msg() if callable(msg) else msg)

  def tagged(self, prop, cond, kind, msg=""):
    """An oracle that belongs to one property of a world shared by several."""
    if not cond and prop == self.prop:
      raise Violation(kind, msg() if callable(msg) else msg)
    return cond

  def finding(self, fid, kind, msg):
    """A violation with the signature of a listed finding; a violation if it is not listed."""
    if fid in self.known_ids:
      self.known[fid] = str(msg)[:300]
    else:
      raise Violation(kind, msg)

  def digest(self):
    h = hashlib.sha256()
    for e in self.events:
      h.update(e.encode("utf8", "replace"))
      h.update(b"\n")
    return h.hexdigest()[:16]


def in_repo(tb):
  """Did the exception pass through code of the repository?"""
  root = os.path.realpath(REPO) + os.sep
  for frame, _ in traceback.walk_tb(tb):
    if os.path.realpath(frame.f_code.co_filename).startswith(root):
      return True
  return False


def load_known(prop):
  path = os.path.join(VERIF, "known_findings.json")
  try:
    data = json.load(open(path))
  except FileNotFoundError:
    return {}
  return {e["id"]: e for e in data if e["property"] == prop and e.get("status") == "finding"}


def shrink(choices, kind, evaluate, deadline, now):
  """Minimise a list of choices; evaluate(list) -> (kind or None, normalised list)."""
  best = list(choices)
  tried = set()
  evals = 0

  def attempt(cand):
    nonlocal best, evals
    key = tuple(cand)
    if key in tried or now() > deadline:
      return False
    tried.add(key)
    evals += 1
    k, used = evaluate(cand)
    if k == kind:
      used = list(used)
      while used and used[-1] == 0:
        used.pop()
      if (len(used), sum(used)) < (len(best), sum(best)):
        best = used
        return True
    return False

  improved = True
  while improved and now() < deadline:
    improved = False
    # drop a tail
    n = len(best)
    cut = n // 2
    while cut >= 1 and now() < deadline:
      if len(best) > cut and attempt(best[:len(best) - cut]):
        improved = True
      else:
        cut //= 2
    # delete chunks
    size = 16
    while size >= 1 and now() < deadline:
      i = 0
      while i < len(best) and now() < deadline:
        if attempt(best[:i] + best[i + size:]):
          improved = True
        else:
          i += size
      size //= 2
    # zero chunks
    size = 8
    while size >= 1 and now() < deadline:
      i = 0
      while i < len(best) and now() < deadline:
        if any(best[i:i + size]) and attempt(best[:i] + [0] * len(best[i:i + size]) + best[i + size:]):
          improved = True
        i += size
      size //= 2
    # lower single values
    i = 0
    while i < len(best) and now() < deadline:
      v = best[i]
      for w in (1, v // 16, v // 2, v - 1):
        if 0 <= w < v and i < len(best) and best[i] == v and attempt(best[:i] + [w] + best[i + 1:]):
          improved = True
          break
      i += 1
  return best, evals
