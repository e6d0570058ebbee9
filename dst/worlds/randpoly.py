"""Random construction of fields under every kind of random stream (C21).

Real: starks/poly_utils.py, starks/finitefield.py and the arithmetic below them.
Simulated: the random stream (uniform, biased, stuck, scripted candidates), threads that share it.
Oracle: trial division and element orders on plain integers.
"""
import importlib
import math

import sympy

from .. import seams
from ..core import Violation
from ..sched import Scheduler
from ..seams import source

RUNS = {"C21": {"quick": (3000, 420), "thorough": (150000, 800)}}
RULE = ("a run draws a prime and a degree, a random stream that begins with scripted candidates (reducible in every way, "
        "irreducible but not primitive, suitable), biased or stuck bits, and generates polynomials or fields in 1-3 "
        "threads sharing the stream; judged by trial division and by walking the powers of x; non-trivial if something "
        "was generated; distinct = distinct (call, prime, degree, stream, schedule)")
COMPONENTS = {"real": ["starks/poly_utils.py", "starks/finitefield.py", "starks/polynomial.py", "starks/modp.py",
                       "starks/euclidean.py", "starks/numbertype.py"],
              "stub": ["process-wide random source", "thread scheduler", "locks"]}
ASSUME = ["sympy's irreducibility test for primes above 100",
          "promptness is judged when the coefficients are drawn one by one from 0..p-1, in either order; otherwise only "
          "that generation ends"]
pu = ff = modp = po = None
STUCK = 4000


def setup(prop):
  global pu, ff, modp, po
  pu = importlib.import_module("starks.poly_utils")
  ff = importlib.import_module("starks.finitefield")
  modp = importlib.import_module("starks.modp")
  po = importlib.import_module("starks.polynomial")


# --- the mathematics, on lists of integers, low degree first -----------------------------------------------------
def trim(a):
  while a and a[-1] == 0:
    a.pop()
  return a


def mulmod(a, b, f, p):
  out = [0] * (len(a) + len(b) - 1 if a and b else 0)
  for i, x in enumerate(a):
    if x:
      for j, y in enumerate(b):
        out[i + j] = (out[i + j] + x * y) % p
  return rem(out, f, p)


def rem(a, f, p):
  a = list(a)
  n = len(f) - 1
  inv = pow(f[-1], p - 2, p) if p > 2 else 1
  while len(a) > n:
    k = a[-1] * inv % p
    if k:
      s = len(a) - 1 - n
      for i, y in enumerate(f):
        a[s + i] = (a[s + i] - k * y) % p
    a.pop()
  return trim(a)


def monics(p, d):
  for v in range(p**d):
    co = []
    for _ in range(d):
      co.append(v % p)
      v //= p
    yield co + [1]


_irr = {}


def irreducible(f, p):
  f = tuple(f)
  key = (p, f)
  if key not in _irr:
    d = len(f) - 1
    if d < 1:
      r = False
    elif d == 1:
      r = True
    elif p ** (d // 2) <= 5000:
      r = all(rem(f, g, p) for k in range(1, d // 2 + 1) for g in monics(p, k))
    else:
      r = bool(sympy.Poly(list(reversed(f)), sympy.Symbol("x"), modulus=p).is_irreducible)
    _irr[key] = r
  return _irr[key]


def power_of_x(e, f, p):
  r, b = [1], rem([0, 1], f, p)
  while e:
    if e & 1:
      r = mulmod(r, b, f, p)
    b = mulmod(b, b, f, p)
    e >>= 1
  return r


_prim = {}


def primitive(f, p):
  f = tuple(f)
  key = (p, f)
  if key not in _prim:
    n = p ** (len(f) - 1) - 1
    _prim[key] = irreducible(f, p) and bool(rem([0, 1], f, p)) and \
        all(power_of_x(n // q, f, p) != [1] for q in sympy.factorint(n))
  return _prim[key]


def product(a, b, p):
  out = [0] * (len(a) + len(b) - 1)
  for i, x in enumerate(a):
    for j, y in enumerate(b):
      out[i + j] = (out[i + j] + x * y) % p
  return out


# --- streams -------------------------------------------------------------------------------------------------------
def candidate(c, p, d):
  """A monic polynomial of degree d, often a treacherous one."""
  k = c.draw(9)

  def rand(n):
    return [c.draw(p) for _ in range(n)] + [1]

  def irr(n):
    for _ in range(60):
      f = rand(n)
      if irreducible(f, p):
        return f
    return rand(n)
  if k == 0:
    return irr(d)
  if k == 1:
    return rand(d)
  if k == 2 and d >= 2:                       # two irreducible factors of half the degree
    h = d // 2
    return product(irr(h), irr(d - h), p)
  if k == 3 and d >= 2:                       # linear factor
    return product([c.draw(p), 1], irr(d - 1), p)
  if k == 4 and d >= 2:                       # a square
    f = irr(d // 2)
    f = product(f, f, p)
    return f if len(f) == d + 1 else product(f, [c.draw(p), 1], p)
  if k == 5:
    return [0] * d + [1]
  if k == 6:                                  # irreducible, not primitive
    for _ in range(40):
      f = irr(d)
      if not primitive(f, p):
        return f
    return irr(d)
  if k == 7 and d >= 3:                       # the smallest factor has a drawn degree
    h = c.between(1, d - 1)
    return product(irr(h), irr(d - h), p)
  f = [c.pick([0, 1, p - 1]) for _ in range(d)] + [1]
  return f


PARAMS = [(2, d) for d in range(1, 9)] + [(3, d) for d in range(1, 6)] + [(5, d) for d in range(1, 4)] + \
         [(7, 2), (7, 3), (7, 1), (11, 2), (13, 2), (13, 1), (17, 2), (19, 1)]
LARGER = [(5, 4), (2, 9), (2, 10), (3, 6), (31, 2)]      # a test for primitivity takes up to a second
IRRONLY = [(2, 10), (2, 12), (3, 7), (5, 5), (7, 4), (101, 2), (101, 3), (2**31 - 1, 2), (65537, 3)]


def plan_for(c, p, d, n, scripted=False):
  """plan(k bits) of the first draws; None afterwards (uniform)."""
  kind = c.weighted([(3, "scripted"), (1, "uniform"), (1, "stuck"), (1, "biased"), (1, "periodic")]) if not scripted else "scripted"
  if kind == "scripted":
    co = [x for _ in range(n) for x in (candidate(c, p, d)[:d] if c.chance(4, 5) else candidate(c, p, d)[:d][::-1])]
    it = iter(co)
    return kind, lambda k: next(it, None)
  if kind == "uniform":
    return kind, lambda k: None
  left = [c.between(1, 60 * d)]
  if kind == "stuck":
    v = c.draw(p)

    def stuck(k):
      left[0] -= 1
      return v % (1 << k) if left[0] >= 0 else None
    return kind, stuck
  if kind == "biased":
    pool = [c.draw(p) for _ in range(c.between(1, 2))] + [0]

    def biased(k):
      left[0] -= 1
      return pool[(left[0] * 7 + left[0] // 3) % len(pool)] % (1 << k) if left[0] >= 0 else None
    return kind, biased
  seq = [c.draw(p) for _ in range(c.between(2, 2 * d + 1))]

  def periodic(k):
    left[0] -= 1
    return seq[left[0] % len(seq)] % (1 << k) if left[0] >= 0 else None
  return kind, periodic


class Endless(BaseException):
  pass


def run(ctx):
  c = ctx.c
  threads = c.weighted([(4, 1), (2, 2), (1, 3)])
  jobs = []
  for _ in range(threads):
    what = c.pick(["irreducible", "primitive", "field"])
    p, d = c.pick(PARAMS) if what != "irreducible" or c.chance(2, 3) else c.pick(IRRONLY)
    jobs.append((what, p, d))
  if threads > 1 and c.chance(1, 2):
    jobs = [jobs[0]] * threads
  large = c.chance(1, 40)
  if large:
    threads = 1
    jobs = [(c.pick(["primitive", "primitive", "field"]), *c.pick(LARGER))]
  kind, plan = plan_for(c, jobs[0][1], jobs[0][2], c.draw(5), large)
  if kind != "uniform":
    ctx.fault("random-stream-" + kind)
  mode = c.pick(["none", "line"]) if threads > 1 else "none"
  sched = Scheduler(ctx, mode=mode, max_preempt=c.between(1, 30), gaps=(8, 100, 1000))
  sched.start_monitoring([k for k in seams.codes if k.co_filename.endswith(("poly_utils.py", "finitefield.py", "numbertype.py"))])
  ctx.log(kind, *jobs)
  ctx.mark((kind, tuple(jobs)))
  drawn = {}            # task -> [(bound, value)]

  plain_below = source._randbelow

  def below(n):
    v = plain_below(n)
    l = drawn.setdefault(sched.current.id if sched.current else -1, [])
    l.append((n, v))
    if len(l) > STUCK * 12:
      raise Endless()
    return v
  source._randbelow = below
  results = {}

  def work(i):
    what, p, d = jobs[i]
    if what == "irreducible":
      r = pu.generate_irreducible_polynomial(p, d)
    elif what == "primitive":
      r = pu.generate_primitive_polynomial(p, d)
    else:
      r = ff.FiniteField(p, d)
    results[i] = r
  try:
    source.plan = plan
    for i in range(threads):
      sched.spawn(f"gen{i}", lambda i=i: work(i))
    r = sched.run(lambda: all(t.state == "done" for t in sched.tasks), max_steps=5000)
    sched.close()
  finally:
    source.plan = None
    del source._randbelow
  ctx.require(r == "done", "generation-stuck", r)
  for i, t in enumerate(sched.tasks):
    if isinstance(t.exc, Endless):
      raise Violation("endless", f"{jobs[i]} after {len(drawn[i])} draws")
    if isinstance(t.exc, Exception):
      raise Violation("generation-failed", f"{jobs[i]}: {t.exc!r}")
    if t.exc is not None:
      raise t.exc
  for i, (what, p, d) in enumerate(jobs):
    r = results[i]
    ctx.nontrivial = True
    if what == "field":
      check_field(ctx, r, p, d)
      f = None if d == 1 else [int(x) for x in r.ideal_generator.coefficients]
    else:
      f = [int(x) for x in r.coefficients]
      ctx.require(r.ring is modp.IntegersModP(p), "wrong-ring", lambda: f"{jobs[i]}: {r.ring}")
      ctx.require(len(f) == d + 1, "wrong-degree", lambda: f"{jobs[i]}: {f}")
      ctx.require(f[-1] == 1, "not-monic", lambda: f"{jobs[i]}: {f}")
      ctx.require(irreducible(f, p), "reducible", lambda: f"{jobs[i]}: {f}")
      if what == "primitive":
        ctx.require(primitive(f, p), "not-primitive", lambda: f"{jobs[i]}: {f}")
    ctx.log(jobs[i], "->", f)
    prompt(ctx, jobs[i], drawn.get(i, []))
  ctx.sample = f"{jobs}, stream {kind}, {mode}, {sum(map(len, drawn.values()))} draws"


def prompt(ctx, job, draws):
  """It ends at the first suitable candidate."""
  what, p, d = job
  if what == "field" and d == 1:
    return
  if not draws:
    return
  if any(n != p for n, _ in draws) or len(draws) % d:
    ctx.probe("draws-not-understood")
    return
  good = irreducible if what == "irreducible" else primitive
  n = len(draws) // d
  vals = [v for _, v in draws]
  for order in (1, -1):
    first = next((i for i in range(n) if good(vals[i * d:(i + 1) * d][::order] + [1], p)), None)
    if first == n - 1:
      ctx.probe("prompt", n)
      return
  ctx.require(False, "not-prompt", lambda: f"{job}: {n} candidates drawn; suitable ones: "
              f"{[i for i in range(n) if good(vals[i * d:(i + 1) * d] + [1], p)][:5]} of {vals[:60]}")


def check_field(ctx, F, p, d):
  if d == 1:
    ctx.require(F.p == p and F.field_size == p, "wrong-field", lambda: f"{F.__name__} for {p}")
    return
  size = p**d
  ctx.require((F.p, F.m, F.field_size) == (p, d, size), "wrong-field", lambda: f"{F.__name__} for {p}^{d}")
  f = [int(x) for x in F.ideal_generator.coefficients]
  ctx.require(len(f) == d + 1 and f[-1] == 1, "wrong-degree", lambda: f"{p}^{d}: modulus {f}")
  ctx.require(irreducible(f, p), "reducible", lambda: f"{p}^{d}: modulus {f}")
  ctx.require(primitive(f, p), "not-primitive", lambda: f"{p}^{d}: modulus {f}")
  if size > 600:
    return
  # walk the powers of x with the field's own arithmetic
  x = F([0, 1])
  y, ref = F([1]), [1]
  seen = set()
  for i in range(size - 1):
    co = tuple(int(k) for k in y.poly.coefficients)
    ctx.require(list(co) == ref, "wrong-power", lambda: f"{p}^{d} modulus {f}: x^{i} = {co}, should be {ref}")
    ctx.require(co not in seen, "x-does-not-generate", lambda: f"{p}^{d} modulus {f}: x^{i} = {co} comes twice")
    seen.add(co)
    if i % 37 == 5:
      z = y.inverse() * y
      ctx.require([int(k) for k in z.poly.coefficients] == [1], "no-inverse", lambda: f"{p}^{d} modulus {f}: {co}")
    y, ref = y * x, mulmod(ref, [0, 1], f, p)
  ctx.require([int(k) for k in y.poly.coefficients] == [1], "x-does-not-generate", lambda: f"{p}^{d} modulus {f}")
  ctx.require(len(seen) == size - 1 and () not in seen, "x-does-not-generate", lambda: f"{p}^{d} modulus {f}")
