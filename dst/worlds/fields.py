"""Many clients asking one process for fields and rings, at once, in every form, and being interrupted (C18).

Real: starks/numbertype.py and the constructors it memoises.
Simulated: threads (preempted at lines or instructions), interruptions in the middle of a construction, failing
requests, the random source.
"""
import fractions
import importlib

import sympy

from .. import seams
from ..core import Violation
from ..sched import Interrupted, Scheduler
from ..seams import source

RUNS = {"C18": {"quick": (20000, 300), "thorough": (250000, 800)}}
RULE = ("a run lets 1-5 clients make 2-9 requests each for fields, rings and number types over few parameters, in "
        "positional, keyword and default forms, with preemption, interruption and failing requests; every answer is "
        "compared with the parameters and with every other answer; non-trivial if two requests met on a parameter; "
        "distinct = distinct schedules, requests and faults")
COMPONENTS = {"real": ["starks/numbertype.py", "starks/modp.py", "starks/rationals_modp.py", "starks/finitefield.py",
                       "starks/polynomial.py", "starks/multivariate_polynomial.py", "starks/floatingpoint.py",
                       "starks/poly_utils.py"],
              "stub": ["thread scheduler", "locks", "random source", "interruptions"]}
ASSUME = ["interruptions strike inside the construction, not between two bytecodes of a lock's with statement"]

nt = modp = rat = ff = po = mv = fp = None
MODULI = {   # monic irreducible moduli, low degree first
    (2, 2): [(1, 1, 1)], (2, 3): [(1, 1, 0, 1), (1, 0, 1, 1)], (2, 4): [(1, 1, 0, 0, 1), (1, 0, 0, 1, 1), (1, 1, 1, 1, 1)],
    (3, 2): [(1, 0, 1), (2, 1, 1), (2, 2, 1)], (5, 2): [(2, 0, 1), (3, 0, 1), (1, 1, 1)], (2, 5): [(1, 0, 1, 0, 0, 1), (1, 0, 0, 1, 0, 1)],
}
REDUCIBLE = {(2, 2): (1, 0, 1), (2, 3): (1, 1, 1, 1), (2, 4): (1, 0, 1, 0, 1), (3, 2): (2, 0, 1), (5, 2): (1, 0, 1), (2, 5): (1, 1, 0, 0, 0, 1)}
# primes that agree in their last or first digits, or modulo what integers are hashed by
ALIKE = [7, 5]


def alike():
  for m in (2**8, 2**16, 2**32, 2**61 - 1, 2**64):
    p = 7 + m
    while not sympy.isprime(p):
      p += m
    ALIKE.append(p)
  p = sympy.nextprime(2**127)
  ALIKE.extend([2**127 - 1, p, sympy.nextprime(p), sympy.nextprime(10**40)])


FILES = ("numbertype.py", "modp.py", "rationals_modp.py", "finitefield.py", "polynomial.py", "multivariate_polynomial.py",
         "floatingpoint.py", "poly_utils.py")


def setup(prop):
  global nt, modp, rat, ff, po, mv, fp
  nt = importlib.import_module("starks.numbertype")
  modp = importlib.import_module("starks.modp")
  rat = importlib.import_module("starks.rationals_modp")
  po = importlib.import_module("starks.polynomial")
  mv = importlib.import_module("starks.multivariate_polynomial")
  ff = importlib.import_module("starks.finitefield")
  fp = importlib.import_module("starks.floatingpoint")
  if len(ALIKE) == 2:
    alike()


def draw_param(c, palette):
  return c.pick(palette)


def make_palette(c):
  """Few parameters, so that requests meet."""
  out = []
  for _ in range(c.between(1, 5)):
    k = c.draw(9)
    p = c.pick([2, 3, 5, 7, 101, 2**31 - 1]) if not c.chance(1, 5) else c.pick(ALIKE)
    if k == 0:
      out.append(("Z", p))
    elif k == 1:
      out.append(("Q", p))
    elif k == 2:
      out.append(("poly", ("Z", p)))
    elif k == 3:
      out.append(("multi", ("Z", p), c.between(1, 3)))
    elif k in (4, 5):
      pm = c.pick(sorted(MODULI))
      out.append(("F", pm[0], pm[1], c.pick(MODULI[pm])))
      if c.chance(1, 2):
        out.append(("F", pm[0], pm[1], c.pick(MODULI[pm])))
    elif k == 6:
      out.append(("F", *c.pick([(2, 2), (2, 3), (3, 2), (2, 4)]), None))
    elif k == 7:
      out.append(c.pick([("polydefault",), ("poly", ("fraction",)), ("F", p, 1, None), ("Q", p)]))
    else:
      pm = c.pick(sorted(MODULI))
      base = ("F", pm[0], pm[1], c.pick(MODULI[pm]))
      out.append(c.pick([("float", base), ("poly", base), ("multi", base, 2)]))
  return out


HELD = {}      # structures the clients of a storm hold already (a run has its own process)


def ask(c, spec, results, fails):
  """Make the request described by spec, in a drawn form; records every structure obtained on the way."""
  if spec in HELD:
    return HELD[spec]
  kind = spec[0]
  form = c.draw(4)
  if kind == "fraction":
    return fractions.Fraction
  if kind == "Z":
    r = modp.IntegersModP(spec[1]) if form % 2 == 0 else modp.IntegersModP(p=spec[1])
  elif kind == "Q":
    r = rat.RationalsModP(spec[1]) if form % 2 == 0 else rat.RationalsModP(p=spec[1])
  elif kind == "poly":
    ring = ask(c, spec[1], results, fails)
    r = po.polynomials_over(ring) if form % 2 == 0 else po.polynomials_over(ring=ring)
  elif kind == "polydefault":
    r = po.polynomials_over() if form % 2 == 0 else po.polynomials_over(ring=fractions.Fraction) if form == 1 else \
        po.polynomials_over(fractions.Fraction)
    results.append((("poly", ("fraction",)), r))
    return r
  elif kind == "multi":
    ring = ask(c, spec[1], results, fails)
    r = [lambda: mv.multivariates_over(ring, spec[2]), lambda: mv.multivariates_over(ring, num_vars=spec[2]),
         lambda: mv.multivariates_over(ring=ring, num_vars=spec[2]),
         lambda: mv.multivariates_over(num_vars=spec[2], ring=ring)][form]()
  elif kind == "float":
    f = ask(c, spec[1], results, fails)
    r = fp.FloatingPoint(f) if form % 2 == 0 else fp.FloatingPoint(field=f)
  else:
    _, p, m, mod = spec
    if mod is None:
      r = [lambda: ff.FiniteField(p, m), lambda: ff.FiniteField(p, m=m), lambda: ff.FiniteField(m=m, p=p),
           lambda: ff.FiniteField(p, m, None) if c.chance(1, 2) else ff.FiniteField(p, m, polynomialModulus=None)][form]()
    else:
      q = po.polynomials_over(modp.IntegersModP(p))(list(mod))
      r = [lambda: ff.FiniteField(p, m, q), lambda: ff.FiniteField(p, m, polynomialModulus=q),
           lambda: ff.FiniteField(polynomialModulus=q, m=m, p=p), lambda: ff.FiniteField(p, polynomialModulus=q, m=m)][form]()
  results.append((spec, r))
  return r


def fail(c, palette):
  """(name, must it be refused, a request that is in order in no way)."""
  k = c.draw(4)
  fs = [s for s in palette if s[0] == "F" and (s[1], s[2]) in REDUCIBLE]
  if k <= 1:
    p, m = (fs[c.draw(len(fs))][1:3]) if fs else (2, 3)
    q = po.polynomials_over(modp.IntegersModP(p))(list(REDUCIBLE[p, m]))
    return ("reducible", p, m), True, \
        (lambda: ff.FiniteField(p, m, q)) if k else (lambda: ff.FiniteField(p, m, polynomialModulus=q))
  i = c.draw(5 if k == 2 else 4)
  if k == 2:
    return ("incomplete", i), False, [
        lambda: modp.IntegersModP(), lambda: mv.multivariates_over(modp.IntegersModP(7)),
        lambda: ff.FiniteField(2), lambda: modp.IntegersModP(5, 7), lambda: modp.IntegersModP(q=5)][i]
  return ("senseless", i), False, [
      lambda: modp.IntegersModP("x"), lambda: modp.IntegersModP(None), lambda: mv.multivariates_over(None, 2),
      lambda: ff.FiniteField(2, 3, "x")][i]


def canonical(spec):
  if spec[0] == "F" and spec[2] == 1:
    return ("Z", spec[1])
  return spec


def params_hold(ctx, spec, r):
  """The structure is the one for these parameters."""
  kind = spec[0]

  def bad(what):
    raise Violation("wrong-structure", f"asked for {spec}, got {getattr(r, '__name__', r)!r}: {what}")
  if kind == "Z" or kind == "F" and spec[2] == 1:
    p = spec[1]
    if r.p != p or r.field_size != p or r.m != 1:
      bad(f"p={r.p}")
    if (r(p - 1) + r(2)).n != 1 % p or (r(p + 1) * r(p - 1)).n != p - 1 or r(-1).field is not r:
      bad("arithmetic")
  elif kind == "Q":
    p = spec[1]
    if r.p != p:
      bad(f"p={r.p}")
    x = r(1, 1) + r(p, 1)
    if type(x) is not r:
      bad("arithmetic leaves the type")
  elif kind == "poly":
    if spec[1][0] == "Z" and (r.ring.p != spec[1][1] or r.ring is not modp.IntegersModP(spec[1][1])):
      bad(f"ring {r.ring.__name__}")
    if spec[1][0] == "fraction" and r.ring is not fractions.Fraction:
      bad(f"ring {r.ring}")
    if spec[1][0] == "F":
      coefs = [x.n for x in r.ring.ideal_generator.coefficients]
      if coefs != list(spec[1][3]):
        bad(f"ring with modulus {coefs}")
    x = r([r.ring(0), r.ring(1)])
    if type(x * x) is not r or (x * x).degree() != 2:
      bad("arithmetic")
  elif kind == "multi":
    if r.num_vars != spec[2]:
      bad(f"{r.num_vars} variables")
    if spec[1][0] == "Z" and r.ring is not modp.IntegersModP(spec[1][1]):
      bad(f"ring {r.ring.__name__}")
    if spec[1][0] == "F" and [x.n for x in r.ring.ideal_generator.coefficients] != list(spec[1][3]):
      bad("ring with another modulus")
  elif kind == "float":
    pass
  else:
    _, p, m, mod = spec
    if (r.p, r.m, r.field_size) != (p, m, p**m) or r.primeSubfield is not modp.IntegersModP(p):
      bad(f"p={r.p} m={r.m} size={r.field_size}")
    g = [x.n for x in r.ideal_generator.coefficients]
    if mod is not None and g != list(mod):
      bad(f"modulus {g}")
    if len(g) != m + 1 or g[-1] != 1:
      bad(f"modulus {g} of another degree")
    # x^m reduces by the modulus
    x = r([0, 1])
    y = r([1])
    for _ in range(m):
      y = y * x
    want = [-k % p for k in g[:-1]]
    while want and not want[-1]:
      want.pop()
    if [k.n for k in y.poly.coefficients] != want:
      bad(f"x^{m} = {y}")


def interoperable(spec, a, b):
  """Values of two answers for the same parameters."""
  kind = spec[0]
  try:
    if kind in ("Z", "Q"):
      x = a(1) + b(1)
      return type(x) is a and x == b(2) and b(2) == x
    if kind == "F":
      x = a([1, 1]) * b([0, 1]) - b([0, 1])
      return x == b([0, 0, 1]) and type(x) is a
    if kind == "poly":
      x = a([a.ring(1), a.ring(1)]) + b([b.ring(1)])
      return x == b([b.ring(2), b.ring(1)])
    if kind == "multi":
      n = a.num_vars
      x = a({(1,) * n: a.ring(1)}) + b({(0,) * n: b.ring(1)})
      return len(x) == 2
    if kind == "float":
      return True
  except Exception:  # noqa
    return False
  return True


def refusal(ctx, k, request, refused):
  """Such a request is refused, the second time as the first."""
  name, must, f = request
  ctx.fault("request-refused")
  try:
    f()
    ok = True
  except Exception:  # noqa: refusal is what is expected
    ok = False
  if ok and must:
    raise Violation("wrong-structure", f"client {k}: {name}: a modulus that is reducible was accepted")
  if refused.setdefault(name, not ok) is ok:
    raise Violation("refused-once-only", f"client {k}: {name} was {'refused' if ok else 'accepted'} before and now is not")


def crowd(ctx, c):
  """Many other structures are asked for before anybody asks for the first ones again."""
  n = c.pick([30, 70, 140, 300, 600])
  ctx.fault("many-others")
  p = 200 + c.draw(5000)
  for _ in range(n):
    p = sympy.nextprime(p)
    z = modp.IntegersModP(int(p))
    if c.chance(1, 2):
      po.polynomials_over(z)
    if c.chance(1, 2):
      mv.multivariates_over(z, 1 + c.draw(5))
    if c.chance(1, 4):
      rat.RationalsModP(int(p))


def run(ctx):
  c = ctx.c
  refused = {}
  palette = make_palette(c)
  n = c.weighted([(2, 1), (4, 2), (3, 3), (1, 5)])
  mode = c.pick(["none", "line", "instr"]) if n > 1 else c.pick(["none", "line"])
  # storm: the first requests ever for one structure all come at once; what it is built from may be there already
  storm = n > 1 and c.chance(1, 3)
  if storm:
    palette = palette[-1:]
    mode = c.pick(["line", "instr"])
    if c.chance(2, 3):
      spec = palette[0]
      if spec[0] in ("poly", "multi", "float"):
        HELD[spec[1]] = ask(c, spec[1], [], [])
      elif spec[0] == "F":
        po.polynomials_over(modp.IntegersModP(spec[1]))
  # clients run in this process before anything was asked for, or after somebody else did
  results, fails = [], []
  answers = []                         # (client, spec, structure)
  if not storm and c.chance(1, 3):
    for _ in range(c.between(1, 3)):
      ask(c, c.pick(palette), results, fails)
    answers += [("before", s, r) for s, r in results]
  sched = Scheduler(ctx, mode=mode, max_preempt=c.between(1, 200 if storm else 50), gaps=(3, 12, 50) if storm else (6, 40, 400, 3000))
  sched.start_monitoring([k for k in seams.codes if k.co_filename.endswith(FILES)])
  if c.chance(1, 3) and mode != "none":
    sched.interrupt_chance = 4
    sched.interruptible = lambda task, code: task.meta.get("asking") and not code.co_filename.endswith("numbertype.py")
  outcomes = []

  def client(k):
    me = sched.current
    for _ in range(c.between(1, 3) if storm else c.between(2, 9)):
      if c.chance(1, 7):
        refusal(ctx, k, fail(c, palette), refused)
        continue
      got = []
      spec = c.pick(palette)
      ctx.log("client", k, "asks", spec)
      me.meta["asking"] = True
      me.meta["interrupted"] = 0
      try:
        ask(c, spec, got, fails)
      except Interrupted:
        ctx.log("client", k, "interrupted")
        continue
      except Exception as e:  # noqa
        if me.meta["interrupted"]:     # the library turned the interruption into an error
          continue
        raise Violation("request-failed", f"{spec}: {e!r}")
      finally:
        me.meta["asking"] = False
        answers.extend((k, s, r) for s, r in got)
      if c.chance(1, 3):
        sched.pause()
    if c.chance(1, 2):
      # use what was obtained while others go on
      for (_, s, r) in list(answers):
        params_hold(ctx, s, r)
  for k in range(n):
    sched.spawn(f"client{k}", lambda k=k: client(k))
  r = sched.run(lambda: all(t.state == "done" for t in sched.tasks), max_steps=5000)
  sched.close()
  ctx.require(r == "done", "clients-stuck", r)
  for t in sched.tasks:
    if t.exc is not None:
      raise t.exc
  if c.chance(1, 25):
    crowd(ctx, c)
  # afterwards, once more, alone
  for spec in palette:
    got = []
    try:
      ask(c, spec, got, fails)
    except Exception as e:  # noqa
      raise Violation("request-failed", f"{spec} afterwards: {e!r}")
    answers += [("after", s, r) for s, r in got]
  first = {}
  for who, spec, r in answers:
    params_hold(ctx, spec, r)
    key = canonical(spec)
    if key in first:
      ctx.nontrivial = True
      ctx.require(interoperable(key, first[key][1], r), "not-interoperable",
                  lambda: f"{spec}: client {first[key][0]} and client {who}")
      ctx.require(first[key][1] is r, "two-structures", lambda: f"{spec}: client {first[key][0]} and client {who} got two")
    else:
      first[key] = (who, r)
  ids = {}
  for key, (_, r) in first.items():
    # a random modulus may coincide in value with an explicit one, but then it is still its own request
    ctx.require(id(r) not in ids, "one-structure-for-two", lambda: f"{key} and {ids[id(r)]}")
    ids[id(r)] = key
  ctx.mark(tuple(sorted(map(repr, palette))))
  ctx.sample = f"{n} clients, {mode}, palette {palette}, answers {len(answers)}, faults {dict(ctx.faults)}"
