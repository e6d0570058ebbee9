"""Many computations over shared values, in any order, at once, and interrupted (C19).

Every call is first made alone in a fresh process; then clients make the same calls in drawn order, repeatedly, over
shared operands, preempted inside each other and interrupted part-way.  Results must be those of the fresh process and
no value given to, or obtained from, an earlier call may change.

Real: the arithmetic, polynomial, transform, interpolation, Merkle, compression and utility modules.
Simulated: threads, interruptions, the order of calls, the callers' own use of the lists they got.
"""
import importlib
import os
import pickle

from .. import seams
from ..core import HarnessError, Violation
from ..sched import Interrupted, Scheduler

RUNS = {"C19": {"quick": (5000, 420), "thorough": (120000, 800)}}
RULE = ("a run draws 3-9 calls over few shared values (operation and operands), makes each once alone in a fresh "
        "process, then lets 1-4 clients make 2-8 of them each in drawn order with line- or instruction-level "
        "preemption and interruptions; compared are every result, every operand after every call and every result "
        "kept from earlier calls; non-trivial if a value was shared by two calls; distinct = distinct sets of calls, "
        "schedules and faults")
COMPONENTS = {"real": ["starks/modp.py", "starks/rationals_modp.py", "starks/finitefield.py", "starks/floatingpoint.py",
                       "starks/polynomial.py", "starks/multivariate_polynomial.py", "starks/fft.py",
                       "starks/poly_utils.py", "starks/merkle_tree.py", "starks/compression.py", "starks/utils.py",
                       "starks/euclidean.py", "starks/reedsolomon.py", "starks/numbertype.py", "starks/air.py"],
              "stub": ["thread scheduler", "locks", "interruptions"]}
ASSUME = ["the reference for a call is the same call in a fresh process: whether that result is mathematically right "
          "is not this property",
          "interruptions strike inside library code other than the constructor cache (that is C18)"]

MODULES = ("numbertype modp rationals_modp polynomial multivariate_polynomial finitefield floatingpoint fft poly_utils "
           "merkle_tree compression utils euclidean reedsolomon air").split()
FILES = tuple("starks/" + m + ".py" for m in MODULES)
M = {}
GENERATOR = {17: 3, 97: 5, 193: 5, 257: 3, 65537: 3}
MODULI = {
    (2, 2): [(1, 1, 1)], (2, 3): [(1, 1, 0, 1), (1, 0, 1, 1)], (2, 4): [(1, 1, 0, 0, 1), (1, 0, 0, 1, 1)],
    (3, 2): [(1, 0, 1), (2, 1, 1), (2, 2, 1)], (5, 2): [(2, 0, 1), (3, 0, 1)], (2, 5): [(1, 0, 1, 0, 0, 1)],
    (2, 6): [(1, 1, 0, 0, 0, 0, 1), (1, 0, 0, 0, 0, 1, 1)], (2, 8): [(1, 1, 0, 1, 1, 0, 0, 0, 1)],
}


def setup(prop):
  for m in MODULES:
    M[m] = importlib.import_module("starks." + m)


# --- values <-> encodings -------------------------------------------------------------------------------------------
def enc_ring(t):
  nt = M["numbertype"]
  if t is int:
    return ("int",)
  if issubclass(t, nt.MultiVarPoly):
    return ("multi", enc_ring(t.ring), t.num_vars)
  if issubclass(t, nt.Poly):
    return ("poly", enc_ring(t.ring))
  if hasattr(t, "ideal_generator"):
    return ("F", t.p, t.m, tuple(int(x) for x in t.ideal_generator.coefficients))
  if t.__name__.startswith("Q/"):
    return ("Q", t.p)
  if t.__name__.startswith("Z/"):
    return ("Z", t.p)
  return ("type", t.__module__, t.__name__)


def enc(v):
  nt = M["numbertype"]
  t = type(v)
  if v is None or t in (int, bool, str, bytes, float):
    return (t.__name__, v)
  if t in (list, tuple):
    return (t.__name__, tuple(enc(x) for x in v))
  if t is dict:
    return ("dict", tuple(sorted(((enc(k), enc(x)) for k, x in v.items()), key=repr)))
  if isinstance(v, type):
    return ("ring", enc_ring(v))
  if isinstance(v, nt.MultiVarPoly):
    return ("multi", enc_ring(t), tuple(sorted((tuple(k), enc(x)) for k, x in v.coefficients.items())))
  if isinstance(v, nt.Poly):
    return ("poly", enc_ring(t), tuple(enc(x) for x in v.coefficients))
  if hasattr(t, "ideal_generator"):
    return ("f", enc_ring(t), tuple(enc(x) for x in v.poly.coefficients))
  if isinstance(v, nt.FieldElement):
    r = enc_ring(t)
    return ("q", r, v.m, v.n) if r[0] == "Q" else ("z", r, v.n)
  if hasattr(v, "v") and hasattr(v, "s"):
    return ("float", enc(v.v), enc(v.p), v.z, v.s)
  if hasattr(v, "basis"):
    return ("space", enc_ring(v.field), enc(v.basis), enc(v.shift))
  return ("other", t.__name__, repr(v))


def ring(r):
  k = r[0]
  if k == "Z":
    return M["modp"].IntegersModP(r[1])
  if k == "Q":
    return M["rationals_modp"].RationalsModP(r[1])
  if k == "poly":
    return M["polynomial"].polynomials_over(ring(r[1]))
  if k == "multi":
    return M["multivariate_polynomial"].multivariates_over(ring(r[1]), r[2])
  if k == "F":
    zp = M["modp"].IntegersModP(r[1])
    return M["finitefield"].FiniteField(r[1], r[2], M["polynomial"].polynomials_over(zp)(list(r[3])))
  raise HarnessError(repr(r))


def dec(e, memo=None):
  if memo is not None and e in memo:
    return memo[e]
  k = e[0]
  if k == "list":
    v = [dec(x, memo) for x in e[1]]
  elif k == "tuple":
    v = tuple(dec(x, memo) for x in e[1])
  elif k == "dict":
    v = {dec(a, memo): dec(b, memo) for a, b in e[1]}
  elif k == "ring":
    v = ring(e[1])
  elif k == "z":
    v = ring(e[1])(e[2])
  elif k == "q":
    v = ring(e[1])(e[2], e[3])
  elif k == "f":
    v = ring(e[1])([x[2] for x in e[2]])
  elif k == "poly":
    v = ring(e[1])([dec(x, memo) for x in e[2]])
  elif k == "multi":
    v = ring(e[1])({kk: dec(x, memo) for kk, x in e[2]})
  elif k == "float":
    f = ring(e[1][1])
    v = M["floatingpoint"].FloatingPoint(f)(dec(e[1], memo), dec(e[2], memo), e[3], e[4])
  elif k == "space":
    v = M["reedsolomon"].AffineSpace(ring(e[1]), dec(e[2], memo), dec(e[3], memo))
  elif k in ("int", "bool", "str", "bytes", "float", "NoneType"):
    v = e[1]
  else:
    raise HarnessError("cannot decode " + repr(e))
  if memo is not None and k not in ("int", "bool", "str", "bytes", "float", "NoneType"):
    memo[e] = v
  return v


# --- the calls ------------------------------------------------------------------------------------------------------
class Env:
  """Few values per run, so that calls share them."""

  def __init__(self, c):
    self.c = c
    self.primes = [c.pick([17, 97, 193, 257])]
    if c.chance(1, 2):
      self.primes.append(c.pick([17, 97, 257, 65537]))
    pm = c.pick(sorted(MODULI))
    self.fields = [("F", *pm, q) for q in MODULI[pm]]
    self.fields = [self.fields[c.draw(len(self.fields))]] + (self.fields if c.chance(1, 2) else [])
    pm = c.pick([k for k in sorted(MODULI) if k[0] == 2 and k[1] > 2])
    self.binary = [("F", *pm, q) for q in MODULI[pm]]
    self.cache = {}

  def few(self, key, make, n=3):
    """One of few values made by make."""
    l = self.cache.setdefault(key, [])
    i = self.c.draw(n)
    if i >= len(l):
      l.append(make())
      i = len(l) - 1
    return l[i]

  def p(self):
    return self.c.pick(self.primes)

  def z(self, p, nonzero=False):
    v = self.few(("z", p, nonzero), lambda: self.c.pick([1, 0, 2, p - 1, None]) if not nonzero else
                 self.c.pick([1, 2, p - 1, None]), 4)
    if v is None:
      v = 1 + self.c.draw(p - 1)
    return ("z", ("Z", p), v)

  def zs(self, p, n, fresh=False):
    return self.few(("zs", p, n), lambda: ("list", tuple(("z", ("Z", p), self.c.draw(p)) for _ in range(n))), 2)

  def distinct(self, p, n):
    return self.few(("dz", p, n), lambda: ("list", tuple(
        ("z", ("Z", p), x) for x in self.c.shuffled(range(1, 17))[:n])), 2)

  def q(self, p):
    return self.few(("q", p), lambda: enc(ring(("Q", p))(self.c.draw(p), 1 + self.c.draw(p - 1))), 3)

  def f(self, r, nonzero=False):
    def make():
      co = [self.c.draw(r[1]) for _ in range(r[2])]
      while co and co[-1] == 0:
        co.pop()
      if not co and nonzero:
        co = [1]
      return ("f", r, tuple(("z", ("Z", r[1]), x) for x in co))
    return self.few(("f", r, nonzero), make, 4)

  def scalar_ring(self):
    return ("Z", self.p()) if self.c.chance(2, 3) else self.c.pick(self.fields)

  def scalar(self, r, nonzero=False):
    return self.z(r[1], nonzero) if r[0] == "Z" else self.f(r, nonzero)

  def poly(self, r, nonzero=False):
    def make():
      co = [self.scalar(r) for _ in range(self.c.between(1, 6))]
      zero = ("z", r, 0) if r[0] == "Z" else ("f", r, ())
      while co and co[-1] == zero:
        co.pop()
      if not co and nonzero:
        co = [("z", r, 1) if r[0] == "Z" else ("f", r, (("z", ("Z", r[1]), 1),))]
      return ("poly", ("poly", r), tuple(co))
    return self.few(("poly", r, nonzero), make, 3)

  def multi(self, r, n):
    def make():
      d = {}
      for _ in range(self.c.between(1, 4)):
        d[tuple(self.c.draw(3) for _ in range(n))] = self.scalar(r, True)
      return ("multi", ("multi", r, n), tuple(sorted(d.items())))
    return self.few(("multi", r, n), make, 3)

  def fl(self, r):
    def make():
      if self.c.chance(1, 8):
        return ("float", ("f", r, ()), ("f", r, ()), 1, 0)
      return ("float", self.f(r, True), self.f(r), 0, self.c.draw(2))
    return self.few(("fl", r), make, 4)

  def b32(self):
    return self.few("b32", lambda: ("bytes", bytes([self.c.draw(256) for _ in range(4)]) * 8), 6)

  def leaves(self):
    def make():
      n = self.c.pick([4, 8, 16])
      k = self.c.draw(3)
      if k == 0:
        return ("list", tuple(self.b32() for _ in range(n)))
      if k == 1:
        return ("list", tuple(("int", self.c.draw(1 << 16)) for _ in range(n)))
      p = self.p()
      return self.zs(p, n)
    return self.few("leaves", make, 3)

  def tree(self):
    return self.few("tree", lambda: enc(M["merkle_tree"].merkelize(dec(self.leaves()))), 2)

  def branch(self):
    return self.few("branch", lambda: ("list", tuple(self.b32() for _ in range(self.c.between(1, 4)))), 3)

  def branches(self):
    return self.few("branches", lambda: ("list", tuple(self.branch() for _ in range(self.c.between(1, 4)))), 3)

  def friproof(self):
    def make():
      rounds = []
      for _ in range(self.c.draw(3)):
        ys = ("list", tuple(self.branches() for _ in range(self.c.between(1, 2))))
        rounds.append(("list", (self.b32(), ys)))
      return ("list", tuple(rounds) + (("list", tuple(self.b32() for _ in range(self.c.between(1, 4)))),))
    return self.few("fri", make, 2)

  def root(self, p):
    n = self.c.pick([4, 8, 16])
    return n, ("z", ("Z", p), pow(GENERATOR[p], (p - 1) // n, p))


def I(n):
  return ("int", n)


BINARY = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "==": lambda a, b: a == b,
          "/": lambda a, b: a / b, "!=": lambda a, b: a != b, "divmod": lambda a, b: divmod(a, b), "%": lambda a, b: a % b}
UNARY = {"neg": lambda a: -a, "inverse": lambda a: a.inverse(), "int": lambda a: int(a),
         "bytes": lambda a: a.to_bytes(), "abs": lambda a: abs(a), "repr": repr, "radd": lambda a: 1 + a,
         "rsub": lambda a: 1 - a, "rmul": lambda a: 3 * a, "copy": lambda a: type(a)(a), "rdiv": lambda a: 1 / a}


def spec_scalar(e):
  c = e.c
  k = c.draw(4)
  mk = [lambda: e.z(zp), lambda: e.q(zp), lambda: e.f(fr), lambda: e.f(fr, True)][k]
  zp, fr = e.p(), c.pick(e.fields)
  if c.chance(2, 3):
    op = c.pick(["+", "-", "*", "==", "!=", "/", "divmod"])
    return ("bin", op), [mk(), mk()]
  if c.chance(1, 4):
    return ("pow",), [mk(), I(c.pick([0, 1, 2, 3, 7, 16, 1000]))]
  return ("un", c.pick(["neg", "inverse", "int", "bytes", "abs", "repr", "radd", "rsub", "rmul", "copy", "rdiv"])), [mk()]


def spec_bits(e):
  c = e.c
  r = c.pick(e.binary)
  k = c.draw(3)
  if k == 0:
    return ("attr", "two_pow"), [e.f(r)]
  return ("attr", "LT" if k == 1 else "Regular_Binary_Addition"), [e.f(r, True), e.f(r, True)]


def spec_float(e):
  c = e.c
  r = c.pick(e.binary)
  k = c.draw(6)
  if k == 5:
    return ("attr", "Float_to_Fix"), [e.fl(r)]
  return ("bin", ["+", "-", "*", "/", "=="][k]), [e.fl(r), e.fl(r)]


def spec_poly(e):
  c = e.c
  r = e.scalar_ring()
  k = c.draw(10)
  if k < 6:
    return ("bin", ["+", "-", "*", "==", "divmod", "%"][k]), [e.poly(r), e.poly(r, k >= 4)]
  if k == 6:
    return ("call",), [e.poly(r), e.scalar(r)]
  if k == 7:
    return ("un", c.pick(["neg", "repr", "copy", "radd", "rsub"])), [e.poly(r)]
  if k == 8:
    return ("pow",), [e.poly(r), I(c.pick([1, 2, 3, 5]))]
  return ("attr", "powmod"), [e.poly(r), I(c.pick([1, 2, 5, 17])), e.poly(r, True)]


def spec_multi(e):
  c = e.c
  r = e.scalar_ring()
  if c.chance(1, 8):
    # (division goes through sympy, with integer coefficients)
    r, n = ("Z", e.p()), c.between(1, 2)
    a, b = e.multi(r, n), e.multi(r, n)
    what = c.pick(["truediv", "division", "PolytoMulti", "div_remainder"])
    if what == "truediv":
      return ("bin", "/"), [a, b]
    return ("attr", what), [a] + ([b, e.multi(r, n)] if what == "div_remainder" else [e.poly(r)])
  n = c.between(1, 3)
  k = c.draw(8)
  if k < 4:
    return ("bin", ["+", "-", "*", "=="][k]), [e.multi(r, n), e.multi(r, n)]
  if k == 4:
    return ("call",), [e.multi(r, n), ("list", tuple(e.scalar(r) for _ in range(n)))]
  if k == 5:
    return ("un", c.pick(["neg", "repr", "copy", "radd", "rsub"])), [e.multi(r, n)]
  if k == 6:
    return ("pow",), [e.multi(r, n), I(c.pick([1, 2, 3]))]
  return ("listof",), [e.multi(r, n)]


def spec_fft(e):
  c = e.c
  p = e.p()
  n, w = e.root(p)
  k = c.draw(6)
  m = n if c.chance(2, 3) else c.between(1, n)
  if k == 0:
    return ("fn", "fft", "fft_1d"), [("ring", ("Z", p)), e.zs(p, m), I(p), w]
  if k == 1:
    return ("fn", "fft", "fft_1d"), [("ring", ("Z", p)), e.zs(p, m), I(p), w, ("bool", True)]
  if k == 2:
    return ("fn", "fft", "mul_polys"), [e.zs(p, m), e.zs(p, c.between(1, n)), w]
  if k == 3:
    return ("fn", "fft", "_fft"), [e.zs(p, n), cycle(w, n)]
  if k == 4:
    return ("solver", "fft"), [("ring", ("Z", p)), w, e.poly(("Z", p))]
  return ("solver", "inv_fft"), [("ring", ("Z", p)), w, e.zs(p, n)]


def cycle(w, n):
  p = w[1][1]
  return ("list", tuple(("z", w[1], pow(w[2], i, p)) for i in range(n)))


def spec_adfft(e):
  c = e.c
  r = c.pick(e.binary)
  if c.chance(1, 4):
    return ("additive", "Taylor_Expansion"), [("ring", r), e.f(r, True), I(c.pick([2, 4, 8]))]
  m = c.between(1, min(3, r[2]))
  if c.chance(1, 3):
    # back from values on the span of the betas
    m = max(m, min(2, r[2]))
    def span():
      bits = c.shuffled(range(r[2]))[:m]
      return ("list", tuple(("f", r, tuple(("z", ("Z", 2), int(any(bits[t] == j and i >> t & 1 for t in range(m)))) for j in range(
          1 + max([bits[t] for t in range(m) if i >> t & 1] or [-1])))) for i in range(2**m)))
    return ("additive", "adfft_inverse"), [("ring", r), e.few(("span", r, m), span, 2), e.few(("ys", r, m), lambda: (
        "list", tuple(e.f(r) for _ in range(2**m))), 2), I(m)]
  beta = e.few(("beta", r, m), lambda: ("list", tuple(
      ("f", r, tuple(("z", ("Z", 2), int(j == i)) for j in range(i + 1))) for i in c.shuffled(range(r[2]))[:m])), 2)
  return ("additive", "adfft"), [("ring", r), e.f(r, True), I(m), beta]


def spec_interp(e):
  c = e.c
  p = e.p()
  f = ("ring", ("Z", p))
  k = c.draw(6)
  if k == 0:
    return ("fn", "poly_utils", "zpoly"), [f, e.distinct(p, c.between(1, 4))]
  if k == 1:
    n = c.between(1, 5)
    return ("fn", "poly_utils", "lagrange_interp"), [f, e.distinct(p, n), e.zs(p, n)]
  if k == 2:
    return ("fn", "poly_utils", "lagrange_interp_4"), [f, e.distinct(p, 4), e.zs(p, 4)]
  if k == 3:
    return ("fn", "poly_utils", "lagrange_interp_2"), [f, e.distinct(p, 2), e.zs(p, 2)]
  if k == 4:
    n = c.between(1, 3)
    return ("fn", "poly_utils", "multi_interp_4"), [f, ("list", tuple(e.distinct(p, 4) for _ in range(n))),
                                                    ("list", tuple(e.zs(p, 4) for _ in range(n)))]
  return ("fn", "poly_utils", "multi_inv"), [f, e.zs(p, c.between(1, 5))]


def spec_putil(e):
  c = e.c
  k = c.draw(7)
  p = e.p()
  if k == 6:
    r = c.pick([("Z", p), c.pick(e.fields)])
    n = c.between(1, 3)
    m = e.few(("equations", r, n), lambda: ("list", tuple(("list", tuple(e.poly(r, x == y) for x in range(n + 1))) for y in range(n))), 2)
    return ("fn", "poly_utils", "gauss"), [m, I(n), ("ring", r)]
  if k == 0:
    return ("fn", "poly_utils", "make_multivar"), [e.poly(("Z", p)), I(c.draw(2)), ("ring", ("Z", p)), I(2)]
  if k == 1:
    return ("fn", "poly_utils", "project_to_univariate"), [e.multi(("Z", p), 2), I(c.draw(2)), ("ring", ("Z", p)), I(2)]
  q = c.pick([2, 3, 5])
  if k == 2:
    co = e.few(("monic", q), lambda: [c.draw(q) for _ in range(c.between(1, 5))] + [1])
    return ("fn", "poly_utils", "is_irreducible"), [("poly", ("poly", ("Z", q)), tuple(("z", ("Z", q), x) for x in co)), I(q)]
  if k == 3:
    co = e.few(("monic", q), lambda: [c.draw(q) for _ in range(c.between(1, 4))] + [1])
    d = len(co) - 1
    if d > 4:
      co, d = co[-5:], 4
    return ("fn", "poly_utils", "is_primitive"), [("poly", ("poly", ("Z", q)), tuple(("z", ("Z", q), x) for x in co)), I(q), I(d)]
  if k == 4:
    return ("fn", "poly_utils", "construct_multivariate_dirac_delta"), \
        [("ring", ("Z", q)), ("list", tuple(("z", ("Z", q), c.draw(q)) for _ in range(2))), I(2)]
  return ("stepfn",), [("ring", ("Z", q)), I(1), e.z(q) if q > 16 else ("z", ("Z", q), c.draw(q))]


def spec_space(e):
  c = e.c
  q = c.pick([2, 3])
  r = [x for x in e.fields + e.binary]
  r = c.pick(r)
  zp = ("Z", r[1])
  basis = ("list", tuple(("poly", ("poly", zp), tuple(("z", zp, int(j == i)) for j in range(i + 1)))
                         for i in range(c.between(1, 3 if r[1] == 2 else 2))))
  if c.chance(1, 3):
    return ("vanish",), [("ring", r), ("ring", zp), basis]
  return ("space", "iter"), [("ring", zp), basis]


def spec_merkle(e):
  c = e.c
  k = c.draw(8)
  mt = "merkle_tree"
  if k == 0:
    return ("fn", mt, "permute4"), [e.leaves()]
  if k == 1:
    return ("fn", mt, "get_index_in_permuted"), [I(c.draw(16)), I(16)]
  if k == 2:
    return ("fn", mt, "merkelize"), [e.leaves()]
  if k in (3, 4):
    t = e.tree()
    return ("fn", mt, "mk_branch"), [t, I(c.draw(len(t[1]) // 2))]
  if k == 5:
    t = e.tree()
    i = c.draw(len(t[1]) // 2)
    b = enc(M[mt].mk_branch(dec(t), i))
    j = i if c.chance(2, 3) else c.draw(len(t[1]) // 2)
    return ("fn", mt, "verify_branch"), [t[1][1], I(j), b] + ([("bool", True)] if c.chance(1, 2) else [])
  if k == 6:
    p, n = e.p(), c.pick([4, 8])
    return ("fn", mt, "merkelize_polynomial_evaluations"), [I(1), ("list", tuple(e.zs(p, n) for _ in range(c.between(1, 3))))]
  return ("fn", mt, "unpack_merkle_leaf"), [("bytes", bytes(range(128))), I(c.between(1, 2)), I(c.between(1, 2))]


def spec_compress(e):
  c = e.c
  k = c.draw(5)
  if k == 0:
    return ("fn", "compression", "compress_fri"), [e.friproof()]
  if k == 1:
    return ("fn", "compression", "compress_branches"), [e.branches()]
  if k == 2:
    return ("fn", "compression", "decompress_fri"), [e.few("cf", lambda: enc(M["compression"].compress_fri(dec(e.friproof()))), 2)]
  if k == 3:
    return ("fn", "compression", "decompress_branches"), [
        e.few("cb", lambda: enc(M["compression"].compress_branches(dec(e.branches()))), 2)]
  return ("fn", "compression", "bin_length"), [e.branch()]


def spec_util(e):
  c = e.c
  k = c.draw(5)
  p = e.p()
  if k == 0:
    return ("fn", "utils", "get_pseudorandom_indices"), [e.b32(), I(c.pick([8, 16, 512])), I(c.pick([3, 12, 40])), I(c.pick([0, 2, 8]))]
  if k == 1:
    return ("fn", "utils", "get_power_cycle"), [e.root(p)[1], ("ring", ("Z", p))]
  if k == 2:
    return ("fn", "utils", "generate_Xi_s"), [("ring", e.scalar_ring()), I(c.between(1, 4))]
  if k == 3:
    return ("fn", "euclidean", "gcd"), ([e.poly(("Z", p), True), e.poly(("Z", p), True)] if c.chance(1, 2) else
                                        [I(c.between(1, 999)), I(c.between(1, 999))])
  return ("fn", "euclidean", "extended_euclidean_algorithm"), (
      [e.poly(("Z", p), True), e.poly(("Z", p), True)] if c.chance(1, 2) else [I(c.between(1, 999)), I(c.between(1, 999))])


def spec_trace(e):
  c = e.c
  r = ("Z", e.p())
  w = c.between(1, 2)
  if c.chance(1, 15):
    if c.chance(1, 3):
      r, w = c.pick(e.fields), 1
    # (the length is the one the class insists on)
    inp = e.few(("inp", r, w), lambda: ("list", tuple(e.scalar(r) for _ in range(w))), 2)
    polys = e.few(("steps", r, w), lambda: ("list", tuple(e.multi(r, w) for _ in range(w))), 2)
    return ("air",), [("ring", r), I(w), inp, I(511), polys]
  return ("fn", "air", "get_computational_trace"), [("list", tuple(e.scalar(r) for _ in range(w))), I(c.between(1, 6)), I(w),
                                                   ("list", tuple(e.multi(r, w) for _ in range(w)))]


def spec_build(e):
  """Values built from the caller's lists and tables."""
  c = e.c
  r = e.scalar_ring()
  k = c.draw(5)
  zero = ("z", r, 0) if r[0] == "Z" else ("f", r, ())
  if k <= 1:
    n = c.between(1, 3)

    def table():
      d = {}
      for _ in range(c.between(1, 5)):
        d[tuple(c.draw(3) for _ in range(n))] = zero if c.chance(1, 3) else e.scalar(r)
      return ("dict", tuple(sorted(((("tuple", tuple(I(x) for x in kk)), v) for kk, v in d.items()), key=repr)))
    return ("make", "factory" if k else "type"), [("ring", ("multi", r, n)), e.few(("table", r, n), table, 2)]
  if k <= 3:
    co = e.few(("list", r), lambda: ("list", tuple(zero if c.chance(1, 3) else e.scalar(r) for _ in range(c.between(1, 6)))), 2)
    return ("make", "factory" if k == 2 else "type"), [("ring", ("poly", r)), co]
  q = c.pick(e.fields)
  co = e.few(("ints", q), lambda: ("list", tuple(I(c.draw(2 * q[1])) for _ in range(c.between(1, 2 * q[2])))), 2)
  return ("make", "type"), [("ring", q), co]


def spec_large(e):
  """The same functions on more than a handful of values."""
  c = e.c
  k = c.draw(12)
  p = 257
  if k == 0:
    return ("fn", "utils", "get_pseudorandom_indices"), [e.b32(), I(c.pick([64, 1024, 65536])), I(c.pick([65, 130, 200, 600, 1500])),
                                                         I(c.pick([0, 2, 8]))]
  if k == 1:
    n = c.pick([32, 64, 128])
    w = ("z", ("Z", p), pow(3, 256 // n, p))
    m = n if c.chance(1, 2) else c.between(1, n)
    return ("fn", "fft", "fft_1d"), [("ring", ("Z", p)), e.zs(p, m), I(p), w] + ([("bool", True)] if c.chance(1, 2) else [])
  if k == 2:
    return ("fn", "merkle_tree", "merkelize"), [e.few("manyleaves", lambda: (
        ("list", tuple(("bytes", bytes([c.draw(256)]) * 32) for _ in range(c.pick([32, 64, 128]))))), 2)]
  if k == 3:
    return ("fn", "poly_utils", "multi_inv"), [("ring", ("Z", p)), e.zs(p, c.pick([17, 33, 70]))]
  if k == 4:
    n = c.pick([9, 17, 20])
    xs = e.few(("manyxs", n), lambda: ("list", tuple(("z", ("Z", p), x) for x in c.shuffled(range(1, 257))[:n])), 2)
    if c.chance(1, 2):
      return ("fn", "poly_utils", "zpoly"), [("ring", ("Z", p)), xs]
    return ("fn", "poly_utils", "lagrange_interp"), [("ring", ("Z", p)), xs, e.zs(p, n)]
  if k == 5:
    q = c.pick([2, 3])
    d = c.pick([9, 12, 17]) if q == 2 else c.pick([6, 8])
    co = e.few(("longmonic", q, d), lambda: [c.draw(q) for _ in range(d)] + [1])
    f = ("poly", ("poly", ("Z", q)), tuple(("z", ("Z", q), x) for x in co))
    if d <= 6 and c.chance(1, 2):
      return ("fn", "poly_utils", "is_primitive"), [f, I(q), I(d)]
    return ("fn", "poly_utils", "is_irreducible"), [f, I(q)]
  if k <= 7:
    r = ("Z", p)

    def long():
      return ("poly", ("poly", r), tuple(("z", r, 1 + c.draw(p - 1)) for _ in range(c.pick([20, 40, 70]))))
    a, b = e.few("longpoly", long, 3), e.few("longpoly", long, 3)
    return [(("bin", c.pick(["+", "-", "*", "divmod", "%", "==", "!="])), [a, b]), (("call",), [a, e.z(p)])][c.draw(2)]
  if k == 8:
    return ("fn", "compression", c.pick(["compress_branches"])), [e.few("manybranches", lambda: ("list", tuple(
        ("list", tuple(e.b32() for _ in range(c.between(1, 12)))) for _ in range(c.pick([20, 60])))), 2)]
  if k == 9:
    return ("fn", "utils", "get_power_cycle"), [("z", ("Z", p), pow(3, 256 // c.pick([32, 64, 256]), p)), ("ring", ("Z", p))]
  if k == 10:
    n = c.pick([6, 10])
    return ("fn", "poly_utils", "multi_interp_4"), [
        ("ring", ("Z", p)), ("list", tuple(e.few("x4", lambda: ("list", tuple(
            ("z", ("Z", p), x) for x in c.shuffled(range(1, 257))[:4])), 8) for _ in range(n))),
        ("list", tuple(e.few("y4", lambda: ("list", tuple(("z", ("Z", p), c.draw(p)) for _ in range(4))), 8) for _ in range(n)))]
  return ("fn", "utils", "generate_Xi_s"), [("ring", ("Z", p)), I(c.pick([6, 12]))]


def spec_helper(e):
  """The small functions the others are made of."""
  c = e.c
  r = ("Z", e.p())
  k = c.draw(8)
  zero = ("z", r, 0)
  power = lambda: e.few("power", lambda: ("tuple", tuple(I(c.draw(4)) for _ in range(c.between(1, 4)))), 3)  # noqa
  if k <= 1:
    co = e.few(("list", r), lambda: ("list", tuple(zero if c.chance(1, 3) else e.scalar(r) for _ in range(c.between(0, 6)))), 2)
    return ("fn", "polynomial", "strip"), [co, c.pick([zero, co[1][-1] if co[1] else zero])]
  if k == 2:
    return ("fn", "multivariate_polynomial", "add_power_tuples"), [power(), power()]
  if k == 3:
    return ("fn", "multivariate_polynomial", "sum_power_tuple"), [power()]
  if k == 4:
    d = {tuple(c.draw(3) for _ in range(2)): zero if c.chance(1, 2) else e.scalar(r) for _ in range(c.between(0, 5))}
    return ("fn", "multivariate_polynomial", "remove_zero_coefficients"), [e.few(("table", r, 2), lambda: ("dict", tuple(sorted(
        ((("tuple", tuple(I(x) for x in kk)), v) for kk, v in d.items()), key=repr))), 2)]
  if k == 5:
    return ("fn", "finitefield", c.pick(["num_to_binary_list_pow"])), [I(c.draw(12))]
  if k == 6:
    return ("fn", "floatingpoint", "num_to_binary_list"), [I(c.draw(300))]
  if c.chance(1, 3):
    return ("fn", "utils", "mimc"), [I(c.draw(1000)), I(c.between(1, 9)), e.few("constants", lambda: (
        "list", tuple(I(c.draw(99)) for _ in range(c.between(1, 4)))), 2)]
  if c.chance(1, 2):
    return ("fn", "poly_utils", "is_monic"), [e.poly(r, True)]
  return ("fn", "utils", "is_a_power_of_2"), [I(c.between(1, 70))]


SPECS = [spec_build, spec_helper, spec_large, spec_scalar, spec_float, spec_poly, spec_multi, spec_fft, spec_interp, spec_merkle, spec_compress, spec_util,
         spec_bits, spec_adfft, spec_putil, spec_space, spec_trace]


def perform(op, a):
  """The call itself; a are its operands."""
  k = op[0]
  if k == "bin":
    return BINARY[op[1]](*a)
  if k == "un":
    return UNARY[op[1]](*a)
  if k == "pow":
    return a[0] ** a[1]
  if k == "attr":
    return getattr(a[0], op[1])(*a[1:])
  if k == "call":
    return a[0](a[1])
  if k == "listof":
    return list(a[0])
  if k == "fn":
    return getattr(M[op[1]], op[2])(*a)
  if k == "make":
    return a[0](a[1]) if op[1] == "type" else a[0].factory(a[1])
  if k == "solver":
    return getattr(M["fft"].NonBinaryFFT(a[0], a[1]), op[1])(a[2])
  if k == "additive":
    return getattr(M["fft"].Additive_FFT(a[0]), op[1])(*a[1:])
  if k == "space":
    s = M["reedsolomon"].AffineSpace(a[0], a[1])
    return [len(s), list(s)]
  if k == "vanish":
    return M["poly_utils"].construct_affine_vanishing_polynomial(a[0], M["reedsolomon"].AffineSpace(a[1], a[2]))
  if k == "air":
    x = M["air"].AIR(*a, 8)
    tr, wi = x.computational_trace, x.generate_witness()
    if [list(col) for col in zip(*tr)] != wi or tr[-1] != x.output:
      return [tr, wi, x.output]
    return [len(tr)] + [v for s in tr[:4] + tr[-4:] for v in s] + [x.Polys, x.C, x.CDegree, x.B, x.get_degree()]
  if k == "stepfn":
    return M["poly_utils"].construct_multivariate_coefficients(a[0], lambda x: x[0] * x[0] + a[2], a[1])
  raise HarnessError(repr(op))


def outcome(op, a):
  try:
    return ("value", enc(perform(op, a)))
  except (Interrupted, HarnessError):
    raise
  except Exception as e:  # noqa: the exception is the outcome
    return ("raises", type(e).__name__)


def alone(specs):
  """The outcome of every call, each in a process of its own that did nothing before."""
  out = []
  for op, args in specs:
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
      try:
        os.close(r)
        data = pickle.dumps(outcome(op, [dec(x) for x in args]))
        while data:
          data = data[os.write(w, data):]
      finally:
        os._exit(0)
    os.close(w)
    buf = b""
    while True:
      b = os.read(r, 1 << 16)
      if not b:
        break
      buf += b
    os.close(r)
    os.waitpid(pid, 0)
    if not buf:
      raise HarnessError(f"no outcome for {op} {args}")
    out.append(pickle.loads(buf))
  return out


def in_fresh(fn):
  """The encoding-only part of a run (drawing the calls uses the library) happens in another process."""
  r, w = os.pipe()
  pid = os.fork()
  if pid == 0:
    try:
      os.close(r)
      data = pickle.dumps(fn())
      while data:
        data = data[os.write(w, data):]
    finally:
      os._exit(0)
  os.close(w)
  buf = b""
  while True:
    b = os.read(r, 1 << 16)
    if not b:
      break
    buf += b
  os.close(r)
  os.waitpid(pid, 0)
  if not buf:
    raise HarnessError("drawing the calls failed")
  return pickle.loads(buf)


def show(op, args):
  def s(e):
    k = e[0]
    if k in ("list", "tuple"):
      return "[" + ", ".join(map(s, e[1])) + "]"
    if k == "z":
      return f"{e[2]}%{e[1][1]}"
    if k == "bytes":
      return e[1][:3].hex()
    if k in ("poly", "f"):
      return k + "(" + ",".join(map(s, e[2])) + ")"
    return repr(e[1]) if len(e) == 2 else repr(e[1:])
  return (" ".join(op) + "(" + ", ".join(map(s, args)) + ")")[:300]


def draw_calls(c):
  e = Env(c)
  if c.chance(1, 3):
    # one function, asked about different things at the same time
    spec = c.pick(SPECS)
    calls = [spec(e)]
    for _ in range(8):
      x = spec(e)
      if x[0] == calls[0][0] and x[1] not in [y[1] for y in calls]:
        calls.append(x)
      if len(calls) == 4:
        break
    if len(calls) > 1:
      return calls
  themes = [c.pick(SPECS) for _ in range(c.between(1, 4))]
  return [c.pick(themes)(e) for _ in range(c.between(3, 9))]


def run(ctx):
  c = ctx.c

  def drawing():
    specs = draw_calls(c)
    return specs, c.out
  specs, used = in_fresh(drawing)
  # the drawing consumed choices in the other process: take the same ones here
  n0 = len(c.out)
  if c.src is None:
    fresh = used[n0:]
    for v in fresh:
      c.out.append(v)
    c.rng.seed((c.rng.random(), tuple(fresh)).__repr__())
  else:
    c.out.extend(used[n0:])
  expected = alone(specs)
  for (op, args), want in zip(specs, expected):
    ctx.log("alone:", show(op, args), "->", str(want)[:160])
    if want[0] == "raises":
      ctx.probe("raises-alone:" + want[1])
  shared = {}
  args_of = [[dec(x, shared) for x in args] for _, args in specs]
  watch = [(e, v) for e, v in shared.items() if e[0] != "ring"]
  counts = {}
  for _, args in specs:
    for x in args:
      counts[x] = counts.get(x, 0) + 1
  if any(n > 1 and x in shared for x, n in counts.items()):
    ctx.nontrivial = True
  clients = c.weighted([(2, 1), (3, 2), (2, 3), (1, 4)])
  mode = c.pick(["none", "line", "instr"]) if clients > 1 else c.pick(["none", "line"])
  sched = Scheduler(ctx, mode=mode, max_preempt=c.between(1, 40), gaps=(8, 60, 500))
  sched.start_monitoring([k for k in seams.codes if k.co_filename.endswith(FILES)])
  if mode != "none" and c.chance(1, 3):
    sched.interrupt_chance = 4
    sched.interruptible = lambda task, code: task.meta.get("busy") and not code.co_filename.endswith("numbertype.py")
  kept = []
  eager = c.chance(1, 3)        # callers write into the lists they get
  stats = {"calls": 0}

  def unchanged(when):
    for e, v in watch:
      now = enc(v)
      if now != e:
        raise Violation("operand-changed", f"{when}: {str(e)[:400]} became {str(now)[:400]}")
    for i, e, v in kept:
      now = enc(v)
      if now != e:
        raise Violation("result-changed", f"{when}: the result of {show(*specs[i])} was {str(e)[:300]} and became {str(now)[:300]}")

  def client(k):
    me = sched.current
    for _ in range(c.between(2, 8)):
      i = c.draw(len(specs))
      op, args = specs[i]
      own = c.chance(1, 4)
      a = [dec(x) for x in args] if own else args_of[i]
      ctx.log("client", k, show(op, args), "on its own values" if own else "")
      me.meta["interrupted"] = 0
      me.meta["busy"] = True
      value = None
      try:
        try:
          value = perform(op, a)
          got = None
        except HarnessError:
          raise
        except Interrupted:
          got = ("interrupted",)
        except Exception as ex:  # noqa
          got = ("raises", type(ex).__name__)
      finally:
        me.meta["busy"] = False
      stats["calls"] += 1
      if me.meta["interrupted"]:
        ctx.probe("calls-interrupted")
        unchanged(f"client {k}, {show(op, args)} interrupted")
        continue
      if got is None:
        got = ("value", enc(value))
      if got != expected[i]:
        raise Violation("result-differs", f"{show(op, args)}: {str(got)[:500]} instead of {str(expected[i])[:500]}")
      unchanged(f"client {k}, after {show(op, args)}")
      if own:
        for x, e in zip(a, args):
          if enc(x) != e:
            raise Violation("operand-changed", f"{show(op, args)}: {str(e)[:300]} became {str(enc(x))[:300]}")
      if got[0] == "value" and type(value) in (list, dict) and op[0] in ("fn", "solver") and not any(value is x for x in a):
        if eager and c.chance(1, 2):
          # the caller goes on to use its list as it likes
          ctx.fault("caller-edits-result")
          if type(value) is list:
            value.append(None) if c.chance(1, 2) or not value else value.clear()
          else:
            value.clear()
        else:
          kept.append((i, got[1], value))
      elif got[0] == "value":
        kept.append((i, got[1], value))
      if len(kept) > 12:
        del kept[c.draw(6)]
      if c.chance(1, 4):
        sched.pause()

  for k in range(clients):
    sched.spawn(f"client{k}", lambda k=k: client(k))
  r = sched.run(lambda: all(t.state == "done" for t in sched.tasks), max_steps=5000)
  sched.close()
  ctx.require(r == "done", "clients-stuck", r)
  for t in sched.tasks:
    if t.exc is not None:
      raise t.exc
  # once more, alone, after everything
  for i, (op, args) in enumerate(specs):
    got = outcome(op, args_of[i])
    ctx.require(got == expected[i], "result-differs",
                lambda: f"afterwards, {show(op, args)}: {str(got)[:500]} instead of {str(expected[i])[:500]}")
  unchanged("at the end")
  ctx.probe("calls", stats["calls"])
  ctx.mark(tuple(show(*s) for s in specs))
  ctx.sample = f"{clients} clients, {mode}, {stats['calls']} calls of {[show(*s)[:80] for s in specs]}, faults {dict(ctx.faults)}"
