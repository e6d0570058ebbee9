"""A small run of the proximity protocol over an affine subspace, as in the repository's test."""
import importlib

_k = {}


def kit(dim=2):
  if _k.get(dim) is None:
    fri = importlib.import_module("starks.fri")
    modp = importlib.import_module("starks.modp")
    pol = importlib.import_module("starks.polynomial")
    ff = importlib.import_module("starks.finitefield")
    rs = importlib.import_module("starks.reedsolomon")
    Zp = modp.IntegersModP(2)
    base = pol.polynomials_over(Zp)
    g = base([0, 1])
    field = ff.FiniteField(2, 10)
    S = rs.AffineSpace(Zp, [g**k for k in range(dim)])
    _k[dim] = (fri.AffineSubspaceFRI(field, S, 1), base([Zp(0), Zp(1)]))
  return _k[dim]


def small_commit():
  f, p = kit()
  return f.commit(p)


def small_query():
  f, p = kit()
  vals = f.commit(p)
  return f.query([p], vals)


def tiny_query():
  """Without any round of folding: milliseconds instead of seconds."""
  f, p = kit(1)
  return f.query([p], [1])
