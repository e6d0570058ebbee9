"""Provers and verifiers of computations exchanging STARK proofs over a faulty network (C16, C17).

Real: starks/stark.py with everything below it (fri, fft, merkle_tree, compression, polynomials, field).
Simulated: network, preempted prover/verifier threads, stitching and corruption of proofs, cheating provers.
Oracle: the computation itself, run on plain integers by the harness.
"""
import copy
import hashlib
import importlib

from .. import seams
from ..core import Violation
from ..net import Bus
from ..sched import Scheduler

RUNS = {
    "C16": {"quick": (2400, 300), "thorough": (40000, 800)},
    "C17": {"quick": (2600, 300), "thorough": (40000, 800)},
}
RULE = {
    "C16": "a run draws computations (field, width, steps, extension, transition polynomials, input, security factor), "
           "proves them in interleaved sessions, also in preempted threads, ships proofs plain or compressed over a "
           "faulty network, and verifies them between rejected ones; non-trivial if a proof was verified; distinct = "
           "distinct computations, schedules and faults",
    "C17": "a run draws computations and delivers altered, stitched, misdirected proofs and the proofs of cheating "
           "provers to the verifier; non-trivial if a proof was judged; distinct = distinct computations and attacks",
}
COMPONENTS = {"real": ["starks/stark.py", "starks/fri.py (SmoothSubgroupFRI)", "starks/fft.py", "starks/merkle_tree.py",
                       "starks/compression.py", "starks/poly_utils.py", "starks/polynomial.py",
                       "starks/multivariate_polynomial.py", "starks/modp.py", "starks/utils.py"],
              "stub": ["network", "thread scheduler", "cheating provers (harness)", "clock"]}
ASSUME = ["blake2s is collision free and its outputs unpredictable", "a verifier that raises refuses",
          "C17: the extension factor is at least four and twice the degree of the transition polynomials, as the protocol needs",
          "fields in which 7 generates the roots of unity, as STARK.__init__ requires"]

BIG = 2**256 - 2**32 * 351 + 1
GOLD = 2**64 - 2**32 + 1
st = mt = fr = cp = None
F = {}
factories = {}


def setup(prop):
  global st, mt, fr, cp
  st = importlib.import_module("starks.stark")
  mt = importlib.import_module("starks.merkle_tree")
  fr = importlib.import_module("starks.fri")
  cp = importlib.import_module("starks.compression")
  modp = importlib.import_module("starks.modp")
  pu = importlib.import_module("starks.poly_utils")
  po = importlib.import_module("starks.polynomial")
  for p in (BIG, GOLD, 65537):
    F[p] = modp.IntegersModP(p)
    factories[p, 0] = po.polynomials_over(F[p]).factory
    for w in range(1, 13):
      factories[p, w] = pu.multivariates_over(F[p], w).factory


# ---- computations -------------------------------------------------------------------------------
class Comp:
  """A computation: transition polynomials as {exponents: coefficient}."""

  def __init__(self, c, sound):
    self.p = BIG if sound else c.weighted([(5, BIG), (2, GOLD), (1, 65537)])
    self.width = c.weighted([(6, 1), (5, 2), (2, 3), (1, c.between(4, 6))]) if not c.chance(1, 30) else c.between(7, 11)
    self.steps = c.weighted([(3, 4), (3, 8), (2, 2), (2, 16)] + ([(1, 32)] if self.width < 3 else []))
    self.ext = c.weighted([(4, 8), (3, 4), (2, 2), (2, 16)])
    if sound and self.ext == 2:
      self.ext = 4
    if self.width > 6:
      self.steps = min(self.steps, 4)
    while self.steps * self.ext > 256 or (self.steps * self.ext > 128 and self.width > 2):
      self.ext //= 2
    if self.steps * self.ext < 4:
      self.ext = 4
    top = self.ext // 2 if sound else self.ext
    top = max(1, min(top, 8 if self.steps <= 8 else 3))
    if self.width > 3:
      top = min(top, 2 if self.steps > 4 else 4)
    self.deg = c.between(1, top)
    # alike: every dimension follows the same rule of its own value, from the same start
    self.alike = self.width > 1 and c.chance(1, 8)
    if self.alike:
      self.deg = c.between(1, min(3, self.deg))
      ks = [self.coef(c) for _ in range(self.deg)] + [self.coef(c) or 1]
      self.rules = [{tuple(n * (i == k) for i in range(self.width)): v for n, v in enumerate(ks)} for k in range(self.width)]
      self.sec = 80
      return
    top, self.deg = self.deg, 1 if c.chance(1, 2 if self.width > 6 else 4) else self.deg    # only one rule reaches the degree
    self.rules = [self.rule(c) for _ in range(self.width)]
    self.deg = top
    j = self.width - 1 if c.chance(1, 3) else c.draw(self.width)             # the degree is reached
    e = [0] * self.width
    for _ in range(self.deg):
      e[c.draw(self.width)] += 1
    if not self.rules[j].get(tuple(e)):
      self.rules[j][tuple(e)] = self.coef(c) or 1
    self.sec = c.weighted([(5, 80), (2, c.between(10, 79)), (1, c.between(1, 9)), (1, c.between(81, 130))])
    if sound:
      self.sec = max(self.sec, 40)

  def coef(self, c):
    return c.pick([1, 1, 2, 0, self.p - 1, 7, c.draw(1 << 62) % self.p, pow(3, c.draw(1 << 30), self.p)])

  def rule(self, c):
    r = {}
    for _ in range(c.between(1, 3)):
      e = [0] * self.width
      for _ in range(c.draw(self.deg + 1)):
        e[c.draw(self.width)] += 1
      r[tuple(e)] = self.coef(c)
    return r

  def value(self, c):
    return c.pick([0, 1, 2, self.p - 1, c.draw(1 << 62) % self.p, pow(5, c.draw(1 << 30), self.p)])

  def input(self, c):
    if self.alike and not c.chance(1, 6):
      return [self.value(c)] * self.width
    return [self.value(c) for _ in range(self.width)]

  def step(self, state):
    out = []
    for r in self.rules:
      t = 0
      for e, k in r.items():
        m = k
        for x, n in zip(state, e):
          if n:
            m = m * pow(x, n, self.p) % self.p
        t += m
      out.append(t % self.p)
    return out

  def trace(self, inp):
    tr = [list(inp)]
    for _ in range(self.steps - 1):
      tr.append(self.step(tr[-1]))
    return tr

  def field(self):
    return F[self.p]

  def polys(self):
    f = self.field()
    return [factories[self.p, self.width]({e: f(k) for e, k in r.items()}) for r in self.rules]

  def stark(self, sec=None):
    return st.STARK(self.field(), self.steps, self.ext, self.width, self.polys(), self.sec if sec is None else sec)

  def witness(self, tr):
    f = self.field()
    return [[f(tr[i][j]) for i in range(len(tr))] for j in range(self.width)]

  def boundary(self, inp):
    f = self.field()
    return [(0, j, f(v)) for j, v in enumerate(inp)]

  def __repr__(self):
    name = {BIG: "2^256-..", GOLD: "2^64-..", 65537: "65537"}[self.p]
    return f"(p={name} width={self.width} steps={self.steps} ext={self.ext} deg={self.deg} sec={self.sec})"


def accepts(stark, proof, witness, boundary):
  try:
    return bool(stark.verify_proof(proof, witness, boundary))
  except Exception:  # noqa: refused
    return False


def ints(w):
  return [[int(x) for x in d] for d in w]


def pack(proof):
  return (proof[0], proof[1], cp.compress_branches(proof[2]), cp.compress_fri(proof[3]))


def unpack(p):
  return [p[0], p[1], cp.decompress_branches(list(p[2])), cp.decompress_fri(list(p[3]))]


def run(ctx):
  (run16 if ctx.prop == "C16" else run17)(ctx)


# ---- C16 ----------------------------------------------------------------------------------------
class Session:
  def __init__(self, ctx, comp, stark):
    c = ctx.c
    self.comp, self.stark = comp, stark
    self.inp = comp.input(c)
    self.tr = comp.trace(self.inp)
    self.wit = comp.witness(self.tr)
    self.bnd = comp.boundary(self.inp)
    self.ints = ints(self.wit)
    self.proof = None
    self.done = False
    self.compressed = c.chance(1, 3)

  def prove(self):
    if self.proof is None:
      self.proof = self.stark.mk_proof(self.wit, self.bnd)
      self.kept = copy.deepcopy(self.proof)
    return self.proof

  def intact(self, ctx, when):
    ctx.require(ints(self.wit) == self.ints, "witness-changed", lambda: f"{self.comp} {when}")
    ctx.require([(i, j, int(v)) for i, j, v in self.bnd] == [(0, j, v) for j, v in enumerate(self.inp)],
                "boundary-changed", lambda: f"{self.comp} {when}")


def run16(ctx):
  c = ctx.c
  comps = [Comp(c, False) for _ in range(c.weighted([(4, 1), (2, 2)]))]
  sessions = []
  starks = [(k, k.stark()) for k in comps]
  for _ in range(c.between(1, 3)):
    comp, shared = c.pick(starks)
    sessions.append(Session(ctx, comp, shared if c.chance(2, 3) else comp.stark()))
    ctx.mark(repr(comp))
  verifiers = [s.stark if c.chance(1, 3) else s.comp.stark() for s in sessions]
  small = all(k.steps * k.ext <= 64 and k.width < 3 for k in comps)
  if small and len(sessions) > 1 and c.chance(1, 3):
    sched = Scheduler(ctx, mode="line", max_preempt=c.between(1, 60), gaps=(20, 300, 3000))
    sched.start_monitoring([k for k in seams.codes if k.co_filename.endswith(
        ("stark.py", "fri.py", "fft.py", "merkle_tree.py", "compression.py", "utils.py", "numbertype.py"))])

    def work(s, v):
      p = s.prove()
      if s.compressed:
        p = unpack(pack(p))
      return v.verify_proof(p, s.wit, s.bnd)
    for i, (s, v) in enumerate(zip(sessions, verifiers)):
      sched.spawn(f"session{i}", lambda s=s, v=v: work(s, v))
    r = sched.run(lambda: all(t.state == "done" for t in sched.tasks), max_steps=2000)
    sched.close()
    ctx.require(r == "done", "sessions-stuck", r)
    for t, s in zip(sched.tasks, sessions):
      if t.exc is not None:
        if isinstance(t.exc, Exception):
          raise Violation("honest-proof-refused", f"{s.comp}: {t.exc!r} in interleaved threads")
        raise t.exc
      ctx.require(t.result, "honest-proof-refused", lambda: f"{s.comp} in interleaved threads")
      s.intact(ctx, "interleaved")
    ctx.nontrivial = True
    ctx.fault("threads-interleaved")
  faulty = c.chance(2, 3)
  bus = Bus(ctx, drop=20 if faulty else 0, dup=15 if faulty else 0)
  bus.sids = range(len(sessions))

  def prover(kind, sid, _):
    s = sessions[sid]
    p = s.prove()
    s.intact(ctx, "after proving")
    bus.send("V", "packed" if s.compressed else "plain", sid, pack(p) if s.compressed else p)

  def verifier(kind, sid, payload):
    s, v = sessions[sid], verifiers[sid]
    if s.done and not c.chance(1, 3):
      return
    if c.chance(1, 6):
      # something that must be refused arrives first
      bad = copy.deepcopy(payload if kind == "plain" else unpack(payload))
      bad[1] = bytes([bad[1][0] ^ 1]) + bad[1][1:]
      ctx.fault("message-corrupted")
      accepts(v, bad, s.wit, s.bnd)
    p = payload if kind == "plain" else unpack(payload)
    if kind == "packed":
      ctx.require(p == s.kept, "compression-altered-proof", lambda: repr(s.comp))
      ctx.probe("compressed")
    try:
      ok = v.verify_proof(p, s.wit, s.bnd)
    except Exception as e:  # noqa: refused
      raise Violation("honest-proof-refused", f"{s.comp} input {s.inp} rules {s.comp.rules}: {e!r}")
    ctx.require(ok, "honest-proof-refused", lambda: f"{s.comp} input {s.inp}: verdict {ok!r}")
    ctx.require(p == s.kept, "verifier-changes-proof", lambda: repr(s.comp))
    s.intact(ctx, "after verifying")
    s.done = True
    ctx.nontrivial = True
  bus.handlers = {"P": prover, "V": verifier}

  def ask(sid, k=0):
    if not sessions[sid].done and k < 12:
      if k > 8:
        bus.rates = dict(drop=0, dup=0, corrupt=0, misdeliver=0)
      bus.send("P", "ask", sid, None)
      bus.at(3.0, lambda: ask(sid, k + 1))
  for sid in range(len(sessions)):
    bus.at(c.pick([0.0, 0.5, 2.0]), lambda sid=sid: ask(sid))
  try:
    ok = bus.run(lambda: all(s.done for s in sessions))
  except Violation:
    raise
  except Exception as e:  # noqa
    raise Violation("honest-proof-not-produced", f"{comps}: {e!r}\ninputs {[s.inp for s in sessions]}\nrules {[k.rules for k in comps]}")
  ctx.require(ok, "proof-never-accepted", lambda: repr(comps))
  for s in sessions:
    ctx.require(s.proof == s.kept, "proof-changed", lambda: repr(s.comp))
  ctx.sample = f"{[repr(s.comp) for s in sessions]} faults {dict(ctx.faults)}"


# ---- C17 ----------------------------------------------------------------------------------------
def leaves_of(proof):
  """Paths to every byte string the verifier reads: (path, bytes)."""
  out = [((0,), proof[0]), ((1,), proof[1])]
  for i, b in enumerate(proof[2]):
    out += [((2, i, k), x) for k, x in enumerate(b)]
  for l, layer in enumerate(proof[3][:-1]):
    out.append(((3, l, 0), layer[0]))
    for y, bs in enumerate(layer[1]):
      for b, br in enumerate(bs):
        out += [((3, l, 1, y, b, k), x) for k, x in enumerate(br)]
  out += [((3, len(proof[3]) - 1, k), x) for k, x in enumerate(proof[3][-1])]
  return out


def put(obj, path, v):
  for k in path[:-1]:
    obj = obj[k]
  obj[path[-1]] = v


def get(obj, path):
  for k in path:
    obj = obj[k]
  return obj


def alter(c, proof, other, used):
  """(label, altered copy) - only parts the verifier has to read."""
  q = copy.deepcopy(proof)
  k = c.draw(13)
  if k <= 3:
    paths = leaves_of(q)
    if c.chance(1, 2):
      group = c.draw(4)
      sub = [x for x in paths if x[0][0] == group]
      paths = sub or paths
    path, x = c.pick(paths) if not c.chance(1, 4) else paths[-1 - c.draw(min(12, len(paths)))]
    i = c.draw(len(x))
    y = c.pick([x[:i] + bytes([x[i] ^ (1 << c.draw(8))]) + x[i + 1:], x[:-1], x[1:] if x[0] else x[:-1], bytes(len(x)),
                x[:i] + bytes([255 - x[i]]) + x[i + 1:]])
    put(q, path, y)
    return "byte-altered", q
  if k == 4:
    del q[2][-1 - c.draw(min(3, len(q[2])))]
    return "openings-truncated", q
  if k == 5:
    i, j = c.draw(len(q[2])), c.draw(len(q[2]))
    q[2][i], q[2][j] = q[2][j], q[2][i]
    return "openings-swapped", q
  if k == 6:
    b = c.pick(q[2])
    if c.chance(1, 2):
      b.pop()
    else:
      b.append(b[-1])
    return "opening-resized", q
  if k == 7 and len(q[3]) > 1:
    l = c.draw(len(q[3]) - 1)
    if c.chance(1, 2):
      del q[3][l]
    else:
      ys = q[3][l][1]
      i, j = c.draw(len(ys)), c.draw(len(ys))
      ys[i], ys[j] = ys[j], ys[i]
    return "low-degree-proof-cut", q
  if k == 8:
    if len(q[3][-1]) > 1:
      i, j = c.draw(len(q[3][-1])), c.draw(len(q[3][-1]))
      if c.chance(1, 2):
        q[3][-1][i], q[3][-1][j] = q[3][-1][j], q[3][-1][i]
      else:
        q[3][-1].pop()
    return "final-layer-altered", q
  if k == 9:
    part = c.draw(4)
    q[part] = copy.deepcopy(other[part])
    return "stitched-part", q
  if k == 10:
    i = c.draw(min(len(q[2]), len(other[2])))
    q[2][i] = copy.deepcopy(other[2][i])
    return "stitched-opening", q
  if k == 11:
    for part in c.subset(range(4)):
      q[part] = copy.deepcopy(other[part])
    return "stitched-parts", q
  i = c.draw(len(q[2]) // 3)
  j = c.draw(len(q[2]) // 3)
  q[2][3 * i:3 * i + 3], q[2][3 * j:3 * j + 3] = q[2][3 * j:3 * j + 3], q[2][3 * i:3 * i + 3]
  return "openings-swapped", q


def same_meaning(a, b):
  """Equal but for leading zeros of the final layer's numbers."""
  try:
    if a[:3] != b[:3] or a[3][:-1] != b[3][:-1]:
      return False
    return [int.from_bytes(x, "big") for x in a[3][-1]] == [int.from_bytes(x, "big") for x in b[3][-1]]
  except Exception:  # noqa
    return False


def run17(ctx):
  c = ctx.c
  if c.chance(1, 60):
    return wide17(ctx)
  comp = Comp(c, True)
  ctx.mark(repr(comp))
  v = comp.stark()
  f = comp.field()

  def claim_true(k, inp, out):
    return k.trace(inp)[-1] == out

  def judge(label, stark, proof, inp, out, k=None):
    k = k or comp
    wit = [[f(o)] for o in out] if c.chance(1, 2) else k.witness([[(x + 1) % k.p for x in out]] * (k.steps - 1) + [out])
    ok = accepts(stark, proof, wit, k.boundary(inp))
    ctx.nontrivial = True
    ctx.probe(("accepted " if ok else "refused ") + label)
    ctx.mark((label, ok))
    return ok

  inps = [comp.input(c) for _ in range(2)]
  traces = [comp.trace(i) for i in inps]
  outs = [t[-1] for t in traces]
  proofs = []
  kinds = c.between(1, 3)
  if kinds & 1:
    for inp, tr in zip(inps, traces):
      s = comp.stark() if c.chance(1, 2) else v
      try:
        proofs.append(s.mk_proof(comp.witness(tr), comp.boundary(inp)))
      except Exception as e:  # noqa: C16 judges this
        ctx.probe("honest-proof-not-produced")
        return
    ctx.require(True, "")
    if not accepts(v, proofs[0], comp.witness(traces[0]), comp.boundary(inps[0])):
      ctx.probe("honest-proof-refused")   # C16 judges this
    # altered in transit
    for _ in range(c.between(2, 6)):
      a = c.draw(2)
      label, q = alter(c, proofs[a], proofs[1 - a], comp)
      ctx.fault(label)
      if same_meaning(q, proofs[a]) or same_meaning(q, proofs[1 - a]):
        if same_meaning(q, proofs[a]):
          continue
        a = 1 - a
        if claim_true(comp, inps[1 - a], outs[1 - a]) and inps[0] == inps[1]:
          continue
        if judge(label, v, q, inps[1 - a], outs[1 - a]):
          raise Violation("accepts-other-claim", f"{comp} {label}")
        continue
      if judge(label, v, q, inps[a], outs[a]):
        if outs[0] == outs[1] and inps[0] == inps[1]:
          continue
        raise Violation("accepts-altered-proof", f"{comp} {label}")
    # delivered for another input, output, rule, size
    for _ in range(c.between(1, 4)):
      a = c.draw(2)
      kind = c.draw(6)
      inp, out, k, s = list(inps[a]), list(outs[a]), comp, v
      if kind == 0:
        j = c.draw(comp.width)
        out[j] = c.pick([(out[j] + 1) % comp.p, 0, inp[j], traces[a][-2][j], outs[1 - a][j], comp.value(c)])
      elif kind == 1:
        j = c.draw(comp.width)
        inp[j] = c.pick([(inp[j] + 1) % comp.p, 0, out[j], traces[a][1][j], inps[1 - a][j], comp.value(c)])
      elif kind == 2:
        inp, out = list(inps[1 - a]), list(outs[1 - a])
        if inp == inps[a]:
          continue
      elif kind == 3:
        k = copy.deepcopy(comp)
        j = k.width - 1 if c.chance(1, 2) else c.draw(k.width)
        e = c.pick(sorted(k.rules[j]))
        k.rules[j][e] = (k.rules[j][e] + c.pick([1, 2, k.p - 1])) % k.p
        if all(not any(e) or not r[e] for r in k.rules for e in r):
          continue
        if k.trace(inp) == traces[a]:
          continue
        s = k.stark()
        if s.get_degree() != v.get_degree():
          continue
      elif kind == 4:
        k = copy.deepcopy(comp)
        k.steps *= 2
        k.ext //= 2
        if k.ext < 2 or k.trace(inp)[-1] == out:
          continue
        s = k.stark()
      else:
        perm = c.shuffled(range(comp.width))
        inp = [inp[i] for i in perm]
        out = [out[i] for i in c.shuffled(range(comp.width))]
      if (inp, out) == (inps[a], outs[a]) and k is comp:
        continue
      label = ["other-output", "other-input", "other-session", "other-rule", "other-size", "permuted"][kind]
      ctx.fault("claim-" + label)
      if judge(label, s, proofs[a], inp, out, k):
        raise Violation("accepts-other-claim", f"{comp} {label}: input {inp} output {out} (proved {inps[a]} -> {outs[a]})")
  if kinds & 2:
    for _ in range(c.between(1, 3)):
      cheat(ctx, c, comp, v, judge)
  ctx.sample = f"{comp} faults {dict(ctx.faults)}"


# -- cheating provers: plain integer arithmetic, the repository's trees and low-degree proofs ------
def idft(vals, root, p):
  n = len(vals)
  inv_n, r = pow(n, -1, p), pow(root, -1, p)
  pw = [1] * n
  for i in range(1, n):
    pw[i] = pw[i - 1] * r % p
  return [sum(v * pw[i * j % n] for j, v in enumerate(vals)) * inv_n % p for i in range(n)]


def evaluate(coefs, root, n, p):
  pw = [1] * n
  for i in range(1, n):
    pw[i] = pw[i - 1] * root % p
  return [sum(k * pw[i * j % n] for j, k in enumerate(coefs)) % p for i in range(n)]


def interp_some(idx, vals, root, n, p):
  """Coefficients of the polynomial of degree < len(idx) through (root^i, vals[i])."""
  xs = [pow(root, i, p) for i in idx]
  # Newton
  m = len(xs)
  d = [vals[i] for i in idx]
  for j in range(1, m):
    for i in range(m - 1, j - 1, -1):
      d[i] = (d[i] - d[i - 1]) * pow(xs[i] - xs[i - j], -1, p) % p
  coefs = [0]
  for i in range(m - 1, -1, -1):
    new = [0] + coefs
    for k, a in enumerate(coefs):
      new[k] = (new[k] - xs[i] * a) % p
    new[0] = (new[0] + d[i]) % p
    coefs = new
  return coefs[:m] if m else [0]


# the trees as the harness understands them (checked against the repository's before they are used)
def hash_pair(l, r, leaves):
  return hashlib.blake2s((b"leaf" if leaves else b"node") + len(l).to_bytes(8, "big") + l + r).digest()


def permuted(i, n):
  return i // (n // 4) + 4 * (i % (n // 4))


def as_bytes(x):
  return x if isinstance(x, bytes) else x.to_bytes(32, "big")


class Tree:
  """A Merkle tree; with `deep`, one that opens to other leaves when the branches are longer.

  Nobody opens the two leaves at the far left (positions 0 and n/4, which are never sampled), so in their place a
  whole second tree can hang.
  """

  def __init__(self, leaves, deep=None):
    self.n = n = len(leaves)
    self.k = n.bit_length() - 1
    self.nodes = nodes = [b""] * (2 * n)
    for i, x in enumerate(leaves):
      nodes[n + permuted(i, n)] = as_bytes(x)
    self.inner = None
    if deep is not None:
      self.deep = [as_bytes(x) for x in deep]
      self.inner = inner = [b""] * (2 * n)
      for i, x in enumerate(self.deep):
        inner[n + i] = hash_pair(hash_pair(x, b"", True), b"", False)
      for i in range(n - 1, 0, -1):
        inner[i] = hash_pair(inner[2 * i], inner[2 * i + 1], False)
    for i in range(n - 1, 0, -1):
      nodes[i] = hash_pair(nodes[2 * i], nodes[2 * i + 1], i >= n // 2)
      if deep is not None and i == n // 2:
        nodes[i] = self.inner[1]
    self.root = nodes[1]

  def put(self, pos, leaf):
    n = self.n
    i = n + permuted(pos, n)
    self.nodes[i] = as_bytes(leaf)
    while i > 1:
      i //= 2
      self.nodes[i] = hash_pair(self.nodes[2 * i], self.nodes[2 * i + 1], i >= n // 2)
    self.root = self.nodes[1]

  def branch(self, pos, deep=False):
    n = self.n
    if not deep or self.inner is None:
      i = n + permuted(pos, n)
      o = [self.nodes[i]]
    else:
      o = [self.deep[pos], b"", b""]
      i = n + pos
      while i > 1:
        o.append(self.inner[i ^ 1])
        i //= 2
      i = n // 2
    while i > 1:
      o.append(self.nodes[i ^ 1])
      i //= 2
    return o


def trees_agree():
  """Does the harness build the same trees as the repository?  (Judged by C14; here only a precondition.)"""
  try:
    xs = list(range(5, 21))
    t, m = Tree(xs), mt.merkelize(xs)
    d = Tree(xs, deep=[x + 100 for x in xs])
    return (t.root == m[1] and t.branch(6) == mt.mk_branch(m, 6) and
            mt.verify_branch(d.root, 7, d.branch(7)) == as_bytes(12) and
            mt.verify_branch(d.root, 7, d.branch(7, True)) == as_bytes(112))
  except Exception:  # noqa
    return False


def spot_positions(stark, m_root, l_root, n, ext, samples):
  """Where the verifier will look: asked from the repository's prover, with trees that spell out the positions."""
  try:
    nodes = [b""] * n + [b""] * n
    for i in range(n):
      nodes[n + permuted(i, n)] = i
    a, b = list(nodes), list(nodes)
    a[1], b[1] = m_root, l_root
    br = stark.compute_merkle_spot_checks(a, b, samples)
    return [x[0] for x in br[0::3]]
  except Exception:  # noqa: other interface
    return list(st.get_pseudorandom_indices(mt.blake(m_root + l_root), n, samples, exclude_multiples_of=ext))


def row_indices(root, root2, q, ext, how=0, samples=40):
  seed = [mt.blake(root + root2), root2, root][how]
  return list(st.get_pseudorandom_indices(seed, q, samples, exclude_multiples_of=ext))


def fold_row(p, rx, ry, sx):
  t = 0
  for a in range(4):
    num, den = ry[a], 1
    for b in range(4):
      if a != b:
        num = num * (sx - rx[b]) % p
        den = den * (rx[a] - rx[b]) % p
    t += num * pow(den, -1, p)
  return t % p


def fri_tower(words, trees, root, bound, ext, p, deep=(), how=0, samples=40):
  """Openings and final layer of a proximity proof over given words and trees (one pair per layer).

  `deep[l]` opens the rows of layer l, or its column, along the long branches."""
  out = []
  n = len(words[0])
  for l in range(len(words) - 1):
    q = n // 4
    ys = row_indices(trees[l].root, trees[l + 1].root, q, ext, how, samples)
    rows, cols = deep[l] if l < len(deep) else (False, False)
    out.append([trees[l + 1].root, [[trees[l + 1].branch(y, cols)] + [trees[l].branch(y + q * j, rows) for j in range(4)]
                                    for y in ys]])
    n = q
  out.append([v.to_bytes(32, "big") for v in words[-1]])
  return out


def fold_all(word, tree_root, G2, p):
  """The next layer of a word, for the point its tree dictates."""
  n = len(word)
  q = n // 4
  sx = int.from_bytes(tree_root, "big") % p
  w4 = pow(G2, q, p)
  quart = [pow(w4, j, p) for j in range(4)]
  out, x0 = [], 1
  for i in range(q):
    out.append(fold_row(p, [x0 * t % p for t in quart], [word[i + q * j] for j in range(4)], sx))
    x0 = x0 * G2 % p
  return out


def layers_for(bound):
  k = 0
  while bound > 16:
    bound = (bound + 3) // 4
    k += 1
  return k


def shifts(comp, G2):
  """What trace and boundary polynomials are multiplied by at each position, so that their degree counts."""
  n = comp.steps * comp.ext
  pw = [1] * n
  for i in range(1, n):
    pw[i] = pw[i - 1] * G2 % comp.p
  return [pw[i * comp.steps * (comp.deg - 1) % n] for i in range(n)]


def two_faced(ctx, c, comp, v, judge):
  """Trees that open to one thing along short branches and to another along long ones."""
  p, w, n, steps, ext = comp.p, comp.width, comp.steps * comp.ext, comp.steps, comp.ext
  if steps < 4 or n < 16 or not trees_agree():
    return
  bound = steps * comp.deg
  G2 = pow(7, (p - 1) // n, p)
  last = pow(G2, (steps - 1) * ext, p)
  inp = comp.input(c)
  out = list(comp.trace(inp)[-1])
  out[c.draw(w)] = comp.value(c)
  if comp.trace(inp)[-1] == out:
    return
  good = [i for i in range(n) if i % ext]
  xs = [pow(G2, i, p) for i in range(n)]
  nl = layers_for(bound)
  ways = ["neighbour", "neighbour", "role-one", "both"] + (["combination", "rows", "combination", "rows"] if nl else []) + (
      ["columns"] * 2 if nl > 1 else [])
  way = c.pick(ways)
  inter = []
  for j in range(w):
    slope = (out[j] - inp[j]) * pow(last - 1, -1, p) % p
    inter.append((slope, (inp[j] - slope) % p))
  pad = [b"".join(comp.value(c).to_bytes(32, "big") for _ in range(3 * w))] * n
  if way in ("neighbour", "role-one", "both"):
    # P is the line between input and output: no remainder, no boundary quotient, and a neighbour made to fit
    P = [[(a * x + b) % p for x in xs] for a, b in inter]
    first = [b"".join(P[j][i].to_bytes(32, "big") for j in range(w)) + bytes(64 * w) for i in range(n)]
    second = list(pad)
    for i in good:
      nxt = comp.step([P[j][i] for j in range(w)])
      second[(i + ext) % n] = b"".join(y.to_bytes(32, "big") for y in nxt) + bytes(64 * w)
    if way == "neighbour":
      m, roles = Tree(first, second), (False, True)
    else:
      m, roles = Tree(second, first), (True, False)
    ks = st.get_pseudorandom_ks(m.root, 4)
    lks = st.get_pseudorandom_ks(m.root, w)
    power, sh = pow(G2, steps * (n - 1), p), shifts(comp, G2)
    L = [sum(P[j][i] * (ks[0] + ks[1] * sh[i]) * (1 + lks[j] * power) for j in range(w)) % p for i in range(n)]
    words, trees = [L], [Tree(L)]
    b, g = bound, G2
    while b > 16:
      words.append(fold_all(words[-1], trees[-1].root, g, p))
      trees.append(Tree(words[-1]))
      b, g = b // 4, pow(g, 4, p)
    low = fri_tower(words, trees, G2, bound, ext, p)
    spot, lt = False, trees[0]
  else:
    # noise that meets the constraints everywhere, and a combination nobody may look at twice
    P = [[c.draw(1 << 60) for _ in range(n)] for _ in range(w)]
    D, B = [[0] * n for _ in range(w)], [[0] * n for _ in range(w)]
    for i in good:
      x = xs[i]
      zi = (x - last) * pow(pow(x, steps, p) - 1, -1, p) % p
      nxt = comp.step([P[j][i] for j in range(w)])
      z2i = pow((x - 1) * (x - last), -1, p)
      for j in range(w):
        D[j][i] = (P[j][(i + ext) % n] - nxt[j]) * zi % p
        B[j][i] = (P[j][i] - inter[j][0] * x - inter[j][1]) * z2i % p
    m, roles = Tree([b"".join(fn[j][i].to_bytes(32, "big") for fn in (P, D, B) for j in range(w)) for i in range(n)]), (False, False)
    ks = st.get_pseudorandom_ks(m.root, 4)
    lks = st.get_pseudorandom_ks(m.root, w)
    power, sh = pow(G2, steps * (n - 1), p), shifts(comp, G2)
    L = [sum((D[j][i] + P[j][i] * (ks[0] + ks[1] * sh[i]) + B[j][i] * (ks[2] + ks[3] * sh[i])) * (1 + lks[j] * power)
             for j in range(w)) % p for i in range(n)]
    zero = [[0] * (n // 4**l) for l in range(nl + 1)]
    if way == "combination":       # checked along long branches, proved low along the short ones
      trees, words = [Tree(zero[0], L)] + [Tree(z) for z in zero[1:]], zero
      low, spot = fri_tower(words, trees, G2, bound, ext, p), True
    elif way == "rows":
      trees, words = [Tree(L, zero[0])] + [Tree(z) for z in zero[1:]], zero
      low, spot = fri_tower(words, trees, G2, bound, ext, p, [(True, False)]), False
    else:
      # the first column is the true one when it is checked, and nothing when it is folded
      t0 = Tree(L)
      col = fold_all(L, t0.root, G2, p)
      deepcol = c.chance(1, 2)
      trees = [t0, Tree(zero[1], col) if deepcol else Tree(col, zero[1])] + [Tree(z) for z in zero[2:]]
      low = fri_tower(zero, trees, G2, bound, ext, p, [(False, deepcol), (not deepcol, False)])
      spot = False
    lt = trees[0]
  branches = []
  for pos in spot_positions(v, m.root, lt.root, n, ext, comp.sec):
    branches += [m.branch(pos, roles[0]), m.branch((pos + ext) % n, roles[1]), lt.branch(pos, spot)]
  ctx.fault("cheat-two-trees")
  ctx.probe("two-trees-" + way)
  if judge("cheat-two-trees", v, [m.root, lt.root, branches, low], inp, out):
    raise Violation("accepts-false-claim", f"{comp} two trees/{way}: input {inp} output {out}, true output {comp.trace(inp)[-1]}; "
                    f"rules {comp.rules}")


class Wide(Comp):
  """A long computation of a single simple rule: so many positions that the sampled ones are few among them."""

  def __init__(self, c):
    self.p, self.width, self.alike = BIG, 1, False
    self.steps, self.ext = c.pick([(512, 16), (256, 32), (1024, 8)])
    self.deg = c.between(1, 2)
    self.sec = c.pick([40, 60, 80])
    self.rules = [{(0,): 1 + c.draw(100), (self.deg,): 1 + c.draw(100)}]


def wide17(ctx):
  """Attacks that need room: words chosen after the places where they will be looked at are known."""
  c = ctx.c
  comp = Wide(c)
  p, n, steps, ext = comp.p, comp.steps * comp.ext, comp.steps, comp.ext
  if not trees_agree():
    return
  v = comp.stark()
  bound = steps * comp.deg
  G2 = pow(7, (p - 1) // n, p)
  last = pow(G2, (steps - 1) * ext, p)
  nl = layers_for(bound)
  way = c.pick(["zero-claim", "rows-first", "column-first"])
  ctx.mark((repr(comp), way, c.seed64()))
  zero = [[0] * (n // 4**l) for l in range(nl + 1)]
  f0 = comp.step([0])[0]
  if way == "zero-claim":
    # the combination is nothing; where it will be looked at, so is everything else
    inp, out = [0], [0]
    trees = [Tree(z) for z in zero]
    lt = trees[0]
    pos = spot_positions(v, bytes(32), lt.root, n, ext, comp.sec)
    leaf = [bytes(96)] * n
    for i in pos:
      leaf[(i + ext) % n] = f0.to_bytes(32, "big") + bytes(64)
    m = Tree(leaf)
    low = fri_tower(zero, trees, G2, bound, ext, p)
  else:
    inp = [comp.value(c)]
    out = [comp.value(c)]
    slope = (out[0] - inp[0]) * pow(last - 1, -1, p) % p
    icept = (inp[0] - slope) % p
    P = [c.draw(1 << 60) for _ in range(n)]
    D, B = [0] * n, [0] * n
    x = 1
    xs = []
    for i in range(n):
      xs.append(x)
      x = x * G2 % p
    # x^steps takes only `ext` values; one inversion each, one more per position for the rest
    zs = {}
    for i in range(n):
      if i % ext:
        x = xs[i]
        k = i % ext
        if k not in zs:
          zs[k] = pow(pow(x, steps, p) - 1, -1, p)
        D[i] = (P[(i + ext) % n] - comp.step([P[i]])[0]) * (x - last) % p * zs[k] % p
        B[i] = (P[i] - slope * x - icept) * pow((x - 1) * (x - last), -1, p) % p
    m = Tree([b"".join(fn[i].to_bytes(32, "big") for fn in (P, D, B)) for i in range(n)])
    ks = st.get_pseudorandom_ks(m.root, 4)
    lk = st.get_pseudorandom_ks(m.root, 1)[0]
    power, sh = pow(G2, steps * (n - 1), p), shifts(comp, G2)
    L = [(D[i] + P[i] * (ks[0] + ks[1] * sh[i]) + B[i] * (ks[2] + ks[3] * sh[i])) * (1 + lk * power) % p for i in range(n)]
    q = n // 4
    if way == "column-first":
      # the column is nothing; the rows that will be compared with it are made nothing
      trees = [None] + [Tree(z) for z in zero[1:]]
      for y in row_indices(bytes(32), trees[1].root, q, ext, how=1):
        for j in range(4):
          L[y + q * j] = 0
      trees[0] = Tree(L)
      low = fri_tower(zero, trees, G2, bound, ext, p, how=c.pick([0, 1]))
    else:
      # the word is noise; the column is right where it will be compared, and of low degree
      t0 = Tree(L)
      sx = int.from_bytes(t0.root, "big") % p
      w4, g = pow(G2, q, p), pow(G2, 4, p)
      vals = [0] * q
      ys = row_indices(t0.root, bytes(32), q, ext, how=2)
      for y in ys:
        vals[y] = fold_row(p, [xs[y] * pow(w4, j, p) % p for j in range(4)], [L[y + q * j] for j in range(4)], sx)
      words, trees = [L, evaluate(interp_some(sorted(set(ys)), vals, g, q, p), g, q, p)], [t0]
      trees.append(Tree(words[1]))
      while len(words) <= nl:
        words.append(fold_all(words[-1], trees[-1].root, g, p))
        trees.append(Tree(words[-1]))
        g = pow(g, 4, p)
      low = fri_tower(words, trees, G2, bound, ext, p, how=c.pick([0, 2]))
  if comp.trace(inp)[-1] == out:
    return
  lt = trees[0]
  branches = []
  for i in spot_positions(v, m.root, lt.root, n, ext, comp.sec):
    branches += [m.branch(i), m.branch((i + ext) % n), lt.branch(i)]
  ctx.fault("cheat-" + way)
  ok = accepts(v, [m.root, lt.root, branches, low], [[comp.field()(out[0])]], comp.boundary(inp))
  ctx.nontrivial = True
  ctx.probe(("accepted " if ok else "refused ") + "cheat-" + way)
  ctx.sample = f"{comp} {way}"
  if ok:
    raise Violation("accepts-false-claim", f"{comp} {way}: input {inp} output {out}, true output {comp.trace(inp)[-1]}; rules {comp.rules}")


def zero_proof(n, G2, bound, ext, p):
  trees = [Tree([0] * (n // 4**l)) for l in range(layers_for(bound) + 1)]
  return trees[0], fri_tower([[0] * t.n for t in trees], trees, G2, bound, ext, p)


def solve(A, b, p):
  """x with A x = b mod p, or None."""
  w = len(b)
  M = [list(r) + [v] for r, v in zip(A, b)]
  for i in range(w):
    k = next((r for r in range(i, w) if M[r][i] % p), None)
    if k is None:
      return None
    M[i], M[k] = M[k], M[i]
    inv = pow(M[i][i], -1, p)
    M[i] = [x * inv % p for x in M[i]]
    for r in range(w):
      if r != i and M[r][i]:
        q = M[r][i]
        M[r] = [(x - q * y) % p for x, y in zip(M[r], M[i])]
  return [r[-1] for r in M]


def known_factors(ctx, c, comp, v, judge):
  """The factors of the combination are taken to be those of an earlier proof: everything is made to cancel out."""
  p, w, n, steps, ext = comp.p, comp.width, comp.steps * comp.ext, comp.steps, comp.ext
  if any(sum(e) > 1 and k % p for r in comp.rules for e, k in r.items()) or w > 4 or not trees_agree() or steps < 4:
    return
  bound = steps * comp.deg
  G2 = pow(7, (p - 1) // n, p)
  last = pow(G2, (steps - 1) * ext, p)
  inp = comp.input(c)
  out = list(comp.trace(inp)[-1])
  out[c.draw(w)] = comp.value(c)
  if comp.trace(inp)[-1] == out:
    return
  guess = st.get_pseudorandom_ks(c.pick([bytes(32), b"x" * 32]), 4)
  sh = shifts(comp, G2)
  const = [r.get((0,) * w, 0) for r in comp.rules]
  lin = [[r.get(tuple(int(i == j) for i in range(w)), 0) for j in range(w)] for r in comp.rules]
  inter = []
  for j in range(w):
    slope = (out[j] - inp[j]) * pow(last - 1, -1, p) % p
    inter.append((slope, (inp[j] - slope) % p))
  P = [[0] * n for _ in range(w)]
  D, B = [[0] * n for _ in range(w)], [[0] * n for _ in range(w)]
  for coset in range(1, ext):
    pos = [(coset + ext * t) % n for t in range(steps)]
    maps = []
    M, t0 = [[int(i == j) for j in range(w)] for i in range(w)], [0] * w
    for i in pos:
      x = pow(G2, i, p)
      z = (pow(x, steps, p) - 1) * pow(x - last, -1, p) % p
      z2 = pow((x - 1) * (x - last), -1, p)
      a, b = (guess[0] + guess[1] * sh[i]) % p, (guess[2] + guess[3] * sh[i]) % p
      # next = lin P + const + z D,  D = -(a P + b B),  B = (P - I) / Z2
      A = [[(lin[r][k] - (z * (a + b * z2) if r == k else 0)) % p for k in range(w)] for r in range(w)]
      d = [(const[r] + z * b * z2 * (inter[r][0] * x + inter[r][1])) % p for r in range(w)]
      maps.append((A, d, z2, x, a, b))
      t0 = [(sum(A[r][k] * t0[k] for k in range(w)) + d[r]) % p for r in range(w)]
      M = [[sum(A[r][k] * M[k][q] for k in range(w)) % p for q in range(w)] for r in range(w)]
    cur = solve([[(int(r == k) - M[r][k]) % p for k in range(w)] for r in range(w)], t0, p)
    if cur is None:
      return
    for i, (A, d, z2, x, a, b) in zip(pos, maps):
      for j in range(w):
        P[j][i] = cur[j]
        B[j][i] = (cur[j] - inter[j][0] * x - inter[j][1]) * z2 % p
        D[j][i] = -(a * cur[j] + b * B[j][i]) % p
      cur = [(sum(A[r][k] * cur[k] for k in range(w)) + d[r]) % p for r in range(w)]
  m = Tree([b"".join(fn[j][i].to_bytes(32, "big") for fn in (P, D, B) for j in range(w)) for i in range(n)])
  lt, low = zero_proof(n, G2, bound, ext, p)
  branches = []
  for i in spot_positions(v, m.root, lt.root, n, ext, comp.sec):
    branches += [m.branch(i), m.branch((i + ext) % n), lt.branch(i)]
  ctx.fault("cheat-known-factors")
  if judge("cheat-known-factors", v, [m.root, lt.root, branches, low], inp, out):
    raise Violation("accepts-false-claim", f"{comp} known factors: input {inp} output {out}, true output {comp.trace(inp)[-1]}; "
                    f"rules {comp.rules}")


class Slack(Comp):
  """A register that is merely multiplied, and one that adds up its squares."""

  def __init__(self, c):
    self.p, self.width, self.alike = BIG, c.weighted([(4, 2), (1, 3)]), False
    self.steps, self.ext, self.deg = c.pick([2, 4, 8, 16]), 4, 2
    self.sec = c.pick([40, 60, 80])
    self.m = c.between(self.steps // 2, self.steps - 1)
    g = pow(7, (self.p - 1) // self.steps, self.p)
    w = self.width
    self.rules = [{(1,) + (0,) * (w - 1): 1 + c.draw(3), (0, 2) + (0,) * (w - 2): self.coef(c) or 1, (0,) * w: self.coef(c)},
                  {(0, 1) + (0,) * (w - 2): pow(g, self.m, self.p)}] + [self.rule(c) for _ in range(w - 2)]


def slack(ctx, c, judge):
  """A committed register of twice the degree of a trace is right at the steps; between them, where the verifier looks, its
  square wraps around and hides an error of the other register."""
  comp = Slack(c)
  p, w, n, steps, ext = comp.p, comp.width, comp.steps * comp.ext, comp.steps, comp.ext
  G2 = pow(7, (p - 1) // n, p)
  G1, last = pow(G2, ext, p), pow(G2, (steps - 1) * ext, p)
  bound = steps * comp.deg
  inp = comp.input(c)
  s = 1 + c.draw(1000)
  beta = comp.rules[0][(0, 2) + (0,) * (w - 2)]
  true = comp.trace(inp)
  tr = [list(t) for t in true]
  for i in range(1, steps):
    err = (-4 * s * s * beta * pow(G1, (i - 1) * (2 * comp.m - steps), p)) % p
    state = [tr[i - 1][0]] + true[i - 1][1:]
    tr[i][0] = (comp.step(state)[0] + err) % p
  out = list(tr[-1])
  if out == true[-1] or any(e[0] for r in comp.rules[1:] for e in r):
    return
  P = [idft([tr[i][j] for i in range(steps)], G1, p) for j in range(w)]
  P[1] = P[1] + [0] * steps
  P[1][comp.m] = (P[1][comp.m] - s) % p
  P[1][comp.m + steps] = s
  P = [evaluate(q, G2, n, p) for q in P]
  D, B = [[0] * n for _ in range(w)], [[0] * n for _ in range(w)]
  good = [i for i in range(n) if i % ext]
  for j in range(w):
    slope = (out[j] - inp[j]) * pow(last - 1, -1, p) % p
    for i in good:
      x = pow(G2, i, p)
      D[j][i] = (P[j][(i + ext) % n] - comp.step([q[i] for q in P])[j]) * (x - last) * pow(pow(x, steps, p) - 1, -1, p) % p
      B[j][i] = (P[j][i] - slope * (x - 1) - inp[j]) * pow((x - 1) * (x - last), -1, p) % p
  m = mt.merkelize([b"".join((fn[j][i]).to_bytes(32, "big") for fn in (P, D, B) for j in range(w)) for i in range(n)])
  ks, lks = st.get_pseudorandom_ks(m[1], 4), st.get_pseudorandom_ks(m[1], w)
  power = pow(G2, steps * (n - 1), p)
  sh = c.pick([shifts(comp, G2), [power] * n])
  L = [sum((D[j][i] + P[j][i] * (ks[0] + ks[1] * sh[i]) + B[j][i] * (ks[2] + ks[3] * sh[i])) * (1 + lks[j] * power)
           for j in range(w)) % p for i in range(n)]
  coefs = interp_some(good[:bound], L, G2, n, p)
  lt = mt.merkelize(evaluate(coefs, G2, n, p))
  v, f = comp.stark(), comp.field()
  low = fr.SmoothSubgroupFRI(f).generate_proximity_proof(factories[p, 0](trim(coefs, f)), f(G2), bound, exclude_multiples_of=ext)
  branches = []
  for pos in spot_positions(v, m[1], lt[1], n, ext, comp.sec):
    branches += [mt.mk_branch(m, pos), mt.mk_branch(m, (pos + ext) % n), mt.mk_branch(lt, pos)]
  ctx.fault("cheat-slack")
  if judge("cheat-slack", v, [m[1], lt[1], branches, low], inp, out, comp):
    raise Violation("accepts-false-claim", f"{comp} slack: input {inp} output {out}, true output {true[-1]}; rules {comp.rules}")


def cheat(ctx, c, comp, v, judge):
  k = c.draw(8)
  if k == 3:
    return slack(ctx, c, judge)
  if k < 2:
    return two_faced(ctx, c, comp, v, judge)
  if k == 2:
    return known_factors(ctx, c, comp, v, judge)
  p, w, n, steps, ext = comp.p, comp.width, comp.steps * comp.ext, comp.steps, comp.ext
  G2 = pow(7, (p - 1) // n, p)
  G1 = pow(G2, ext, p)
  xs = [1] * n
  for i in range(1, n):
    xs[i] = xs[i - 1] * G2 % p
  last = xs[(steps - 1) * ext]
  bound = steps * comp.deg
  inp = comp.input(c)
  tr = comp.trace(inp)
  out = list(tr[-1])
  # the lie
  way = c.weighted([(3, "pointwise"), (2, "low-degree-parts"), (3, "unlinked"), (2, "partly-linked"), (2, "adaptive"),
                    (2, "forged-folding"), (1, "other-root"), (3, "omitted-term"), (2, "skipped-step"), (2, "half-boundary")])
  omit = at = None
  lie = c.draw(4)
  if way == "omitted-term":
    omit = c.pick(["B", "D", "dims", "dims"] if w > 1 else ["B", "D"])
    lie = {"B": c.between(1, 2), "D": c.pick([0, 3]), "dims": c.between(1, 2)}[omit]
  elif way == "skipped-step":
    lie = 0
  elif way == "half-boundary":
    lie = c.between(1, 2)
  if lie == 0 and steps > 1:          # a transition is violated, later ones hold
    at = c.weighted([(1, 1), (1, steps - 1), (2, 1 + c.draw(steps - 1))])
    j = c.draw(w)
    tr[at][j] = (tr[at][j] + 1 + c.draw(5)) % p
    for i in range(at + 1, steps):
      tr[i] = comp.step(tr[i - 1])
    out = list(tr[-1])
    name = "transition"
  elif lie == 1:                       # the output is claimed to be something else
    j = c.draw(w)
    liar = j
    out[j] = (out[j] + 1 + c.draw(5)) % p
    name = "output"
  elif lie == 2:                       # the input is claimed to be something else
    j = c.draw(w)
    liar = j
    inp = list(inp)
    inp[j] = (inp[j] + 1 + c.draw(5)) % p
    name = "input"
  else:                                # the trace is noise between claimed input and output
    for i in range(1, steps):
      tr[i] = [c.draw(1 << 60) for _ in range(w)]
    if c.chance(1, 2) or omit:
      out = list(tr[-1])
    name = "noise"
  if comp.trace(inp)[-1] == out:
    return
  P = [evaluate(idft([tr[i][j] for i in range(steps)], G1, p), G2, n, p) for j in range(w)]
  D, B = [[0] * n for _ in range(w)], [[0] * n for _ in range(w)]
  inter = []
  for j in range(w):
    slope = (out[j] - inp[j]) * pow(last - 1, -1, p) % p
    inter.append((slope, (inp[j] - slope) % p))
  good = [i for i in range(n) if i % ext]
  for i in good:
    x = xs[i]
    zi = (x - last) * pow(pow(x, steps, p) - 1, -1, p) % p
    nxt = comp.step([P[j][i] for j in range(w)])
    z2i = pow((x - 1) * (x - last), -1, p)
    if way == "skipped-step":            # as if nothing were required of the step that is wrong
      zi = zi * (x - xs[(at - 1) * ext]) % p
    elif way == "half-boundary":         # as if nothing were required of the end that is wrong
      z2i = z2i * ((x - last) if lie == 1 else (x - 1)) % p
    for j in range(w):
      D[j][i] = (P[j][(i + ext) % n] - nxt[j]) * zi % p
      B[j][i] = (P[j][i] - inter[j][0] * x - inter[j][1]) * z2i % p
  # what is done about it
  pts = min(bound, len(good))
  if way == "low-degree-parts":
    # low-degree D and B that satisfy the constraints at as many points as possible
    for j in range(w):
      for fn in (D, B):
        chosen = sorted(c.shuffled(good)[:pts])
        fn[j] = evaluate(interp_some(chosen, fn[j], G2, n, p), G2, n, p)
  leaves = [b"".join((fn[j][i]).to_bytes(32, "big") for fn in (P, D, B) for j in range(w)) for i in range(n)]
  m = mt.merkelize(leaves)
  ks = st.get_pseudorandom_ks(m[1], 4)
  lks = st.get_pseudorandom_ks(m[1], w)
  power, sh = pow(G2, steps * (n - 1), p), shifts(comp, G2)
  L = [sum((D[j][i] + P[j][i] * (ks[0] + ks[1] * sh[i]) + B[j][i] * (ks[2] + ks[3] * sh[i])) * (1 + lks[j] * power)
           for j in range(w)) % p for i in range(n)]
  if way == "omitted-term":
    dims = [j for j in range(w) if omit != "dims" or j != liar]
    if omit == "dims" and c.chance(1, 2):
      dims = c.pick([[j for j in range(liar)], [j for j in range(liar + 1, w)]]) or dims
    L = [sum(((0 if omit == "D" else D[j][i]) + P[j][i] * (ks[0] + ks[1] * sh[i]) +
              (0 if omit == "B" else B[j][i] * (ks[2] + ks[3] * sh[i]))) * (1 + lks[j] * power) for j in dims) % p
         for i in range(n)]
    if len(dims) < w or omit != "dims":
      # the excluded points are free: fill them in from the others
      chosen = good[:pts]
      L = evaluate(interp_some(chosen, L, G2, n, p), G2, n, p)
  elif way in ("skipped-step", "half-boundary"):
    L = evaluate(interp_some(good[:pts], L, G2, n, p), G2, n, p)
  samples = comp.sec
  stark = v
  positions = None
  if way == "unlinked":
    coefs = c.pick([[0], [1], [c.draw(1 << 60) for _ in range(max(1, bound - 1))]])
    L = evaluate(coefs, G2, n, p)
  elif way in ("partly-linked", "forged-folding") or way == "other-root":
    chosen = sorted(c.shuffled(good)[:pts])
    near = evaluate(interp_some(chosen, L, G2, n, p), G2, n, p)
    if way == "partly-linked":
      L = near
  elif way == "adaptive":
    samples = c.between(8, max(8, min(16, pts)))
    stark = comp.stark(samples)
    # the positions do not depend on the combination, hopes the cheat
    positions = (list(st.get_pseudorandom_indices(m[1], n, samples, exclude_multiples_of=ext)) if c.chance(1, 2) else
                 spot_positions(stark, m[1], bytes(32), n, ext, samples))
    chosen = list(dict.fromkeys(positions))
    if len(chosen) > pts:
      return
    for i in c.shuffled(good):
      if len(chosen) < pts and i not in chosen:
        chosen.append(i)
    L = evaluate(interp_some(sorted(chosen), L, G2, n, p), G2, n, p)
  f = comp.field()
  lt = mt.merkelize(list(L))
  fri = fr.SmoothSubgroupFRI(f) if hasattr(fr, "SmoothSubgroupFRI") else st.FRI(f)
  if way == "forged-folding":
    low = forged_fri(c, f, L, near, G2, bound, ext, p)
  elif way == "other-root":
    low = fri.generate_proximity_proof(factories[p, 0](trim(idft(near, G2, p), f)), f(G2), bound, exclude_multiples_of=ext)
  else:
    low = fri.generate_proximity_proof(factories[p, 0](trim(idft(L, G2, p), f)), f(G2), bound, exclude_multiples_of=ext)
  if positions is None:
    positions = spot_positions(stark, m[1], lt[1], n, ext, samples)
  branches = []
  for pos in positions:
    branches += [mt.mk_branch(m, pos), mt.mk_branch(m, (pos + ext) % n), mt.mk_branch(lt, pos)]
  ctx.fault("cheat-" + way)
  ctx.probe("lie-" + name)
  if judge("cheat-" + way, stark, [m[1], lt[1], branches, low], inp, out):
    raise Violation("accepts-false-claim", f"{comp} {way}/{name}: input {inp} output {out}, true output {comp.trace(inp)[-1]}; "
                    f"rules {comp.rules}")


def trim(coefs, f):
  while len(coefs) > 1 and not coefs[-1]:
    coefs.pop()
  return [f(k) for k in coefs]


def forged_fri(c, f, L, near, G2, bound, ext, p):
  """A proximity proof whose first tree holds L, and which continues with the folding of another word."""
  n = len(L)
  fri = fr.SmoothSubgroupFRI(f) if hasattr(fr, "SmoothSubgroupFRI") else st.FRI(f)
  if bound <= 16:
    return [[v.to_bytes(32, "big") for v in near]]
  m = mt.merkelize(list(L))
  q = n // 4
  sx = int.from_bytes(m[1], "big") % p
  w4 = pow(G2, q, p)
  col = []
  word = c.pick([near, L])
  for i in range(q):
    x0 = pow(G2, i, p)
    rx = [x0 * pow(w4, j, p) % p for j in range(4)]
    ry = [word[i + q * j] for j in range(4)]
    t = 0
    for a in range(4):
      num, den = ry[a], 1
      for b in range(4):
        if a != b:
          num = num * (sx - rx[b]) % p
          den = den * (rx[a] - rx[b]) % p
      t += num * pow(den, -1, p)
    col.append(t % p)
  if word is L:
    # fold honestly, then replace the column by a low-degree one close to it
    good = [i for i in range(q) if i % ext]
    k = min(max(1, bound // 4), len(good))
    g4 = pow(G2, 4, p)
    col = evaluate(interp_some(sorted(c.shuffled(good)[:k]), col, g4, q, p), g4, q, p)
  m2 = mt.merkelize(list(col))
  ys = row_indices(m[1], m2[1], q, ext, c.weighted([(4, 0), (1, 1), (1, 2)]))
  branches = [[mt.mk_branch(m2, y)] + [mt.mk_branch(m, y + q * j) for j in range(4)] for y in ys]
  g4 = pow(G2, 4, p)
  rest = fri.generate_proximity_proof(factories[p, 0](trim(idft(col, g4, p), f)), f(g4), bound // 4, exclude_multiples_of=ext)
  return [[m2[1], branches]] + rest
