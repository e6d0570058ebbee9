"""Quiet library calls among calls and programs that draw secrets from the process-wide random source (C20).

Real: everything in starks/ and misc/ that is called here.  Simulated: threads, interruptions, and the random source,
which tells the simulator of every draw, reseeding and rewinding.
"""
import importlib
import os
import pickle
import random

from .. import seams
from ..core import HarnessError, Violation
from ..sched import Interrupted, Scheduler
from ..seams import source
from . import shared, starkworld

RUNS = {"C20": {"quick": (2600, 420), "thorough": (60000, 800)}}
RULE = ("a run lets 1-4 clients make 3-10 calls each, quiet ones (verification, commit and query, STARK and proximity "
        "proofs, hashing, Merkle, arithmetic, opening of commitments) among ones that draw (keys, secrets, challenges, "
        "polynomials, the program's own draws), preempted and interrupted; every draw, reseeding and rewinding of the "
        "source is charged to the call that made it, and the recorded stream is recomputed independently; "
        "non-trivial if a quiet call ran; distinct = distinct calls, schedules and faults")
COMPONENTS = {"real": ["starks/fri.py", "starks/stark.py", "starks/utils.py", "starks/poly_utils.py",
                       "starks/merkle_tree.py", "starks/compression.py", "number types, polynomials, fft",
                       "misc/zero_knowledge.py", "misc/zkp_3_coloring.py", "misc/commitment.py",
                       "misc/blum_blum_shub.py", "misc/primality.py", "misc/blockchain.py"],
              "stub": ["process-wide random source", "thread scheduler", "locks", "interruptions", "clock"]}
ASSUME = ["sources other than the process-wide one (own Random objects, the operating system) may be used by quiet calls"]

fri = zk = z3 = cm = bbs = pr = pu = bc = ff = fr_field = None
IMPORT_EVENTS = []
K = {}


def setup(prop):
  global fri, zk, z3, cm, bbs, pr, pu, bc, ff
  source.tap = lambda what, k, v: IMPORT_EVENTS.append(what) if what != "bits" else None
  try:
    shared.setup(prop)
    starkworld.setup(prop)
    fri = importlib.import_module("starks.fri")
    zk = importlib.import_module("starks.zero_knowledge")
    bbs = importlib.import_module("starks.blum_blum_shub")
    pr = importlib.import_module("starks.primality")
    cm = importlib.import_module("starks.commitment")
    z3 = importlib.import_module("starks.zkp_3_coloring")
    pu = importlib.import_module("starks.poly_utils")
    ff = importlib.import_module("starks.finitefield")
    for m in ("apr", "ali", "air"):
      importlib.import_module("starks." + m)
    try:
      bc = importlib.import_module("starks.blockchain")
    except ImportError:
      bc = None
  finally:
    source.tap = None


# --- calls that must not touch the source ---------------------------------------------------------------------------
def ring_graph(n):
  return [(i, i % n + 1) for i in range(1, n + 1)]


def prepare(c):
  """Materials for quiet calls; made before the clients start."""
  k = {}
  p = M65 = 65537
  F = shared.ring(("Z", p))
  k["F"] = F
  polys = importlib.import_module("starks.polynomial").polynomials_over(F)
  n = 64
  k["w"] = F(pow(3, (p - 1) // n, p))
  k["poly"] = polys([F(c.draw(p)) for _ in range(12)])
  k["graph"] = ring_graph(6)
  perm = c.shuffled(range(6))
  k["perm"] = perm
  k["graph2"] = zk.apply_isomorphism(k["graph"], zk.make_permutation_function(perm))
  k["oneway"] = lambda x, M=10007 * 10039: x * x % M
  ints = cm.BBSIntCommitmentScheme(3, k["oneway"], bbs.parity, 64)
  k["scheme"] = ints
  k["com"] = ints.commit(5)
  k["col"] = {v: v % 2 for v in range(1, 7)}
  prover = z3.ZK3ColProver(k["graph"], k["col"], k["oneway"], bbs.parity)
  verifier = z3.ZK3ColVerifier(k["graph"], k["oneway"], bbs.parity)
  com = prover.commit_to_coloring()
  k["edge"] = verifier.choose_edge(com)
  k["prover3"], k["verifier3"] = prover, verifier
  return k


def quiet_affine(c, k, dim=1):
  field = ff.FiniteField(2, 4, shared.ring(("poly", ("Z", 2)))([1, 1, 0, 0, 1]))
  base = shared.ring(("poly", ("Z", 2)))
  g = base([0, 1])
  zp = shared.ring(("Z", 2))
  s = importlib.import_module("starks.reedsolomon").AffineSpace(zp, [g**i for i in range(dim)])
  rho = c.pick([1, 1, 0.5])
  f = fri.AffineSubspaceFRI(field, s, rho)
  p = base([0, 1])
  what = c.draw(3)

  def go():
    try:
      if what == 0:
        f.commit(p)
      elif what == 1:
        f.query([p], [1])
      else:
        vals = f.commit(p)
        f.query([p], vals)
    except (IndexError, TypeError, AttributeError, ValueError):
      pass                       # what it answers is not this property
  return ("affine-fri", ["commit", "query", "both"][what], dim), go


def quiet_smooth(c, k):
  w, poly = k["w"], k["poly"]
  maxdeg = c.pick([16, 32])
  s = fri.SmoothSubgroupFRI(k["F"])

  def go():
    proof = s.generate_proximity_proof(poly, w, maxdeg)
    root = importlib.import_module("starks.merkle_tree").merkelize(
        importlib.import_module("starks.fft").NonBinaryFFT(k["F"], w).fft(poly))[1]
    try:
      s.verify_proximity_proof(proof, root, w, maxdeg)
    except AssertionError:
      pass
  return ("smooth-fri", maxdeg), go


def quiet_stark(c, k):
  comp = starkworld.Comp(c, False)
  comp.width, comp.steps, comp.ext, comp.deg, comp.sec = 1, 4, 8, 2, 10
  comp.rules = [{(2,): 1, (0,): c.draw(99) + 1}]
  inp = [3]
  tr = comp.trace(inp)

  def go():
    s = comp.stark()
    wit, b = comp.witness(tr), comp.boundary(inp)
    proof = s.mk_proof(wit, b)
    s.verify_proof(proof, wit, b)
  return ("stark",), go


def quiet_zk(c, k):
  what = c.draw(3)
  G, H, perm = k["graph"], k["graph2"], k["perm"]

  def go():
    if what == 0:
      v = zk.ZKVerifier(G, H)
      v.accepts(zk.make_inverse_permutation_function(perm), 1, H)
    elif what == 1:
      p = zk.ZKProver(G, H, perm)
      w = p.prove_isomorphic_to(perm, 1 + c.draw(2))
      w(1)
    else:
      zk.apply_isomorphism(G, zk.make_permutation_function(perm))
      zk.num_vertices(G)
  return ("zk", what), go


def quiet_3col(c, k):
  what = c.draw(2)

  def go():
    r = k["prover3"].reveal_colors(*k["edge"])
    if what:
      k["verifier3"].accepts(r)
  return ("3col", what), go


def quiet_commit(c, k):
  what = c.draw(3)

  def go():
    if what == 0:
      k["scheme"].commit(5)
    secrets = k["scheme"].reveal()
    v = cm.BBSIntCommitmentVerifier(3, k["oneway"], bbs.parity)
    if what == 1:
      v.verify(secrets, k["com"])
    v.decode(secrets, k["com"])
  return ("commitment", what), go


def quiet_numbers(c, k):
  n = c.pick([561, 101, 2**61 - 1, 4096])

  def go():
    bbs.parity(n)
    d = pr.decompose(n - 1)
    pr.isWitness(2, n, *d) if n % 2 else None
    k["oneway"](n)
    pr.probablyPrime(c.pick([0, 1, 2, 3, 4, 10, -7, 1024]))     # decided without drawing
  return ("numbers", n), go


def quiet_chain(c, k):
  b = bc.Blockchain()

  def go():
    b.new_transaction("a", "b", 3)
    b.hash(b.last_block)
    b.new_block(7, None)
    b.valid_chain(b.chain)
    b.valid_proof(1, 2, b.hash(b.last_block))
    b.register_node("http://192.168.0.5:5000")
  return ("chain",), go


def quiet_construct(c, k):
  """Structures for parameters that leave nothing to draw."""
  p = c.pick([2, 2, 3, 5, 7, 11, 13, 10007])
  what = c.draw(3)
  mods = shared.MODULI
  key = c.pick(sorted(mods))
  modulus = list(c.pick(mods[key]))
  n = c.between(1, 4)

  def go():
    M = shared.M
    zp = M["modp"].IntegersModP(p)
    if what == 0:
      polys = M["polynomial"].polynomials_over(zp)
      multi = M["multivariate_polynomial"].multivariates_over(zp, n)
      polys([1, 2, 3]) * polys([0, 1]), multi({(0,) * n: 1}) + multi({(1,) * n: 2})
      M["rationals_modp"].RationalsModP(p)
      return
    f = ff.FiniteField(key[0], key[1], M["polynomial"].polynomials_over(M["modp"].IntegersModP(key[0]))(modulus))
    x = f([0, 1])
    x * x + x
    if what == 1 and key[0] == 2:
      fl = M["floatingpoint"].FloatingPoint(f)
      a = fl(f([1, 1]), f([0]), 0, 0)
      a + a, a * a
      a ** fl(f([1]), f([0]), 0, 0)
  return ("construct", what, p, key), go


def quiet_library(c, k):
  def drawing():
    e = shared.Env(c)
    return c.pick(shared.SPECS)(e)
  op, args = drawing()
  a = [shared.dec(x) for x in args]

  def go():
    try:
      shared.perform(op, a)
    except (Interrupted, HarnessError):
      raise
    except Exception:  # noqa: what it answers is not this property
      pass
  return ("library", shared.show(op, args)[:80]), go


# --- calls that draw; the result (or None) must never come twice ---------------------------------------------------
def none(x):
  """The result may well come twice."""


def draw_secret(c, k):
  return ("secret",), lambda: tuple(cm.BBSIntCommitmentScheme(2, k["oneway"], bbs.parity, 64).reveal())


def draw_bit(c, k):
  return ("bit-secret",), lambda: cm.BBSBitCommitmentScheme(k["oneway"], bbs.parity, 128).reveal()


def draw_perm(c, k):
  return ("permutation",), lambda: tuple(zk.random_permutation(26))


def draw_copy(c, k):
  G = ring_graph(26)

  def go():
    iso, H = zk.ZKProver(G, G, list(range(26))).send_isomorphic_copy()
    return tuple(iso)
  return ("isomorphic-copy",), go


def draw_choices(c, k):
  def go():
    v = zk.ZKVerifier(k["graph"], k["graph2"])
    return tuple(v.choose_graph() for _ in range(80))
  return ("challenges",), go


def draw_edges(c, k):
  def go():
    v = z3.ZK3ColVerifier(k["graph"], k["oneway"], bbs.parity)
    return tuple(v.choose_edge(None) for _ in range(40))
  return ("edges",), go


def draw_colouring(c, k):
  def go():
    p = z3.ZK3ColProver(k["graph"], k["col"], k["oneway"], bbs.parity)
    p.commit_to_coloring()
    return tuple(tuple(x) for x in p.reveal_colors(1, 2))
  return ("colouring",), go


def draw_key(c, k):
  bits = c.pick([12, 16, 24])
  return ("key", bits), lambda: none(bbs.make_modulus(bits))


def draw_prime(c, k):
  n = c.pick([10007, 10403, 2**31 - 1])
  return ("prime-test", n), lambda: none(pr.probablyPrime(n, accuracy=c.pick([1, 5, 20])))


def draw_poly(c, k):
  p, m = c.pick([(2, 3), (2, 5), (3, 2), (5, 3)])
  prim = c.chance(1, 2)
  return ("polynomial", p, m), lambda: none((pu.generate_primitive_polynomial if prim else pu.generate_irreducible_polynomial)(p, m))


def draw_bigpoly(c, k):
  return ("big-polynomial",), lambda: tuple(int(x) for x in pu.generate_irreducible_polynomial(2**61 - 1, 2).coefficients)


def draw_field(c, k):
  p, m = c.pick([(2, 3), (2, 4), (3, 2)])
  return ("field", p, m), lambda: none(ff.FiniteField(p, m))


def draw_sim(c, k):
  G = ring_graph(26)

  def go():
    H, choice, f = zk.simulate_protocol(G, G)
    return tuple(f(i) for i in range(1, 27))
  return ("simulated",), go


def draw_own(c, k):
  what = c.draw(4)
  return ("own", what), [lambda: random.getrandbits(128), lambda: tuple(random.random() for _ in range(3)),
                         lambda: tuple(random.sample(range(1000), 20)), lambda: random.randint(0, 2**100)][what]


DRAWING = [draw_own, draw_secret, draw_bit, draw_perm, draw_copy, draw_choices, draw_edges, draw_colouring, draw_key,
           draw_prime, draw_poly, draw_field, draw_sim, draw_bigpoly]
SECRET = [draw_secret, draw_bit, draw_perm, draw_copy, draw_choices, draw_edges, draw_colouring, draw_sim, draw_bigpoly]


def quiet(c, k, big):
  makers = [quiet_library, quiet_zk, quiet_3col, quiet_commit, quiet_numbers, quiet_affine, quiet_library, quiet_library, quiet_construct]
  if bc is not None:
    makers.append(quiet_chain)
  if big:
    makers += [quiet_smooth, quiet_stark]
  return c.pick(makers)(c, k)


def predictable(ctx, maker):
  """Does the secret depend on the source?  The same call alone, in two fresh processes that differ in it."""
  c = ctx.c
  seeds = [c.seed64(), c.seed64()]
  if seeds[0] == seeds[1]:
    seeds[1] += 1
  out = []
  for s in seeds:
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
      try:
        os.close(r)
        seams.reseed(s)
        k = {"oneway": lambda x, M=10007 * 10039: x * x % M, "graph": ring_graph(6), "graph2": ring_graph(6),
             "col": {v: v % 2 for v in range(1, 7)}}
        data = pickle.dumps(repr(maker(c, k)[1]()))
        os.write(w, data)
      finally:
        os._exit(0)
    os.close(w)
    buf = b""
    while True:
      b = os.read(r, 1 << 16)
      if not b:
        break
      buf += b
    os.close(r)
    os.waitpid(pid, 0)
    if not buf:
      raise HarnessError("no secret drawn")
    out.append(buf)
  ctx.require(out[0] != out[1], "predictable",
              lambda: f"{maker.__name__}: the same secret whatever the random source: {pickle.loads(out[0])[:200]}")


def run(ctx):
  c = ctx.c
  ctx.require(not IMPORT_EVENTS, "reseeded-by-import", lambda: f"importing the library: {IMPORT_EVENTS}")
  if c.chance(1, 6):
    predictable(ctx, c.pick(SECRET))
  k = prepare(c)
  big = c.chance(1, 6)
  clients = c.weighted([(2, 1), (3, 2), (2, 3), (1, 4)])
  mode = c.pick(["none", "line", "instr"]) if not big else c.pick(["none", "line"])
  sched = Scheduler(ctx, mode=mode, max_preempt=c.between(1, 40), gaps=(8, 60, 500))
  root = seams._root
  sched.start_monitoring([x for x in seams.codes if x.co_filename.startswith(root)])
  if mode != "none" and c.chance(1, 4):
    sched.interrupt_chance = 4
    sched.interruptible = lambda task, code: task.meta.get("busy") and not code.co_filename.endswith("numbertype.py")
  log = []
  start = source.getstate()
  seen = {}
  charged = []                   # not raised on the spot: library code may catch it

  def tap(what, bits, value):
    me = sched.current
    call = me.meta.get("call") if me is not None else None
    if what != "bits":
      charged.append(Violation("reseeded", f"{call}: {what}() on the process-wide random source"))
    elif me is not None and me.meta.get("quiet"):
      charged.append(Violation("draws", f"{call} drew {bits} bits from the process-wide random source"))
    log.append((bits, value))

  def client(n):
    me = sched.current
    for _ in range(c.between(3, 10)):
      is_quiet = c.chance(3, 5)
      what, go = quiet(c, k, big) if is_quiet else c.pick(DRAWING)(c, k)
      ctx.log("client", n, "quiet" if is_quiet else "draws", *what)
      ctx.mark((n, what))
      me.meta["call"], me.meta["quiet"] = what, is_quiet
      me.meta["interrupted"] = 0
      me.meta["busy"] = True
      value = None
      try:
        value = go()
      except Interrupted:
        pass
      except (Violation, HarnessError):
        raise
      except Exception:  # noqa
        if not me.meta["interrupted"]:
          raise
      finally:
        me.meta["busy"] = False
        me.meta["quiet"] = False
      if charged:
        raise charged[0]
      if is_quiet:
        ctx.nontrivial = True
        ctx.probe("quiet-calls")
      else:
        ctx.probe("drawing-calls")
      if value is not None and not is_quiet and not me.meta["interrupted"]:
        prior = seen.get((what, repr(value)))
        if prior is not None:
          raise Violation("secret-repeats", f"{what} by client {n} and by client {prior}: {repr(value)[:200]}")
        seen[(what, repr(value))] = n
      if c.chance(1, 4):
        sched.pause()

  source.tap = tap
  for n in range(clients):
    sched.spawn(f"client{n}", lambda n=n: client(n))
  r = sched.run(lambda: all(t.state == "done" for t in sched.tasks), max_steps=5000)
  sched.close()
  source.tap = None
  ctx.require(r == "done", "clients-stuck", r)
  if charged:
    raise charged[0]
  for t in sched.tasks:
    if t.exc is not None:
      raise t.exc
  # the stream, once more, from an independent generator
  twin = random.Random()
  twin.setstate(start)
  for i, (bits, value) in enumerate(log):
    ctx.require(twin.getrandbits(bits) == value, "stream-differs", lambda: f"draw {i} of {len(log)}")
  ctx.require(twin.getstate()[1] == source.getstate()[1], "state-differs", f"after {len(log)} draws")
  ctx.probe("draws", len(log))
  ctx.sample = f"{clients} clients, {mode}, {len(log)} draws, {dict(ctx.probes)}"
