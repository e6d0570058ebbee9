"""3-colouring proofs over a faulty channel, honest and cheating provers (C09-C11).

Real: misc/zkp_3_coloring.py, misc/commitment.py, misc/blum_blum_shub.py.
Simulated: channel, random source, cheating provers.
"""
import collections
import importlib
import math

from ..core import HarnessError, Violation
from ..net import Bus, biased_plan, check_uniform
from ..seams import source

RUNS = {
    "C09": {"quick": (14000, 240), "thorough": (120000, 780)},
    "C10": {"quick": (24000, 240), "thorough": (150000, 780)},
    "C11": {"quick": (400, 240), "thorough": (6000, 780)},
}
RULE = ("a run draws a coloured graph, a modulus, rounds, channel faults and a random stream (C09, C10: plus a "
        "cheating strategy and altered openings); non-trivial if a round reached its verdict; distinct = distinct "
        "sequence of deliveries, alterations and faults")
COMPONENTS = {"real": ["misc/zkp_3_coloring.py", "misc/commitment.py", "misc/blum_blum_shub.py"],
              "stub": ["channel", "process-wide random source", "cheating provers and their commitments"]}
ASSUME = ["moduli of 128 to 512 bits generated once per batch", "an exception raised by the verifier counts as refusal"]

z3 = cm = bbs = None
PERMS = []          # (function, modulus)


def modulus_of(f):
  """Recover M from x -> x^2 mod M."""
  g = 0
  for x in range(3, 40):
    y = (1 << (600 + x)) + x * x
    g = math.gcd(g, y * y - f(y))
  return g


def setup(prop):
  global z3, cm, bbs
  z3 = importlib.import_module("starks.zkp_3_coloring")
  cm = importlib.import_module("starks.commitment")
  bbs = importlib.import_module("starks.blum_blum_shub")
  if prop == "C11":
    for f in library_noise():
      f(None)
  for bits in (64, 80, 96, 128, 256):
    f = bbs.blum_blum_shub(bits)
    PERMS.append((f, modulus_of(f)))


def parity(n):
  return bin(n).count("1") & 1


def coloured_graph(c, nmax=6):
  n = c.between(2, nmax)
  while True:
    col = {v: c.draw(3) for v in range(1, n + 1)}
    if len(set(col.values())) > 1:
      break
    col[1], col[2] = 0, 1
    break
  edges = []
  for v in range(1, n + 1):
    others = [u for u in col if col[u] != col[v]]
    for u in c.subset(others, 1, 2) or [c.pick(others)]:
      e = (v, u) if c.chance(1, 2) else (u, v)
      edges.append(e)
  if c.chance(1, 3):
    seen, out = set(), []
    for e in edges:
      if tuple(sorted(e)) not in seen:
        seen.add(tuple(sorted(e)))
        out.append(e)
    edges = out
  return n, c.shuffled(edges), col


UNCLEAR = 9


def opens(M, secrets, comm):
  """Colour opened by `secrets`, or None if the opening is not valid, by the definition of the scheme."""
  if not isinstance(secrets, (list, tuple)) or len(secrets) != len(comm):
    return None
  bits = []
  for s, c in zip(secrets, comm):
    if not isinstance(s, int):
      return None
    r = s * s % M
    if c[0] != r * r % M:
      return None
    try:
      b = c[1] ^ parity(r)
    except TypeError:
      return None
    bits.append(b)
  if all(b in (0, 1) for b in bits):
    return int("".join(map(str, bits)), 2)
  try:
    n = int("".join(map(str, bits)), 2)
  except ValueError:
    return None
  # digits that are no bits, but spell out a colour: a verifier may read them or not
  return UNCLEAR if 0 <= n <= 2 else None


def accept(v, revealed):
  try:
    return bool(v.accepts(revealed))
  except Exception:  # noqa: a refusal by exception
    return False


def run(ctx):
  {"C09": run09, "C10": run10, "C11": run11}[ctx.prop](ctx)


class Round:
  pass


class Session:
  """Rounds of the real prover against the real verifier over the bus."""

  def __init__(self, ctx, bus, sid, graph, col, f, M, rounds):
    self.ctx, self.c, self.bus, self.sid, self.M = ctx, ctx.c, bus, sid, M
    self.graph, self.col = graph, col
    self.p = z3.ZK3ColProver(graph, col, f, bbs.parity)
    self.v = z3.ZK3ColVerifier(graph, f, bbs.parity)
    self.left = rounds
    self.rno = 0
    self.verdicts = []
    self.next_round()

  def next_round(self):
    self.rno += 1
    self.comm = self.p.commit_to_coloring()
    self.edge = None
    self.have = None
    self.resend(self.rno)

  def resend(self, rno, k=0):
    if rno == self.rno and len(self.verdicts) < rno and k < 60:
      self.bus.send("V", "commit", self.sid, (rno, {v: list(x) for v, x in self.comm.items()}))
      self.bus.at(2.0, lambda: self.resend(rno, k + 1))

  def to_prover(self, kind, payload):
    rno, edge = payload
    if rno != self.rno:
      return
    r = self.p.reveal_colors(*edge)
    ctx = self.ctx
    u, v = min(edge), max(edge)
    ctx.require(len(r) == 2, "opens-other-than-two", f"{len(r)} openings for {edge}")
    for w, s in zip((u, v), r):
      ctx.require(opens(self.M, s, self.comm[w]) is not None, "opening-does-not-match-endpoint", lambda: f"edge {edge}, vertex {w}")
    self.bus.send("V", "reveal", self.sid, (rno, tuple(list(x) for x in r)))

  def to_verifier(self, kind, payload):
    rno, body = payload
    if rno != self.rno or len(self.verdicts) >= rno:
      return
    if kind == "commit":
      if self.edge is None:
        self.edge = an_edge(self.ctx, self.v.choose_edge(body))
        self.have = body
        es = {tuple(sorted(e)) for e in self.graph}
        self.ctx.require(tuple(self.edge) in es, "challenge-not-an-edge", str(self.edge))
      self.bus.send("P", "challenge", self.sid, (rno, tuple(self.edge)))
    elif self.edge is not None:
      ok = self.v.accepts(body)
      self.verdicts.append(bool(ok))
      self.ctx.require(ok, "honest-round-rejected", lambda: f"round {rno}, edge {self.edge}, graph {self.graph}, colouring {self.col}")
      if self.left > self.rno:
        self.next_round()


def an_edge(ctx, e):
  ctx.require(isinstance(e, (tuple, list)) and len(e) == 2, "challenge-not-an-edge", lambda: repr(e))
  return tuple(e)


def run09(ctx):
  c = ctx.c
  mode = biased_plan(c, source, c.between(4, 60)) if c.chance(1, 3) else None
  if mode:
    ctx.fault("random-stream-" + mode)
  faulty = c.chance(3, 4)
  bus = Bus(ctx, drop=20 if faulty else 0, dup=20 if faulty else 0)
  S = []
  for sid in range(c.between(1, 3)):
    n, G, col = coloured_graph(c)
    f, M = c.pick(PERMS)
    keep = (list(G), dict(col))
    s = Session(ctx, bus, sid, G, col, f, M, c.between(1, 4))
    s.keep = keep
    S.append(s)
  bus.sids = range(len(S))
  bus.handlers = {"P": lambda k, sid, p: S[sid].to_prover(k, p), "V": lambda k, sid, p: S[sid].to_verifier(k, p)}
  ok = bus.run(lambda: all(len(s.verdicts) >= s.left for s in S))
  ctx.require(ok or faulty, "session-unfinished", "rounds without faults did not finish")
  # pairs that are no edges are refused, before and after further commitments
  for s in S:
    ctx.require(s.graph == s.keep[0] and s.col == s.keep[1], "operands-changed", str(s.keep))
    es = {tuple(sorted(e)) for e in s.graph}
    n = max(max(e) for e in es)
    if c.chance(1, 2):
      s.comm = s.p.commit_to_coloring()
    for _ in range(4):
      u, v = c.between(0, n + 1), c.between(0, n + 1)
      if tuple(sorted((u, v))) in es:
        r = s.p.reveal_colors(u, v)
        ctx.require(len(r) == 2, "opens-other-than-two", f"{len(r)} openings for {(u, v)}")
        continue
      try:
        r = s.p.reveal_colors(u, v)
      except Exception:  # noqa: refused
        ctx.probe("non-edge-refused")
        continue
      raise Violation("opened-non-edge", f"({u},{v}) is not an edge of {s.graph}: {r}")
  source.plan = None
  if c.chance(1, 20):
    n, G, col = coloured_graph(c)
    ctx.require(z3.run_protocol(G, col, 64), "honest-protocol-rejected", f"{G} {col}")
    ctx.probe("run_protocol")
  ctx.nontrivial = any(s.verdicts for s in S)
  ctx.sample = {"graph": S[0].graph, "colouring": S[0].col, "rounds": [len(s.verdicts) for s in S], "random": mode,
                "faults": dict(ctx.faults)}


# ---- C10 --------------------------------------------------------------------------------------
def commit_as(c, M, colour, bits=2):
  """A cheating prover's own commitment to any number."""
  sec, com = [], []
  for i in reversed(range(bits)):
    s = c.draw(1 << 60) * (1 << 70) + c.draw(1 << 60) + 2
    r = s * s % M
    com.append((r * r % M, parity(r) ^ (colour >> i & 1)))
    sec.append(s)
  return sec, com


def alter(ctx, c, M, rev, pool):
  """One way of damaging or forging an opened pair; returns (label, revealed)."""
  rev = [list(x) for x in rev]
  k = c.draw(16)
  i, j = c.draw(2), c.draw(2)
  other = c.pick(pool)
  if k == 0:
    rev[i] = rev[i][:c.draw(2)]
    return "truncated", rev
  if k == 1:
    rev = [rev[0][:1], rev[1][:1]]
    return "both-truncated", rev
  if k == 2:
    return "swapped-endpoints", rev[::-1]
  if k == 3:
    rev[i] = rev[i][::-1]
    return "bits-swapped", rev
  if k == 4:
    rev[i][j] ^= 1 << c.draw(70)
    return "bit-flip", rev
  if k == 5:
    rev[i] = list(other)
    return "foreign-opening", rev
  if k == 6:
    rev[i][j] = c.pick(other)
    return "foreign-secret", rev
  if k == 7:
    rev[i] = rev[i] + [rev[i][0]]
    return "extended", rev
  if k == 8:
    return "one-endpoint", rev[:1]
  if k == 9:
    rev[i][j] = c.pick([0, 1, -1, 2])
    return "small-number", rev
  if k == 10:
    rev[1 - i] = list(rev[i])
    return "same-twice", rev
  if k == 11:
    rev[i][j] = M - rev[i][j]
    return "negated-root", rev
  if k == 12:
    rev[i][j] = rev[i][j] + M * c.between(1, 3)
    return "shifted-root", rev
  if k == 13:
    return "empty", [[], []]
  if k == 14:
    rev[i] = []
    return "one-empty", rev
  return "extra-opening", rev + [list(other)]


def broken_round(ctx, v, M, col, edges, past):
  """A round in which a dishonest prover commits badly; openings of earlier rounds are at hand."""
  c = ctx.c
  made = {w: commit_as(c, M, col[w] if c.chance(1, 2) else c.draw(4)) for w in col}
  comm = {w: list(m[1]) for w, m in made.items()}
  what = []
  for _ in range(c.between(1, 2)):
    w = c.pick(list(col))
    k = c.draw(10)
    if k == 0:
      comm.pop(w, None)
      what.append("missing")
    elif k == 1:
      comm[w] = comm.get(w, [])[:c.draw(2)]
      what.append("short")
    elif k == 2:
      comm[w] = comm.get(w, []) + [c.pick([m[1][0] for m in made.values()])]
      what.append("long")
    elif k == 3:
      b = made[w][1][0]
      comm[w] = [b, b]
      made[w] = ([made[w][0][0]] * 2, comm[w])
      what.append("bit-twice")
    elif k == 4:
      u = c.pick(list(col))
      comm[w] = list(comm.get(u, []))
      made[w] = (made[u][0], comm[w])
      what.append("copied")
    elif k == 5:
      comm[w] = [(x, b ^ 2 if isinstance(b, int) else b) for x, b in comm.get(w, [])]
      what.append("wide-bits")
    elif k == 6:
      o = c.pick(past)
      comm[w] = list(o[1].get(w, []))
      what.append("old")
    elif k in (7, 8):
      j = c.draw(3)
      odd = c.pick([-1, -1, -2, -3, 2, 10, 11, -10, 101, True, 1.0, "0", None])
      comm[w] = [(x, odd if i == j or j == 2 and c.chance(1, 2) else b) for i, (x, b) in enumerate(comm.get(w, []))]
      made[w] = (made[w][0], comm[w])
      what.append("odd-bits")
    else:
      comm[w] = [(0, c.draw(2)), (c.draw(2), c.draw(2))]
      what.append("trivial")
  for x in what:
    ctx.fault("commitment-" + x)
  try:
    e = v.choose_edge({w: list(x) for w, x in comm.items()})
  except Exception:  # noqa: the round is refused
    ctx.probe("round-refused")
    return
  e = an_edge(ctx, e)
  ctx.require(e in edges, "challenge-not-an-edge", str(e))
  base = [list(made[w][0]) for w in e]
  tries = [base]
  tries += [[list(x) for x in o[2]] for o in past if o[0] == e]
  pool = [x for o in past for x in o[2]] + [m[0] for m in made.values()] + [[0, 0], [1, 1], [0, 1]]
  for _ in range(c.between(2, 4)):
    tries.append(alter(ctx, c, M, base, pool)[1])
  for i in (0, 1):
    for o in past:
      if e[i] in o[0]:
        t = [list(x) for x in base]
        t[i] = list(o[2][o[0].index(e[i])])
        tries.append(t)
  # the same openings cut to the length of the commitments
  tries.append([list(x)[:len(comm.get(w, []))] for w, x in zip(e, base)])
  for rev in tries:
    got = accept(v, rev)
    colours = [opens(M, x, comm[w]) if len(comm.get(w, [])) == 2 else None for w, x in zip(e, rev)] if len(rev) >= 2 else [None] * 2
    if UNCLEAR in colours:
      continue
    want = None not in colours and colours[0] != colours[1] and max(colours) <= 2
    ctx.mark((tuple(what), got))
    if got and not want:
      raise Violation("false-opening-accepted", f"round with commitments {what}: edge {e}, opened {colours}")
  past.append((e, comm, base))


def run10(ctx):
  c = ctx.c
  if c.chance(1, 40):
    return edges10(ctx)
  f, M = c.pick(PERMS)
  n, G, col = coloured_graph(c)
  k4 = c.chance(1, 5)
  if k4:
    n = 4
    G = [(a, b) for a in range(1, 5) for b in range(a + 1, 5)]
    col = {v: v - 1 for v in range(1, 5)}
  edges = sorted({tuple(sorted(e)) for e in G})
  # who proves: the real prover, or a cheat with commitments of its own
  cheat = "k4" if k4 else c.weighted([(3, None), (2, "monochromatic"), (2, "colour-3"), (1, "random-colours")])
  v = z3.ZK3ColVerifier(G, f, bbs.parity)
  if cheat is None:
    p = z3.ZK3ColProver(G, col, f, bbs.parity)
    old = p.commit_to_coloring()
    prev = [list(p.reveal_colors(*e)[0]) for e in edges[:2]]
    comm = p.commit_to_coloring()
    comm = {w: list(x) for w, x in comm.items()}
    reveal = lambda e: [list(x) for x in p.reveal_colors(*e)]
    pool = prev + [list(x) for e in edges for x in p.reveal_colors(*e)]
  else:
    ctx.fault("cheating-prover")
    lie = dict(col)
    if cheat == "monochromatic":
      x = c.draw(3)
      lie = {w: x for w in col}
    elif cheat == "colour-3":
      lie[c.pick(list(lie))] = 3
    elif cheat == "random-colours":
      lie = {w: c.draw(4) for w in lie}
    made = {w: commit_as(c, M, lie[w]) for w in lie}
    comm = {w: m[1] for w, m in made.items()}
    reveal = lambda e: [list(made[w][0]) for w in e]
    pool = [m[0] for m in made.values()]
    old = comm
  e = an_edge(ctx, v.choose_edge(comm))
  ctx.require(tuple(e) in edges, "challenge-not-an-edge", str(e))
  honest = reveal(e)
  deliver_comm = comm
  tries = []
  if c.chance(1, 2):
    tries.append(("unaltered", honest))
  for _ in range(c.between(1, 4)):
    tries.append(alter(ctx, c, M, honest, pool))
  other_e = c.pick(edges)
  tries.append(("other-edge", reveal(other_e)))
  got_any = False
  for label, rev in tries:
    if label != "unaltered":
      ctx.fault("opening-" + label)
    got = accept(v, rev)
    colours = [opens(M, s, comm[w]) for w, s in zip(e, rev)] if len(rev) >= 2 else [None, None]
    want = None not in colours and colours[0] != colours[1] and max(colours) <= 2
    ctx.mark((label, cheat, got))
    ctx.probe("accepted" if got else "refused")
    detail = f"{label}, prover {cheat or 'honest'}, edge {e}, opened {colours}"
    if got and not want:
      raise Violation("false-opening-accepted", detail)
    if want and not got and label == "unaltered":
      raise Violation("honest-round-rejected", detail)
    if got and cheat is None and label != "unaltered":
      true = [opens(M, s, comm[w]) for w, s in zip(e, honest)]
      if colours != true:
        raise Violation("altered-opening-accepted", detail + f", committed {true}")
  # later rounds with the same verifier, whose commitments may be missing, cut short or used twice
  past = [(tuple(e), comm, honest)]
  for _ in range(c.weighted([(3, 0), (2, 1), (1, 2)])):
    broken_round(ctx, v, M, col, edges, past)
  # a verifier asked about a new round forgets the old commitments
  if cheat is None and c.chance(1, 2):
    comm2 = {w: list(x) for w, x in p.commit_to_coloring().items()}
    e2 = an_edge(ctx, v.choose_edge(comm2))
    if tuple(e2) == tuple(e):
      ctx.fault("opening-stale-round")
      ctx.require(not accept(v, honest), "stale-opening-accepted", f"edge {e2}")
    ctx.require(accept(v, reveal(e2)), "honest-round-rejected", f"second round, edge {e2}")
  ctx.nontrivial = True
  ctx.sample = {"graph": G, "cheat": cheat, "edge": list(e), "tried": [t[0] for t in tries], "faults": dict(ctx.faults)}


def edges10(ctx):
  c = ctx.c
  f, M = PERMS[0]
  n, G, col = coloured_graph(c, 5)
  G = sorted({tuple(sorted(e)) for e in G})
  G = [e if c.chance(1, 2) else e[::-1] for e in G]
  v = z3.ZK3ColVerifier(G, f, bbs.parity)
  comm = {w: commit_as(c, M, col[w])[1] for w in col}
  N = 1500 * len(G)
  seq = [an_edge(ctx, v.choose_edge(comm)) for _ in range(N)]
  check_uniform(ctx, collections.Counter(seq), len(G), N, "challenge-not-uniform", "choose_edge")
  check_uniform(ctx, collections.Counter(zip(seq[0::2], seq[1::2])), len(G) ** 2, N // 2, "challenge-predictable",
                "consecutive edges") if len(G) <= 4 else None
  ctx.mark((tuple(G), c.seed64()))
  ctx.nontrivial = True
  ctx.sample = {"graph": G, "challenges": N}


# ---- C11 --------------------------------------------------------------------------------------
def reachable(x, M):
  """What the secrets that are simple functions of an opened one would publish."""
  y = x
  for k in range(20):
    yield f"squared {k} times", y
    y = y * y % M
  for d in (-2, -1, 1, 2):
    yield f"plus {d}", pow(x + d, 4, M)
  for d in (2, 3, M - 1, (M + 1) // 2):
    if pow(x * d, 4, M) != pow(x, 4, M):
      yield f"times {d}", pow(x * d, 4, M)
  for d in (1, 8, 64, 256):
    yield f"shifted by {d}", pow(x >> d, 4, M)
    yield f"exchanged at {d}", pow(x ^ (1 << d), 4, M)


def run11(ctx):
  c = ctx.c
  f, M = PERMS[c.draw(3)]
  long = c.chance(1, 16)
  n, G, col = (2, [(1, 2)], {1: c.draw(2), 2: 2}) if long else coloured_graph(c, 4)
  edges = sorted({tuple(sorted(e)) for e in G})
  provers = [z3.ZK3ColProver(G, col, f, bbs.parity) for _ in range(c.between(1, 2))]
  N = 11000 if long else 1500
  seen, reach = {}, {}
  perms, pairs, masks = collections.Counter(), collections.Counter(), collections.Counter()
  seq = []
  noise = c.chance(1, 2)
  noises = library_noise()
  import random
  for r in range(N):
    k = r % len(provers)
    p = provers[k]
    if noise and c.chance(1, 60):
      ctx.fault("interleaved-library-call")
      c.pick(noises)(c)
    comm = p.commit_to_coloring()
    ctx.require(isinstance(comm, dict) and set(comm) == set(range(1, n + 1)), "commitment-form", str(type(comm)))
    for w, com in comm.items():
      ctx.require(len(com) == 2 and all(isinstance(b, tuple) and len(b) == 2 and b[1] in (0, 1) and 0 <= b[0] < M for b in com),
                  "commitment-form", lambda: f"vertex {w}: {com}")
      for i, b in enumerate(com):
        ctx.require(b[0] not in seen, "secret-reused", lambda: f"round {r} vertex {w} bit {i} repeats {seen[b[0]]}")
        ctx.require(b[0] not in reach, "secret-follows-from-opened",
                    lambda: f"round {r} vertex {w} bit {i} follows from {reach[b[0]]}")
        seen[b[0]] = (r, w, i)
    e = edges[r % len(edges)]
    rev = p.reveal_colors(*e)
    ctx.require(len(rev) == 2 and all(len(x) == 2 for x in rev), "opens-too-much", lambda: str(rev))
    cols = [opens(M, s, comm[w]) for w, s in zip(e, rev)]
    ctx.require(None not in cols and set(cols) <= {0, 1, 2}, "opening-does-not-match-endpoint", lambda: f"{e}: {cols}")
    # which permutation of the colours was used
    m = {col[e[0]]: cols[0], col[e[1]]: cols[1]}
    ctx.require(len(set(m.values())) == 2, "colours-collide", lambda: f"{col} {e} {cols}")
    full = tuple(m.get(x, 3 - sum(m.values())) for x in range(3))
    seq.append(full)
    pairs[tuple(cols)] += 1
    for w, s in zip(e, rev):
      for i, (b, x) in enumerate(zip(comm[w], s)):
        masks[(i, b[1], b[1] ^ parity(x * x % M))] += 1
        if r < 300:
          # nothing a verifier computes from what was opened opens anything else
          for how, y in reachable(x, M):
            ctx.require(seen.get(y, (r, w, i)) == (r, w, i), "secret-follows-from-opened",
                        lambda: f"vertex and bit {seen[y]} follow from {(r, w, i)} ({how})")
            reach[y] = (r, w, i, how)
  check_uniform(ctx, collections.Counter(seq), 6, N, "colour-permutation-not-uniform", "colour permutations")
  check_uniform(ctx, pairs, 6, N, "opened-pair-not-uniform", "opened colours")
  for k in range(len(provers)):
    s = seq[k::len(provers)]
    check_uniform(ctx, collections.Counter(zip(s[0::2], s[1::2])), 36, len(s) // 2, "colour-permutations-not-fresh", "consecutive permutations")
  # the published bit does not betray the committed one
  for i in range(2):
    for bit in (0, 1):
      tot = masks[(i, 0, bit)] + masks[(i, 1, bit)]
      if tot > 200:
        check_uniform(ctx, collections.Counter({x: masks[(i, x, bit)] for x in (0, 1)}), 2, tot, "committed-bit-leaks",
                      f"published bit given committed bit {bit}")
  ctx.probe("rounds", N)
  ctx.probe("secrets", len(seen))
  ctx.mark((tuple(G), c.seed64()))
  ctx.nontrivial = True
  ctx.sample = {"graph": G, "colouring": col, "rounds": N, "noise": noise}


_noise = None


def library_noise():
  """Other work of the library in the same process."""
  global _noise
  if _noise is None:
    fri = importlib.import_module("starks.fri")
    mt = importlib.import_module("starks.merkle_tree")
    ut = importlib.import_module("starks.utils")
    pr = importlib.import_module("starks.primality")

    def prox(c):
      from ._friutil import tiny_query
      tiny_query()
    _noise = [lambda c: mt.merkelize([b"%d" % i for i in range(8)]),
              lambda c: ut.get_pseudorandom_indices(b"x" * 32, 64, 5),
              lambda c: pr.probablyPrime(1000003, 5), prox]
  return _noise
