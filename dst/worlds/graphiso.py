"""Graph-isomorphism proofs: provers and verifiers exchanging messages (C06-C08).

Real: misc/zero_knowledge.py.  Simulated: the channel between the parties, the random source,
cheating provers.
"""
import collections
import importlib

from ..core import HarnessError
from ..net import Bus, biased_plan, check_uniform, sigma_bound
from .. import seams
from ..sched import Scheduler
from ..seams import source

RUNS = {
    "C06": {"quick": (16000, 240), "thorough": (400000, 780)},
    "C07": {"quick": (6000, 240), "thorough": (160000, 780)},
    "C08": {"quick": (900, 240), "thorough": (12000, 780)},
}
RULE = ("a run draws graphs, an isomorphism, sessions sharing or not sharing prover and verifier objects, channel "
        "faults and a random stream; non-trivial if at least one session ran to its verdict; distinct = distinct "
        "sequence of deliveries and faults")
COMPONENTS = {"real": ["misc/zero_knowledge.py"], "stub": ["channel", "process-wide random source", "cheating provers"]}
ASSUME = ["responses travel as the table of the mapping they carry",
          "statistical checks allow 8 standard deviations on at least 4000 samples per distribution"]

zk = None


def setup(prop):
  global zk
  zk = importlib.import_module("starks.zero_knowledge")


# ---- independent statements -----------------------------------------------------------------
def relabel(G, m):
  return [(m[i], m[j]) for i, j in G]


def valid(G, H, m):
  try:
    used = {v for e in H for v in e}
    return [(m[i], m[j]) for i, j in H] == G and len({m[v] for v in used}) == len(used)
  except (KeyError, TypeError, ValueError):
    return False


def make_graph(c, nmax=9, nmin=1):
  n = c.between(nmin, nmax)
  edges = []
  verts = c.shuffled(range(1, n + 1))
  for k, v in enumerate(verts):
    edges.append((v, verts[c.draw(n)]))
  for _ in range(c.draw(2 * n + 1)):
    edges.append((1 + c.draw(n), 1 + c.draw(n)))
  return n, c.shuffled(edges)


def perm(c, n):
  return c.shuffled(range(n))


def table(f, n):
  return {i: f(i) for i in range(1, n + 1)}


class Sessions:
  """Message-driven sessions of the real prover and verifier."""

  def __init__(self, ctx, bus, insts, shared):
    self.ctx, self.c, self.bus, self.insts = ctx, ctx.c, bus, insts
    self.P, self.V = {}, {}
    self.shared = shared
    pool = {}
    bus.sids = list(range(len(insts)))
    for sid, inst in enumerate(insts):
      key = inst["key"] if shared else sid
      if key not in pool:
        pool[key] = (inst["mkprover"](), zk.ZKVerifier(inst["G1"], inst["G2"]))
      self.P[sid] = {"obj": pool[key][0], "inst": inst, "iso": None}
      self.V[sid] = {"obj": pool[key][1], "inst": inst, "H": None, "choice": None, "verdict": None}
    bus.handlers = {"P": self.prover, "V": self.verifier}

  def start(self, sid):
    p = self.P[sid]
    if p["iso"] is None:
      p["iso"], p["H"] = p["obj"].send_isomorphic_copy()
    self.resend(sid)

  def resend(self, sid, n=0):
    if self.V[sid]["verdict"] is None and n < 60:
      self.bus.send("V", "commit", sid, list(self.P[sid]["H"]))
      self.bus.at(2.0, lambda: self.resend(sid, n + 1))

  def prover(self, kind, sid, payload):
    p = self.P[sid]
    if p["iso"] is None or payload not in (1, 2):
      return
    f = p["obj"].prove_isomorphic_to(p["iso"], payload)
    self.bus.send("V", "response", sid, table(f, p["inst"]["n"]))

  def verifier(self, kind, sid, payload):
    v = self.V[sid]
    if kind == "commit":
      if v["H"] is None:
        v["H"] = payload
        v["choice"] = v["obj"].choose_graph()
        self.ctx.require(v["choice"] in (1, 2) and type(v["choice"]) is int, "bad-challenge", repr(v["choice"]))
      self.bus.send("P", "challenge", sid, v["choice"])
    else:
      if v["H"] is None or v["verdict"] is not None:
        return
      m = payload
      got = v["obj"].accepts(lambda i: m.get(i), v["choice"], v["H"])
      self.judge(sid, v, m, got)
      v["verdict"] = bool(got)

  def judge(self, sid, v, m, got):
    G = [v["inst"]["G1"], v["inst"]["G2"]][v["choice"] - 1]
    want = valid(G, v["H"], m)
    self.ctx.probe("accepted" if got else "refused")
    if self.ctx.prop == "C06":
      self.ctx.require(got, "honest-session-rejected", lambda: f"session {sid}: choice {v['choice']}, G1={v['inst']['G1']}")
    self.ctx.require(bool(got) == want, "wrong-verdict",
                     lambda: f"verdict {got}, mapping {m}, H={v['H']}, choice {v['choice']}, G={G}")


def instance(c, key, nmax=9):
  n, G1 = make_graph(c, nmax)
  L = perm(c, n)
  if n > 2 and c.chance(1, 4):
    # vertices without edges; both graphs name the last one
    lone = set(c.shuffled(range(1, n))[:c.between(1, n - 2)]) - {L.index(n - 1) + 1}
    G1 = [e for e in G1 if not lone & set(e)]
    if not any(n in e for e in G1):
      G1.append((n, n))
    if not any(L.index(n - 1) + 1 in e for e in G1):
      G1.append((L.index(n - 1) + 1, n))
  G2 = relabel(G1, {i: L[i - 1] + 1 for i in range(1, n + 1)})
  return {"key": key, "n": n, "G1": G1, "G2": G2, "iso": L}


def run(ctx):
  {"C06": run06, "C07": run07, "C08": run08}[ctx.prop](ctx)


def run06(ctx):
  c = ctx.c
  ninst = c.between(1, 2)
  base = [instance(c, k) for k in range(ninst)]
  for b in base:
    b["mkprover"] = lambda b=b: zk.ZKProver(b["G1"], b["G2"], b["iso"])
  sess = [base[c.draw(ninst)] for _ in range(c.between(1, 6))]
  saved = [(list(b["G1"]), list(b["G2"]), list(b["iso"])) for b in base]
  mode = biased_plan(c, source, c.between(4, 60))
  if mode:
    ctx.fault("random-stream-" + mode)
  faulty = c.chance(3, 4)
  bus = Bus(ctx, drop=20 if faulty else 0, dup=20 if faulty else 0)
  S = Sessions(ctx, bus, sess, shared=c.chance(2, 3))
  for sid in range(len(sess)):
    bus.at(c.pick([0.0, 0.0, 0.05, 0.5, 3.0]), lambda sid=sid: S.start(sid))
  ok = bus.run(lambda: all(v["verdict"] is not None for v in S.V.values()))
  ctx.require(ok or faulty, "session-unfinished", "sessions without faults did not finish")
  source.plan = None
  if c.chance(1, 3):
    threads06(ctx, base)
  b = c.pick(base)
  ctx.require(zk.run_protocol(b["G1"], b["G2"], b["iso"]) is True or False, "honest-protocol-rejected", str(b["G1"]))
  try:
    zk.convince_beyond_doubt(b["G1"], b["G2"], b["iso"], *([] if c.chance(1, 2) else [c.pick([1e-20, 0.5, 1e-3, 1.0])]))
  except AssertionError:
    ctx.require(False, "honest-prover-not-convincing", str(b["G1"]))
  for b, (g1, g2, iso) in zip(base, saved):
    ctx.require(b["G1"] == g1 and b["G2"] == g2 and b["iso"] == iso, "operands-changed",
                lambda: f"G1 {g1}->{b['G1']} G2 {g2}->{b['G2']} iso {iso}->{b['iso']}")
  ctx.nontrivial = any(v["verdict"] is not None for v in S.V.values())
  ctx.sample = {"graph": base[0]["G1"], "isomorphism": base[0]["iso"], "sessions": len(sess), "shared": S.shared,
                "random": mode, "faults": dict(ctx.faults)}


def threads06(ctx, base):
  """Sessions in threads that share one prover and one verifier, preempted anywhere."""
  c = ctx.c
  b = c.pick(base)
  p, v = b["mkprover"](), zk.ZKVerifier(b["G1"], b["G2"])
  mode = c.pick(["line", "instr"])
  s = Scheduler(ctx, mode, max_preempt=c.pick([3, 10, 30]), gaps={"line": (2, 8, 20), "instr": (6, 40, 120)}[mode], hot=4)
  s.start_monitoring(seams.codes)

  def session():
    for _ in range(2):
      iso, H = p.send_isomorphic_copy()
      ch = v.choose_graph()
      s.pause()
      f = p.prove_isomorphic_to(iso, ch)
      if c.chance(1, 2):
        s.pause()
      ok = v.accepts(f, ch, H)
      ctx.require(ok, "honest-session-rejected", lambda: f"threads sharing the prover: choice {ch}, H={H}")
  ts = [s.spawn("s%d" % i, session) for i in range(c.between(2, 3))]
  r = s.run(lambda: all(t.state == "done" for t in ts))
  for t in ts:
    if t.exc is not None:
      raise t.exc
  ctx.require(r == "done", "session-unfinished", r)
  ctx.probe("threaded-sessions", len(ts))
  s.close()


# ---- C07 --------------------------------------------------------------------------------------
def mangler(ctx, S):
  c = ctx.c

  def mangle(kind, p):
    if kind == "challenge":
      return 3 - p
    if kind == "commit":
      p = list(p)
      k = c.draw(6)
      i = c.draw(len(p))
      if k == 0:
        p[i] = (p[i][0], 1 + c.draw(9))
      elif k == 1:
        p[i] = (p[i][1], p[i][0])
      elif k == 2:
        del p[i]
      elif k == 3:
        p.append(p[i])
      elif k == 4:
        j = c.draw(len(p))
        p[i], p[j] = p[j], p[i]
      else:
        p = p[::-1]
      return p or None
    m = dict(p)
    ks = list(m)
    k = c.draw(5)
    a, b = c.pick(ks), c.pick(ks)
    if k == 0:
      m[a], m[b] = m[b], m[a]
    elif k == 1:
      m[a] = m[b]
    elif k == 2:
      m[a] += c.pick([1, -1, len(m)])
    elif k == 3:
      m = {x: x for x in m}
    else:
      inv = {v: u for u, v in m.items()}
      m = {x: inv.get(x, x) for x in m}
    return m
  return mangle


def run07(ctx):
  c = ctx.c
  what = c.weighted([(7, "sessions"), (2, "cheater"), (1, "challenge"), (1, "doubt"), (1, "direct")])
  ctx.sample = {"experiment": what}
  if what == "sessions":
    ninst = c.between(1, 3)
    base = [instance(c, k, nmax=c.pick([2, 3, 5, 9])) for k in range(ninst)]
    if ninst > 1 and c.chance(1, 2):
      # same numbers of vertices, other isomorphism: stale and cross-session responses look plausible
      n, G1 = base[0]["n"], base[0]["G1"]
      L = perm(c, n)
      G2 = relabel(G1, {i: L[i - 1] + 1 for i in range(1, n + 1)})
      if max(map(max, G2)) == n:
        base[1] = {"key": 1, "n": n, "G1": G1, "G2": G2, "iso": L}
    for b in base:
      if c.chance(1, 5):
        # a prover that does not know the isomorphism
        b["iso"] = perm(c, b["n"])
        ctx.fault("prover-without-secret")
      b["mkprover"] = lambda b=b: zk.ZKProver(b["G1"], b["G2"], b["iso"])
    sess = [base[c.draw(ninst)] for _ in range(c.between(1, 6))]
    bus = Bus(ctx, drop=5, dup=15, corrupt=30, misdeliver=15)
    S = Sessions(ctx, bus, sess, shared=c.chance(1, 2))
    bus.mangle = mangler(ctx, S)
    for sid in range(len(sess)):
      bus.at(c.pick([0.0, 0.0, 0.05, 0.5]), lambda sid=sid: S.start(sid))
    bus.run(lambda: all(v["verdict"] is not None for v in S.V.values()))
    ctx.nontrivial = any(v["verdict"] is not None for v in S.V.values())
    ctx.sample.update(graph=base[0]["G1"], sessions=len(sess), faults=dict(ctx.faults),
                      verdicts=[v["verdict"] for v in S.V.values()])
  elif what == "direct":
    # every kind of forged response against one commitment
    b = instance(c, 0, nmax=c.pick([3, 5, 8]))
    v = zk.ZKVerifier(b["G1"], b["G2"])
    src = [b["G1"], b["G2"]][c.draw(2)]
    L = perm(c, b["n"])
    H = relabel(src, {i: L[i - 1] + 1 for i in range(1, b["n"] + 1)})
    for _ in range(60):
      m = {i + 1: x + 1 for i, x in enumerate(perm(c, b["n"]))}
      if c.chance(1, 3):
        m[1 + c.draw(b["n"])] = 1 + c.draw(b["n"])
      ch = 1 + c.draw(2)
      hh = list(H)
      k = c.draw(7)
      if k == 5:
        # a graph coming apart at its vertices folds onto either graph
        target = [b["G1"], b["G2"]][ch - 1]
        hh = [(2 * i + 1, 2 * i + 2) for i in range(len(target))]
        m = {v: w for e, t in zip(hh, target) for v, w in zip(e, t)}
        ctx.fault("folding-response")
      elif k == 6:
        # the same for a single vertex split in two
        inv = {L[x - 1] + 1: x for x in range(1, b["n"] + 1)}
        m = {i: (inv[i] if src is [b["G1"], b["G2"]][ch - 1] else
                 b["iso"][inv[i] - 1] + 1 if ch == 2 else b["iso"].index(inv[i] - 1) + 1) for i in inv}
        at = c.draw(len(hh))
        side = c.draw(2)
        w = hh[at][side]
        new = c.pick([b["n"] + 1, 0, -1, b["n"] + 7])
        e = list(hh[at])
        e[side] = new
        hh[at] = tuple(e)
        m[new] = m[w]
        ctx.fault("folding-response")
      if k == 1:
        hh = hh[:c.draw(len(hh) + 1)]
      elif k == 2:
        hh = hh + [hh[0]]
      elif k == 3:
        m = {i: [x for x in range(1, b["n"] + 1) if L[x - 1] + 1 == i][0] for i in range(1, b["n"] + 1)}
      elif k == 4:
        inv = {L[x - 1] + 1: x for x in range(1, b["n"] + 1)}
        m = {i: (inv[i] if ch == 1 else b["iso"][inv[i] - 1] + 1) for i in inv}
        if c.chance(1, 2):
          m[1 + c.draw(b["n"])] = c.between(0, b["n"] + 1)
      got = v.accepts(lambda i: m.get(i), ch, hh)
      want = valid([b["G1"], b["G2"]][ch - 1], hh, m)
      ctx.probe("accepted" if got else "refused")
      ctx.require(bool(got) == want, "wrong-verdict", lambda: f"verdict {got}: m={m} H={hh} choice={ch} G1={b['G1']} G2={b['G2']}")
      ctx.mark((ch, k, want))
    ctx.nontrivial = True
  elif what == "challenge":
    b = instance(c, 0)
    vs = [zk.ZKVerifier(b["G1"], b["G2"]) for _ in range(c.between(1, 3))]
    n = 6000
    seqs = [[] for _ in vs]
    for i in range(n):
      k = i % len(vs)
      seqs[k].append(vs[k].choose_graph())
    for s in seqs:
      check_uniform(ctx, collections.Counter(s), 2, len(s), "challenge-not-uniform", "choose_graph")
      pairs = collections.Counter(zip(s[0::2], s[1::2]))
      check_uniform(ctx, pairs, 4, len(s) // 2, "challenge-predictable", "consecutive challenges")
    for i in range(len(seqs) - 1):
      m = min(len(seqs[i]), len(seqs[i + 1]))
      check_uniform(ctx, collections.Counter(zip(seqs[i][:m], seqs[i + 1][:m])), 4, m, "challenge-predictable",
                    "challenges of two verifiers")
    ctx.mark(c.seed64())
    ctx.nontrivial = True
  elif what == "cheater":
    # commits to a copy of the graph it expects to be asked for
    n, G1 = make_graph(c, 6, 3)
    while True:
      _, G2 = make_graph(c, 6, 3)
      if max(map(max, G2)) == max(map(max, G1)):
        break
      n, G1 = make_graph(c, 6, 3)
    rounds = 4000
    strat = c.pick(["one", "two", "same", "other", "majority", "alternate", "fold"])
    v = zk.ZKVerifier(G1, G2)
    hist, wins = [], 0
    import random
    mine = random.Random(c.seed64())
    for r in range(rounds):
      last = hist[-1] if hist else 1
      g = {"one": 1, "two": 2, "same": last, "other": 3 - last, "alternate": 1 + r % 2,
           "majority": 1 + (hist[-9:].count(2) > 4), "fold": 1}[strat]
      L = list(range(1, n + 1))
      mine.shuffle(L)
      m = {i: L[i - 1] for i in range(1, n + 1)}
      inv = {y: x for x, y in m.items()}
      H = relabel([G1, G2][g - 1], m)
      if strat == "fold":
        # edges that do not touch, to be folded onto whichever graph is asked for
        H = [(2 * i + 1, 2 * i + 2) for i in range(len(G1))]
      ch = v.choose_graph()
      hist.append(ch)
      if strat == "fold":
        inv = {v: w for e, t in zip(H, [G1, G2][ch - 1]) for v, w in zip(e, t)}
      got = v.accepts(lambda i: inv.get(i), ch, H)
      want = valid([G1, G2][ch - 1], H, inv)
      ctx.require(bool(got) == want, "wrong-verdict", lambda: f"cheater: verdict {got}, guessed {g}, challenge {ch}")
      wins += bool(got)
    if G1 != G2:
      ctx.require(wins <= rounds / 2 + sigma_bound(0.5, rounds), "cheater-survives", f"{strat}: {wins} of {rounds}")
    ctx.fault("cheating-prover")
    ctx.probe("cheating-prover-rounds", rounds)
    ctx.mark((strat, c.seed64()))
    ctx.nontrivial = True
  else:
    b = instance(c, 0, 6)
    n = b["n"]
    wrong = perm(c, n)
    mapping = {i: wrong[i - 1] + 1 for i in range(1, n + 1)}
    if relabel(b["G1"], mapping) == b["G2"]:
      return
    tol = c.pick([0.5, 0.25, 0.0625, 0.1, 1e-3, 1e-20])
    N = 4000
    fooled = 0
    for _ in range(N):
      try:
        r = zk.convince_beyond_doubt(b["G1"], b["G2"], wrong, tol)
      except AssertionError:
        continue
      if r is not False:
        fooled += 1
    ctx.require(fooled <= N * tol + sigma_bound(tol, N), "tolerance-exceeded", f"tolerance {tol}: convinced {fooled} of {N} times")
    ctx.fault("cheating-prover")
    ctx.probe("cheating-prover-rounds", N)
    ctx.mark((tol, tuple(wrong)))
    ctx.nontrivial = True


# ---- C08 --------------------------------------------------------------------------------------
def run08(ctx):
  c = ctx.c
  if c.chance(1, 5):
    return large08(ctx)
  n = c.pick([2, 3, 3, 4])
  # a graph without automorphisms as an edge list: the committed graph determines the relabelling
  G1 = [(i, i + 1) for i in range(1, n)] + [(n, n)]
  G1 = c.shuffled(G1)
  L = perm(c, n)
  G2 = relabel(G1, {i: L[i - 1] + 1 for i in range(1, n + 1)})
  G1c, G2c, Lc = list(G1), list(G2), list(L)
  cells = {2: 2, 3: 6, 4: 24}[n]
  N = {2: 2000, 3: 4000, 4: 9000}[n]
  src = c.pick(["simulated", "real", "session", "mixed"])
  v = zk.ZKVerifier(G1, G2)
  prover = zk.ZKProver(G1, G2, L)
  gid = {tuple(relabel(G1, {i: p[i - 1] for i in range(1, n + 1)})): k
         for k, p in enumerate(_perms(n))}
  ctx.require(len(gid) == cells, "harness", "graph has automorphisms") if False else None
  seqs = collections.defaultdict(list)
  for k in range(N * (2 if src == "mixed" else 1)):
    s = src if src != "mixed" else ("simulated" if k % 2 else "session")
    if s == "simulated":
      H, ch, f = zk.simulate_protocol(G1, G2)
    elif s == "real":
      H, ch, f = zk.messages_from_protocol(G1, G2, L)
    else:
      iso, H = prover.send_isomorphic_copy()
      ch = v.choose_graph()
      f = prover.prove_isomorphic_to(iso, ch)
    ctx.require(callable(f) and ch in (1, 2) and isinstance(H, list), "transcript-form", f"{s}: {H!r} {ch!r} {f!r}")
    if k < 400:
      ctx.require(v.accepts(f, ch, H) is True or False, "simulated-transcript-rejected" if s == "simulated" else "real-transcript-rejected",
                  lambda: f"{s}: H={H}, choice={ch}, G1={G1}, G2={G2}, mapping={table(f, n)}")
      ctx.require(valid([G1, G2][ch - 1], H, table(f, n)), "transcript-mapping-wrong", lambda: f"{s} H={H} {table(f, n)}")
    h = gid.get(tuple(H))
    ctx.require(h is not None, "not-a-relabelling", lambda: f"{s}: committed graph {H} is no relabelling of {G1}")
    seqs[s].append((h, ch))
  ctx.require((G1, G2, L) == (G1c, G2c, Lc), "operands-changed", f"{G1} {G2} {L}")
  for s, seq in seqs.items():
    N = len(seq)
    check_uniform(ctx, collections.Counter(ch for _, ch in seq), 2, N, s + "-challenge-not-uniform", "challenge")
    check_uniform(ctx, collections.Counter(h for h, _ in seq), cells, N, s + "-graph-not-uniform", "committed graph")
    check_uniform(ctx, collections.Counter(seq), 2 * cells, N, s + "-graph-depends-on-challenge", "graph and challenge")
    if cells <= 6:
      check_uniform(ctx, collections.Counter((a[0], b[0]) for a, b in zip(seq[0::2], seq[1::2])), cells * cells, N // 2,
                    s + "-graphs-not-fresh", "consecutive committed graphs")
    # the first challenges vary, too, and the graph does not depend on the previous challenge
    check_uniform(ctx, collections.Counter((a[1], b[0]) for a, b in zip(seq[0::2], seq[1::2])), 2 * cells, N // 2,
                  s + "-graph-depends-on-history", "graph and previous challenge")
  ctx.probe("transcripts", sum(len(x) for x in seqs.values()))
  ctx.mark((src, n, tuple(L), tuple(G1), c.seed64()))
  ctx.nontrivial = True
  ctx.sample = {"source": src, "G1": G1, "G2": G2, "isomorphism": L, "transcripts": N}


def large08(ctx):
  """Relabellings of larger graphs: too many to count, so some of their statistics."""
  c = ctx.c
  n = c.pick([5, 8, 12, 16, 17, 24, 33, 40])
  G1 = c.shuffled([(i, i + 1) for i in range(1, n)] + [(n, n)])
  L = perm(c, n)
  G2 = relabel(G1, {i: L[i - 1] + 1 for i in range(1, n + 1)})
  src = c.pick(["simulated", "session"])
  v, prover = zk.ZKVerifier(G1, G2), zk.ZKProver(G1, G2, L)
  N = 2400
  a, b = c.shuffled(range(1, n + 1))[:2]
  fixed, cnt = 0, collections.defaultdict(collections.Counter)
  for k in range(N):
    if src == "simulated":
      H, ch, f = zk.simulate_protocol(G1, G2)
      G = [G1, G2][ch - 1]
    else:
      iso, H = prover.send_isomorphic_copy()
      ch, G = v.choose_graph(), G1
      f = prover.prove_isomorphic_to(iso, ch)
    ctx.require(isinstance(H, list) and len(H) == len(G), "transcript-form", lambda: f"{src}: {H!r}")
    m = {}
    for (x, y), (i, j) in zip(G, H):
      ctx.require(m.setdefault(x, i) == i and m.setdefault(y, j) == j, "not-a-relabelling", lambda: f"{src}: {H} of {G}")
    ctx.require(sorted(m.values()) == list(range(1, n + 1)), "not-a-relabelling", lambda: f"{src}: {m}")
    if k < 40:
      ctx.require(v.accepts(f, ch, H) and valid([G1, G2][ch - 1], H, table(f, n)), src + "-transcript-rejected",
                  lambda: f"H={H}, choice={ch}")
    fixed += sum(x == y for x, y in m.items())
    cnt["image of a vertex"][m[a]] += 1
    cnt["distance of two images"][(m[a] - m[b]) % n] += 1
    cnt["graph and challenge"][(m[a] > m[b], ch)] += 1
    cnt["parity"][_parity(m)] += 1
    cnt["place of the last"][[x for x in m if m[x] == n][0]] += 1
  cells = {"image of a vertex": n, "distance of two images": n - 1, "graph and challenge": 4, "parity": 2, "place of the last": n}
  for what, k in cnt.items():
    check_uniform(ctx, k, cells[what], N, src + "-graph-not-uniform", what)
  ctx.require(abs(fixed - N) <= 8 * N ** 0.5, src + "-graph-not-uniform", f"{fixed} vertices kept their place in {N} relabellings of {n}")
  ctx.probe("transcripts", N)
  ctx.mark((src, n, tuple(L), tuple(G1), c.seed64()))
  ctx.nontrivial = True
  ctx.sample = {"source": src, "vertices": n, "transcripts": N}


def _parity(m):
  seen, r = set(), 0
  for x in m:
    while x not in seen:
      seen.add(x)
      x = m[x]
      r ^= x not in seen
  return r


def _perms(n):
  import itertools
  return itertools.permutations(range(1, n + 1))
