"""Compressed proofs over a channel that loses, repeats, reorders, damages and mixes packets (C15).

Real: starks/compression.py, starks/merkle_tree.py.
Simulated: provers and verifiers in preempted threads, the channel, damage to the stream, malicious senders.
"""
import copy
import importlib
import random

from .. import seams
from ..core import Violation
from ..sched import Scheduler

RUNS = {"C15": {"quick": (18000, 240), "thorough": (250000, 800)}}
RULE = ("a run compresses proofs of drawn shape and repetition in interleaved (preempted) sessions, sends the streams in "
        "packets over a faulty channel, and decompresses what arrives intact or damaged; non-trivial if a stream was "
        "decompressed; distinct = distinct schedules, shapes, damages and outcomes")
COMPONENTS = {"real": ["starks/compression.py", "starks/merkle_tree.py"],
              "stub": ["channel and packets", "thread scheduler", "malicious senders"]}
ASSUME = ["blake2s is collision free", "an exception counts as refusal",
          "representable = no entry of two bytes, none equal to a separator, every repeated entry first occurs among the "
          "first 65536 items of the stream"]
SEPS = (b"----", b"++++", b"====", b"////")

cp = mt = None


def setup(prop):
  global cp, mt
  cp = importlib.import_module("starks.compression")
  mt = importlib.import_module("starks.merkle_tree")


def item(rnd, style, pool):
  if style == "hash":
    return rnd.randbytes(32)
  if style == "pool":
    return rnd.choice(pool)
  if style == "odd":
    return rnd.randbytes(rnd.choice([0, 1, 3, 4, 5, 8, 31, 33, 64, 96, 130]))
  if style == "two":
    return rnd.randrange(rnd.choice([3, 12, 60])).to_bytes(2, "big") if rnd.random() < 0.6 else rnd.randbytes(2)
  if style == "edge":
    x = rnd.randbytes(30)
    return rnd.choice([x + b"\0\0", x + b"\xff\xff", b"\0\0" + x, b"\xff\xff" + x, b"\0" * 32, b"\xff" * 32, x[:28] + SEPS[0],
                       SEPS[1] + x[:28], x[:28] + b"\0\0\0\1"])
  return rnd.choice(SEPS)


def free_form(c, fri):
  """A proof of arbitrary shape; (proof, style)"""
  rnd = random.Random(c.draw(1 << 30))
  style = c.weighted([(6, "hash"), (6, "pool"), (4, "odd"), (3, "edge"), (2, "two"), (1, "sep")])
  pool = [rnd.randbytes(32) for _ in range(c.pick([1, 2, 7, 40, 300]))]
  if c.chance(1, 4):
    pool += [rnd.randbytes(k) for k in (0, 1, 3, 4, 5, 64)]
  special = rnd.choice([2, 6, 30]) if style in ("two", "sep") else 0

  def it():
    if special and rnd.randrange(special) == 0:
      return item(rnd, style, pool)
    return item(rnd, "pool" if special else style if style != "hash" or rnd.random() < 0.7 else "pool", pool)

  big = c.weighted([(60, 0), (12, 1), (1, 2)])
  scale = [6, 60, 400][big]

  def branch():
    return [it() for _ in range(rnd.randrange(scale if big < 2 else 12))]
  if not fri:
    n = rnd.randrange(8) if big < 2 else 14000
    if big == 2 and style != "pool":
      style, prefix = "hash", [[rnd.randbytes(32)] for _ in range(2)]
      out = [[rnd.randbytes(32) for _ in range(5)] for _ in range(c.pick([10000, 10922, 10923, 11400, 13000]))]
      # repeat entries first seen around the limits of a two-byte reference
      flat = [x for b in out for x in b]
      for pos in (200, 212, 213, 214, len(flat) - 1, c.draw(len(flat))):
        if c.chance(1, 2):
          out.append([flat[pos]])
      return prefix + out, "huge"
    return [branch() for _ in range(n)], style + str(big)
  layers = []
  if big == 2:
    # as long as real proofs are, and longer than two bytes can count
    st = style if style in ("pool", "edge") else "hash"
    far = []
    for _ in range(rnd.choice([1, 1, 2, 5])):
      ys = [[[item(rnd, st, pool) for _ in range(rnd.choice([6, 11, 14]))] for _ in range(5)] for _ in range(rnd.choice([40, 80, 300]))]
      if far and rnd.random() < 0.5:
        ys.append([[rnd.choice(far) for _ in range(4)]])
      far += [x for b in ys[-1] for x in b][:20] + [ys[0][0][0]]
      layers.append([item(rnd, "hash", pool), ys])
    return layers + [[item(rnd, st, pool) for _ in range(16)] + [rnd.choice(far)]], "huge"
  for _ in range(rnd.randrange(4)):
    layers.append([it(), [[branch() for _ in range(rnd.randrange(4))] for _ in range(rnd.randrange(5))]])
  return layers + [[it() for _ in range(rnd.randrange(scale))]], style + str(big)


class Committed:
  """A list under a Merkle root."""

  def __init__(self, rnd, n, few):
    pool = [rnd.randbytes(32) for _ in range(3)]
    self.vals = [rnd.choice(pool) if few else rnd.randbytes(32) for _ in range(n)]
    self.nodes = mt.merkelize(list(self.vals))
    self.root = self.nodes[1]


def real_form(c, fri):
  """Branches of committed lists: (proof, check) with check(decompressed) -> list of (where, tree, index, branch)."""
  rnd = random.Random(c.draw(1 << 30))
  n = c.pick([4, 8, 16, 32, 64])
  trees = [Committed(rnd, n, c.chance(1, 3)) for _ in range(3)]
  spots = [rnd.randrange(n) for _ in range(c.between(1, 12))]
  if not fri:
    plan = []
    for s in spots:
      plan += [(trees[0], s), (trees[0], (s + 1) % n), (trees[1], s)]
    proof = [mt.mk_branch(t.nodes, i) for t, i in plan]

    def claims(d):
      out = []
      for k, (t, i) in enumerate(plan):
        if isinstance(d, list) and k < len(d):
          out.append((k, t, i, d[k]))
      return out
    return proof, claims
  plan, proof = [], []
  for layer in range(c.between(1, 2)):
    t, t2 = trees[layer], trees[layer + 1]
    p = [[(t2, s)] + [(t, (s + (n // 4) * j) % n) for j in range(4)] for s in spots]
    plan.append(p)
    proof.append([t2.root, [[mt.mk_branch(x.nodes, i) for x, i in y] for y in p]])
  proof.append([rnd.randbytes(32) for _ in range(c.between(1, 16))])

  def claims(d):
    out = []
    for l, p in enumerate(plan):
      for y, ps in enumerate(p):
        for b, (t, i) in enumerate(ps):
          try:
            br = d[l][1][y][b]
          except (IndexError, TypeError):
            continue
          out.append(((l, y, b), t, i, br))
    return out
  return proof, claims


def entries(proof, fri):
  """The entries in the order compression meets them, separators included (harness's reading of the format)."""
  if not fri:
    for b in proof:
      for x in b:
        yield x, False
      yield b"----", True
    return
  for root, ys in proof[:-1]:
    yield b"----", True
    yield root, False
    for y in ys:
      for b in y:
        for x in b:
          yield x, False
        yield b"++++", True
      yield b"====", True
  yield b"////", True
  for x in proof[-1]:
    yield x, False


def representable(proof, fri):
  seen = {}
  k = 0
  for x, sep in entries(proof, fri):
    if not sep and (len(x) == 2 or x in SEPS):
      return False
    if x in seen:
      if seen[x] > 65535:
        return False
    else:
      seen[x] = k
    k += 1
  return True


def damage(c, stream, others):
  """(label, stream)"""
  s = list(stream)
  k = c.draw(12)
  if not s:
    return "filled", [c.pick([b"////", b"----", b"\0\0", b"x"])]
  pos = c.draw(len(s))
  if k == 0:
    x = s[pos]
    if not x:
      s[pos] = b"\1"
    else:
      i = c.draw(len(x))
      s[pos] = x[:i] + bytes([x[i] ^ (1 << c.draw(8))]) + x[i + 1:]
    return "bit-flip", s
  if k == 1:
    return "truncated", s[:pos]
  if k == 2:
    return "head-lost", s[pos:]
  if k == 3:
    del s[pos]
    return "item-lost", s
  if k == 4:
    s.insert(c.draw(len(s) + 1), s[pos])
    return "item-repeated", s
  if k == 5:
    j = c.draw(len(s))
    s[pos], s[j] = s[j], s[pos]
    return "items-swapped", s
  if k == 6:
    refs = [i for i, x in enumerate(s) if len(x) == 2]
    i = c.pick(refs) if refs else pos
    t = c.pick([i, max(0, i - 1), min(i + 1, len(s) - 1), len(s) - 1, len(s), 0xFFFF, c.draw(len(s)), c.draw(len(s))])
    s[i] = min(t, 0xFFFF).to_bytes(2, "big")
    return "reference-altered", s
  if k == 7:
    s.insert(pos, c.pick(SEPS))
    return "separator-inserted", s
  if k == 8:
    seps = [i for i, x in enumerate(s) if x in SEPS]
    if seps:
      del s[c.pick(seps)]
    return "separator-lost", s
  if k == 9:
    o = c.pick(others)
    cut = c.draw(len(o) + 1)
    return "mixed", s[:pos] + list(o[cut:])
  if k == 10:
    a = c.draw(len(s))
    a, b = min(a, pos), max(a, pos)
    return "block-moved", s[:a] + s[b:] + s[a:b]
  i, j = pos, c.draw(len(s))
  s[i], s[j] = j.to_bytes(4, "big")[-2:], i.to_bytes(4, "big")[-2:]
  return "reference-cycle", s


def run(ctx):
  c = ctx.c
  sessions = []
  for k in range(c.between(1, 4)):
    fri = bool(c.draw(2))
    if c.chance(1, 2):
      proof, shape = free_form(c, fri)
      claims = None
    else:
      proof, claims = real_form(c, fri)
      shape = "real"
    sessions.append({"fri": fri, "proof": proof, "claims": claims, "shape": shape, "stream": None, "copy": copy.deepcopy(proof)})
    ctx.mark((fri, shape))
  big = sum(1 for s in sessions for _ in entries(s["proof"], s["fri"])) > 3000
  threads = len(sessions) > 1 and not big and c.chance(1, 3)

  def compress(s):
    f = cp.compress_fri if s["fri"] else cp.compress_branches
    try:
      s["stream"] = f(s["proof"])
    except Exception as e:  # noqa: refused
      s["refused"] = repr(e)[:100]

  def decompress(s, stream):
    return (cp.decompress_fri if s["fri"] else cp.decompress_branches)(stream)

  if threads:
    sched = Scheduler(ctx, mode=c.pick(["line", "instr"]), max_preempt=c.between(1, 60), gaps=(5, 60, 500))
    sched.start_monitoring([k for k in seams.codes if k.co_filename.endswith(("compression.py", "merkle_tree.py"))])
    for i, s in enumerate(sessions):
      sched.spawn(f"compress{i}", lambda s=s: compress(s))
    r = sched.run(lambda: all(t.state == "done" for t in sched.tasks))
    sched.close()
    ctx.require(r == "done", "compression-stuck", r)
    for t in sched.tasks:
      if t.exc is not None:
        raise t.exc
  else:
    for s in c.shuffled(sessions):
      compress(s)
      if c.chance(1, 4):
        compress(s)
  for s in sessions:
    ctx.require(s["proof"] == s["copy"], "compression-changes-proof", s["shape"])
    if s["stream"] is None:
      ctx.probe("refused")
      ctx.require(not representable(s["proof"], s["fri"]), "representable-proof-refused",
                  lambda: f"{s['shape']} ({'fri' if s['fri'] else 'branches'}): {s['refused']}")
    else:
      ctx.probe("compressed")
  live = [s for s in sessions if s["stream"] is not None]
  streams = [s["stream"] for s in live]
  for s in c.shuffled(live):
    kept = list(s["stream"])
    channel(ctx, s, streams, decompress, damaged=False)
    for _ in range(c.between(1, 3) if len(kept) < 3000 else 1):
      channel(ctx, s, streams, decompress, damaged=True)
    ctx.require(s["stream"] == kept, "decompression-changes-stream", s["shape"])
  # once more after everything that went wrong
  for s in live:
    if c.chance(1, 3):
      d = decompress(s, s["stream"])
      ctx.require(d == s["copy"], "decompresses-to-other-proof", lambda: f"{s['shape']} after damaged streams")
  ctx.sample = f"{[(s['shape'], 'fri' if s['fri'] else 'branches', len(s['stream'] or [])) for s in sessions]} faults {dict(ctx.faults)}"


def channel(ctx, s, streams, decompress, damaged):
  """One delivery of a stream: packets with sequence numbers repair loss, repetition and reordering unless damaged."""
  c = ctx.c
  stream = s["stream"]
  if not damaged:
    size = c.pick([1, 3, 16, 64, 1000000])
    packets = [(i, stream[i:i + size]) for i in range(0, len(stream), size)]
    if len(packets) < 200:
      got = {}
      for _ in range(6):
        for i, p in c.shuffled(packets) if c.chance(1, 2) else packets:
          if i not in got or c.chance(1, 10):
            if c.chance(1, 8):
              ctx.fault("packet-lost")
              continue
            got[i] = p
        if len(got) == len(packets):
          break
      else:
        got = dict(packets)
      arrived = [x for i in sorted(got) for x in got[i]]
    else:
      arrived = list(stream)
    d = decompress(s, arrived)
    ctx.nontrivial = True
    ctx.require(d == s["copy"], "decompresses-to-other-proof",
                lambda: f"{s['shape']} {'fri' if s['fri'] else 'branches'}, {len(stream)} items")
    for x in entries(d, s["fri"]):
      if not isinstance(x[0], bytes):
        raise Violation("decompresses-to-other-proof", f"entry {x!r}")
    check_claims(ctx, s, d, True)
    return
  labels = []
  bad = list(stream)
  for _ in range(c.between(1, 3)):
    label, bad = damage(c, bad, streams)
    labels.append(label)
  ctx.fault("stream-" + labels[0])
  steps = StepLimit(200 * (len(bad) + 50) + 20000)
  try:
    with steps:
      d = decompress(s, bad)
  except Exception as e:  # noqa: refused
    if steps.exceeded:
      raise Violation("decompression-does-not-end", f"{'+'.join(labels)} of {len(stream)} items: {bad[:12]}")
    ctx.probe("damaged-refused")
    ctx.mark((labels[0], False))
    return
  if steps.exceeded:
    raise Violation("decompression-does-not-end", f"{'+'.join(labels)} of {len(stream)} items")
  ctx.nontrivial = True
  ctx.probe("damaged-decompressed")
  ctx.mark((labels[0], True))
  check_claims(ctx, s, d, False, "+".join(labels))


class StepLimit:
  """Bounds the work of a call: function calls and jumps inside the repository."""

  def __init__(self, limit):
    self.left, self.exceeded = limit, False

  def __enter__(self):
    import sys
    self.M = sys.monitoring
    self.M.use_tool_id(3, "steps")
    ev = self.M.events

    def tick(*a):
      self.left -= 1
      if self.left < 0:
        self.exceeded = True
        self.M.set_events(3, 0)
        raise RuntimeError("too many steps")
    for e in (ev.JUMP, ev.BRANCH, ev.PY_START):
      self.M.register_callback(3, e, tick)
    self.M.set_events(3, ev.JUMP | ev.BRANCH | ev.PY_START)
    return self

  def __exit__(self, *a):
    self.M.set_events(3, 0)
    self.M.free_tool_id(3)
    return False


def check_claims(ctx, s, d, intact, label=""):
  """Whatever Merkle verification accepts is what the sender's lists hold."""
  if s["claims"] is None:
    return
  for where, t, i, branch in s["claims"](d):
    try:
      v = mt.verify_branch(t.root, i, branch)
    except Exception:  # noqa: refused
      ctx.require(not intact, "intact-branch-refused", where)
      continue
    ctx.require(v == t.vals[i], "authenticates-other-data", lambda: f"{label} {where}: {v!r:.100}, committed {t.vals[i]!r:.80}")
    ctx.probe("authenticated")
