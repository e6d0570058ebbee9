"""Authenticated storage (C14): lists committed by a Merkle root, kept in a store that fails, served over a
network that fails, to clients that hold nothing but the root.

Real: starks/merkle_tree.py, to_bytes of starks/modp.py and starks/rationals_modp.py.
Simulated: the block store under the tree (torn, lost, misdirected, rotten and stale blocks), the network,
the server (also malicious), versions of the list.
"""
import importlib

from ..core import Violation
from ..net import Bus

RUNS = {"C14": {"quick": (60000, 240), "thorough": (400000, 800)}}
RULE = ("a run commits several versions of one or more lists, damages the store between writes, and answers queries "
        "over a faulty network; every answer that verifies is compared with the committed list; non-trivial if a proof "
        "was judged; distinct = distinct deliveries, kinds of damage and outcomes")
COMPONENTS = {"real": ["starks/merkle_tree.py", "starks/modp.py", "starks/rationals_modp.py"],
              "stub": ["block store under the tree", "network", "malicious server", "versions"]}
ASSUME = ["lists have a power-of-two length of at least 4", "blake2s is collision free",
          "an exception raised by the verifier counts as refusal"]

mt = modp = rat = None
FIELDS, RATS = [], []


def setup(prop):
  global mt, modp, rat
  mt = importlib.import_module("starks.merkle_tree")
  modp = importlib.import_module("starks.modp")
  rat = importlib.import_module("starks.rationals_modp")
  for p in (2, 7, 257, 65537, 2**61 - 1, 2**256 - 2**32 * 351 + 1):
    FIELDS.append((p, modp.IntegersModP(p)))
  RATS.append(rat.RationalsModP(7))


def be32(v):
  return v.to_bytes(32, "big")


def draw_int(c):
  k = c.draw(6)
  if k == 0:
    return c.draw(4)
  if k == 1:
    return (1 << 256) - 1 - c.draw(3)
  if k == 2:
    return 1 << (8 * c.draw(32))
  return (c.draw(1 << 62) << 194) ^ (c.draw(1 << 62) << 120) ^ (c.draw(1 << 62) << 60) ^ c.draw(1 << 60)


def stretch(seed, n):
  """n pseudo-random bytes decided by a small drawn seed."""
  import random
  return random.Random(seed).randbytes(n)


class Element:
  def __init__(self, enc, face):
    self.enc, self.face = enc, face

  def to_bytes(self):
    return self.enc

  def __eq__(self, o):
    return isinstance(o, Element) and self.face == o.face

  def __hash__(self):
    return hash(self.face)

  def __repr__(self):
    return "element %r" % (self.face,)


def make_list(c, kind, n, width):
  """(values to commit, their encodings)"""
  sparse = c.chance(1, 4)            # many equal values
  base = c.draw(1 << 30)

  def h(i):
    j = (i % 3) if sparse else i
    return (base * 1000003 + j * 2654435761) & ((1 << 48) - 1)
  if kind == "int":
    vals = [draw_int(c) if i < 6 else int.from_bytes(stretch(h(i), 32), "big") for i in range(n)]
    return vals, [be32(v) for v in vals]
  if kind == "bytes":
    vals = [stretch(h(i), width) for i in range(n)]
    if c.chance(1, 4):
      vals[c.draw(n)] = b"\0" * width
    return vals, list(vals)
  if kind == "varbytes":
    vals = [stretch(h(i), (h(i) >> 7) % 70) for i in range(n)]
    return vals, list(vals)
  if kind == "field":
    p, F = c.pick(FIELDS)
    ints = [int.from_bytes(stretch(h(i), 32), "big") % p for i in range(n)]
    return [F(v) for v in ints], [be32(v) for v in ints]
  if kind == "objects":
    # elements of the user's own types, some of which compare or print alike
    encs = [stretch(h(i), width) for i in range(n)]
    return [Element(e, c.draw(1) if sparse else (e[:1] if width > 1 else b"")) for e in encs], encs
  if kind == "rational":
    R = RATS[0]
    vals = [R(h(i) % 6, 1 + (h(i) >> 8) % 6) for i in range(n)]
    return vals, [be32(v.m % 7) + be32(v.n % 7) for v in vals]
  raise ValueError(kind)


class Tree:
  """One committed version: what the client may rely on, and the blocks as they were written."""
  __slots__ = ("nodes", "enc", "root", "polys")


def commit_list(ctx, c):
  n = c.weighted([(5, 4), (5, 8), (4, 16), (4, 32), (2, 64), (1, 256), (1, 1024)])
  t = Tree()
  t.polys = None
  kind = c.pick(["int", "bytes", "bytes", "varbytes", "field", "rational", "polys", "objects"])
  if kind == "polys":
    p, F = c.pick(FIELDS)
    dims, k = c.between(1, 3), c.between(1, 3)
    if c.chance(1, 6):
      dims, k, n = c.between(4, 20), 3, min(n, 8)
    n = min(n, 64)
    base = c.draw(1 << 30)
    cols = [[(base * 31 + j * 7919 + i * 104729) ** 3 % p for i in range(n)] for j in range(dims * k)]
    t.nodes = mt.merkelize_polynomial_evaluations(dims, [[F(v) for v in col] for col in cols])
    t.enc = [b"".join(be32(col[i]) for col in cols) for i in range(n)]
    t.polys = (dims, k)
  else:
    vals, t.enc = make_list(c, kind, n, c.pick([32, 1, 31, 33, 64, 96]))
    before = list(vals)
    t.nodes = mt.merkelize(vals)
    ctx.require(len(vals) == len(before) and all(a is b for a, b in zip(vals, before)), "commit-changes-list", kind)
    if c.chance(1, 3):
      vals[c.draw(n)] = vals[0]      # the caller goes on using its list
      vals.reverse()
  t.root = t.nodes[1]
  ctx.mark((kind, n))
  return t


def mutate(ctx, c, t, trees, index, proof):
  """(label, index, proof) after one change."""
  proof = list(proof)
  n = len(t.enc)
  k = c.draw(19)
  if not proof:
    return "emptied", index, proof
  pos = c.draw(len(proof))
  x = proof[pos]
  if k == 0:
    if not x:
      return "byte-added", index, proof[:pos] + [b"\0"] + proof[pos + 1:]
    i = c.draw(len(x))
    proof[pos] = x[:i] + bytes([x[i] ^ (1 << c.draw(8))]) + x[i + 1:]
    return "bit-flip", index, proof
  if k == 1:
    return "truncated-end", index, proof[:-1 - c.draw(min(2, len(proof)))]
  if k == 2:
    return "truncated-front", index, proof[1 + c.draw(2):]
  if k == 3:
    extra = c.pick([b"", b"\0" * 32, t.root, proof[0], be32(1)])
    return "extended", index, proof + [extra]
  if k == 4:
    extra = c.pick([b"", b"\0" * 32, t.root, proof[0], be32(1)])
    return "extended-front", index, [extra] + proof
  if k == 5:
    j = c.draw(len(proof))
    proof[pos], proof[j] = proof[j], proof[pos]
    return "reordered", index, proof
  if k == 6:
    del proof[pos]
    return "element-dropped", index, proof
  if k == 7:
    return "element-doubled", index, proof[:pos] + [x] + proof[pos:]
  if k == 8 and len(proof) > 1 and len(proof[1]) > 0:
    s = 1 + c.draw(len(proof[1]))
    proof[0], proof[1] = proof[0] + proof[1][:s], proof[1][s:]
    return "boundary-shifted", index, proof
  if k == 9 and len(proof) > 1 and len(proof[0]) > 0:
    s = 1 + c.draw(len(proof[0]))
    proof[0], proof[1] = proof[0][s:], proof[1] + proof[0][:s]
    return "boundary-shifted", index, proof
  if k == 10 and len(proof) > 1 and len(proof[0]) > 0:
    s = 1 + c.draw(len(proof[0]))
    proof[0], proof[1] = proof[0][:-s], proof[0][-s:] + proof[1]
    return "boundary-shifted", index, proof
  if k == 11:
    # an inner node of the real path in place of the leaf, claimed at an index of the shorter list
    order = path_nodes(t, index)
    up = 1 + c.draw(len(order) - 1) if len(order) > 1 else 0
    return "inner-node-as-leaf", c.draw(max(1, n >> up)), [t.nodes[order[up]]] + proof[up + 1:]
  if k == 12:
    # the two children of the leaf's place, invented: a leaf that is itself a hash input
    leaf = t.enc[index]
    s = len(leaf) // 2
    return "leaf-split", c.draw(2 * n), [leaf[:s], leaf[s:]] + proof[1:]
  if k == 13:
    j = c.draw(n)
    return "other-index", j, proof
  if k == 14:
    return "index-outside", c.pick([n, n + index, 2 * n + index, -1 - c.draw(n), index - n, index + n // 4 * 4 * 4]), proof
  if k == 15:
    proof[0] = t.enc[c.draw(n)]
    return "leaf-replaced", index, proof
  if k == 16:
    o = c.pick(trees)
    i = c.draw(len(o.enc))
    return "other-version", c.pick([index, i]), mt.mk_branch(o.nodes, i)
  if k == 17:
    proof[0] = c.pick([b"\0" + proof[0], proof[0] + b"\0", proof[0].lstrip(b"\0"), proof[0][:-1], proof[0] + proof[0]])
    return "leaf-padded", index, proof
  o = c.pick(trees)
  i = c.draw(len(o.enc))
  other = mt.mk_branch(o.nodes, i)
  cut = c.draw(len(proof) + 1)
  return "stitched", c.pick([index, i]) % max(1, n), proof[:cut] + other[cut:]


def path_nodes(t, index):
  """Positions of the nodes from the leaf of `index` up to the root (harness's own reading of the layout)."""
  n = len(t.enc)
  q = n // 4
  k = n + index // q + 4 * (index % q)
  out = []
  while k >= 1:
    out.append(k)
    k //= 2
  return out


def verify(root, index, proof, as_int):
  try:
    return True, mt.verify_branch(root, index, proof, output_as_int=True) if as_int else mt.verify_branch(root, index, proof)
  except Exception:  # noqa: refusal
    return False, None


def judge(ctx, trees, root, index, proof, as_int, label):
  """Soundness: what verifies is what was committed."""
  kept = list(proof) if isinstance(proof, list) else None
  ok, v = verify(root, index, proof, as_int)
  ctx.require(kept is None or proof == kept, "verifier-changes-proof", label)
  ctx.probe(("accepted " if ok else "refused ") + label)
  ctx.mark((label, ok))
  ctx.nontrivial = True
  if not ok:
    return False
  for t in trees:
    if t.root == root:
      if not (isinstance(index, int) and 0 <= index < len(t.enc)):
        raise Violation("verified-outside-list", f"{label}: index {index} of a list of {len(t.enc)} -> {str(v)[:80]}")
      want = int.from_bytes(t.enc[index], "big") if as_int else t.enc[index]
      if v != want:
        raise Violation("verified-other-value",
                        f"{label}: index {index} of {len(t.enc)}: committed {str(want)[:90]}, verified {str(v)[:90]}")
      return True
  raise Violation("verified-under-unknown-root", f"{label}: root {root!r:.80}, index {index}")


def honest(ctx, t, index, as_int, proof, label):
  ok, v = verify(t.root, index, proof, as_int)
  want = int.from_bytes(t.enc[index], "big") if as_int else t.enc[index]
  ctx.require(ok, "honest-proof-refused", lambda: f"{label}: index {index} of {len(t.enc)}")
  ctx.require(v == want, "verified-other-value",
              lambda: f"{label}: index {index} of {len(t.enc)}: committed {str(want)[:90]}, verified {str(v)[:90]}")
  if t.polys and not as_int:
    dims, k = t.polys
    parts = mt.unpack_merkle_leaf(v, dims, k)
    ctx.require(parts == [want[i:i + 32] for i in range(0, len(want), 32)], "unpacked-other-values",
                lambda: f"{dims} dims, {k} polynomials")


class Store:
  """Blocks of the current tree on a disk that may fail; the server reads through it."""

  def __init__(self, ctx):
    self.ctx, self.c = ctx, ctx.c
    self.blocks = []
    self.clean = True
    self.touched = set()

  def write(self, t, faulty):
    """Write a version over the previous one; a crash, a torn or a lost write may leave a mixture."""
    c, ctx, n = self.c, self.ctx, len(t.nodes)
    new = list(t.nodes)
    old = self.blocks + [b""] * (n - len(self.blocks))
    self.blocks, self.clean = new, True
    if not faulty:
      return
    what = c.weighted([(3, None), (2, "crash"), (2, "lost"), (1, "torn"), (1, "misdirected"), (2, "rot")])
    if what is None:
      return
    ctx.fault("store-" + what)
    self.clean = False
    if what == "crash":
      cut = c.draw(n)
      self.blocks = new[:cut] + old[cut:n] if c.chance(1, 2) else old[:cut] + new[cut:]
    elif what == "lost":
      for _ in range(c.between(1, 4)):
        i = c.draw(n)
        self.blocks[i] = old[i]
    elif what == "torn":
      i = c.draw(n)
      s = c.draw(len(new[i]) + 1)
      self.blocks[i] = new[i][:s] + old[i][s:]
    elif what == "misdirected":
      i, j = c.draw(n), c.draw(n)
      self.blocks[i] = new[j]
    else:
      for _ in range(c.between(1, 3)):
        i = c.draw(n)
        if new[i]:
          j = c.draw(len(new[i]))
          self.blocks[i] = new[i][:j] + bytes([new[i][j] ^ (1 << c.draw(8))]) + new[i][j + 1:]


def run(ctx):
  c = ctx.c
  trees = [commit_list(ctx, c) for _ in range(c.between(1, 3))]
  # later versions of the first list: one element replaced, everything else as it was
  for _ in range(c.draw(3)):
    t0 = trees[c.draw(len(trees))]
    enc = list(t0.enc)
    i = c.draw(len(enc))
    enc[i] = bytes((b + 1) & 255 for b in enc[i]) or b"x"
    t = Tree()
    t.enc, t.polys = enc, t0.polys
    t.nodes = mt.merkelize(list(enc))
    t.root = t.nodes[1]
    trees.append(t)
  # intact storage: a few indices of each version, in any order, more than once
  for _ in range(c.between(2, 8)):
    t = c.pick(trees)
    i = c.weighted([(1, 0), (1, len(t.enc) - 1), (4, c.draw(len(t.enc)))])
    before = t.nodes[:]
    proof = mt.mk_branch(t.nodes, i)
    ctx.require(t.nodes == before, "mk_branch-changes-tree", i)
    honest(ctx, t, i, c.chance(1, 3), proof, "intact")
  # a server that keeps one tree and brings it up to date in place, node by node, between answers
  if c.chance(1, 2):
    t0 = trees[c.draw(len(trees))]
    live, n = list(t0.nodes), len(t0.enc)
    now, asked = t0, [c.draw(n) for _ in range(c.between(1, 3))]
    for j in asked:
      honest(ctx, now, j, False, mt.mk_branch(live, j), "before-update")
    for _ in range(c.between(1, 3)):
      u = Tree()
      u.enc, u.polys = list(now.enc), t0.polys
      i = c.pick(asked) if c.chance(2, 3) else c.draw(n)
      u.enc[i] = bytes((b + 1) & 255 for b in u.enc[i]) or b"y"
      u.nodes = mt.merkelize(list(u.enc))
      u.root = u.nodes[1]
      for k, (x, y) in enumerate(zip(live, u.nodes)):
        if x != y:
          live[k] = y
      now = u
      for j in asked:
        honest(ctx, now, j, False, mt.mk_branch(live, j), "updated-in-place")
    trees.append(now)
    ctx.fault("tree-updated-in-place")
  # queries over the network against a store that is written and damaged meanwhile
  faulty = c.chance(3, 4)
  bus = Bus(ctx, drop=12 if faulty else 0, dup=15 if faulty else 0, corrupt=40 if faulty else 0, misdeliver=10 if faulty else 0)
  store = Store(ctx)
  current = [trees[0]]
  store.write(trees[0], faulty)
  queries = []
  for k in range(c.between(1, 4)):
    t = c.pick(trees)
    queries.append({"t": t, "i": c.draw(len(t.enc)), "int": c.chance(1, 4), "done": False, "tries": 0})
  bus.sids = range(len(queries))

  def mangle(kind, payload):
    if kind != "proof" or payload is None:
      return None
    i, proof, src, _ = payload
    label, i2, p2 = mutate(ctx, c, src, trees, i, proof)
    ctx.fault("proof-" + label)
    return (i2, p2, src, False)
  bus.mangle = mangle

  def server(kind, sid, index):
    nodes = store.blocks
    if index >= len(nodes) // 2:
      bus.send("client", "proof", sid, None)
      return
    try:
      proof = mt.mk_branch(nodes, index)
    except Exception as e:  # noqa: the store has lost blocks
      if store.clean:
        raise
      return
    bus.send("client", "proof", sid, (index, proof, current[0], store.clean))

  def client(kind, sid, payload):
    q = queries[sid]
    if payload is None:
      return
    index, proof, src, intact = payload
    if intact and src is q["t"] and index == q["i"]:
      honest(ctx, src, index, q["int"], proof, "over the network")
      q["done"] = True
    label = "network" if intact else "damaged"
    judge(ctx, trees, q["t"].root, q["i"], proof, q["int"], label)
    if c.chance(1, 3):
      judge(ctx, trees, q["t"].root, index, proof, q["int"], label + "-claimed-index")

  bus.handlers = {"server": server, "client": client}

  def ask(sid):
    q = queries[sid]
    if q["done"] or q["tries"] > 6:
      return
    q["tries"] += 1
    if q["tries"] > 3:
      # faults have stopped: the version asked for is written again, completely
      bus.rates = dict(drop=0, dup=0, corrupt=0, misdeliver=0)
      current[0] = q["t"]
      store.write(q["t"], False)
    bus.send("server", "ask", sid, q["i"])
    bus.at(3.0, lambda: ask(sid))
  for sid in range(len(queries)):
    bus.at(c.pick([0.0, 0.5]) + sid * 30, lambda sid=sid: ask(sid))
  if len(trees) > 1:
    for _ in range(c.draw(4)):
      def rewrite():
        current[0] = c.pick(trees)
        store.write(current[0], faulty)
      bus.at(c.pick([0.2, 1.5, 4.0, 30.2]), rewrite)
  ok = bus.run(lambda: all(q["done"] for q in queries))
  ctx.require(ok, "query-unanswered", "the store was rewritten and the network healed, but a query got no proof that verifies")
  # proofs and roots tampered with by someone who sees everything
  for _ in range(c.between(2, 10)):
    t = c.pick(trees)
    i = c.draw(len(t.enc))
    proof = mt.mk_branch(t.nodes, i)
    index, labels = i, []
    for _ in range(c.between(1, 2)):
      label, index, proof = mutate(ctx, c, t, trees, index if 0 <= index < len(t.enc) else i, proof)
      labels.append(label)
    ctx.fault("tamper-" + labels[-1])
    root = t.root
    if c.chance(1, 6):
      o = c.pick(trees)
      root = c.pick([o.root, root[:-1], root + b"\0", root[:4], b"", bytes([root[0] ^ 1]) + root[1:],
                     root[:-1] + bytes([root[-1] ^ 128]), proof[0] if proof else b""])
      ctx.fault("tamper-root")
      labels.append("root")
      if c.chance(1, 2):
        index, proof = i, mt.mk_branch(t.nodes, i)
        labels = ["root-only"]
    judge(ctx, trees, root, index, proof, c.chance(1, 4), "+".join(labels))
    if c.chance(1, 3):
      honest(ctx, t, i, False, mt.mk_branch(t.nodes, i), "after tampering")
  ctx.sample = f"{len(trees)} versions of lengths {[len(t.enc) for t in trees]}, faults {dict(ctx.faults)}"
