"""Provers and verifiers of low-degree proximity proofs over smooth subgroups (C32).

Real: starks/fri.py (SmoothSubgroupFRI) with fft, merkle_tree, poly_utils, polynomial, field, utils, compression.
Simulated: network, preempted prover/verifier threads, altered and stitched proofs, cheating provers.
Oracle: the degree of the polynomial the harness drew, and plain-integer folding.
"""
import copy
import hashlib
import importlib

from .. import seams
from ..core import Violation
from ..net import Bus
from ..sched import Scheduler
from . import starkworld as sw

RUNS = {"C32": {"quick": (4000, 300), "thorough": (60000, 800)}}
RULE = {"C32": "a run draws domains, bounds, exclusions and polynomials, proves them in interleaved sessions, also in preempted "
               "threads that share one prover object, ships proofs plain or compressed over a faulty network, and then delivers "
               "altered, stitched and misdirected proofs and those of cheating provers; non-trivial if a proof was judged; "
               "distinct = distinct sessions, schedules, faults and attacks"}
COMPONENTS = {"real": ["starks/fri.py (SmoothSubgroupFRI)", "starks/fft.py", "starks/merkle_tree.py", "starks/compression.py",
                       "starks/poly_utils.py", "starks/polynomial.py", "starks/modp.py", "starks/utils.py"],
              "stub": ["network", "thread scheduler", "cheating provers (harness)"]}
ASSUME = ["blake2s is collision free and its outputs unpredictable", "a verifier that raises refuses",
          "rejection: at least forty samples, a domain of at least four times the bound, a field of 256 bits"]

BIG, GOLD = sw.BIG, sw.GOLD
fr = None


def setup(prop):
  global fr
  sw.setup("C17")
  fr = sw.fr


class Claim:
  """A domain, a bound, an exclusion and a polynomial below the bound."""

  def __init__(self, c, sound):
    self.p = BIG if sound else c.weighted([(4, BIG), (2, GOLD), (2, 65537)])
    self.n = c.weighted([(2, 16), (3, 32), (4, 64), (6 if sound else 3, 128), (3, 256)] + ([] if sound else [(1, 8), (1, 4)]))
    if c.chance(1, 25):
      self.n = c.weighted([(6, 512), (3, 1024), (1, 2048)])
    top = max(1, self.n // (4 if sound else 2))
    self.bound = c.weighted([(4, c.between(1, top)), (6 if sound else 3, top), (2, min(top, 16)), (2, min(top, 17)), (2, min(top, c.between(15, 40)))])
    self.excl = c.pick([0, 0, 2, 4, 4, 8, 16])
    while self.excl and (self.excl > self.n // 4 or self.left() <= self.bound):
      self.excl = self.excl * 2 if self.excl < self.n // 8 else 0
    self.samples = c.weighted([(6, 40), (1, c.between(41, 70)), (1, 40 if sound else c.between(1, 39))])
    g = pow(7, (self.p - 1) // self.n, self.p)
    self.g = pow(g, 2 * c.draw(self.n // 2) + 1, self.p)
    self.coefs = self.draw(c, self.bound - 1)

  def left(self):
    return self.n - (self.n // self.excl if self.excl else 0)

  def draw(self, c, deg):
    """Coefficients of a polynomial of that degree at most (exactly, mostly)."""
    p = self.p
    k = c.draw(6)
    if k == 0:
      deg = c.draw(deg + 1)
    if k == 1:
      return [0] * deg + [c.draw(p - 1) + 1]
    if k == 2 and c.chance(1, 2):
      return [c.pick([0, 1, p - 1])]
    return [c.pick([0, 1, c.draw(1 << 60) % p, c.draw(1 << 60) % p]) for _ in range(deg)] + [c.draw(1 << 60) % (p - 1) + 1]

  def poly(self, coefs=None):
    f = sw.F[self.p]
    return sw.factories[self.p, 0]([f(x) for x in (self.coefs if coefs is None else coefs)])

  def values(self, coefs=None):
    return sw.evaluate(self.coefs if coefs is None else coefs, self.g, self.n, self.p)

  def root(self, vals=None):
    vals = self.values() if vals is None else vals
    return sw.mt.merkelize([sw.F[self.p](x) for x in vals])[1]

  def prove(self, fri, poly, bound=None):
    return fri.generate_proximity_proof(poly, sw.F[self.p](self.g), bound or self.bound, exclude_multiples_of=self.excl,
                                        fri_spot_check_security_factor=self.samples)

  def verify(self, fri, proof, root, g=None, bound=None, excl=None):
    return fri.verify_proximity_proof(proof, root, sw.F[self.p](self.g if g is None else g), bound or self.bound,
                                      exclude_multiples_of=self.excl if excl is None else excl,
                                      fri_spot_check_security_factor=self.samples)

  def __repr__(self):
    return (f"(p~2^{self.p.bit_length()} n={self.n} bound={self.bound} degree={len(self.coefs) - 1} excl={self.excl} "
            f"samples={self.samples})")


def layers(bound):
  """Rounds of folding, as the protocol counts them."""
  k = 0
  while bound > 16:
    bound = (bound + 3) // 4
    k += 1
  return k


def run(ctx):
  (honest if ctx.c.chance(1, 2) else dishonest)(ctx)


# ---- honest sessions ----------------------------------------------------------------------------
def honest(ctx):
  c = ctx.c
  claims = [Claim(c, False) for _ in range(c.between(1, 4))]
  if len(claims) > 1 and c.chance(1, 3):                       # two sessions over one domain
    claims[1] = copy.copy(claims[0])
    claims[1].coefs = claims[0].draw(c, claims[0].bound - 1)
  fris = {p: fr.SmoothSubgroupFRI(sw.F[p]) for p in (BIG, GOLD, 65537)}
  who = lambda k: fris[k.p] if c.chance(1, 2) else fr.SmoothSubgroupFRI(sw.F[k.p])  # noqa
  provers, verifiers = [who(k) for k in claims], [who(k) for k in claims]
  polys = [k.poly() for k in claims]
  roots = [k.root() for k in claims]
  for k in claims:
    ctx.mark(repr(k))
  proofs, kept, done = {}, {}, set()
  packed = [c.chance(1, 4) for _ in claims]

  def unchanged(i, when):
    ctx.require([int(x) for x in polys[i].coefficients] == [int(x) for x in claims[i].poly().coefficients], "polynomial-changed",
                lambda: f"{claims[i]} {when}")
  if len(claims) > 1 and max(k.n for k in claims) <= 64 and c.chance(1, 3):
    sched = Scheduler(ctx, mode="line", max_preempt=c.between(1, 60), gaps=(20, 300, 3000))
    sched.start_monitoring([k for k in seams.codes if k.co_filename.endswith(
        ("fri.py", "fft.py", "merkle_tree.py", "poly_utils.py", "utils.py", "numbertype.py"))])

    def work(i):
      return claims[i].verify(verifiers[i], claims[i].prove(provers[i], polys[i]), roots[i])
    for i in range(len(claims)):
      sched.spawn(f"session{i}", lambda i=i: work(i))
    r = sched.run(lambda: all(t.state == "done" for t in sched.tasks), max_steps=2000)
    sched.close()
    ctx.require(r == "done", "sessions-stuck", r)
    for i, t in enumerate(sched.tasks):
      if t.exc is not None:
        if isinstance(t.exc, Exception):
          raise Violation("honest-proof-refused", f"{claims[i]}: {t.exc!r} in interleaved threads")
        raise t.exc
      ctx.require(t.result, "honest-proof-refused", lambda: f"{claims[i]} in interleaved threads")
    ctx.fault("threads-interleaved")
    ctx.nontrivial = True
  bus = Bus(ctx, drop=20, dup=15)
  bus.sids = range(len(claims))

  def prover(kind, i, _):
    if i not in proofs:
      try:
        proofs[i] = claims[i].prove(provers[i], polys[i])
      except Exception as e:  # noqa
        raise Violation("honest-proof-not-produced", f"{claims[i]} {claims[i].coefs[:20]}: {e!r}")
      kept[i] = copy.deepcopy(proofs[i])
      unchanged(i, "after proving")
    bus.send("V", "packed" if packed[i] else "plain", i, sw.cp.compress_fri(proofs[i]) if packed[i] else proofs[i])

  def verifier(kind, i, payload):
    if i in done and not c.chance(1, 3):
      return
    k = claims[i]
    p = sw.cp.decompress_fri(list(payload)) if kind == "packed" else payload
    ctx.require(p == kept[i], "proof-changed", lambda: repr(k))
    if c.chance(1, 6):
      ctx.fault("message-corrupted")
      try:
        k.verify(verifiers[i], p, bytes(32))
      except Exception:  # noqa: refused
        pass
    try:
      ok = k.verify(verifiers[i], p, roots[i])
    except Exception as e:  # noqa: refused
      raise Violation("honest-proof-refused", f"{k} coefficients {k.coefs[:20]}: {e!r}")
    ctx.require(ok, "honest-proof-refused", lambda: f"{k} coefficients {k.coefs[:20]}: verdict {ok!r}")
    ctx.require(p == kept[i], "verifier-changes-proof", lambda: repr(k))
    done.add(i)
    ctx.probe(f"layers-{layers(k.bound)}")
    if len(k.coefs) == k.bound:
      ctx.probe("degree-just-below-bound")
    ctx.nontrivial = True
  bus.handlers = {"P": prover, "V": verifier}

  def ask(i, t=0):
    if i not in done and t < 12:
      if t > 8:
        bus.rates = dict(drop=0, dup=0, corrupt=0, misdeliver=0)
      bus.send("P", "ask", i, None)
      bus.at(3.0, lambda: ask(i, t + 1))
  for i in range(len(claims)):
    bus.at(c.pick([0.0, 0.5, 2.0]), lambda i=i: ask(i))
  try:
    ok = bus.run(lambda: len(done) == len(claims))
  except Violation:
    raise
  except Exception as e:  # noqa
    raise Violation("honest-proof-not-produced", f"{claims}: {e!r}")
  ctx.require(ok, "proof-never-accepted", lambda: repr(claims))
  ctx.sample = f"{claims} faults {dict(ctx.faults)}"


# ---- dishonest ones -----------------------------------------------------------------------------
def paths_of(proof):
  out = []
  for l, layer in enumerate(proof[:-1]):
    out.append(((l, 0), layer[0]))
    for y, bs in enumerate(layer[1]):
      for b, br in enumerate(bs):
        out += [((l, 1, y, b, k), x) for k, x in enumerate(br)]
  return out + [((len(proof) - 1, k), x) for k, x in enumerate(proof[-1])]


def alter(c, proof, other):
  q = copy.deepcopy(proof)
  k = c.draw(9)
  if k <= 2 or len(q) == 1 and k in (3, 4, 5):
    paths = paths_of(q)
    l = c.draw(len(q))
    path, x = c.pick([y for y in paths if y[0][0] == l] or paths)
    if not x:
      return "byte-altered", q
    i = c.draw(len(x))
    y = c.pick([x[:i] + bytes([x[i] ^ (1 << c.draw(8))]) + x[i + 1:], x[:-1], x[1:] if x[0] else x[:-1], bytes(len(x)),
                x[:i] + bytes([255 - x[i]]) + x[i + 1:]])
    sw.put(q, path, y)
    return "byte-altered", q
  if k == 3:
    ys = q[c.draw(len(q) - 1)][1]
    i, j = c.draw(len(ys)), c.draw(len(ys))
    if c.chance(1, 2):
      ys[i], ys[j] = ys[j], ys[i]
    else:
      a, b = c.draw(5), c.draw(5)
      ys[i][a], ys[i][b] = ys[i][b], ys[i][a]
    return "openings-swapped", q
  if k == 4:
    br = c.pick(c.pick(q[c.draw(len(q) - 1)][1]))
    if c.chance(1, 2):
      br.pop()
    else:
      br.append(br[-1])
    return "opening-resized", q
  if k == 5:
    l = c.draw(len(q) - 1)
    if c.chance(1, 2):
      del q[l]
    else:
      del q[l][1][-1 - c.draw(min(3, len(q[l][1])))]
    return "cut", q
  if k == 6:
    i, j = c.draw(len(q[-1])), c.draw(len(q[-1]))
    if c.chance(1, 2):
      q[-1][i], q[-1][j] = q[-1][j], q[-1][i]
    elif c.chance(1, 2):
      q[-1].pop()
    else:
      q[-1] += q[-1] if c.chance(1, 2) else [q[-1][-1]]
    return "final-layer-altered", q
  if k == 7:
    l = c.draw(min(len(q), len(other)))
    q[l] = copy.deepcopy(other[l])
    return "stitched-layer", q
  l = c.draw(len(q))
  return "stitched-tail", q[:l] + copy.deepcopy(other[l:])


def same(a, b):
  try:
    return a[:-1] == b[:-1] and [int.from_bytes(x, "big") for x in a[-1]] == [int.from_bytes(x, "big") for x in b[-1]]
  except Exception:  # noqa
    return False


def dishonest(ctx):
  c = ctx.c
  k = Claim(c, True)
  ctx.mark(repr(k))
  fri = fr.SmoothSubgroupFRI(sw.F[k.p])
  nl = layers(k.bound)
  if k.left() <= k.bound:
    return

  def judge(label, proof, root, what, **kw):
    try:
      ok = bool(k.verify(fri, proof, root, **kw))
    except Exception:  # noqa: refused
      ok = False
    ctx.nontrivial = True
    ctx.fault(label)
    ctx.probe(("accepted " if ok else "refused ") + label)
    if ok:
      raise Violation("accepts-" + label, f"{k}: {what}")
  proof, root = k.prove(fri, k.poly()), k.root()
  other = k.prove(fri, k.poly(k.draw(c, k.bound - 1)))
  for _ in range(c.between(1, 4)):
    label, q = alter(c, proof, other)
    if not same(q, proof):
      judge(label, q, root, f"an altered proof ({label})")
  for _ in range(c.between(1, 3)):
    cheat(ctx, c, k, fri, nl, proof, root, judge)
  ctx.sample = f"{k} faults {dict(ctx.faults)}"


def cheat(ctx, c, k, fri, nl, proof, root, judge):
  p, n, b, e = k.p, k.n, k.bound, k.excl
  good = [i for i in range(n) if not e or i % e]
  way = c.draw(11 if n < 256 else 15)
  if way == 0:
    # another commitment
    r = c.pick([bytes(32), root[:-1] + bytes([root[-1] ^ 1]), k.root(k.values(k.draw(c, b - 1)) if c.chance(1, 2) else list(range(1, n + 1)))])
    if r != root:
      judge("other-root", proof, r, "a proof for another commitment")
    return
  if way == 1:
    # the same values at other places: f(x^j) has another degree
    if len(k.coefs) < 2 or b < 2:
      return
    g = pow(k.g, c.pick([3, 5, n - 1, n // 2 - 1]), p)
    if g == k.g or n < 16:
      return
    d = [i for i, x in enumerate(sw.idft(k.values(), g, p)) if x]
    if not d or d[-1] < 2 * b or d[-1] >= len(good):         # on fewer points it could be of low degree after all
      return
    judge("other-domain", proof, root, "a proof over another generator", g=g)
    return
  if way in (2, 3):
    # the honest procedure, for a polynomial of too high a degree
    d = c.pick([b, b, n - 1, c.between(b, n - 1), min(n - 1, 2 * b)])
    lim = b
    for _ in range(nl):
      lim = (lim + 3) // 4
    if d // 4**nl < lim:
      return
    coefs = [c.draw(1 << 60) for _ in range(d)] + [1 + c.draw(1 << 60)]
    if c.chance(1, 4) and d < len(good) and d >= b + 3:
      coefs = [0] * d + [1]
    f = k.poly(coefs)
    q = k.prove(fri, f)
    judge("high-degree", q, k.root(k.values(coefs)), f"degree {d}, honest procedure, {nl} layers")
    return
  if way == 4 and nl == 0:
    # one value changed, anywhere it counts
    if len(good) <= b:
      return
    vals = k.values()
    i = c.pick(good)
    if c.chance(1, 3):
      i = good[-1] if c.chance(1, 2) else good[b]
    vals[i] = (vals[i] + c.pick([1, p - 1, 1 + c.draw(1 << 60)])) % p
    judge("one-value-changed", [[v.to_bytes(32, "big") for v in vals]], k.root(vals), f"value {i} of {n} changed")
    return
  if not sw.trees_agree():
    return
  if way == 4 or way == 5:
    # a final layer with one value changed, the rest folded as it should be
    words, trees = tower(k, k.values(), nl)
    if nl:
      last = list(words[-1])
      i = c.draw(len(last))
      if e and i % e == 0:
        i += 1
      last[i % len(last)] = (last[i % len(last)] + 1) % p
      if e and (i % len(last)) % e == 0:
        return
      words[-1] = last
      trees[-1] = sw.Tree(last)
      judge("final-layer-changed", chain(k, words, trees), trees[0].root, f"final layer changed at {i}")
    return
  if nl == 0:
    # noise
    vals = [c.draw(1 << 60) for _ in range(n)]
    near = evaluate_near(c, k, vals, good, b, n, k.g)
    judge("noise", [[v.to_bytes(32, "big") for v in c.pick([near, vals])]], k.root(vals), "noise committed to")
    return
  rows = [y for y in range(n // 4) if not e or y % e]
  if way == 9:
    return blind(ctx, c, k, rows, nl, judge)
  if way >= 10:
    # words chosen with the places known where they will be looked at, if one tree alone decides these
    zero = [[0] * (n // 4**i) for i in range(nl + 1)]
    q = n // 4
    word = [1 + c.draw(1 << 60) for _ in range(n)]
    lim = (b + 3) // 4
    ys = sw.row_indices(sw.Tree(word).root, bytes(32), q, e, 2, k.samples)
    if way % 2 and len(set(ys)) <= lim and len(set(ys)) * 2 < len(rows):
      t0 = sw.Tree(word)
      fold, g = sw.fold_all(word, t0.root, k.g, p), pow(k.g, 4, p)
      nxt = sw.evaluate(sw.interp_some(sorted(set(ys)), fold, g, q, p), g, q, p)
      words, trees = [word, nxt], [t0, sw.Tree(nxt)]
      while len(words) <= nl:
        words.append(sw.fold_all(words[-1], trees[-1].root, g, p))
        trees.append(sw.Tree(words[-1]))
        g = pow(g, 4, p)
      judge("rows-known-first", sw.fri_tower(words, trees, k.g, b, e, p, how=c.pick([0, 2]), samples=k.samples), t0.root,
            "a column made for the rows looked at")
      return
    ys = sw.row_indices(bytes(32), sw.Tree(zero[1]).root, q, e, 1, k.samples)
    if len(set(ys)) * 2 > len(rows):
      return
    for y in ys:
      for j in range(4):
        word[y + q * j] = 0
    trees = [sw.Tree(word)] + [sw.Tree(z) for z in zero[1:]]
    judge("column-known-first", sw.fri_tower(zero, trees, k.g, b, e, p, how=c.pick([0, 1]), samples=k.samples), trees[0].root,
          "values made for the rows looked at")
    return
  l = c.draw(nl)                          # the layer whose folding is not done honestly
  if way == 6:
    start = k.values() if c.chance(1, 2) else [c.draw(1 << 60) for _ in range(n)]
    words, trees = tower(k, start, l)
    m = len(words[-1])
    g = pow(k.g, 4**(l + 1), p)
    q = m // 4
    kind = c.draw(4)
    fold = sw.fold_all(words[-1], trees[-1].root, pow(k.g, 4**l, p), p)
    lim = b
    for _ in range(l + 1):
      lim = (lim + 3) // 4
    gq = [i for i in range(q) if not e or i % e]
    if kind == 0:
      nxt = [0] * q
    elif kind == 1:
      nxt = sw.evaluate([c.draw(1 << 60) for _ in range(min(lim, q))], g, q, p)
    elif kind == 2:
      idx = sorted(c.shuffled(gq)[:min(lim, len(gq))])
      nxt = sw.evaluate(sw.interp_some(idx, fold, g, q, p), g, q, p)
    else:
      nxt = sw.fold_all(words[-1], bytes(31) + b"\x01" if c.chance(1, 2) else trees[0].root, pow(k.g, 4**l, p), p)
    wrong = [i for i in gq if nxt[i] != fold[i]]
    if len(wrong) * 2 < len(gq):
      return
    words.append(nxt)
    trees.append(sw.Tree(nxt))
    while len(words) <= nl:
      words.append(sw.fold_all(words[-1], trees[-1].root, g, p))
      trees.append(sw.Tree(words[-1]))
      g = pow(g, 4, p)
    judge("wrong-folding", chain(k, words, trees), trees[0].root, f"layer {l + 1} of {nl} is not the folding of layer {l} (kind {kind})")
    return
  # words that open to one thing along short branches and to another along long ones
  noise = [c.draw(1 << 60) for _ in range(n)]
  zero = [[0] * (n // 4**i) for i in range(nl + 1)]
  if way == 7:
    trees = [sw.Tree(noise, zero[0])] + [sw.Tree(z) for z in zero[1:]]
    q = chain(k, zero, trees, [(True, False)])
  else:
    t0 = sw.Tree(noise)
    col = sw.fold_all(noise, t0.root, k.g, p)
    if nl < 2:
      return
    deep = c.chance(1, 2)
    trees = [t0, sw.Tree(zero[1], col) if deep else sw.Tree(col, zero[1])] + [sw.Tree(z) for z in zero[2:]]
    q = chain(k, zero, trees, [(False, deep), (not deep, False)])
  judge("two-trees", q, trees[0].root, "trees that open to two words")


def blind(ctx, c, k, rows, nl, judge):
  """A word that is wrong on a good part of the rows: those never looked at, or others until none of them is."""
  p, n, q = k.p, k.n, k.n // 4
  salt = c.seed64()
  some = [hashlib.sha256(b"%d %d" % (salt, i)).digest() for i in range(151)]
  seen = {y for a, b in zip(some, some[1:]) for y in sw.row_indices(a, b, q, k.excl, 0, k.samples)}
  wrong = [y for y in rows if y not in seen]
  tries = 1
  if len(wrong) * 3 < len(rows):
    if n > 256:
      return
    wrong = c.shuffled(rows)[:-(-len(rows) * 2 // 5)]
    tries = 500
  coefs = k.coefs
  word = k.values()
  for y in wrong:
    word[y + q * c.draw(4)] = 1 + c.draw(1 << 60)
  t0, at = sw.Tree(word), wrong[0]
  g = pow(k.g, 4, p)
  for r in range(tries):
    word[at] = 1 + c.draw(1 << 60) if not r else (word[at] + 1) % p
    t0.put(at, word[at])
    sx = int.from_bytes(t0.root, "big") % p
    f = [sum(x * pow(sx, j, p) for j, x in enumerate(coefs[i:i + 4])) % p for i in range(0, len(coefs), 4)]
    words = [word, sw.evaluate(f, g, q, p)]
    trees = [t0, sw.Tree(words[1])]
    if tries == 1 or not set(wrong) & set(sw.row_indices(t0.root, trees[1].root, q, k.excl, 0, k.samples)):
      while len(words) <= nl:
        words.append(sw.fold_all(words[-1], trees[-1].root, g, p))
        trees.append(sw.Tree(words[-1]))
        g = pow(g, 4, p)
      judge("rows-not-looked-at", chain(k, words, trees), t0.root, f"{len(wrong)} of {len(rows)} rows are wrong")
      return
  ctx.fault("rows-ground")
  ctx.nontrivial = True


def evaluate_near(c, k, vals, good, b, n, g):
  idx = sorted(c.shuffled(good)[:b])
  return sw.evaluate(sw.interp_some(idx, vals, g, n, k.p), g, n, k.p)


def tower(k, word, upto):
  words, trees = [word], [sw.Tree(word)]
  g = k.g
  for _ in range(upto):
    words.append(sw.fold_all(words[-1], trees[-1].root, g, k.p))
    trees.append(sw.Tree(words[-1]))
    g = pow(g, 4, k.p)
  return words, trees


def chain(k, words, trees, deep=()):
  return sw.fri_tower(words, trees, k.g, k.bound, k.excl, k.p, deep, samples=k.samples)
