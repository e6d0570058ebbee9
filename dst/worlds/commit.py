"""Commitments over a faulty channel (C12) and key generation under controlled randomness (C13).

Real: misc/commitment.py, misc/blum_blum_shub.py, misc/primality.py.
Simulated: channel, random source (uniform, biased, scripted), dishonest committers, threads (C13).
"""
import importlib
import math
import random

from .. import seams
from ..core import Violation
from ..net import Bus, biased_plan, sigma_bound
from ..sched import Scheduler
from ..seams import source

RUNS = {
    "C12": {"quick": (14000, 240), "thorough": (400000, 780)},
    "C13": {"quick": (3500, 240), "thorough": (120000, 780)},
}
RULE = {
    "C12": "a run draws moduli, integers, widths, several schemes and a faulty channel between committers and verifiers, "
           "plus altered openings; non-trivial if an opening was judged; distinct = distinct deliveries and alterations",
    "C13": "a run draws a bit length and a random stream (uniform, finite biased prefix, scripted candidates and "
           "witnesses) and generates keys or tests numbers, some in preempted threads; distinct = distinct (experiment, "
           "parameters, stream)",
}
COMPONENTS = {"real": ["misc/commitment.py", "misc/blum_blum_shub.py", "misc/primality.py"],
              "stub": ["channel", "process-wide random source", "committers that cheat", "thread scheduler (C13)"]}
ASSUME = ["sympy.isprime / factorint as independent primality oracle", "an exception raised by a verifier counts as refusal"]

cm = bbs = pr = None
PERMS = []


def setup(prop):
  global cm, bbs, pr
  cm = importlib.import_module("starks.commitment")
  bbs = importlib.import_module("starks.blum_blum_shub")
  pr = importlib.import_module("starks.primality")
  import sympy
  from .color3 import modulus_of
  if prop == "C12":
    for bits in (64, 72, 96, 128, 256):
      f = bbs.blum_blum_shub(bits)
      PERMS.append((f, modulus_of(f)))


def run(ctx):
  {"C12": run12, "C13": run13}[ctx.prop](ctx)


def parity(n):
  return bin(n).count("1") & 1


# ---- C12 --------------------------------------------------------------------------------------
def verdict(v, sec, com):
  """(verified, value); a raised exception is a refusal."""
  try:
    ok = bool(v.verify(sec, com))
  except Exception:  # noqa
    return False, None
  if not ok:
    return False, None
  try:
    return True, v.decode(sec, com)
  except Exception:  # noqa
    return True, "undecodable"


def run12(ctx):
  c = ctx.c
  mode = biased_plan(c, source, c.between(2, 40)) if c.chance(1, 5) else None
  if mode:
    ctx.fault("random-stream-" + mode)
  items = []
  for k in range(c.between(1, 4)):
    f, M = c.pick(PERMS)
    secp = c.pick([512, 256, 128, 64]) if mode is None else 512
    if c.chance(1, 3):
      s = cm.BBSBitCommitmentScheme(f, bbs.parity, secp)
      v = cm.BBSBitCommitmentVerifier(f, bbs.parity)
      x, bits = c.draw(2), None
    else:
      bits = c.pick([1, 2, 2, 3, 8, 16, 33])
      s = cm.BBSIntCommitmentScheme(bits, f, bbs.parity, *([secp] if c.chance(1, 2) else []))
      v = cm.BBSIntCommitmentVerifier(bits, f, bbs.parity)
      x = c.pick([0, (1 << bits) - 1, c.draw(1 << bits), 1 << (bits - 1)])
    items.append({"s": s, "v": v, "x": x, "bits": bits, "M": M, "f": f, "com": None, "done": None})
  faulty = c.chance(2, 3)
  bus = Bus(ctx, drop=15 if faulty else 0, dup=25 if faulty else 0)
  bus.sids = range(len(items))

  def committer(kind, sid, payload):
    it = items[sid]
    if kind == "ack":
      bus.send("V", "open", sid, it["s"].reveal() if it["bits"] is None else list(it["s"].reveal()))

  def verifier(kind, sid, payload):
    it = items[sid]
    if kind == "com":
      if it["com"] is None:
        it["com"] = payload
      bus.send("C", "ack", sid, None)
    elif it["done"] is None:
      ok, val = verdict(it["v"], payload, it["com"])
      ctx.require(ok, "honest-opening-refused", lambda: f"value {it['x']} of {it['bits']} bits")
      ctx.require(val == it["x"], "opens-to-other-value", lambda: f"committed {it['x']}, opened {val} ({it['bits']} bits)")
      d = it["v"].decode(payload, it["com"])
      ctx.require(d == it["x"], "opens-to-other-value", lambda: f"committed {it['x']}, decoded {d}")
      it["opening"] = payload
      it["done"] = True

  bus.handlers = {"C": committer, "V": verifier}

  def start(sid, k=0):
    it = items[sid]
    if it["done"] is None and k < 40:
      if "sent" not in it:
        it["sent"] = it["s"].commit(it["x"])
      bus.send("V", "com", sid, it["sent"])
      bus.at(2.0, lambda: start(sid, k + 1))
  for sid in range(len(items)):
    bus.at(c.pick([0.0, 0.1, 1.0]), lambda sid=sid: start(sid))
  ok = bus.run(lambda: all(it["done"] for it in items))
  ctx.require(ok or faulty, "opening-unfinished", "no faults, but not every commitment was opened")
  done = [it for it in items if it["done"]]
  # independent secrets
  if mode is None:
    seen = {}
    for i, it in enumerate(items):
      sec = it["s"].reveal()
      for j, s in enumerate([sec] if it["bits"] is None else sec):
        ctx.require(s not in seen, "secret-reused", lambda: f"scheme {i} bit {j} and {seen[s]}")
        seen[s] = (i, j)
    ctx.require(all(isinstance(b, int) and 0 <= b < (1 << 512) and b > 1 << 20 for b in seen), "weak-secret",
                lambda: f"{[b for b in seen if b <= 1 << 20][:3]}")
  # altered openings
  for it in done:
    for _ in range(c.between(1, 5)):
      label, sec = alter12(c, it, done)
      ctx.fault("opening-" + label)
      com = it["com"]
      if label == "cross-commitment":
        pass
      ok, val = verdict(it["v"], sec, com)
      ctx.mark((label, ok))
      ctx.probe("altered-accepted" if ok else "altered-refused")
      if ok and val != it["x"]:
        raise Violation("opens-to-other-value", f"{label}: committed {it['x']} ({it['bits']} bits), opening {str(sec)[:200]} "
                        f"verifies as {val}")
    # tampered commitments must not verify with the old opening as the old value's complement
    com2 = tamper(c, it)
    if com2 is not None:
      ctx.fault("commitment-tampered")
      ok, val = verdict(it["v"], it["opening"], com2)
      if ok and val != it["x"]:
        want = value_of(it, it["opening"], com2)
        ctx.require(want == val, "verified-by-other-rule", lambda: f"{val} vs {want}")
  ctx.nontrivial = bool(done)
  ctx.sample = {"values": [(it["x"], it["bits"]) for it in items], "random": mode, "faults": dict(ctx.faults)}


def value_of(it, sec, com):
  """What the definition of the scheme makes of an opening; None if it is not one."""
  M = it["M"]
  if it["bits"] is None:
    sec, com = [sec], [com]
  if len(sec) != len(com) or (it["bits"] or 1) != len(com):
    return None
  bits = []
  for s, x in zip(sec, com):
    r = s * s % M
    if x[0] != r * r % M:
      return None
    bits.append(x[1] ^ parity(r))
  return int("".join(map(str, bits)), 2)


def tamper(c, it):
  com = it["com"]
  if it["bits"] is None:
    return c.pick([(com[0] ^ 1, com[1]), (com[0], com[1] ^ 1)])
  com = list(com)
  i = c.draw(len(com))
  com[i] = c.pick([(com[i][0] ^ 1, com[i][1]), (com[i][0], com[i][1] ^ 1)])
  return com


def alter12(c, it, done):
  M, sec = it["M"], it["opening"]
  other = c.pick(done)["opening"]
  o = other if isinstance(other, int) else c.pick(other)
  if it["bits"] is None:
    return c.pick([
        ("bit-flip", sec ^ 1 << c.draw(100)), ("foreign", o), ("negated-root", M - sec % M), ("shifted-root", sec + M),
        ("residue", sec * sec % M), ("negated-residue", M - sec * sec % M), ("small", c.draw(4)), ("negative", -sec),
        ("reduced", sec % M)])
  s = list(sec)
  k, i = c.draw(13), c.draw(len(s))
  if k == 0:
    return "truncated", s[:c.draw(len(s))]
  if k == 1:
    return "truncated-front", s[1 + c.draw(len(s)):]
  if k == 2:
    return "reordered", c.shuffled(s)
  if k == 3:
    return "reversed", s[::-1]
  if k == 4:
    s[i] ^= 1 << c.draw(100)
    return "bit-flip", s
  if k == 5:
    s[i] = o
    return "foreign-secret", s
  if k == 6:
    return "cross-commitment", list(other) if not isinstance(other, int) else [other]
  if k == 7:
    s[i] = M - s[i] % M
    return "negated-root", s
  if k == 8:
    s[i] += M * c.between(1, 3)
    return "shifted-root", s
  if k == 9:
    s[i] = c.draw(4)
    return "small", s
  if k == 10:
    return "extended", s + [o]
  if k == 11:
    s[i] = s[i] * s[i] % M
    return "residue", s
  s[i] = -s[i]
  return "negative", s


# ---- C13 --------------------------------------------------------------------------------------
CARMICHAEL = [561, 1105, 1729, 2465, 2821, 6601, 8911, 10585, 15841, 29341, 41041, 825265, 321197185, 5394826801,
              232250619601, 9746347772161, 1590231231043178376951698401, 8911 * 1]
STRONG = [2047, 1373653, 25326001, 3215031751, 2152302898747, 3474749660383, 341550071728321, 3825123056546413051,
          49141, 104653, 9, 15, 21, 25, 27, 49, 91, 121, 169, 361, 4, 6, 8, 1024, 2**31, 65537 * 65539]
PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 31, 41, 61, 97, 127, 257, 641, 65537, 8191, 131071, 524287, 2147483647,
          2**61 - 1, 2**89 - 1, 2**107 - 1, 2**127 - 1, 1000003, 10**9 + 7, 2**255 - 19, 2**256 - 2**32 * 351 + 1,
          2**521 - 1, 193, 12289, 40961, 786433, 3 * 2**30 + 1]


def odd_composite_worst(c):
  """p*(2p-1) and products of like size: the numbers with the most liars."""
  import sympy
  p = sympy.nextprime(c.between(3, 10**6))
  for _ in range(200):
    if sympy.isprime(2 * p - 1):
      return p * (2 * p - 1)
    p = sympy.nextprime(p)
  return p * p


def run13(ctx):
  import sympy
  c = ctx.c
  what = c.weighted([(4, "modulus"), (5, "primes"), (4, "composites"), (4, "good-prime"), (2, "generator"), (1, "rate"),
                     (1, "threads")])
  ctx.sample = {"experiment": what}
  mode = None
  if what in ("modulus", "good-prime", "generator"):
    bits = c.between(3, 26) if what != "good-prime" else c.pick([2, 3, 4, 8, 16, 32, 48, 64, 100])
    mode = biased_plan(c, source, c.between(5, 400), direct_only=True) if c.chance(1, 2) else None
    if mode:
      ctx.fault("random-stream-" + mode)
    elif c.chance(1, 2):
      # scripted candidates: near misses first
      cand = c.shuffled([x for x in [0, 1, 2, 5, 9, 13, 15, 17, 21, 27, 29, 33, 35, 37, 39, 51, 55, 63, 75, 87, 91, 95, 99,
                                     561, 1105, 1729, 2465, 2047, 8911, 703, 3277] if x < (1 << bits)])[:c.between(1, 14)]

      def plan(k):
        if k == bits and cand and not source.below:
          return cand.pop()
        return None
      source.plan = plan
      mode = "scripted-candidates"
      ctx.fault("random-stream-scripted")
  if what == "modulus":
    M = bbs.make_modulus(bits) if c.chance(1, 2) else bbs.make_modulus(num_bits=bits)
    source.plan = None
    check_modulus(ctx, M, bits)
    ctx.mark((what, bits, mode, M))
  elif what == "good-prime":
    p = bbs.find_good_prime(bits)
    source.plan = None
    ctx.require(sympy.isprime(p) and p % 4 == 3 and p.bit_length() <= bits, "not-a-blum-prime", f"{p} for {bits} bits ({mode})")
    ctx.mark((what, bits, mode, p))
  elif what == "generator":
    from .color3 import modulus_of
    f = bbs.blum_blum_shub(bits)
    source.plan = None
    M = modulus_of(f)
    check_modulus(ctx, M, bits)
    for _ in range(20):
      x = c.draw(1 << 40)
      ctx.require(f(x) == x * x % M, "generator-not-squaring", f"{x} mod {M}")
      ctx.require(bbs.parity(x) == parity(x), "parity-wrong", str(x))
    ctx.mark((what, bits, M))
  elif what == "primes":
    # whatever the stream, a prime is a prime
    for _ in range(12):
      p = c.pick(PRIMES) if c.chance(2, 3) else sympy.nextprime(c.draw(1 << c.pick([4, 8, 16, 32, 60])))
      mode = biased_plan(c, source, c.between(1, 300)) if c.chance(2, 3) else None
      if mode:
        ctx.fault("random-stream-" + mode)
      if c.chance(1, 4):
        w = [c.draw(1 << 60) for _ in range(30)]
        source.plan = lambda k: (w.pop() & ((1 << k) - 1)) if w else None
        ctx.fault("random-stream-scripted")
      ok = pr.probablyPrime(p, *([] if c.chance(1, 2) else [c.pick([1, 5, 100])]))
      source.plan = None
      ctx.require(ok, "prime-rejected", f"{p}, stream {mode}")
      good = bbs.good_prime(p)
      ctx.require(bool(good) == (p % 4 == 3), "good-prime-wrong", f"{p}: {good}")
      ctx.mark((p, mode))
  elif what == "composites":
    for _ in range(12):
      n = c.pick([c.pick(CARMICHAEL), c.pick(STRONG), odd_composite_worst(c), 0, 1, -7,
                  sympy.nextprime(c.draw(1 << 30)) * sympy.nextprime(c.draw(1 << 30)),
                  sympy.nextprime(c.draw(1 << 30)) ** 2, c.draw(1 << 20)])
      if n > 1 and sympy.isprime(n):
        continue
      ok = pr.probablyPrime(n, *([] if c.chance(1, 2) else [c.pick([30, 100])]))
      ctx.require(not ok, "composite-accepted", str(n))
      ctx.require(not bbs.good_prime(n), "composite-accepted", f"good_prime({n})")
      ctx.mark(n)
  elif what == "rate":
    n = c.pick([odd_composite_worst(c), 9, 15, 49, 91, 561, 1729, 703, 1891, 12403, 8911])
    k = c.between(1, 3)
    N = 3000
    bad = sum(1 for _ in range(N) if pr.probablyPrime(n, k))
    ctx.require(bad <= N * 0.25**k + sigma_bound(0.25**k, N), "composite-accepted-too-often", f"{n} with {k} witnesses: {bad} of {N}")
    ctx.mark((n, k))
    ctx.probe("rate-measurements")
  else:
    bits = c.between(6, 20)
    s = Scheduler(ctx, "line", max_preempt=30, gaps=(3, 20, 100), hot=None)
    s.start_monitoring(seams.codes)
    out = []
    ts = [s.spawn("k%d" % i, lambda: out.append(bbs.make_modulus(bits))) for i in range(3)]
    r = s.run(lambda: all(t.state == "done" for t in ts), max_steps=100000)
    for t in ts:
      if t.exc is not None:
        raise t.exc
    ctx.require(r == "done" and len(out) == 3, "keygen-unfinished", r)
    s.close()
    for M in out:
      check_modulus(ctx, M, bits)
    ctx.mark((bits, tuple(out)))
    ctx.probe("threaded-keygen")
  ctx.nontrivial = True
  ctx.sample["random"] = mode


def check_modulus(ctx, M, bits):
  import sympy
  f = sympy.factorint(M)
  ps = [p for p, e in f.items() for _ in range(e)]
  ctx.require(len(ps) == 2 and all(p % 4 == 3 and p.bit_length() <= bits for p in ps), "not-a-blum-modulus",
              lambda: f"{M} = {f} for {bits} bits")
