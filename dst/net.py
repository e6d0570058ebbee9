"""A message bus in virtual time, and statistics helpers shared by the protocol worlds."""
import heapq
import math
from . import seams


class Bus:
  """Messages between named parties; faults are drawn per message."""

  def __init__(self, ctx, drop=0, dup=0, corrupt=0, misdeliver=0, delays=(0.01, 0.1, 1.0)):
    self.ctx, self.c = ctx, ctx.c
    self.rates = dict(drop=drop, dup=dup, corrupt=corrupt, misdeliver=misdeliver)
    self.delays = delays
    self.now, self.seq, self.q = 0.0, 0, []
    self.handlers = {}
    self.mangle = None          # fn(kind, payload) -> payload
    self.delivered = 0
    seams.Sim.sched = None

  def at(self, dt, fn):
    self.seq += 1
    heapq.heappush(self.q, (self.now + dt, self.seq, fn))

  def send(self, dst, kind, sid, payload):
    c, ctx = self.c, self.ctx
    if self.rates["drop"] and c.chance(self.rates["drop"], 100):
      ctx.fault("message-lost")
      return
    n = 1
    if self.rates["dup"] and c.chance(self.rates["dup"], 100):
      ctx.fault("message-duplicated")
      n = 2
    for _ in range(n):
      p, s = payload, sid
      if self.rates["corrupt"] and self.mangle and c.chance(self.rates["corrupt"], 100):
        q = self.mangle(kind, p)
        if q is not None:
          ctx.fault("message-corrupted")
          p = q
      if self.rates["misdeliver"] and c.chance(self.rates["misdeliver"], 100):
        others = [x for x in self.sids if x != sid]
        if others:
          ctx.fault("message-misdelivered")
          s = c.pick(others)
      self.at(c.pick(self.delays), lambda p=p, s=s: self.deliver(dst, kind, s, p))

  def deliver(self, dst, kind, sid, payload):
    self.delivered += 1
    self.ctx.mark((dst, kind, sid))
    self.ctx.log(f"{self.now:.3f}", dst, kind, sid)
    self.handlers[dst](kind, sid, payload)

  def run(self, done, max_events=4000):
    n = 0
    while not done():
      if not self.q or n >= max_events:
        return False
      when, _, fn = heapq.heappop(self.q)
      self.now = max(self.now, when)
      seams.Sim.clock = self.now
      fn()
      n += 1
    self.ctx.sim_time = self.now
    return True


def sigma_bound(p, n, k=8.0):
  """Half-width within which a binomial count stays, except with probability below ~1e-10."""
  return k * math.sqrt(n * p * (1 - p)) + 6


def check_uniform(ctx, counts, cells, n, kind, what):
  """Every cell of a uniform distribution over `cells` cells after n independent samples."""
  p = 1.0 / cells
  lim = sigma_bound(p, n)
  ctx.require(len(counts) <= cells, kind, lambda: f"{what}: {len(counts)} different outcomes, only {cells} exist")
  worst = max(abs(v - n * p) for v in counts.values()) if counts else n * p
  if len(counts) < cells:
    worst = max(worst, n * p)
  ctx.require(worst <= lim, kind, lambda: f"{what}: counts {sorted(counts.values())} of {n} over {cells} cells, "
              f"expected {n * p:.0f} +- {lim:.0f}")
  if cells > 1 and n * p >= 8:
    # small deviations of many cells: chi square, as a normal deviate (Wilson-Hilferty)
    chi = sum((v - n * p) ** 2 for v in counts.values()) / (n * p) + (cells - len(counts)) * n * p
    d = cells - 1
    z = ((chi / d) ** (1 / 3) - 1 + 2 / (9 * d)) / math.sqrt(2 / (9 * d))
    ctx.require(z <= 8.0, kind, lambda: f"{what}: counts {sorted(counts.values())} of {n} over {cells} cells, chi square {chi:.0f} "
                f"with {d} degrees of freedom")


def biased_plan(c, source, length, direct_only=False):
  """A finite prefix of extreme random bits, then the ordinary stream."""
  mode = c.weighted([(4, None), (1, "zeros"), (1, "ones"), (1, "alternate"), (1, "repeat")])
  if mode is None:
    return None
  left = [length]
  last = [None]

  def plan(k):
    if left[0] <= 0 or direct_only and source.below:
      return None
    left[0] -= 1
    if mode == "zeros":
      return 0
    if mode == "ones":
      return (1 << k) - 1
    if mode == "alternate":
      return ((1 << k) - 1) if left[0] % 2 else 0
    if last[0] is None:
      last[0] = 0x9E3779B97F4A7C15F39CC0605CEDC834
    return (last[0] << 7 | last[0]) & ((1 << k) - 1)
  source.plan = plan
  return mode
