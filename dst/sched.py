"""Cooperative scheduler over real threads, exactly one of which runs at any time.

Tasks give up control at simulated I/O, at simulated locks, and at preemption points: line or
instruction events (sys.monitoring) inside code objects of the repository, at distances the
simulator draws.  Who runs next is always drawn from Choices.
"""
import heapq
import os
import sys
import threading
from . import seams
from .seams import Sim, real_Lock

MON = sys.monitoring
TOOL = 4


class TaskKilled(BaseException):
  """Raised inside a task whose node crashed."""


class Interrupted(BaseException):
  """Injected asynchronous interruption (KeyboardInterrupt-like)."""


class Task:
  __slots__ = ("id", "name", "fn", "lock", "state", "result", "exc", "gap", "kill", "node", "thread",
               "inject", "timed_out", "meta")

  def __init__(self, id, name, fn, node):
    self.id, self.name, self.fn, self.node = id, name, fn, node
    self.lock = real_Lock()
    self.lock.acquire()
    self.state = "runnable"
    self.result = self.exc = self.thread = None
    self.gap = 0
    self.kill = self.inject = None
    self.timed_out = False
    self.meta = {}

  def __repr__(self):
    return self.name


class Scheduler:
  def __init__(self, ctx, mode="none", max_preempt=40, gaps=(8, 64, 400), hot=None, eager=False):
    self.ctx, self.c = ctx, ctx.c
    self.mode, self.left, self.gaps = mode, max_preempt, gaps
    self.now = 0.0
    self.seq = 0
    self.timers = []
    self.tasks = []
    self.current = None
    self.main = real_Lock()
    self.main.acquire()
    self.after_step = None
    self.steps = 0
    self.interrupt_chance = 0
    self.interruptible = lambda task, code: False
    self.hot = hot
    self.counts = {}
    self.eager = eager
    self.sync = 0
    self._mon = False
    self.trace_where = bool(os.environ.get('DST_WHERE'))
    Sim.sched = self

  # -- instrumentation -------------------------------------------------------------------------
  def start_monitoring(self, codes):
    if self.mode == "none":
      return
    ev = MON.events.LINE if self.mode == "line" else MON.events.INSTRUCTION
    if MON.get_tool(TOOL) is None:
      MON.use_tool_id(TOOL, "dst")
    MON.register_callback(TOOL, ev, self._on_event)
    self._codes = list(codes)
    for c in codes:
      MON.set_local_events(TOOL, c, ev)
    MON.restart_events()
    self._mon = True

  def _on_event(self, code, where):
    t = self.current
    if t is None:
      return
    if self.hot is not None:
      # very hot loops (proof of work): a location stops being a preemption point after `hot` events
      k = (code, where)
      n = self.counts.get(k, 0) + 1
      self.counts[k] = n
      if n > self.hot:
        return MON.DISABLE
    if t.gap:
      t.gap -= 1
      if not t.gap:
        if self.trace_where:
          self.ctx.probes["at:" + code.co_name] += 1
        self._preempt(t, code)

  def _preempt(self, t, code=None):
    self.left -= 1
    self.ctx.probes["preemptions"] += 1
    if self.interrupt_chance and self.interruptible(t, code) and self.c.chance(1, self.interrupt_chance):
      self.ctx.fault("interrupt-task")
      self.ctx.log("interrupt", t.name)
      t.meta["interrupted"] = t.meta.get("interrupted", 0) + 1
      raise Interrupted()
    self._switch()

  def _draw_gap(self, t):
    if self.mode == "none" or self.left <= 0:
      t.gap = 0
      return
    k = self.c.draw(len(self.gaps) + 1)
    if k == 0:
      t.gap = 0
    else:
      t.gap = 1 + self.c.draw(self.gaps[k - 1])

  def refresh(self):
    """A new operation begins: every location is a preemption point again."""
    if self._mon and self.hot is not None:
      self.counts.clear()
      MON.restart_events()

  # -- tasks ---------------------------------------------------------------------------------------
  def spawn(self, name, fn, node=None):
    t = Task(len(self.tasks), name, fn, node)
    self.tasks.append(t)
    self.refresh()
    t.thread = threading.Thread(target=self._body, args=(t,), daemon=True)
    t.thread.start()
    return t

  def _body(self, t):
    t.lock.acquire()
    try:
      if t.kill:
        raise TaskKilled()
      t.result = t.fn()
    except BaseException as e:  # noqa: delivered to the world
      t.exc = e
    t.state = "done"
    self.main.release()

  def _switch(self):
    """Give control back to the scheduler and wait to be resumed."""
    t = self.current
    self.main.release()
    t.lock.acquire()
    if t.kill:
      raise TaskKilled()
    if t.inject is not None:
      e, t.inject = t.inject, None
      raise e

  def sync_point(self):
    """Just before a lock is taken and just after it is given back: often, others go first."""
    t = self.current
    if t is not None and self.sync and not t.kill and self.left > 0 and t.state == "runnable" and self.c.chance(1, self.sync):
      self.left -= 1
      self.ctx.probes["lock-preemptions"] += 1
      self._switch()

  def pause(self):
    self._switch()

  def sleep(self, dt):
    t = self.current
    t.state = "sleeping"
    self.at(self.now + max(dt, 0.0), lambda: self._ready(t))
    self._switch()

  def wait(self, waiters, timeout=None):
    """Park until wake_all(waiters), or timeout; True unless timed out."""
    t = self.current
    t.state = "blocked"
    t.timed_out = False
    waiters.append(t)
    if timeout is not None:
      def expire():
        if t.state == "blocked" and t in waiters:
          waiters.remove(t)
          t.timed_out = True
          self._ready(t)
      self.at(self.now + timeout, expire)
    try:
      self._switch()
    finally:
      if t in waiters:
        waiters.remove(t)
    return not t.timed_out

  def wake_all(self, waiters):
    for t in list(waiters):
      waiters.remove(t)
      self._ready(t)

  def _ready(self, t):
    if t.state in ("blocked", "sleeping"):
      t.state = "runnable"

  def at(self, when, fn):
    self.seq += 1
    heapq.heappush(self.timers, (when, self.seq, fn))

  def kill(self, t):
    if t.state != "done":
      t.kill = True
      t.state = "runnable"

  def note(self, what):
    self.ctx.probes[what] += 1

  # -- main loop ------------------------------------------------------------------------------
  def step(self):
    """One scheduling step; False when nothing can happen any more."""
    # timers that are due fire before tasks run
    while self.timers and self.timers[0][0] <= self.now:
      _, _, fn = heapq.heappop(self.timers)
      fn()
    ready = [t for t in self.tasks if t.state == "runnable"]
    if not ready:
      if not self.timers:
        return False
      when, _, fn = heapq.heappop(self.timers)
      self.now = max(self.now, when)
      fn()
      return True
    i = self.c.draw(len(ready))
    t = ready[i]
    self.ctx.mark(t.id)
    self._draw_gap(t)
    self.current = t
    self.steps += 1
    t.lock.release()
    self.main.acquire()
    self.current = None
    if self.after_step is not None:
      self.after_step(t)
    return True

  def run(self, done, max_steps=20000, horizon=None):
    """Step until done(); returns 'done', 'quiet' (nothing left to do) or 'limit'."""
    n = 0
    while not done():
      if horizon is not None and self.now > horizon:
        return "horizon"
      if n > max_steps:
        return "limit"
      if not self.step():
        return "quiet"
      n += 1
    return "done"

  def close(self):
    """Back to a process without simulated threads."""
    if self._mon:
      for c in self._codes:
        MON.set_local_events(TOOL, c, 0)
      self._mon = False
    Sim.sched = None

  def stuck(self):
    return [t for t in self.tasks if t.state not in ("done",)]
