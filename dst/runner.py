"""Batch execution: forked runs, aggregation, minimisation, replay files, evidence."""
import collections
import hashlib
import importlib
import json
import os
import pickle
import resource
import select
import signal
import sys
import time
import traceback

from . import core, seams
from .core import Choices, Ctx, HarnessError, Violation, VERIF, in_repo, load_known

mono = time.monotonic          # the real clock; seams.install() replaces the attribute, not this name
real_stdout = sys.stdout
OUT = os.path.join(VERIF, "out")
WORKERS = int(os.environ.get("DST_WORKERS", "8"))
RUN_LIMIT = float(os.environ.get("DST_RUN_LIMIT", "40"))

WORLD_OF = {}
for _w, _ps in {
    "chainnet": ["C01", "C02", "C03", "C04", "C05"],
    "graphiso": ["C06", "C07", "C08"],
    "color3": ["C09", "C10", "C11"],
    "commit": ["C12", "C13"],
    "merkle": ["C14"],
    "compress": ["C15"],
    "starkworld": ["C16", "C17"],
    "fields": ["C18"],
    "shared": ["C19"],
    "rngworld": ["C20"],
    "randpoly": ["C21"],
    "lowdegree": ["C32"],
}.items():
  for _p in _ps:
    WORLD_OF[_p] = _w


def say(*a):
  print(*a, file=real_stdout, flush=True)


def run_seed(seed, prop, idx):
  h = hashlib.sha256(f"{seed}/{prop}/{idx}".encode()).digest()
  return int.from_bytes(h[:7], "big")


class Job:
  """One run: by seed or by recorded choices."""

  def __init__(self, idx, seed=None, choices=None):
    self.idx, self.seed, self.choices = idx, seed, choices


def unusable(e):
  """Did a world stumble over an answer of a form no caller could use (None, too few items, another type)?
  A changed interface (names, parameters) is not that: it is for the harness to follow, and no violation."""
  if not isinstance(e, (TypeError, ValueError, IndexError, KeyError, AttributeError)):
    return False
  last = traceback.extract_tb(e.__traceback__)[-1].filename
  if os.sep + os.path.join("dst", "worlds") + os.sep not in last:
    return False
  text = str(e)
  if isinstance(e, AttributeError) and not text.startswith("'NoneType'"):
    return False
  return not any(w in text for w in ("positional argument", "keyword argument", "required argument", "not callable"))


def execute(world, prop, tier, job, known_ids):
  """Runs in a forked child."""
  c = Choices(seed=job.seed, recorded=job.choices)
  ctx = Ctx(prop, c, known_ids, job.idx, tier)
  ctx.base_seed = world._seed
  res = {"idx": job.idx, "kind": None, "msg": "", "harness": None}
  t0 = mono()
  try:
    seams.reseed(c.seed64() if not getattr(world, "OWN_SEED", False) else 1)
    world.run(ctx)
  except Violation as v:
    res["kind"], res["msg"] = v.kind, v.msg
  except HarnessError:
    res["harness"] = traceback.format_exc()
  except BaseException as e:  # noqa
    if in_repo(e.__traceback__):
      res["kind"] = "unexpected-" + type(e).__name__
      res["msg"] = "".join(traceback.format_exception(e))[-1500:]
    elif unusable(e):
      res["kind"] = "unusable-answer"
      res["msg"] = "".join(traceback.format_exception(e))[-1500:]
    else:
      res["harness"] = traceback.format_exc()
  res.update(choices=c.out, faults=dict(ctx.faults), probes=dict(ctx.probes), known=ctx.known,
             sim_time=ctx.sim_time, nontrivial=ctx.nontrivial, sample=ctx.sample, digest=ctx.digest(),
             shape=hashlib.sha256(repr((ctx.shape, sorted(ctx.faults.items()))).encode()).hexdigest()[:16],
             secs=mono() - t0)
  if res["kind"] or os.environ.get("DST_EVENTS"):
    res["events"] = ctx.events[-400:]
  return res


def die_with_parent():
  """A run that hangs must not outlive the worker that started it."""
  try:
    import ctypes
    ctypes.CDLL(None).prctl(1, signal.SIGKILL, 0, 0, 0)
  except Exception:  # noqa: not available
    pass


def forked(world, prop, tier, job, known_ids, limit):
  """Execute a job in a forked child; a result dict, or {'hang': True} / {'died': status}."""
  r, w = os.pipe()
  pid = os.fork()
  if pid == 0:
    code = 1
    try:
      os.close(r)
      os.setpgid(0, 0)
      die_with_parent()
      sys.stdout = seams.NullOut()
      if not os.environ.get("DST_STDERR"):
        sys.stderr = seams.NullOut()
      resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
      resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
      res = execute(world, prop, tier, job, known_ids)
      data = pickle.dumps(res)
      off = 0
      while off < len(data):
        off += os.write(w, data[off:off + 65536])
      code = 0
    except BaseException:  # noqa
      try:
        os.write(w, pickle.dumps({"idx": job.idx, "kind": None, "harness": traceback.format_exc()}))
        code = 0
      except BaseException:  # noqa
        pass
    finally:
      os._exit(code)
  os.close(w)
  buf = bytearray()
  end = mono() + limit
  hang = False
  while True:
    left = end - mono()
    if left <= 0:
      hang = True
      break
    ready, _, _ = select.select([r], [], [], left)
    if not ready:
      hang = True
      break
    chunk = os.read(r, 1 << 16)
    if not chunk:
      break
    buf += chunk
  os.close(r)
  if hang:
    try:
      os.killpg(pid, signal.SIGKILL)
    except OSError:
      pass
    try:
      os.kill(pid, signal.SIGKILL)
    except OSError:
      pass
  _, status = os.waitpid(pid, 0)
  if hang:
    return {"idx": job.idx, "hang": True, "kind": None, "harness": None}
  try:
    return pickle.loads(bytes(buf))
  except Exception:  # noqa
    return {"idx": job.idx, "kind": None, "harness": f"run died with status {status}"}


class Agg:
  def __init__(self):
    self.n = 0
    self.faults, self.probes = collections.Counter(), collections.Counter()
    self.known, self.shapes, self.samples = {}, set(), []
    self.sim_time = 0.0
    self.nontrivial = 0
    self.viol, self.harness = [], []
    self.secs = 0.0

  def add(self, r):
    self.n += 1
    self.faults.update(r.get("faults", {}))
    self.probes.update(r.get("probes", {}))
    self.known.update(r.get("known") or {})
    self.sim_time += r.get("sim_time", 0.0)
    self.secs += r.get("secs", 0.0)
    if r.get("nontrivial"):
      self.nontrivial += 1
      self.shapes.add(r["shape"])
    if r.get("sample") is not None and len(self.samples) < 4:
      self.samples.append(r["sample"])
    if r.get("kind"):
      self.viol.append(r)
    if r.get("harness"):
      self.harness.append(r)


def worker(world, prop, tier, seed, ids, known_ids, pipe_w, stop_r, deadline):
  for i in ids:
    if mono() > deadline:
      break
    if select.select([stop_r], [], [], 0)[0]:
      break
    job = Job(i, seed=run_seed(seed, prop, i))
    r = forked(world, prop, tier, job, known_ids, RUN_LIMIT)
    if r.get("hang"):
      r = forked(world, prop, tier, job, known_ids, RUN_LIMIT * 3)
      if r.get("hang"):
        r["kind"], r["msg"], r["choices"] = "hang", "the run does not end", None
        r.update(faults={}, probes={})
    if (r.get("harness") or "").startswith("run died"):
      r = forked(world, prop, tier, job, known_ids, RUN_LIMIT * 3)
      if (r.get("harness") or "").startswith("run died"):
        r.update(kind="died", msg=r["harness"], harness=None, choices=None, faults={}, probes={})
    if not r.get("kind") and not r.get("harness"):
      r["choices"] = None
    r["seed"] = job.seed
    data = pickle.dumps(r)
    os.write(pipe_w, len(data).to_bytes(4, "big") + data)
  os._exit(0)


def batch(world, prop, tier, seed, n, cap, known_ids, workers=WORKERS, keep=None):
  """n runs over forked workers; stops at the first violation."""
  agg = Agg()
  deadline = mono() + cap
  stop_r, stop_w = os.pipe()
  pipes, pids = {}, []
  for k in range(workers):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
      try:
        die_with_parent()
        os.close(r)
        for other in pipes:
          os.close(other)
        worker(world, prop, tier, seed, range(k, n, workers), known_ids, w, stop_r, deadline)
      finally:
        os._exit(1)
    os.close(w)
    pipes[r] = bytearray()
    pids.append(pid)
  stopped = None
  while pipes:
    ready, _, _ = select.select(list(pipes), [], [], 1.0)
    for fd in ready:
      chunk = os.read(fd, 1 << 18)
      if not chunk:
        os.close(fd)
        del pipes[fd]
        continue
      buf = pipes[fd]
      buf += chunk
      while len(buf) >= 4:
        ln = int.from_bytes(buf[:4], "big")
        if len(buf) < 4 + ln:
          break
        r = pickle.loads(bytes(buf[4:4 + ln]))
        del buf[:4 + ln]
        agg.add(r)
        if keep is not None:
          keep(r)
        if (r.get("kind") or r.get("harness")) and stopped is None and keep is None:
          stopped = mono()
          os.write(stop_w, b"x" * 64)
    if stopped is not None and mono() - stopped > 5 and agg.viol:
      break
  for pid in pids:
    try:
      if stopped is not None and agg.viol:
        os.kill(pid, signal.SIGKILL)
    except OSError:
      pass
    try:
      os.waitpid(pid, 0)
    except OSError:
      pass
  os.close(stop_r)
  os.close(stop_w)
  return agg


def load_world(prop, seed):
  seams.install()
  world = importlib.import_module("dst.worlds." + WORLD_OF[prop])
  world._seed = seed
  seams.reseed(seed * 7919 + 13)
  out, sys.stdout = sys.stdout, seams.NullOut()
  try:
    world.setup(prop)
  finally:
    sys.stdout = out
  return world


def minimise(world, prop, tier, viol, known_ids, secs=40):
  kind = viol["kind"]
  if viol.get("choices") is None:
    return None, 0
  end = mono() + secs

  def evaluate(cand):
    r = forked(world, prop, tier, Job(viol["idx"], choices=cand), known_ids, 15)
    return r.get("kind"), r.get("choices") or cand

  return core.shrink(viol["choices"], kind, evaluate, end, mono)


def write_replay(prop, tier, seed, viol, choices, msg, events):
  os.makedirs(OUT, exist_ok=True)
  path = os.path.join(OUT, f"{prop}-{viol['idx']}-{os.getpid()}.replay.json")
  with open(path, "w") as f:
    json.dump({"property": prop, "tier": tier, "verif_seed": seed, "run": viol["idx"], "run_seed": viol.get("seed"),
               "kind": viol["kind"], "message": msg, "choices": choices, "trace": events}, f, indent=1)
  return path


def check(prop, tier, seed):
  t0 = mono()
  known = load_known(prop)
  try:
    world = load_world(prop, seed)
  except Exception as e:  # noqa
    if in_repo(e.__traceback__) or unusable(e):
      os.makedirs(OUT, exist_ok=True)
      path = os.path.join(OUT, f"{prop}-setup.replay.json")
      json.dump({"property": prop, "tier": tier, "verif_seed": seed, "kind": "setup", "choices": None,
                 "message": traceback.format_exc()[-1500:]}, open(path, "w"), indent=1)
      say(traceback.format_exc()[-1500:])
      say(f"VIOLATION property={prop} replay={path}")
      evidence(prop, tier, seed, world_stub(), Agg(), mono() - t0, 1, 0)
      return 1
    say(traceback.format_exc())
    return 2
  scale = float(os.environ.get("DST_SCALE", "1"))
  n, cap = world.RUNS[prop][tier]
  n = max(1, int(n * scale))
  cap = float(os.environ.get("DST_CAP", cap))
  agg = batch(world, prop, tier, seed, n, cap, set(known))
  if agg.viol:
    v = min(agg.viol, key=lambda r: r["idx"])
    say(f"run {v['idx']}: {v['kind']}: {v['msg'][:800]}")
    best, evals = minimise(world, prop, tier, v, set(known))
    msg, events = v["msg"], v.get("events", [])
    if best is not None:
      r = forked(world, prop, tier, Job(v["idx"], choices=best), set(known), 60)
      if r.get("kind") == v["kind"]:
        msg, events = r["msg"], r.get("events", [])
        say(f"minimised {len(v['choices'])} -> {len(best)} choices in {evals} runs")
      else:
        best = v["choices"]
    path = write_replay(prop, tier, seed, v, best, msg, events)
    for e in events[-40:]:
      say("  |", e[:220])
    say(f"{v['kind']}: {msg[:1200]}")
    evidence(prop, tier, seed, world, agg, mono() - t0, len(agg.viol), n)
    # the replay file must reproduce the violation in a fresh process
    import subprocess
    p = subprocess.run([sys.executable, os.path.join(VERIF, "run.py"), "replay", path], capture_output=True,
                       text=True, timeout=300)
    say("replay in a fresh process: " + ("reproduced" if p.returncode == 1 else
                                         f"NOT reproduced (rc {p.returncode}) {p.stdout[-300:]}"))
    say(f"VIOLATION property={prop} replay={path}")
    return 1
  if agg.harness:
    say(agg.harness[0]["harness"])
    say(f"harness error in run {agg.harness[0]['idx']}")
    return 2
  evidence(prop, tier, seed, world, agg, mono() - t0, 0, n)
  for fid, msg in sorted(agg.known.items()):
    say(f"KNOWN-FINDING: property={prop} {fid}: {msg}")
  for fid in sorted(set(known) - set(agg.known)):
    say(f"note: listed finding {fid} was not observed in this run")
  if agg.n < n * 0.2:
    say(f"only {agg.n} of {n} runs fitted into {cap} s")
    return 2
  say(f"{prop}: {agg.n} runs, {agg.nontrivial} non-trivial, {len(agg.shapes)} distinct, "
      f"{mono() - t0:.1f} s, faults {sum(agg.faults.values())}")
  return 0


def world_stub():
  class W:
    RULE, COMPONENTS, ASSUME = "", {}, []
  return W


def evidence(prop, tier, seed, world, agg, wall, violations, planned):
  os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
  rule = world.RULE[prop] if isinstance(world.RULE, dict) else world.RULE
  comp = world.COMPONENTS.get(prop, world.COMPONENTS)
  cov = {
      "evaluations": agg.n,
      "distinct_nontrivial": len(agg.shapes),
      "rule": rule,
      "samples": agg.samples or ["(no run completed)"],
      "planned_runs": planned,
      "nontrivial_runs": agg.nontrivial,
      "runs_per_hour": round(agg.n / wall * 3600) if wall else 0,
      "seeds_per_hour": round(agg.n / wall * 3600) if wall else 0,
      "simulated_seconds": round(agg.sim_time, 3),
      "faults_injected": dict(agg.faults),
      "probes": dict(agg.probes),
      "distinct_interleavings_measure": "hash of the sequence of scheduling decisions and fault placements of a run",
      "components": comp,
      "known_findings_observed": agg.known,
  }
  with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
               "assumptions": list(world.ASSUME), "wall_s": round(wall, 2), "violations": violations}, f, indent=1)


def replay(path):
  d = json.load(open(path))
  prop, tier, seed = d["property"], d["tier"], d["verif_seed"]
  known = load_known(prop)
  try:
    world = load_world(prop, seed)
  except Exception as e:  # noqa
    if d["kind"] == "setup" and (in_repo(e.__traceback__) or unusable(e)):
      say(f"reproduced: setup")
      return 1
    raise
  if d["choices"] is None:
    job = Job(d["run"], seed=d["run_seed"])
  else:
    job = Job(d["run"], choices=d["choices"])
  r = forked(world, prop, tier, job, set(known), 120)
  if (r.get("harness") or "").startswith("run died"):
    r.update(kind="died", msg=r["harness"])
  elif r.get("harness"):
    say(r["harness"])
    return 2
  kind = "hang" if r.get("hang") else r.get("kind")
  for e in r.get("events", []):
    say("  |", e[:300])
  say(f"{kind}: {r.get('msg', '')}")
  if kind == d["kind"]:
    say(f"reproduced: {kind}")
    return 1
  say(f"not reproduced (recorded {d['kind']})")
  return 0


def determinism(prop, seed, n):
  """Digest of every run, for comparison between processes."""
  world = load_world(prop, seed)
  out = {}

  def keep(r):
    out[r["idx"]] = (r.get("digest"), r.get("shape"), r.get("kind"), sorted(r.get("faults", {}).items()))

  batch(world, prop, "quick", seed, n, 600, set(load_known(prop)), keep=keep)
  for i in sorted(out):
    say(i, *out[i])
  return 0
