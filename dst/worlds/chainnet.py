"""Blockchain nodes, their clients and peers on a simulated network (C01-C05).

Real: misc/blockchain.py and misc/run_blockchain.py, Flask (test client), the requests session code.
Simulated: threads, sockets (HTTPAdapter.send), clock, OS entropy, peers that are not nodes; in most
runs the difficulty of SHA-256's leading zeros is scaled (see EasyHash), in the others it is real.
"""
import copy
import hashlib
import json
import re
import os
import sys
import types

from .. import seams
from ..core import REPO, HarnessError
from ..sched import Scheduler, TaskKilled

RUNS = {
    "C01": {"quick": (1600, 240), "thorough": (40000, 780)},
    "C02": {"quick": (1100, 240), "thorough": (40000, 780)},
    "C03": {"quick": (1000, 240), "thorough": (36000, 780)},
    "C04": {"quick": (2000, 240), "thorough": (44000, 780)},
    "C05": {"quick": (2000, 240), "thorough": (44000, 780)},
}
RULE = ("a run is a drawn scenario (nodes, concurrent clients, honest and dishonest peers, topology, clock skew) "
        "executed under a drawn schedule and fault sequence; it is non-trivial if at least one block was mined or "
        "adopted and at least two requests overlapped or one network exchange took place; distinct = distinct hash "
        "of (sequence of scheduling decisions, operations, fault counts)")
COMPONENTS = {
    "real": ["misc/blockchain.py", "misc/run_blockchain.py", "flask + werkzeug test client", "requests session layer"],
    "stub": ["socket transport (requests HTTPAdapter.send)", "thread scheduler", "clock", "os.urandom",
             "dishonest peers", "sha256 leading-zero difficulty in ~97% of runs (real in the rest)"],
}
ASSUME = ["preemption happens at Python line/instruction boundaries inside the repository's code, at simulated locks "
          "and at network calls", "the names mine/chain/transactions/nodes routes and request formats are the interface",
          "SHA-256 difficulty scaling preserves behaviour"]

real_sha256 = hashlib.sha256


class EasyHash:
  """SHA-256 with more leading zeros: P(>=4 zeros)=1/256, P(exactly 3)=1/256, P(exactly 2)=1/128."""
  name, digest_size, block_size = "sha256", 32, 64

  def __init__(self, data=b"", **k):
    self._h = real_sha256(data)

  def update(self, data):
    self._h.update(data)

  def hexdigest(self):
    d = self._h.hexdigest()
    b = int(d[:2], 16)
    if b == 0:
      return "0000" + d[4:]
    if b == 1:
      return "000" + ("1" if d[3] == "0" else d[3]) + d[4:]
    if b < 4:
      return "00" + ("1" if d[2] == "0" else d[2]) + d[3:]
    return d

  def digest(self):
    return bytes.fromhex(self.hexdigest())

  def copy(self):
    c = EasyHash()
    c._h = self._h.copy()
    return c


class H:
  """Independent statement of the rules."""

  @staticmethod
  def hash(block):
    return hashlib.sha256(json.dumps(block, sort_keys=True).encode()).hexdigest()

  @staticmethod
  def pow_ok(last_proof, proof, last_hash, zeros=4):
    return hashlib.sha256(f"{last_proof}{proof}{last_hash}".encode()).hexdigest().startswith("0" * zeros)

  @staticmethod
  def invalid_at(chain):
    """None if valid, else the position of the first bad block."""
    for i in range(1, len(chain)):
      try:
        h = H.hash(chain[i - 1])
        if chain[i]["previous_hash"] != h or not H.pow_ok(chain[i - 1]["proof"], chain[i]["proof"], h):
          return i
      except (KeyError, TypeError, IndexError):
        return i
    return None

  @staticmethod
  def well_formed(chain):
    return (isinstance(chain, list) and chain and all(
        isinstance(b, dict) and {"index", "timestamp", "transactions", "proof", "previous_hash"} <= set(b)
        for b in chain))


CODES = {}


def setup(prop):
  import flask, requests, requests.adapters, requests.models, uuid, urllib.parse, argparse  # noqa
  import werkzeug.test, flask.testing, flask.json.provider, idna  # noqa
  for name in ("blockchain", "run_blockchain"):
    path = os.path.join(REPO, "misc", name + ".py")
    with open(path, "rb") as f:
      code = compile(f.read(), path, "exec", dont_inherit=True)
    seams._collect(code)
    CODES[name] = code
  # warm up everything lazily imported by flask
  seams.install()
  n = Node(None, "warm", "warm:1")
  n.boot()
  n.get("/chain")
  n.post("/transactions/new", {"sender": "a", "recipient": "b", "amount": 1})


class Node:
  def __init__(self, world, name, addr):
    self.w, self.name, self.addr = world, name, addr
    self.up = False
    self.skew = 0.0
    self.incarnation = 0
    self.tasks = []

  def boot(self):
    self.incarnation += 1
    bc = types.ModuleType("blockchain")
    bc.__file__ = os.path.join(REPO, "misc", "blockchain.py")
    saved = {k: sys.modules.get(k) for k in ("blockchain", "starks.blockchain", "misc.blockchain")}
    for k in saved:
      sys.modules[k] = bc
    try:
      exec(CODES["blockchain"], bc.__dict__)
      rb = types.ModuleType("run_blockchain")
      rb.__file__ = os.path.join(REPO, "misc", "run_blockchain.py")
      for k, v in bc.__dict__.items():
        if not k.startswith("__"):
          rb.__dict__[k] = v
      exec(CODES["run_blockchain"], rb.__dict__)
    finally:
      for k, v in saved.items():
        if v is None:
          del sys.modules[k]
        else:
          sys.modules[k] = v
    import logging
    self.app = rb.__dict__["app"]
    self.Blockchain = bc.__dict__["Blockchain"]
    self.app.logger.handlers[:] = [logging.NullHandler()]
    self.app.logger.propagate = False
    self.up = True
    self.states = []          # (step, chain) each distinct observed state
    self.raw = None
    self.mined = {}           # (index, proof, previous_hash) -> dict(block, step)
    self.replaced = []        # steps at which the chain was replaced
    self.txs = []
    self.ops = []
    self.reward_to = None
    self.acked_nodes = set()
    self.bad_markers = []
    self.blind = False        # the last observation found the lock taken

  def get(self, path):
    return self.app.test_client().get(path)

  def post(self, path, body=None, raw=None, ctype="application/json"):
    data = json.dumps(body) if raw is None else raw
    kw = {"content_type": ctype} if ctype else {}
    return self.app.test_client().post(path, data=data, **kw)


class Op:
  def __init__(self, kind, node, step):
    self.kind, self.node, self.start, self.end = kind, node, step, None
    self.status = self.body = None
    self.delivered = []       # chains of 200 replies
    self.contacted = set()
    self.snapshot = set(node.acked_nodes)
    self.inc = node.incarnation
    self.t0 = 0.0
    self.info = {}


def canon(netloc):
  host = netloc.rsplit("@", 1)[-1].lower()
  return host if ":" in host.rsplit("]", 1)[-1] else host + ":80"


def content(tx):
  """A transaction as text: equal only if nothing was changed (1, 1.0, True and "1" differ)."""
  return json.dumps(tx, sort_keys=True)


def run(ctx):
  W(ctx).run()


class Dead(Exception):
  pass


class W:
  def __init__(self, ctx):
    self.ctx, self.c = ctx, ctx.c
    self.faulty = True
    self.partition = set()
    self.exceptions = []

  # ---------------------------------------------------------------------------------- scenario --
  def run(self):
    c, ctx = self.c, self.ctx
    p = ctx.prop
    kinds = {"C01": [(3, "solo"), (3, "byz"), (2, "net")], "C02": [(6, "byz"), (2, "net")],
             "C03": [(3, "net"), (3, "byz")], "C04": [(5, "solo"), (2, "byz"), (1, "net")],
             "C05": [(5, "solo"), (2, "byz"), (1, "net")]}[p]
    self.kind = c.weighted(kinds)
    real_hash = c.chance(1, 32)
    if not real_hash:
      hashlib.sha256 = EasyHash
      real_new = hashlib.new
      hashlib.new = lambda name, data=b"", **k: (EasyHash(data) if str(name).lower().replace("-", "") == "sha256"
                                                 else real_new(name, data, **k))
      hot = 1
    else:
      hashlib.sha256 = real_sha256
      hot = 1
      ctx.probe("real-difficulty-run")
    mode = c.weighted([(1, "none"), (4, "line"), (5, "instr")])
    self.s = Scheduler(ctx, mode, max_preempt=c.pick([4, 12, 40]),
                       gaps={"line": (3, 15, 40), "instr": (8, 80, 250), "none": (1,)}[mode], hot=hot)
    self.s.sync = c.pick([0, 3, 6])
    seams.Sim.skew = lambda: (self.s.current.node.skew if self.s.current is not None and self.s.current.node else
                              getattr(self, "boot_skew", 0.0))
    import requests
    requests.adapters.HTTPAdapter.send = lambda ad, req, **k: self.send(req, **k)
    self.s.after_step = self.after_step
    self.s.start_monitoring(seams.codes)
    if p in ("C03", "C04", "C05") and c.chance(1, 60):
      return self.deep()
    nn = 1 if self.kind in ("solo", "byz") else c.between(2, 4 if not real_hash else 2)
    nb = {"solo": 0, "byz": c.between(1, 3), "net": c.weighted([(3, 0), (2, 1)])}[self.kind]
    forms = ["node%d:500%d", "192.168.0.%d:500%d", "host-%d.example", "Node%d:500%d"]
    self.nodes, self.byz = [], []
    same = c.weighted([(3, None), (1, "cluster-%d:500%d"), (1, "10.0.0.%d:5000"), (1, "big.example:500%d"), (1, "big.example:5%d5")])
    for i in range(nn + nb):
      f = same or c.pick(forms)
      addr = f % ((i + 1, i) if f.count("%d") == 2 else (i + 1,))
      if i < nn:
        self.nodes.append(Node(self, f"n{i}", addr))
      else:
        self.byz.append({"addr": addr, "name": f"b{i}", "policy": None})
    self.hosts = {canon(n.addr): n for n in self.nodes}
    self.hosts.update({canon(b["addr"]): b for b in self.byz})
    self.maxlen = 9 if not real_hash else 4
    for n in self.nodes:
      n.skew = self.boot_skew = c.pick([0.0, 0.0, 3600.0, -86400.0])
      if n.skew:
        ctx.fault("clock-skew")
      n.boot()
    for n in self.nodes:
      self.observe(n)
    self.active = []
    self.allops = []
    self.faulty = c.chance(3, 4) if self.kind != "solo" else c.chance(1, 4)
    self.opkinds = self.mix()
    # give the node some history and some peers before concurrency starts
    for n in self.nodes:
      pre = c.draw(4 if not real_hash else 2)
      if pre:
        self.sequential(n, [("mine",)] * pre)
      peers = [b["addr"] for b in self.byz] + [m.addr for m in self.nodes if m is not n]
      known = [a for a in peers if c.chance(3, 4)] if self.kind == "net" else peers
      if known:
        self.sequential(n, [("register", [self.form(a) for a in known])])
    nclients = {"solo": c.between(2, 4), "byz": c.between(1, 3), "net": c.between(1, 2)}[self.kind]
    budget = c.between(2, 6) if not real_hash else 3
    self.clients = 0
    for n in self.nodes:
      for k in range(nclients):
        self.clients += 1
        self.s.spawn(f"{n.name}c{k}", lambda n=n, k=k: self.client(n, budget), node=n)
    if self.faulty and c.chance(1, 2):
      for _ in range(c.between(1, 3)):
        self.s.at(self.s.now + c.pick([0.05, 0.3, 1.0, 5.0]), self.chaos)
    self.s.run(lambda: all(t.state == "done" for t in self.s.tasks), max_steps=6000, horizon=2e5)
    self.end_phase("main")
    self.final(real_hash)
    ctx.sim_time = self.s.now
    mined = any(len(st[1]) > 1 for n in self.nodes for st in n.states)
    ctx.nontrivial = mined and (len(self.allops) > 2)
    ctx.sample = {"kind": self.kind, "mode": mode, "nodes": [n.addr for n in self.nodes],
                  "peers": [b["addr"] for b in self.byz], "ops": [o.kind for o in self.allops][:30],
                  "chain_lengths": [len(n.states[-1][1]) for n in self.nodes if n.states],
                  "virtual_s": round(self.s.now, 2), "faults": dict(ctx.faults)}
    for o in self.allops:
      ctx.mark(o.kind)

  def mix(self):
    p, c = self.ctx.prop, self.c
    base = {"C01": dict(mine=5, tx=3, chain=1, resolve=3, register=1, bad=1),
            "C02": dict(mine=3, tx=1, chain=1, resolve=6, register=1, bad=0),
            "C03": dict(mine=3, tx=1, chain=1, resolve=5, register=2, bad=0),
            "C04": dict(mine=4, tx=7, chain=1, resolve=2, register=0, bad=1),
            "C05": dict(mine=3, tx=2, chain=5, resolve=3, register=2, bad=4)}[p]
    if self.kind == "solo":
      base["resolve"] = min(base["resolve"], 1)
    # swarm: some operations are switched off in some runs
    for k in list(base):
      if k not in ("mine", "resolve") and c.chance(1, 5):
        base[k] = 0
    return [(v, k) for k, v in base.items() if v]

  def form(self, addr):
    return self.c.pick(["http://%s", "%s", "http://%s/", "%s/", "http://%s/chain", "https://%s"]) % addr

  # ------------------------------------------------------------------------------ deep nesting --
  def deep(self):
    """Values nested about as deeply as the JSON library can bear: whatever is taken in can be given out again."""
    c, ctx = self.c, self.ctx
    n = Node(self, "n0", "node0:5000")
    self.nodes, self.byz = [n], [{"addr": "peer%d:1" % i, "name": "b%d" % i, "policy": None} for i in range(2)]
    self.hosts = {canon(x["addr"]): x for x in self.byz}
    self.faulty, self.active, self.allops = False, [], []
    self.s.after_step = lambda t: None
    n.boot()
    what = c.pick(["tx", "tx", "tx", "garbage", "chain", "chain", "chain-reply"])
    d = c.weighted([(6, 9960 + c.draw(45)), (2, 9500 + c.draw(600)), (1, 1000 - c.draw(60)), (1, 100 + c.draw(900)), (1, 3000 + c.draw(6000)),
                    (1, 200000)])
    kind = c.draw(3)
    open_, shut = [("[", "]"), ('{"a": ', "}"), ('[{"a": ', "}]")][kind]
    d2 = d if kind < 2 else d // 2
    deep = open_ * d2 + "7" + shut * d2
    ctx.fault("deep-nesting")
    ctx.mark((what, d, kind))
    ctx.sample = {"kind": "deep", "what": what, "depth": d, "brackets": kind}
    out = []
    flat = lambda t: t.replace(" ", "").replace("\n", "")

    def ask(name, path, raw=None):
      r = n.get(path) if raw is None else n.post(path, raw=raw)
      out.append((name, r.status_code, r.get_data(as_text=True)))
      return r.status_code, out[-1][2]

    def fine(name, path):
      st, text = ask(name, path)
      for q in ("C05", "C04") if name == "mine" else ("C05", "C03"):
        ctx.tagged(q, st == 200, "request-failed", lambda: f"{name} -> {st} after {what} nested {d} deep")
      return text

    def body():
      if what == "tx":
        where = c.pick(["amount", "sender", "recipient", "memo"])
        v = {"sender": '"s"', "recipient": '"r"', "amount": "1"}
        v[where] = deep
        raw = "{" + ", ".join('"%s": %s' % x for x in v.items()) + "}"
        st, text = ask("tx", "/transactions/new", raw)
        for q in ("C05", "C04"):
          ctx.tagged(q, st == 201 or 400 <= st < 500, "request-failed", lambda: f"{where} nested {d} deep: {st}")
        ctx.probe("deep-accepted" if st == 201 else "deep-refused")
        mined = fine("mine", "/mine")
        text = fine("chain", "/chain")
        there = flat(deep) in flat(text)
        if where != "memo":
          for q in ("C04", "C05"):
            ctx.tagged(q, there == (st == 201), "transaction-lost" if st == 201 else "malformed-changed-state",
                       lambda: f"{where} nested {d} deep: answered {st}, on the chain: {there}")
        return
      head = [{"index": 1, "timestamp": 1.0, "transactions": [], "proof": 100, "previous_hash": "1"}]
      plain = self.extend(head, 2, "good")
      good = json.dumps({"chain": plain, "length": 3}).encode()
      if what == "garbage":
        bad = deep.encode() if c.chance(1, 2) else ('{"length": 9, "chain": %s}' % deep).encode()
      elif what == "chain-reply":
        bad = ('{"length": 3, "chain": %s, "more": %s}' % (json.dumps(plain), deep)).encode()
      else:
        last = dict(plain[-1], transactions=["@@"])
        txt = json.dumps(last, sort_keys=True).replace('"@@"', deep)
        h = hashlib.sha256(txt.encode()).hexdigest()
        tip = {"index": 4, "timestamp": 9.0, "transactions": [], "proof": self.proof(last["proof"], h), "previous_hash": h}
        bad = ('{"length": 4, "chain": %s}' % json.dumps(plain[:-1] + ["@@", tip]).replace('"@@"', txt)).encode()
      who = c.draw(2)
      self.byz[who]["fixed"] = (200, bad)
      self.byz[1 - who]["fixed"] = (200, good)
      n.post("/nodes/register", {"nodes": [b["addr"] for b in self.byz]})
      fine("resolve", "/nodes/resolve")
      text = fine("chain", "/chain")
      try:
        m = re.search(r'"length": ?(\d+)', text)
        size = int(m.group(1))
      except AttributeError:
        size = 0
      for q in ("C03", "C02"):
        ctx.tagged(q, size >= 3, "longer-chain-not-adopted", lambda: f"{size} blocks; a good peer served 3, the other one {what} nested {d} deep")
      fine("mine", "/mine")
      fine("chain", "/chain")

    t = self.s.spawn("n0c", body, node=n)
    self.s.left = 0
    r = self.s.run(lambda: t.state == "done", max_steps=4000, horizon=3e4)
    if t.exc is not None:
      raise t.exc
    for q in ("C03", "C05"):
      ctx.tagged(q, r == "done", "unanswered", r)
    ctx.nontrivial = True
    self.s.close()

  # -------------------------------------------------------------------------------- operations --
  def client(self, n, budget):
    c = self.c
    inc = n.incarnation
    for _ in range(budget):
      if not n.up or n.incarnation != inc:
        return
      k = c.weighted(self.opkinds)
      if k == "mine" and n.states and len(n.states[-1][1]) >= self.maxlen:
        k = "chain"
      self.do(n, k)
      z = c.draw(4)
      if z < 3:
        self.s.pause()
      else:
        self.s.sleep(c.pick([0.01, 0.1, 1.0]))

  def sequential(self, n, ops, max_steps=4000):
    """Run operations one after the other in their own task, nothing else going on."""
    def body():
      for o in ops:
        self.do(n, *o)
        self.s.pause()
    t = self.s.spawn(f"{n.name}s", body, node=n)
    left, self.s.left = self.s.left, 0
    f, self.faulty = self.faulty, False
    r = self.s.run(lambda: t.state == "done", max_steps=max_steps, horizon=self.s.now + 3e4)
    self.s.left, self.faulty = left, f
    if r != "done":
      self.ctx.tagged("C03", False, "unanswered", f"a request without concurrent faults was never answered ({r}): {ops}")
      raise Dead()
    if t.exc is not None:
      raise t.exc
    return t

  def begin(self, kind, n):
    o = Op(kind, n, self.s.steps)
    o.t0 = self.s.now
    o.state0 = len(n.states) - 1
    n.ops.append(o)
    self.allops.append(o)
    self.active.append(o)
    if self.s.current is not None:
      self.s.current.meta["op"] = o
      self.s.refresh()
    if sum(1 for x in self.active if x.node is n) > 1:
      self.ctx.probe("overlapping-requests")
    return o

  def finish(self, o, resp):
    o.status = resp.status_code
    o.text = resp.get_data(as_text=True)
    try:
      o.body = json.loads(o.text)
    except ValueError:
      o.body = None
    o.end = self.s.steps
    o.pending = True

  def do(self, n, kind, *args):
    c = self.c
    o = self.begin(kind, n)
    try:
      if kind == "mine":
        self.finish(o, n.get("/mine"))
      elif kind == "chain":
        self.finish(o, n.get("/chain"))
      elif kind == "resolve":
        self.finish(o, n.get("/nodes/resolve"))
      elif kind == "tx":
        tx = args[0] if args else self.make_tx(n)
        o.info["tx"] = tx
        body = dict(tx)
        if c.chance(1, 6):
          body["memo"] = "extra"
        self.finish(o, n.post("/transactions/new", body))
      elif kind == "register":
        nodes = args[0] if args else self.register_list(n)
        o.info["nodes"] = nodes
        self.finish(o, n.post("/nodes/register", {"nodes": nodes}))
      elif kind == "bad":
        path, kw, label = self.malformed(n)
        o.info["bad"] = label
        self.finish(o, n.post(path, **kw))
      else:
        raise HarnessError(kind)
    except TaskKilled:
      o.killed = True
      if o in self.active:
        self.active.remove(o)
      raise
    self.ctx.log(self.s.steps, n.name, kind, o.status, o.info.get("bad", ""))

  def make_tx(self, n):
    """A transaction; some repeat an earlier one, some share sender and recipient with it."""
    c = self.c
    self.txseq = getattr(self, "txseq", 0) + 1
    pool = self.__dict__.setdefault("txpool", [])
    k = c.draw(8)
    if k == 0 and pool:
      return copy.deepcopy(c.pick(pool))
    if k == 1:
      tx = {"sender": "alice", "recipient": "bob", "amount": 1000 + self.txseq}
    elif k == 2:
      tx = {"sender": "alice", "recipient": "r%d" % self.txseq, "amount": c.pick([1, 5])}
    elif k == 3:
      tx = {"sender": c.pick([self.txseq, None, "", ["s", self.txseq]]), "recipient": self.txseq, "amount": 1}
    else:
      tx = {"sender": "s%d" % self.txseq, "recipient": c.pick(["bob", "é☃", "", "0", "x" * 40]),
            "amount": c.pick([1, 0, -5, 2.5, 1.0, 0.1, 10**20, "7", "1.50", " 7 ", None, [1, {"b": 2, "a": 1}], True])}
    pool.append(tx)
    return copy.deepcopy(tx)

  def register_list(self, n):
    c = self.c
    pool = [b["addr"] for b in self.byz] + [m.addr for m in self.nodes if m is not n] + ["ghost%d:70" % c.draw(6)]
    return [self.form(c.pick(pool)) for _ in range(c.between(1, 3))]

  def malformed(self, n):
    c = self.c
    self.badseq = getattr(self, "badseq", 0) + 1
    m = "bad%d" % self.badseq
    n.bad_markers.append(m)
    tx = "/transactions/new"
    reg = "/nodes/register"
    good = {"sender": m, "recipient": "r", "amount": 1}
    k = c.draw(31)
    missing = [{x: good[x] for x in good if x != y} for y in good]
    table = [
        lambda: (tx, {"body": missing[0]}, "tx without sender"),
        lambda: (tx, {"body": missing[1]}, "tx without recipient"),
        lambda: (tx, {"body": missing[2]}, "tx without amount"),
        lambda: (tx, {"body": {}}, "tx empty object"),
        lambda: (tx, {"body": None}, "tx null"),
        lambda: (tx, {"body": 7}, "tx number"),
        lambda: (tx, {"body": True}, "tx true"),
        lambda: (tx, {"body": [m]}, "tx list"),
        lambda: (tx, {"body": ["sender", "recipient", "amount"]}, "tx list of key names"),
        lambda: (tx, {"body": "sender recipient amount"}, "tx string naming the keys"),
        lambda: (tx, {"raw": "{\"sender\": \"" + m}, "tx truncated json"),
        lambda: (tx, {"raw": ""}, "tx empty body"),
        lambda: (tx, {"raw": json.dumps(good), "ctype": "text/plain"}, "tx wrong content type"),
        lambda: (tx, {"raw": json.dumps(good), "ctype": None}, "tx no content type"),
        lambda: (reg, {"body": {}}, "register without nodes"),
        lambda: (reg, {"body": {"nodes": None}}, "register nodes null"),
        lambda: (reg, {"body": None}, "register null"),
        lambda: (reg, {"body": [m]}, "register list"),
        lambda: (reg, {"body": {"nodes": 5}}, "register nodes number"),
        lambda: (reg, {"body": {"nodes": m}}, "register nodes string"),
        lambda: (reg, {"body": {"nodes": [m + ":1", 5]}}, "register list with number"),
        lambda: (reg, {"body": {"nodes": [m + ":1", ""]}}, "register list with empty address"),
        lambda: (reg, {"body": {"nodes": [m + ":1", None, m + ":2"]}}, "register list with null"),
        lambda: (reg, {"raw": "[[["}, "register broken json"),
        lambda: (reg, {"body": {"nodes": [[m]]}}, "register nested list"),
        lambda: (reg, {"body": {"nodes": ["http://", m + ":3"]}}, "register address without host"),
        lambda: (tx, {"raw": "[" * 200000}, "tx deep nesting"),
        lambda: (tx, {"raw": '{"sender": "%s", "recipient": "r", "amount": %s1%s}' % (m, "[" * 100000, "]" * 100000)}, "tx deep amount"),
        lambda: (reg, {"raw": '{"nodes": %s"%s"%s}' % ("[" * 100000, m, "]" * 100000)}, "register deep nesting"),
        lambda: (tx, {"raw": '{"sender": "%s", "recipient": "r", "amount": %s}' % (m, c.pick(["1e999", "-1e999", "[1, 1e400]", "NaN", "-Infinity"]))},
                 "tx with a number out of range"),
        lambda: (tx, {"raw": '{"sender": "%s", "recipient": "r", "amount": 1%s}' % (m, "0" * 5000)}, "tx with a huge number"),
    ]
    return table[k]()

  # ---------------------------------------------------------------------------------- network --
  def send(self, req, timeout=None, **k):
    import requests
    from requests.exceptions import ConnectionError, ReadTimeout, ConnectTimeout, InvalidURL
    from urllib.parse import urlsplit
    s, c, ctx = self.s, self.c, self.ctx
    t = s.current
    if t is None:
      raise HarnessError("network call outside a task")
    u = urlsplit(req.url)
    target = canon(u.netloc)
    op = t.meta.get("op")
    if op is not None:
      op.contacted.add(target)
    ctx.probe("http-exchanges")
    if isinstance(timeout, (tuple, list)):
      ct, rt = (list(timeout) + [None, None])[:2]
    else:
      ct = rt = timeout

    def stall(tm, exc):
      s.sleep(1e7 if tm is None else tm)
      raise exc("simulated timeout", request=req)

    peer = self.hosts.get(target)
    src = t.node
    if peer is None:
      s.sleep(0.01)
      raise ConnectionError("name or service not known", request=req)
    s.sleep(c.pick([0.001, 0.02, 0.5, 3.0]) if self.faulty else 0.001)
    f = "none"
    if self.faulty:
      f = c.weighted([(16, "none"), (1, "drop"), (1, "refuse"), (1, "5xx"), (1, "truncate"), (1, "drop-reply"),
                      (1, "html"), (1, "slow")])
    if frozenset((src.name, self.pname(peer))) in self.partition:
      ctx.fault("partition-drop")
      stall(ct, ConnectTimeout)
    if f == "drop":
      ctx.fault("request-lost")
      stall(ct, ConnectTimeout)
    if f == "refuse":
      ctx.fault("connection-refused")
      raise ConnectionError("refused", request=req)
    if f == "slow":
      ctx.fault("slow-peer")
      d = c.pick([1.0, 20.0, 400.0])
      if rt is not None and d > rt:
        stall(rt, ReadTimeout)
      s.sleep(d)
    if isinstance(peer, Node):
      if not peer.up:
        ctx.fault("peer-down")
        raise ConnectionError("refused", request=req)
      box, waiters = {}, []

      def serve(peer=peer):
        o = self.begin("chain", peer) if u.path == "/chain" else None
        try:
          resp = peer.get(u.path + ("?" + u.query if u.query else ""))
          if o is not None:
            self.finish(o, resp)
          box["resp"] = (resp.status_code, resp.get_data(), dict(resp.headers))
        finally:
          if o is not None and o.end is None and o in self.active:
            self.active.remove(o)
          box.setdefault("resp", None)
          s.wake_all(waiters)
      s.spawn(f"{peer.name}srv", serve, node=peer)
      ok = s.wait(waiters, rt)
      if not ok:
        ctx.fault("reply-timeout")
        raise ReadTimeout("simulated timeout", request=req)
      if box.get("resp") is None:
        raise ConnectionError("connection reset", request=req)
      status, data, headers = box["resp"]
    else:
      r = self.byz_reply(peer, src)
      if r == "stall":
        ctx.fault("peer-stalls")
        stall(rt, ReadTimeout)
      if r == "dead":
        ctx.fault("peer-down")
        raise ConnectionError("refused", request=req)
      if r == "cut":
        ctx.fault("connection-cut")
        raise requests.exceptions.ChunkedEncodingError("incomplete read", request=req)
      status, data = r
      headers = {"Content-Type": "application/json"}
    if f == "5xx":
      ctx.fault("http-500")
      status, data = 500, b'{"error": "x"}'
    elif f == "truncate":
      ctx.fault("reply-truncated")
      data = data[:c.draw(max(1, len(data)))]
    elif f == "html":
      ctx.fault("reply-garbage")
      data = b"<html>gateway</html>"
      headers = {"Content-Type": "text/html"}
    elif f == "drop-reply":
      ctx.fault("reply-lost")
      stall(rt, ReadTimeout)
    s.sleep(c.pick([0.001, 0.02, 0.5]) if self.faulty else 0.001)
    resp = requests.models.Response()
    resp.status_code, resp._content, resp.url, resp.request = status, data, req.url, req
    resp.headers = requests.structures.CaseInsensitiveDict(headers)
    resp.encoding, resp.reason = "utf-8", "X"
    if op is not None and status == 200:
      try:
        body = json.loads(data)
        ch = body["chain"]
        if isinstance(ch, list) and ch:
          op.delivered.append((ch, H.invalid_at(ch) is None and H.well_formed(ch),
                               type(body.get("length")) is int))
      except (ValueError, KeyError, TypeError, AttributeError, RecursionError):
        pass
    return resp

  @staticmethod
  def pname(p):
    return p.name if isinstance(p, Node) else p["name"]

  def chaos(self):
    """A fault event outside any exchange: crash/restart, partition/heal, clock jump."""
    c, ctx = self.c, self.ctx
    if not self.faulty:
      return
    k = c.weighted([(2, "jump"), (2, "partition"), (3, "crash")])
    n = c.pick(self.nodes)
    if k == "jump":
      ctx.fault("clock-jump")
      n.skew += c.pick([60.0, -60.0, 1e6, -1e6])
    elif k == "partition":
      others = [self.pname(x) for x in self.hosts.values() if x is not n]
      if others:
        ctx.fault("partition")
        e = frozenset((n.name, c.pick(others)))
        self.partition.add(e)
        self.s.at(self.s.now + c.pick([1.0, 30.0]), lambda: self.partition.discard(e))
    elif n.up and self.kind == "net":
      ctx.fault("crash")
      ctx.log(self.s.steps, "crash", n.name)
      for t in self.s.tasks:
        if t.node is n:
          self.s.kill(t)
      n.up = False
      self.active = [o for o in self.active if o.node is not n]

      def back():
        if not n.up:
          ctx.fault("restart")
          self.boot_skew = n.skew
          n.boot()
          self.observe(n)
      self.s.at(self.s.now + c.pick([0.0, 0.5, 20.0]), back)

  # ------------------------------------------------------------------------------ other peers --
  def extend(self, chain, count, tag, odd=False):
    chain = list(chain)
    for i in range(count):
      if not chain:
        chain.append({"index": 1, "timestamp": 5.0, "transactions": [], "proof": 100, "previous_hash": "1", "tag": tag})
        continue
      last = chain[-1]
      h = H.hash(last)
      chain.append({"index": len(chain) + 1, "timestamp": 5.0 + len(chain),
                    "transactions": [{"sender": "alice", "recipient": "bob", "amount": 10**6 + i}] * (i % 2) +
                    [{"sender": "0", "recipient": tag, "amount": 1}],
                    "proof": self.proof(last["proof"], h), "previous_hash": h})
      if odd:
        # properly linked and proved, but with other things in the fields nobody checks
        b = chain[-1]
        k = self.c.draw(8)
        if k == 0:
          b["index"] = self.c.pick([0, 1, len(chain) + 1, len(chain) + 7, -4, 2.5, "x", None, [1], 10**30])
        elif k == 1:
          del b["index"]
        elif k == 2:
          del b["timestamp"]
        elif k == 3:
          b["transactions"] = self.c.pick([None, [], {}, "x", [None], [7]])
        elif k == 4:
          del b["transactions"]
        elif k == 5:
          b["memo"] = "extra"
        elif k == 6:
          b["index"] = self.c.pick([len(chain) - 1, len(chain) + 1])
    return chain

  def proof(self, last_proof, h, want=4):
    p = 0
    while True:
      d = hashlib.sha256(f"{last_proof}{p}{h}".encode()).hexdigest()
      z = len(d) - len(d.lstrip("0"))
      if want == 4 and z >= 4 or want != 4 and z == want:
        return p
      p += 1

  def forge(self, n, length, how):
    """A chain with `length` blocks and exactly one kind of flaw."""
    c = self.c
    if length < 3:
      length = 3
    k = 1 + c.draw(length - 1)
    base = self.byz_base(n)[:k]
    ch = self.extend(base, k - len(base), "evil") if len(base) < k else base
    last = ch[-1]
    h = H.hash(last)
    b = {"index": len(ch) + 1, "timestamp": 1.0, "transactions": [{"sender": "0", "recipient": "evil", "amount": 50}],
         "previous_hash": h}
    if how == "bad-proof":
      b["proof"] = self.proof(last["proof"], h, 0)
    elif how == "weak-3":
      b["proof"] = self.proof(last["proof"], h, 3)
    elif how == "weak-2":
      b["proof"] = self.proof(last["proof"], h, 2)
    elif how == "prev-hash":
      b["proof"] = self.proof(last["proof"], h)
      b["previous_hash"] = c.pick(["1", h[:-1] + ("0" if h[-1] != "0" else "1"), H.hash(ch[0]) if len(ch) > 1 else "x",
                                   h.upper() if h.upper() != h else h + " ", None, ""])
    elif how == "other-hash":
      bogus = hashlib.sha256(b"other").hexdigest()
      b["proof"] = self.proof(last["proof"], bogus)
      b["previous_hash"] = bogus
    elif how == "swapped-proofs":
      b["proof"] = self.proof(0, h)
    elif how == "tamper":
      full = self.extend(ch, length - len(ch), "evil")
      j = c.draw(len(full) - 1)
      full[j] = dict(full[j], transactions=[{"sender": "0", "recipient": "evil", "amount": 1000}])
      return full
    elif how == "relinked":
      full = self.extend(ch, length - len(ch), "evil")
      j = c.draw(len(full) - 1)
      full = copy.deepcopy(full)
      full[j]["transactions"] = [{"sender": "0", "recipient": "evil", "amount": 1000}]
      for i in range(j + 1, len(full)):
        full[i]["previous_hash"] = H.hash(full[i - 1])
      return full
    elif how == "reorder":
      full = self.extend(ch, max(4, length) - len(ch), "evil")
      j = c.draw(len(full) - 1)
      full[j], full[j + 1] = full[j + 1], full[j]
      return full
    elif how == "repeat":
      full = self.extend(ch, max(3, length - 1) - len(ch), "evil")
      j = c.draw(len(full))
      return full[:j + 1] + full[j:]
    elif how == "cut-middle":
      full = self.extend(ch, max(4, length + 1) - len(ch), "evil")
      j = 1 + c.draw(len(full) - 2)
      return full[:j] + full[j + 1:]
    ch = ch + [b]
    return self.extend(ch, length - len(ch), "evil")

  FLAWS = ["bad-proof", "weak-3", "weak-2", "prev-hash", "other-hash", "swapped-proofs", "tamper", "relinked",
           "reorder", "repeat", "cut-middle"]

  def byz_base(self, n):
    own = n.states[-1][1]
    return copy.deepcopy(own[:self.c.draw(len(own) + 1)])

  def byz_reply(self, b, src):
    c, ctx = self.c, self.ctx
    if b.get("fixed"):
      return b["fixed"]
    own = len(src.states[-1][1])
    if self.faulty and not getattr(self, "quiesced", False):
      pol = c.weighted([(6, "longer"), (3, "equal"), (2, "shorter"), (8, "flaw"), (3, "overclaim"), (2, "underclaim"),
                        (4, "garbage"), (1, "stall"), (1, "dead"), (1, "cut"), (1, "5xx"), (1, "echo")])
    elif getattr(self, "quiesced", False):
      pol = b["policy"]
    else:
      pol = c.weighted([(4, "longer"), (1, "equal"), (1, "shorter"), (3, "flaw"), (1, "echo")])
    ctx.log(self.s.steps, "peer", b["name"], pol)
    if pol in ("stall", "dead", "cut"):
      return pol
    if pol == "5xx":
      ctx.fault("http-500")
      ch = self.extend(self.byz_base(src), own + 2, "evil")
      return 500, json.dumps({"chain": ch, "length": len(ch)}).encode()
    if pol == "garbage":
      ctx.fault("reply-garbage")
      g = c.pick([b"", b"<html>", b"null", b"[]", b"3", b'"x"', b'{"chain": []}', b'{"length": 99}',
                  b'{"length": 99, "chain": []}', b'{"length": 99, "chain": null}', b'{"length": 99, "chain": 7}',
                  b'{"length": 99, "chain": [1,2,3,4,5,6,7,8,9,10,11]}', b'{"length": "99", "chain": "abcdefghijklmnopqrst"}',
                  b'{"length": 99, "chain": {"0": 1}}', b'{"length": null, "chain": [null,null]}', b"\xff\xfe",
                  b'{"length": 99, "chain": [{},{},{},{},{},{},{},{},{},{},{},{},{}]}',
                  b'[' * 200000, b'{"length": 99, "chain": ' + b'[' * 120000 + b']' * 120000 + b'}',
                  b'{"length": 99, "chain": 1' + b'0' * 5000 + b'}', b'{"chain": [1e999, NaN, 1]}'])
      return 200, g
    if pol == "flaw":
      how = c.pick(self.FLAWS)
      ctx.fault("forged-chain")
      ctx.log("forge", how)
      ch = self.forge(src, own + c.between(1, 2), how)
      return 200, json.dumps({"chain": ch, "length": len(ch)}).encode()
    want = {"longer": own + c.between(1, 3), "equal": own, "shorter": max(1, own - c.between(1, 2)),
            "overclaim": max(1, own - c.between(0, 2)), "underclaim": own + c.between(1, 2), "echo": own}[pol]
    if pol == "echo":
      ch = copy.deepcopy(src.states[-1][1])
    else:
      base = self.byz_base(src)[:want]
      odd = c.chance(1, 5) and not getattr(self, "quiesced", False)
      if odd:
        ctx.fault("odd-block-fields")
      ch = self.extend(base, want - len(base), "peer-" + b["name"], odd)
    ln = len(ch)
    if pol == "overclaim":
      ctx.fault("length-overclaimed")
      ln += c.between(1, 5)
    if pol == "underclaim":
      ctx.fault("length-underclaimed")
      ln = c.pick([0, 1, own])
    return 200, json.dumps({"chain": ch, "length": ln}).encode()

  # ---------------------------------------------------------------------------------- oracles --
  def observe(self, n):
    """What the node serves right now, from outside any schedule."""
    cur, self.s.current = self.s.current, None
    try:
      resp = n.get("/chain")
      raw = resp.get_data()
    except seams.LockBusy:
      self.ctx.probe("observation-skipped")
      n.blind = True
      return
    finally:
      self.s.current = cur
    ctx = self.ctx
    n.blind = False
    if resp.status_code != 200:
      for q in ("C01", "C05"):
        ctx.tagged(q, False, "chain-request-failed", raw[:200])
      return
    if raw == n.raw:
      return
    n.raw = raw
    body = json.loads(raw)
    chain = body["chain"]
    ctx.tagged("C05", body["length"] == len(chain), "length-mismatch", lambda: f"{body['length']} vs {len(chain)} blocks")
    step = self.s.steps
    bad = H.invalid_at(chain)
    ctx.tagged("C01", chain and bad is None, "invalid-chain", lambda: f"block {bad} of {len(chain)} at {n.name}: {chain[max(0, (bad or 1) - 1):(bad or 0) + 1]}")
    if not n.states:
      ctx.tagged("C01", len(chain) == 1 and chain[0]["index"] == 1, "bad-genesis", lambda: str(chain))
      n.states.append((step, chain))
      return
    old = n.states[-1][1]
    if chain == old:
      return
    n.states.append((step, chain))
    if chain[:len(old)] == old and len(chain) > len(old) and not self.served(n, chain, exact_only=True):
      self.extended(n, chain, len(old), step)
      return
    src = self.served(n, chain)
    if src is None and chain[:len(old)] == old:
      self.extended(n, chain, len(old), step)
      return
    ctx.tagged("C02", len(chain) > len(old), "chain-not-longer",
               lambda: f"{n.name}: {len(old)} -> {len(chain)} blocks")
    if src is None:
      for q in ("C01", "C02"):
        ctx.tagged(q, False, "chain-altered", lambda: f"{n.name}: blocks changed without a served replacement: "
                   f"{self.diff(old, chain)}")
      n.replaced.append(step)
      return
    op, d, ok = src
    ctx.probe("chain-replaced")
    n.replaced.append(step)
    op.info["replaced"] = step
    op.info.setdefault("adopted", []).append(len(d))
    ctx.tagged("C02", bad is None, "adopted-invalid-chain", lambda: f"block {bad} of {len(chain)}: {chain[bad-1:bad+1]}")
    ctx.tagged("C02", len(d) > len(old), "adopted-not-longer", lambda: f"{len(old)} -> {len(d)}")
    if len(chain) > len(d):
      self.extended(n, chain, len(d), step)

  def diff(self, a, b):
    for i, (x, y) in enumerate(zip(a, b)):
      if x != y:
        return f"position {i}: {json.dumps(x)[:300]} -> {json.dumps(y)[:300]}"
    return f"{len(a)} -> {len(b)} blocks"

  def served(self, n, chain, exact_only=False):
    best = None
    for o in n.ops:
      if o.kind == "resolve" and (o.end is None or getattr(o, "pending", False)):
        for d, ok, _ in o.delivered:
          if d == chain or (not exact_only and len(d) < len(chain) and chain[:len(d)] == d and len(d) > len(n.states[-2][1])):
            if best is None or len(d) > len(best[1]):
              best = (o, d, ok)
    return best

  def extended(self, n, chain, frm, step):
    ctx = self.ctx
    for i in range(frm, len(chain)):
      b = chain[i]
      ctx.probe("blocks-mined")
      ctx.tagged("C01", b.get("index") == i + 1, "wrong-block-number", lambda: f"block at position {i + 1} says {b.get('index')}")
      self.mined_block(n, b, step)

  def mined_block(self, n, b, step):
    ctx = self.ctx
    key = (b["index"], b["proof"], b["previous_hash"])
    if key in n.mined:
      return
    n.mined[key] = {"block": b, "step": step}
    rewards = [t for t in b["transactions"] if t.get("sender") == "0"]
    ctx.tagged("C04", len(rewards) == 1, "reward-count", lambda: f"{len(rewards)} rewards in block {b}")
    if rewards:
      r = rewards[0]
      ctx.tagged("C04", r.get("amount") == 1 and set(r) == {"sender", "recipient", "amount"}, "reward-altered", str(r))
      if n.reward_to is None:
        n.reward_to = r.get("recipient")
        for m in self.nodes:
          if m is not n and m.reward_to is not None:
            ctx.tagged("C04", m.reward_to != n.reward_to, "reward-to-other-node", str(r))
      ctx.tagged("C04", r.get("recipient") == n.reward_to and n.reward_to, "reward-to-other-node", f"{r} vs {n.reward_to}")

  def after_step(self, t):
    n = t.node
    if n is None:
      return
    if n.up:
      self.observe(n)
    for o in [o for o in self.active if getattr(o, "pending", False)]:
      if o.node.blind and o.node.up and o.inc == o.node.incarnation:
        continue      # the node holds its lock: judge once its state can be seen again
      self.active.remove(o)
      if o.inc == o.node.incarnation and o.node.up:
        self.judge(o)
      o.pending = False
    if t.state == "done" and t.exc is not None and not isinstance(t.exc, TaskKilled):
      raise t.exc

  def window(self, n, o):
    """States of the node between request and reply."""
    return [st for i, st in enumerate(n.states) if i >= o.state0]

  def judge(self, o):
    ctx, n = self.ctx, o.node
    k = o.kind
    st = o.status
    if k == "bad":
      ctx.tagged("C05", 400 <= st < 500, "malformed-accepted" if st < 400 else "malformed-5xx",
                 lambda: f"{o.info['bad']}: {st} {o.text[:200]}")
      return
    want = {"mine": 200, "chain": 200, "resolve": 200, "tx": 201, "register": 201}[k]
    if st != want:
      for q in ("C05", "C03") if k in ("resolve", "register") else ("C05", "C04") if k == "tx" else ("C05", "C01", "C04") \
          if k == "mine" else ("C05",):
        ctx.tagged(q, False, "request-failed", lambda: f"{k} -> {st} {o.text[:300]}")
      return
    if o.body is None:
      ctx.tagged("C05", False, "reply-not-json", o.text[:200])
      return
    states = self.window(n, o)
    if k == "chain":
      ch = o.body.get("chain")
      ctx.tagged("C05", o.body.get("length") == len(ch), "length-mismatch",
                 lambda: f"length {o.body.get('length')} with {len(ch)} blocks")
      ctx.tagged("C05", any(ch == s for _, s in states), "chain-reply-not-a-state",
                 lambda: f"{len(ch)} blocks; states had {[len(s) for _, s in states]}")
      ctx.tagged("C01", H.invalid_at(ch) is None, "served-invalid-chain", lambda: str(ch)[:500])
    elif k == "mine":
      b = o.body
      if not all(x in b for x in ("index", "transactions", "proof", "previous_hash")):
        ctx.tagged("C05", False, "mine-reply-incomplete", o.text[:200])
        return
      hit = False
      for _, s in states:
        i = b["index"] - 1
        if 0 <= i < len(s) and all(s[i].get(x) == b[x] for x in ("index", "transactions", "proof", "previous_hash")):
          hit = True
      ctx.tagged("C05", hit, "mine-reply-not-on-chain", lambda: f"{b} not in {[len(s) for _, s in states]}-block states; last {states[-1][1][-2:]}")
      if not hit:
        # mined, but the node never served it in this window
        ctx.tagged("C01", any(len(s) >= b["index"] for _, s in states), "mined-block-not-on-chain", str(b))
      self.mined_block(n, b, self.s.steps)
      o.info["key"] = (b["index"], b["proof"], b["previous_hash"])
    elif k == "tx":
      msg = o.body.get("message", "")
      import re
      nums = re.findall(r"\d+", msg)
      ctx.tagged("C04", len(nums) == 1, "promise-missing", msg)
      n.txs.append({"tx": o.info["tx"], "start": o.start, "end": o.end, "index": int(nums[0]) if nums else None,
                    "order": len(n.txs)})
    elif k == "register":
      tot = o.body.get("total_nodes")
      for a in o.info["nodes"]:
        bare = a.split("//")[-1].split("/")[0]
        n.acked_nodes.add(canon(bare))
      if isinstance(tot, list):
        have = {canon(str(x)) for x in tot}
        want = {canon(a.split("//")[-1].split("/")[0]) for a in o.info["nodes"]}
        ctx.tagged("C03", want <= have, "peer-not-registered", lambda: f"{o.info['nodes']} -> {tot}")
        ctx.tagged("C05", not any(m in str(x) for m in n.bad_markers for x in tot), "malformed-changed-state",
                   lambda: f"{tot}")
    elif k == "resolve":
      self.judge_resolve(o, states)

  def judge_resolve(self, o, states):
    ctx, n = self.ctx, o.node
    said = "new_chain" in o.body
    ch = o.body.get("new_chain", o.body.get("chain"))
    ctx.tagged("C05", any(ch == s for _, s in states), "resolve-reply-not-a-state",
               lambda: f"{len(ch or [])} blocks; states had {[len(s) for _, s in states]}")
    did = "replaced" in o.info
    if not did and said:
      # another resolution may have served the very same chain
      same = [x for x in n.ops if x is not o and x.kind == "resolve" and x.info.get("replaced", -1) >= o.start and
              any(d == e for d, _, _ in o.delivered for e, _, _ in x.delivered)]
      did = bool(same)
    shared = any(x is not o and x.kind == "resolve" and (x.end is None or x.end >= o.start) for x in n.ops)
    ctx.tagged("C02", said == did or (shared and not said), "resolve-reply-untruthful",
               lambda: f"said replaced={said}, replaced={did}")
    good = [d for d, ok, formed in o.delivered if ok and formed]
    if good:
      best = max(len(d) for d in good)
      start = states[0][1]
      end = max(len(s) for _, s in states)
      ctx.probe("resolve-with-valid-reply")
      ctx.tagged("C02", end >= best, "longer-chain-not-adopted",
                 lambda: f"had {len(start)}, served valid {sorted(len(d) for d in good)}, ended {end}")
      if not shared and len(states) == 2 and did:
        ctx.tagged("C02", len(states[-1][1]) == max(best, max(o.info.get("adopted", [0]))), "not-longest-adopted",
                   lambda: f"adopted {len(states[-1][1])} of {sorted(len(d) for d in good)}")
    missing = {a for a in o.snapshot if a != canon(n.addr)} - o.contacted
    ctx.tagged("C03", not missing, "peer-not-contacted", lambda: f"{missing} registered before the resolution, contacted {o.contacted}")
    if o.info.get("bound"):
      took = self.s.now - o.t0
      ctx.tagged("C03", took <= o.info["bound"], "resolution-not-bounded", lambda: f"took {took} s with {len(o.snapshot)} peers")

  # -------------------------------------------------------------------------------- quiescence --
  def end_phase(self, what):
    stuck = [t for t in self.s.tasks if t.state != "done" and not t.kill]
    if stuck:
      for q in ("C03", "C05"):
        self.ctx.tagged(q, False, "unanswered", lambda: f"{what}: {[(t.name, t.state) for t in stuck]} never finished "
                        f"(t={self.s.now:.0f}s, {self.s.steps} steps)")
      raise_dead = True
    else:
      raise_dead = False
    for t in self.s.tasks:
      if t.state == "done" and t.exc is not None and not isinstance(t.exc, TaskKilled):
        raise t.exc
    if raise_dead:
      raise Dead()

  def final(self, real_hash):
    c, ctx = self.c, self.ctx
    self.faulty = False
    self.partition.clear()
    self.quiesced = True
    self.s.left = 0
    for n in self.nodes:
      if not n.up:
        self.boot_skew = n.skew
        n.boot()
        self.observe(n)
    for b in self.byz:
      b["policy"] = c.pick(["dead", "stall", "garbage", "5xx", "flaw", "cut", "overclaim", "shorter"])
    # everything accepted is mined by one more block
    for n in self.nodes:
      if ctx.prop in ("C04", "C05") or c.chance(1, 2):
        self.sequential(n, [("tx",), ("mine",)])
        self.flush_check(n)
    if ctx.prop in ("C03", "C02", "C05") or c.chance(1, 3):
      self.converge()
    if ctx.prop == "C01" and c.chance(1, 3):
      self.library_chain()

  def library_chain(self):
    """A chain grown through the class itself, without the server around it: the caller
    names the previous hash, or leaves it to the chain."""
    c, ctx = self.c, self.ctx
    mine = self.nodes[0].Blockchain()
    other = self.nodes[0].Blockchain()
    for i in range(c.between(1, 3)):
      for b in (mine, other):
        if b is other and c.chance(1, 2):
          continue
        b.new_transaction(f"s{i}", "r", i)
        last = b.last_block
        b.new_block(b.proof_of_work(last), c.pick([None, b.hash(last)]))
        chain = json.loads(json.dumps(b.chain))
        bad = H.invalid_at(chain)
        ctx.tagged("C01", bad is None and [x["index"] for x in chain] == list(range(1, len(chain) + 1)),
                   "invalid-chain", lambda: f"block {bad} of a chain grown by new_block: {chain}")
        ctx.tagged("C01", b.valid_chain(chain), "own-chain-invalid", lambda: f"{chain}")
    ctx.probe("library-chain")

  def flush_check(self, n):
    ctx = self.ctx
    blocks = list(n.mined.values())
    blocks.sort(key=lambda e: e["step"])
    where, acked, asked = {}, {}, {}
    for bi, e in enumerate(blocks):
      for ti, t in enumerate(e["block"]["transactions"]):
        if t.get("sender") != "0":
          where.setdefault(content(t), []).append((bi, ti))
    for a in n.txs:
      acked.setdefault(content(a["tx"]), []).append(a)
    for o in n.ops:
      if o.kind == "tx":
        k = content(o.info["tx"]) if "tx" in o.info else None
        asked[k] = asked.get(k, 0) + 1
    for k, got in acked.items():
      hits = where.get(k, [])
      ctx.tagged("C04", len(hits) >= len(got), "transaction-lost",
                 lambda: f"{k} acknowledged {len(got)} times, {len(hits)} times in {len(blocks)} blocks")
      ctx.tagged("C04", len(hits) <= asked.get(k, 0), "transaction-duplicated", lambda: f"{k} in {len(hits)} places")
      if not hits or len(hits) != len(got):
        continue
      # the promised blocks, whichever of several equal transactions went where
      first, last = min(a["start"] for a in got), max(blocks[bi]["step"] for bi, _ in hits)
      if not any(first <= r <= last for r in n.replaced):
        said = sorted(a["index"] for a in got)
        real = sorted(blocks[bi]["block"]["index"] for bi, _ in hits)
        ctx.tagged("C04", said == real, "promised-block-wrong", lambda: f"{k}: promised {said}, mined in {real}")
      # the next block: any mining request that began after the acknowledgements includes them or finds them mined
      end = max(a["end"] for a in got)
      for o in n.ops:
        if o.kind == "mine" and o.start > end and o.info.get("key") in n.mined:
          m = n.mined[o.info["key"]]
          ctx.tagged("C04", last <= m["step"], "transaction-delayed",
                     lambda: f"{k} acknowledged before mining began but mined later")
      if len(got) == 1:
        got[0]["pos"] = hits[0]
    for k, hits in where.items():
      # a rejected transaction carries a marker
      for q in ("C05", "C04"):
        ctx.tagged(q, json.loads(k).get("sender") not in n.bad_markers, "malformed-changed-state",
                   lambda: f"rejected transaction {k} was mined")
      ctx.tagged("C04", k in asked, "transaction-invented", lambda: f"{k} mined, never accepted")
    done = sorted((a for a in n.txs if "pos" in a), key=lambda a: a["end"])
    for i, a in enumerate(done):
      for b in done[i + 1:]:
        if a["end"] < b["start"]:
          ctx.tagged("C04", a["pos"] < b["pos"], "transaction-order", lambda: f"{a} after {b}")

  def converge(self):
    c, ctx = self.c, self.ctx
    ns = self.nodes
    for i, n in enumerate(ns):
      add = [m.addr for m in ([ns[(i + 1) % len(ns)]] if len(ns) > 1 else []) if m is not n]
      add += [b["addr"] for b in self.byz if c.chance(1, 2)]
      if add:
        self.sequential(n, [("register", [self.form(a) for a in add])])
    if len(ns) == 1 and not self.byz:
      return
    target = max(len(n.states[-1][1]) for n in ns)
    for r in range(max(1, len(ns) - 1)):
      for n in ns:
        def body(n=n):
          o0 = len(self.allops)
          self.do(n, "resolve")
        t = self.s.spawn(f"{n.name}f", body, node=n)
        # bound checked by the judge: find the op when it begins
        def watch(n=n):
          pass
        before = self.s.now
        res = self.s.run(lambda: t.state == "done", max_steps=4000, horizon=before + 300.0 * (2 + len(self.hosts)))
        if t.state == "done" and t.exc is not None:
          raise t.exc
        if res != "done":
          ctx.tagged("C03", False, "resolution-not-bounded",
                     f"a resolution with {len(n.acked_nodes)} peers did not finish in {self.s.now - before:.0f} s ({res})")
          raise Dead()
    lens = [len(n.states[-1][1]) for n in ns]
    ctx.probe("convergence-checked")
    ctx.tagged("C03", min(lens) >= target, "not-converged", lambda: f"lengths {lens} after {len(ns) - 1} rounds, longest was {target}")


_run = W.run


def _guarded(self):
  try:
    _run(self)
  except Dead:
    self.ctx.sim_time = self.s.now
    self.ctx.probe("run-cut-short")


W.run = _guarded
