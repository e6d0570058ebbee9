#!/usr/bin/env python3
"""plant.py SPEC.py [id ...]: build planted bugs from a specification and confirm them.

SPEC.py defines HEAD (code put before every demo) and BUGS, a list of dicts with id, property, edits
[(file, old, new)], demo, needs, breaks. For each bug: a scratch copy of /repo is patched, the stable tests are
run in it, the demonstration is run on the clean and on the patched copy; when all is as it should be the bug is
written to /verif/seeded/<id>/. Then the checks of its property (and of "also") run against the patched copy.
NOCHECK=1 leaves the last step out; CHECK=C01,C02 overrides the properties."""
import json, os, shutil, subprocess, sys, tempfile, time
PY = "/opt/venv/bin/python"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, cwd, **kw):
  return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def tests(cwd):
  p = sh([PY, "-m", "pytest", "-q", "--no-header", "-p", "no:cacheprovider", "starks", "-rA", "--continue-on-collection-errors"], cwd)
  passed = set()
  for l in p.stdout.splitlines():
    if l.startswith("PASSED "):
      n = l.split()[1]
      passed.add(n.replace("/", ".").replace(".py::", ".").replace("::", "::"))
  return passed


def norm(s):
  return s.replace("::", ".")


def main():
  ns = {}
  exec(open(sys.argv[1]).read(), ns)
  want = set(sys.argv[2:])
  for b in ns["BUGS"]:
    if want and b["id"] not in want:
      continue
    d = tempfile.mkdtemp(dir="/tmp/w", prefix="p")
    try:
      one(ns, b, d)
    finally:
      shutil.rmtree(d)


def one(ns, b, d):
  t0 = time.time()
  r = d + "/r"
  sh(["git", "clone", "-q", "/repo", r], d)
  dst = os.path.join(V, "seeded", b["id"])
  for f, old, new in b["edits"]:
    s = open(f"{r}/{f}").read()
    if s.count(old) != 1:
      print("==", b["id"], "EDIT does not apply:", s.count(old), repr(old)[:100])
      return
    open(f"{r}/{f}", "w").write(s.replace(old, new))
  diff = sh(["git", "diff"], r).stdout
  orig = set()
  removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
  base = ""
  for f, _, _ in b["edits"]:
    base += sh(["git", "show", f"f644286:{f}"], "/repo").stdout
  lines = set(base.splitlines())
  if not all(l in lines for l in removed):
    print("   note: removes lines that are not of the original:", [l for l in removed if l not in lines])
  ok = True
  p = {norm(x) for x in tests(r)}
  miss = {s for s in STABLE if norm(s) not in p}
  if miss:
    print("==", b["id"], "STABLE TESTS FAIL:", sorted(miss)[:5]); ok = False
  demo = d + "/demo"
  os.mkdir(demo)
  open(demo + "/demo.py", "w").write(ns["HEAD"] + b["demo"])
  open(demo + "/demo.sh", "w").write('#!/bin/sh\nexec timeout 250 /opt/venv/bin/python -B -W ignore "$(dirname "$0")/demo.py"\n')
  os.chmod(demo + "/demo.sh", 0o755)
  clean = sh(["bash", demo + "/demo.sh"], "/repo")
  bad = sh(["bash", demo + "/demo.sh"], r)
  if clean.returncode != 0:
    print("==", b["id"], "DEMO fails on the clean tree", clean.stderr[-800:]); ok = False
  if bad.returncode == 0:
    print("==", b["id"], "DEMO passes on the patched tree", bad.stdout[-300:]); ok = False
  if not ok:
    return
  os.makedirs(dst, exist_ok=True)
  open(dst + "/patch.diff", "w").write(diff)
  for f in ("demo.py", "demo.sh"):
    shutil.copy(f"{demo}/{f}", dst)
  json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
            open(dst + "/meta.json", "w"), indent=1)
  print("==", b["id"], b["property"], "planted; demo says:", (bad.stderr.strip().splitlines() or ["?"])[-1][:150], flush=True)
  if os.environ.get("NOCHECK"):
    return
  props = os.environ.get("CHECK", "").split(",") if os.environ.get("CHECK") else [b["property"]] + list(b.get("also", []))
  for q in props:
    t = time.time()
    p = sh(["python3", V + "/run.py", "check", q], V, env=dict(os.environ, DST_REPO=r))
    L = [l for l in p.stdout.splitlines() if l.startswith("run ") or "VIOLATION" in l or l.startswith(q + ":")]
    print("   ", q, "CAUGHT" if p.returncode == 1 else f"MISSED rc={p.returncode}", f"{time.time()-t:.0f}s",
          " | ".join(l[:170] for l in L[:2]), flush=True)


main()
