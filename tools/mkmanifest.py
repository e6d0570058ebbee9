#!/usr/bin/env python3
"""Generate MANIFEST.json (and nothing else) from the list of properties and the worlds that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
src = open(os.path.join(V, "dst", "runner.py")).read()
ns = {}
exec(src[src.index("WORLD_OF = {}"):src.index("def say")], ns)
WORLD_OF = ns["WORLD_OF"]
PURE = ("pure function of its arguments: no schedule, clock, I/O, fault, shared state or second party decides the "
        "outcome, so there is no nondeterminism to simulate; input generation alone is not this technique")
NA = {
    "C22": PURE + " (the parts that do depend on history, interleaving or interruption are claimed as C18 and C19)",
    "C23": PURE, "C24": PURE, "C25": PURE, "C26": PURE, "C27": PURE, "C28": PURE, "C29": PURE,
    "C30": PURE + "; commit and query are deterministic in their input (the query positions come from a fixed seed), "
           "and the query procedure at this commit indexes past the end of its lists",
    "C31": PURE,
}
NOTE = json.load(open(os.path.join(V, "tools", "notes.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
  i = p["id"]
  w = WORLD_OF.get(i)
  if w and os.path.exists(os.path.join(V, "dst", "worlds", w + ".py")):
    checks.append({
        "property": i,
        "quick_cmd": f"VERIF_TIER=quick python3 run.py check {i}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 run.py check {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation with fault injection (seeded search over schedules and faults): " + NOTE[i][0],
        "level": "exploration",
        "level_note": NOTE[i][1],
    })
  else:
    na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q dst run.py >/dev/null 2>&1 || true",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every seam is installed from outside (see DESIGN.md), so there is no guard variable."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
