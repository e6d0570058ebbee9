#!/usr/bin/env python3
"""run.py check <ID> | replay <file> | digest <ID> <n>"""
import os
import sys

PY = os.environ.get("DST_PYTHON", "/opt/venv/bin/python")
if os.environ.get("DST_CHILD") != "1":
  env = dict(os.environ, DST_CHILD="1", PYTHONHASHSEED=os.environ.get("DST_HASHSEED", "0"),
             PYTHONDONTWRITEBYTECODE="1", TZ="UTC")
  for k in ("PYTHONPATH", "PYTHONSTARTUP", "http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY"):
    env.pop(k, None)
  os.execve(PY, [PY, "-B", "-W", "ignore"] + sys.argv, env)

os.environ.pop("DST_CHILD")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(5000)
from dst import runner  # noqa

cmd = sys.argv[1]
seed = int(os.environ.get("VERIF_SEED", "1"))
tier = os.environ.get("VERIF_TIER", "quick")
if cmd == "check":
  sys.exit(runner.check(sys.argv[2], tier, seed))
elif cmd == "replay":
  sys.exit(runner.replay(sys.argv[2]))
elif cmd == "digest":
  sys.exit(runner.determinism(sys.argv[2], seed, int(sys.argv[3])))
else:
  sys.exit("usage")
