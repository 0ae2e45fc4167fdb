#!/usr/bin/env python3
"""Is one seed one execution?  Runs every property's first N seeds under different
hash seeds, worker counts and load, and compares the digests of all event logs.

usage: determinism.py [N] [PROP ...]
"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else "python3"
n = int(sys.argv[1]) if len(sys.argv) > 1 else 100
props = sys.argv[2:] or [f"C{i:02d}" for i in range(1, 20)]


def digests(pid, nw, hs):
    env = dict(os.environ, DST_DIGESTS="1", PYTHONHASHSEED=str(hs), LANG="C.UTF-8", LC_ALL="C.UTF-8", TZ="UTC", PYTHONDONTWRITEBYTECODE="1")
    ps = [subprocess.Popen([PY, os.path.join(HERE, "dst", "worker.py"), "run", pid, "1", str(w), str(nw), str(n), "600", "quick"],
                           stdout=subprocess.PIPE, text=True, env=env, cwd=HERE) for w in range(nw)]
    out = {}
    for p in ps:
        for line in p.communicate()[0].splitlines():
            d = json.loads(line)
            if d["t"] == "agg":
                for k, v in d["agg"]["digests"]:
                    out[k] = v
    return out


bad = 0
for pid in props:
    a = digests(pid, 8, 0)
    b = digests(pid, 3, 12345)
    diff = [k for k in a if a[k] != b.get(k)]
    print(pid, len(a), "executions,", "identical" if not diff and len(a) == len(b) else f"DIFFERENT: {diff[:5]}", flush=True)
    bad += bool(diff) or len(a) != len(b)
sys.exit(bool(bad))
