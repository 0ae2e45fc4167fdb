#!/usr/bin/env python3
"""Hand-written changes with unusual triggers, tried against the checks.

rare.py SPEC.py [NAME..]: for each (name, property, [(file, old, new)..]) the change is
made in a copy of /repo; reported are the repository's tests and the property's check.
"""
import concurrent.futures, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
SEL = sys.argv[2:]


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def one(spec):
    name, prop, edits = spec
    d = tempfile.mkdtemp(prefix="rare.")
    try:
        sh(f"cp -a /repo {d}/repo && git -C {d}/repo checkout -q -- .")
        for f, old, new in edits:
            p = f"{d}/repo/src/pynmeagps/{f}"
            t = open(p, newline="").read()
            crlf = "\r\n" in t
            t = t.replace("\r\n", "\n")
            if t.count(old) != 1:
                return name, prop, f"BAD SPEC {t.count(old)} {old[:50]!r}", ""
            t = t.replace(old, new)
            open(p, "w", newline="").write(t.replace("\n", "\r\n") if crlf else t)
        env = dict(os.environ, PYTHONPATH=d + "/repo/src", PYTHONDONTWRITEBYTECODE="1", TZ="UTC")
        try:
            t = sh("/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --no-cov tests", cwd=d + "/repo", env=env, timeout=120)
        except subprocess.TimeoutExpired:
            return name, prop, "tests (hang)", ""
        if t.returncode:
            return name, prop, "tests", t.stdout.strip().splitlines()[-1]
        sh(f"mkdir {d}/verif && cp -a {V}/check.py {V}/data {V}/dst {V}/known {V}/*.json* {d}/verif/")
        sh(f"sed -i 's#\"/repo/#\"{d}/repo/#' {d}/verif/dst/*.py {d}/verif/dst/props/*.py")
        t0 = time.time()
        out = []
        for p in prop.split():
            r = sh("timeout 880 python3 check.py " + p, cwd=d + "/verif",
                   env=dict(os.environ, VERIF_SEED=os.environ.get("SEED", "1"), VERIF_TIER="quick", DST_WORKERS="3", DST_SHRINK="2"))
            k = [x for x in r.stdout.splitlines() if x.startswith(p + ": ") and "runs" not in x and "tier" not in x]
            out.append(f"{p}:{({0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR"))} {k[:1] and k[0][:110]}")
        return name, prop, f"{time.time() - t0:.0f}s", " | ".join(out)
    finally:
        shutil.rmtree(d)


with concurrent.futures.ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, [s for s in ns["SPECS"] if not SEL or s[0] in SEL]):
        print(*r, flush=True)
