#!/usr/bin/env python3
"""Maintain the planted bugs of /verif/seeded (never used by a check).

  plant.py make SPEC.py [ID..]  write seeded/<id>/ from a spec module
  plant.py confirm [ID..]       patch applies to HEAD, builds, passes the tests;
                                demo is 0 without and non-zero with it (in /tmp copies)
  plant.py hunt [ID..]          run the quick check of its property with the patch
                                applied to /repo, and undo it
"""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
REPO = os.environ.get("PLANT_REPO", "/repo")
HEAD = '''import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
'''
DEMO = '''#!/bin/bash
# run with cwd = repository root, after the build
PYTHONPYCACHEPREFIX=/nonexistent exec timeout 120 python3 "$(dirname "$0")/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def copy():
    d = tempfile.mkdtemp(prefix="plant.")
    sh(f"cp -a {REPO}/. {d}/")
    sh(f"git -C {d} checkout -q -- .")
    return d


def make(spec, ids):
    ns = {}
    exec(open(spec).read(), ns)
    for b in ns["BUGS"]:
        if ids and b["id"] not in ids:
            continue
        d = copy()
        try:
            for f, old, new in b["edits"]:
                p = os.path.join(d, "src/pynmeagps", f)
                t = open(p, newline="").read()
                if "\r\n" in t:
                    old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
                assert t.count(old) == 1, (b["id"], f, t.count(old), old)
                open(p, "w", newline="").write(t.replace(old, new))
            o = os.path.join(S, b["id"])
            os.makedirs(o, exist_ok=True)
            r = subprocess.run(["git", "-C", d, "diff"], capture_output=True)
            open(os.path.join(o, "patch.diff"), "wb").write(r.stdout)
            open(os.path.join(o, "demo.py"), "w").write(HEAD + b["demo"].lstrip("\n"))
            open(os.path.join(o, "demo.sh"), "w").write(DEMO)
            os.chmod(os.path.join(o, "demo.sh"), 0o755)
            json.dump({"property": b["property"], "needs": b["needs"],
                       "what_it_breaks": b["breaks"]},
                      open(os.path.join(o, "meta.json"), "w"), indent=1)
            print("made", b["id"])
        finally:
            shutil.rmtree(d)


def confirm(ids):
    bad = 0
    for i in ids:
        o = os.path.join(S, i)
        d = copy()
        try:
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent", TZ="UTC")
            a = sh(f"bash {o}/demo.sh", cwd=d)
            ap = sh(f"git apply {o}/patch.diff", cwd=d)
            t = sh(f"/opt/venv/bin/python -m pytest -q -p no:cacheprovider --no-cov tests", cwd=d,
                   env=dict(env, PYTHONPATH=d + "/src"))
            b = sh(f"bash {o}/demo.sh", cwd=d)
            ok = a.returncode == 0 and ap.returncode == 0 and t.returncode == 0 and b.returncode not in (0, 124)
            bad += not ok
            print(("ok  " if ok else "BAD "), i, "clean", a.returncode, "apply", ap.returncode,
                  "tests", t.stdout.strip().splitlines()[-1:], "patched", b.returncode,
                  (b.stderr or b.stdout).strip().splitlines()[-1:], flush=True)
            if a.returncode:
                print(a.stderr[-600:])
            if ap.returncode:
                print(ap.stderr[-600:])
            if t.returncode:
                print("\n".join(x for x in t.stdout.splitlines() if "FAILED" in x or "Error" in x)[-800:])
        finally:
            shutil.rmtree(d)
    return bad


def hunt(ids, props=None):
    """As a check would see it, but on a copy, so that /repo stays free."""
    for i in ids:
        o = os.path.join(S, i)
        prop = json.load(open(o + "/meta.json"))["property"]
        d = tempfile.mkdtemp(prefix="hunt.")
        try:
            sh(f"mkdir {d}/repo && cp -a {REPO}/. {d}/repo/ && git -C {d}/repo checkout -q -- .")
            sh(f"mkdir {d}/verif && cp -a {V}/check.py {V}/data {V}/dst {V}/known {V}/known_findings.json {V}/*.json* {d}/verif/")
            sh(f"sed -i 's#\"/repo/#\"{d}/repo/#' {d}/verif/dst/*.py {d}/verif/dst/props/*.py")
            ap = sh(f"git -C {d}/repo apply {o}/patch.diff")
            if ap.returncode:
                print("BAD apply", i, ap.stderr)
                continue
            for p in props or [prop]:
                t = time.time()
                r = sh("python3 check.py " + p, cwd=d + "/verif",
                       env=dict(os.environ, VERIF_SEED=os.environ.get("SEED", "1"), VERIF_TIER="quick"))
                v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
                print("CAUGHT" if r.returncode == 1 and v else "MISSED" if r.returncode == 0 else "ERROR",
                      i, p, r.returncode, f"{time.time()-t:.0f}s", v[:1],
                      [x for x in r.stdout.splitlines() if x.startswith("  ")][:1], flush=True)
                if r.returncode not in (0, 1):
                    print(r.stderr[-800:])
        finally:
            shutil.rmtree(d)


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        make(args[0], args[1:])
    else:
        props = [a[2:] for a in args if a.startswith("p=")]
        args = [a for a in args if not a.startswith("p=")]
        ids = args or sorted(os.listdir(S))
        sys.exit(1 if (confirm(ids) if cmd == "confirm" else hunt(ids, props)) else 0)
