"""Worker: runs a stripe of seeds of one property, each in a forked child.

usage: worker.py run PROP BASE START STRIDE COUNT DEADLINE TIER
       worker.py replay FILE PROP
       worker.py shrink FILE OUT BUDGET_S PROP
"""
import copy
import ctypes
import hashlib
import importlib
import json
import os
import random
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def fixed_addresses():
    """Start again without address space randomisation, where the system allows it."""
    try:
        libc = ctypes.CDLL(None)
        now = libc.personality(0xFFFFFFFF)
        if now >= 0 and not now & 0x0040000 and not os.environ.get("DST_RESTARTED"):
            if libc.personality(now | 0x0040000) >= 0:
                os.environ["DST_RESTARTED"] = "1"
                os.execv(sys.executable, [sys.executable, *sys.argv])
    except (OSError, AttributeError):
        pass


if __name__ == "__main__":
    fixed_addresses()

from dst import env  # noqa: E402

env.install()
from dst import icd, kernel  # noqa: E402


def load(pid):
    prop = importlib.import_module(f"dst.props.{pid.lower()}")
    icd.corpus()
    kernel.start_zygote(prop)
    return prop


def seed_of(base, pid, i):
    return int.from_bytes(hashlib.sha256(f"{base}:{pid}:{i}".encode()).digest()[:8], "big")


def make_plan(prop, base, i, tier):
    seed = seed_of(base, prop.ID, i)
    plan = prop.gen(random.Random(seed), i, tier)
    return seed, json.loads(json.dumps(plan))


def run(pid, base, start, stride, count, deadline, tier):
    prop = load(pid)
    t_end = env.real_monotonic() + deadline
    agg = dict(runs=0, faults={}, probes={}, sim_us=0, steps=0, delivered=0, nev=0, sigs=[], nontrivial=0,
               maxsteps=0, complete=True, samples=[], digests=[])
    sigs = set()
    want_digests = bool(os.environ.get("DST_DIGESTS"))
    dh = hashlib.sha256()
    jobs = []
    if start == 0:
        for k, plan in enumerate(getattr(prop, "directed", lambda: [])()):
            jobs.append((f"directed-{k}", json.loads(json.dumps(plan))))
    nviol = 0
    i = start
    while jobs or i < count:
        if jobs:
            seed, plan = jobs.pop(0)
            idx = -1
        else:
            idx = i
            seed, plan = make_plan(prop, base, i, tier)
            i += stride
        if env.real_monotonic() > t_end:
            agg["complete"] = False
            break
        res = kernel.run_forked(prop, plan)
        if res.get("wall"):
            res = kernel.run_forked(prop, plan, wall=150.0, cpu=60)
        if "harness_error" in res:
            print(json.dumps({"t": "harness", "idx": idx, "seed": seed, "err": res["harness_error"], "plan": plan}), flush=True)
            break
        if res.get("invalid"):
            print(json.dumps({"t": "harness", "idx": idx, "seed": seed, "err": "invalid plan: " + res["invalid"], "plan": plan}), flush=True)
            break
        agg["runs"] += 1
        for key in ("faults", "probes"):
            for k, v in res[key].items():
                agg[key][k] = agg[key].get(k, 0) + v
        for k in ("sim_us", "steps", "delivered", "nev"):
            agg[k] += res[k]
        agg["maxsteps"] = max(agg["maxsteps"], res["steps"])
        dh.update(res["digest"].encode())
        if want_digests:
            agg["digests"].append([idx if idx >= 0 else seed, res["digest"]])
        if res["info"].get("nontrivial"):
            agg["nontrivial"] += 1
            sigs.add(res["sig"])
        if idx >= 0 and len(agg["samples"]) < 1 and res["info"].get("nontrivial"):
            agg["samples"].append({"index": idx, "seed": seed, "digest": res["digest"], "faults": res["faults"],
                                   "delivered": res["delivered"], "plan": plan})
        if res["violations"]:
            nviol += 1
            print(json.dumps({"t": "viol", "idx": idx, "seed": seed, "plan": plan, "res": res}), flush=True)
            if nviol >= 2 or res.get("wall"):
                agg["complete"] = False
                break
    agg["sigs"] = sorted(sigs)
    agg["digest"] = dh.hexdigest()
    print(json.dumps({"t": "agg", "agg": agg}), flush=True)


def replay(path, pid):
    prop = load(pid)
    doc = json.load(open(path, encoding="utf-8"))
    res = kernel.run_forked(prop, doc["plan"], wall=150.0, cpu=30)
    print(json.dumps(res))


# ------------------------------------------------------------------ shrinking
def _lists(node, path=()):
    if isinstance(node, dict):
        for k in sorted(node):
            yield from _lists(node[k], path + (k,))
    elif isinstance(node, list):
        yield path
        for k, v in enumerate(node):
            yield from _lists(v, path + (k,))


def _ints(node, path=()):
    if isinstance(node, dict):
        for k in sorted(node):
            yield from _ints(node[k], path + (k,))
    elif isinstance(node, list):
        for k, v in enumerate(node):
            yield from _ints(v, path + (k,))
    elif isinstance(node, int) and not isinstance(node, bool):
        yield path


def _get(node, path):
    for p in path:
        node = node[p]
    return node


def _set(node, path, v):
    node = copy.deepcopy(node)
    cur = node
    for p in path[:-1]:
        cur = cur[p]
    cur[path[-1]] = v
    return node


def shrink(path, out, budget, pid):
    prop = load(pid)
    doc = json.load(open(path, encoding="utf-8"))
    kind = doc["kind"]
    keep = set(getattr(prop, "NOSHRINK", ()))
    t_end = env.real_monotonic() + budget
    tries = 0

    def bad(plan):
        nonlocal tries
        tries += 1
        try:
            res = kernel.run_forked(prop, plan, wall=20.0 if kind == "hang" else 40.0, cpu=4 if kind == "hang" else 20)
        except Exception:  # noqa: BLE001
            return None
        if "harness_error" in res or res.get("invalid") or (res.get("wall") and kind != "hang"):
            return None
        if res["violations"] and res["violations"][0][0] == kind:
            return res
        return None

    plan = doc["plan"]
    best = bad(plan)
    if best is None:
        print(json.dumps({"ok": False}))
        return
    progress = True
    while progress and env.real_monotonic() < t_end:
        progress = False
        paths = [p for p in _lists(plan) if not keep & {x for x in p if isinstance(x, str)}]
        paths.sort(key=lambda p: -len(_get(plan, p)))
        for p in paths:
            try:
                lst = _get(plan, p)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(lst, list):
                continue
            n = max(1, len(lst) // 2)
            while n >= 1 and lst and env.real_monotonic() < t_end:
                j = 0
                while j < len(lst) and env.real_monotonic() < t_end:
                    cand = _set(plan, p, lst[:j] + lst[j + n:]) if p else plan
                    r = bad(cand)
                    if r:
                        plan, best, lst = cand, r, lst[:j] + lst[j + n:]
                        progress = True
                    else:
                        j += n
                n //= 2
        for p in list(_ints(plan)):
            if keep & {x for x in p if isinstance(x, str)}:
                continue
            try:
                v = _get(plan, p)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(v, int):
                continue
            for w in dict.fromkeys([0, 1, v // 2]):
                if w == v or abs(w) >= abs(v) or env.real_monotonic() > t_end:
                    continue
                cand = _set(plan, p, w)
                r = bad(cand)
                if r:
                    plan, best = cand, r
                    progress = True
                    break
    doc.update(plan=plan, kind=best["violations"][0][0], msg=best["violations"][0][1], digest=best["digest"],
               faults=best["faults"], events=best.get("tail", []), minimised=True, shrink_runs=tries)
    json.dump(doc, open(out, "w", encoding="utf-8"), indent=1)
    print(json.dumps({"ok": True, "tries": tries}))


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "run":
        run(a[1], a[2], int(a[3]), int(a[4]), int(a[5]), float(a[6]), a[7])
    elif a[0] == "replay":
        replay(a[1], a[2])
    elif a[0] == "shrink":
        shrink(a[1], a[2], float(a[3]), a[4])
