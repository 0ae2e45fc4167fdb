#!/usr/bin/env python3
"""Run one property's simulation, or replay a recorded violation.

  check.py PROP [quick|thorough]     seeded search; VERIF_SEED, VERIF_TIER
  check.py --replay FILE             re-execute a recorded plan in a fresh process

exit 0: held on everything explored; 1: VIOLATION line printed; 2: harness error
"""
import json
import os
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else "python3"
WORKER = os.path.join(HERE, "dst", "worker.py")


def wenv():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent", PYTHONNOUSERSITE="1",
             LANG="C.UTF-8", LC_ALL="C.UTF-8", TZ="UTC")
    e.setdefault("PYTHONHASHSEED", "0")
    e.pop("PYTHONPATH", None)
    return e


def call(*args, timeout=400):
    p = subprocess.run([PY, WORKER, *map(str, args)], capture_output=True, text=True, env=wenv(), timeout=timeout, cwd=HERE)
    return p.returncode, p.stdout, p.stderr


def do_replay(path):
    doc = json.load(open(path, encoding="utf-8"))
    rc, out, err = call("replay", path, doc["property"])
    if rc or not out.strip():
        print(err, file=sys.stderr)
        return None, doc
    return json.loads(out.strip().splitlines()[-1]), doc


def known_list():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p, encoding="utf-8")) if os.path.exists(p) else {"known": [], "fixed": []}


def main():
    if sys.argv[1] == "--replay":
        res, doc = do_replay(sys.argv[2])
        if res is None or "harness_error" in res:
            print("replay failed:", res and res["harness_error"])
            return 2
        for line in res.get("tail", []):
            print("  ", line)
        same = res["digest"] == doc.get("digest")
        if res["violations"]:
            print(f"reproduced: property={doc['property']} kind={res['violations'][0][0]} "
                  f"digest={'identical' if same else 'different'}")
            print(res["violations"][0][1])
            print(f"VIOLATION property={doc['property']} replay={sys.argv[2]}")
            return 1
        print("not reproduced: the property held on this plan")
        return 0

    pid = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    base = os.environ.get("VERIF_SEED", "1")
    print(f"{pid}: tier={tier} VERIF_SEED={base}", flush=True)
    t0 = time.monotonic()
    # per-property budgets
    cfg = json.load(open(os.path.join(HERE, "dst", "budgets.json"), encoding="utf-8"))
    b = {**cfg["default"], **cfg.get(pid, {})}
    count = int(os.environ.get("DST_RUNS", b[tier]))
    cap = float(os.environ.get("DST_CAP", b[tier + "_cap_s"]))
    nw = int(os.environ.get("DST_WORKERS", min(8, os.cpu_count() or 4)))
    procs = []
    for w in range(nw):
        procs.append(subprocess.Popen([PY, WORKER, "run", pid, base, str(w), str(nw), str(count), str(cap), tier],
                                      stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=wenv(), cwd=HERE))
    outs = [None] * nw

    def pump(k):
        outs[k] = procs[k].communicate()

    ths = [threading.Thread(target=pump, args=(k,), daemon=True) for k in range(nw)]
    for t in ths:
        t.start()
    hard = cap + 420
    for t in ths:
        t.join(max(1.0, hard - (time.monotonic() - t0)))
    if any(t.is_alive() for t in ths):
        for p in procs:
            p.kill()
        print("harness error: worker did not finish")
        return 2
    viols, aggs, harness = [], [], []
    for k, (out, err) in enumerate(outs):
        for line in out.splitlines():
            try:
                d = json.loads(line)
            except ValueError:
                continue
            {"viol": viols, "agg": aggs, "harness": harness}[d["t"]].append(d)
        if procs[k].returncode:
            harness.append({"err": f"worker {k} rc={procs[k].returncode}: {err[-2000:]}", "idx": -1})
    wall = time.monotonic() - t0

    # ---- known findings: specific recorded plans
    known_ids = []
    for kf in known_list()["known"]:
        if kf["property"] != pid:
            continue
        res, doc = do_replay(os.path.join(HERE, kf["replay"]))
        if res is None or "harness_error" in res:
            harness.append({"err": f"known finding {kf['replay']} could not be replayed: {res and res.get('harness_error')}", "idx": -1})
        elif res["violations"] and res["violations"][0][0] == kf["kind"]:
            print(f"KNOWN-FINDING: property={pid} {kf['what']}")
            known_ids.append(kf["replay"])
        elif res["violations"]:
            viols.append({"idx": -1, "seed": "known", "plan": doc["plan"], "res": res})

    # ---- evidence
    runs = sum(a["agg"]["runs"] for a in aggs)
    faults, probes = {}, {}
    for a in aggs:
        for src, dst in ((a["agg"]["faults"], faults), (a["agg"]["probes"], probes)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
    sigs = set()
    for a in aggs:
        sigs.update(a["agg"]["sigs"])
    sys.path.insert(0, HERE)
    meta = json.load(open(os.path.join(HERE, "dst", "meta.json"), encoding="utf-8"))[pid]
    samples = []
    for a in aggs:
        samples += a["agg"]["samples"]
    samples = sorted(samples, key=lambda s: s["index"])[:3]
    for s in samples:
        txt = json.dumps(s["plan"])
        if len(txt) > 6000:
            s["plan"] = txt[:6000] + "...(truncated)"
    nontriv = sum(a["agg"]["nontrivial"] for a in aggs)
    sim_s = sum(a["agg"]["sim_us"] for a in aggs) / 1e6
    ev = {
        "property": pid, "tier": tier, "seed": int(base) if base.lstrip("-").isdigit() else 0, "level": "exploration",
        "coverage": {
            "evaluations": runs, "distinct_nontrivial": len(sigs), "nontrivial_runs": nontriv, "rule": meta["rule"],
            "samples": samples, "runs_requested": count, "all_requested_runs_done": all(a["agg"]["complete"] for a in aggs),
            "runs_per_hour": round(runs / max(wall, 1e-3) * 3600), "simulated_seconds": round(sim_s, 3),
            "sentences_or_operations_judged": sum(a["agg"]["delivered"] for a in aggs),
            "events_logged": sum(a["agg"]["nev"] for a in aggs), "target_steps": sum(a["agg"]["steps"] for a in aggs),
            "faults_injected": dict(sorted(faults.items())), "probes_hit": dict(sorted(probes.items())),
            "probes_never_hit": sorted(set(meta.get("probes", [])) - set(probes)),
            "distinctness_measure": meta["measure"], "real_components": meta["real"], "stubbed_components": meta["stub"],
            "known_findings_reproduced": known_ids, "workers": nw,
        },
        "assumptions": meta.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(viols),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, sort_keys=False)
        f.write("\n")
    print(f"{pid}: {runs} runs, {len(sigs)} distinct non-trivial, {sim_s:.0f} simulated s, {wall:.1f} s wall; faults {faults}")

    if viols:
        viols.sort(key=lambda v: (v["idx"], str(v["seed"])))
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        for v in viols[:4]:
            kind, msg = v["res"]["violations"][0]
            path = os.path.join(rdir, f"{pid}-{v['seed']}.json")
            doc = {"property": pid, "kind": kind, "msg": msg, "verif_seed": base, "index": v["idx"], "seed": v["seed"],
                   "digest": v["res"]["digest"], "plan": v["plan"], "events": v["res"].get("tail", []), "minimised": False}
            json.dump(doc, open(path, "w", encoding="utf-8"), indent=1)
            try:
                call("shrink", path, path + ".min", os.environ.get("DST_SHRINK", "40"), pid, timeout=150)
            except subprocess.TimeoutExpired:
                pass
            if os.path.exists(path + ".min"):
                os.replace(path + ".min", path)
            for again in (None, doc):  # should the minimised plan not repeat it, the original one
                if again:
                    json.dump(again, open(path, "w", encoding="utf-8"), indent=1)
                try:
                    res, doc = do_replay(path)
                except subprocess.TimeoutExpired:
                    res = None
                if res and res.get("violations"):
                    break
            if res and res.get("violations"):
                print(f"{pid}: {doc['kind']}: {doc['msg'][:1500]}")
                print(f"seed={v['seed']} faults={doc.get('faults', v['res']['faults'])} "
                      f"digest {'identical' if res['digest'] == doc['digest'] else 'differs'} on replay")
                print(f"VIOLATION property={pid} replay={path}")
                return 1
        print("harness error: violation did not reproduce from its replay file")
        for v in viols[:2]:
            print(v["res"]["violations"])
        return 2
    if harness:
        for h in harness[:3]:
            print("harness error:", h["err"])
            if h.get("plan"):
                with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False, prefix="dst-harness-") as f:
                    json.dump({"property": pid, "plan": h["plan"], "kind": "?", "msg": ""}, f)
                print("  plan:", f.name)
        return 2
    if not aggs or runs == 0:
        print("harness error: nothing ran")
        return 2
    print(f"{pid}: held")
    return 0


if __name__ == "__main__":
    sys.exit(main())
