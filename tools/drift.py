#!/usr/bin/env python3
"""Do shrunk plans stay inside the property?  drift.py RUNS [PROP..]

Random steps of the minimiser are applied to random plans; on the unchanged tree none
of the results may be a violation (a minimised replay would then prove nothing).
"""
import copy, json, os, random, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst import env
env.install()
from dst import icd, kernel, worker

n = int(sys.argv[1])
for pid in sys.argv[2:] or [f"C{k:02d}" for k in range(1, 20)]:
    prop = worker.load(pid)
    icd.corpus()
    keep = set(getattr(prop, "NOSHRINK", ()))
    bad = inv = err = 0
    for i in range(n):
        r = random.Random(f"drift{pid}{i}")
        _, plan = worker.make_plan(prop, "drift", i, "quick")
        for _ in range(r.choice([1, 2, 5, 20])):
            if r.random() < 0.6:
                ps = [p for p in worker._lists(plan) if not keep & {x for x in p if isinstance(x, str)} and worker._get(plan, p)]
                if not ps:
                    continue
                p = r.choice(ps)
                lst = worker._get(plan, p)
                j = r.randrange(len(lst))
                m = max(1, len(lst) >> r.choice([1, 2, 9]))
                plan = worker._set(plan, p, lst[:j] + lst[j + m:])
            else:
                ps = [p for p in worker._ints(plan) if not keep & {x for x in p if isinstance(x, str)}]
                if not ps:
                    continue
                p = r.choice(ps)
                v = worker._get(plan, p)
                plan = worker._set(plan, p, r.choice([0, 1, v // 2] if abs(v) > 1 else [0]))
        res = kernel.run_forked(prop, plan)
        inv += "invalid" in res
        err += "harness_error" in res
        if "harness_error" in res and os.environ.get("SHOW"):
            print(res["harness_error"].splitlines()[-1])
        if res.get("violations"):
            bad += 1
            if bad <= 3:
                print(pid, res["violations"][0][0], res["violations"][0][1][:300].replace("\n", " "))
                f = f"/tmp/drift-{pid}-{i}.json"
                json.dump({"property": pid, "plan": plan, "kind": res["violations"][0][0], "msg": ""}, open(f, "w"))
    print(pid, n, "violations", bad, "invalid", inv, "harness errors", err, flush=True)
