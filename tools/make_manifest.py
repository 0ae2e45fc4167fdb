"""Writes MANIFEST.json and dst/meta.json from the table below and the property modules that exist."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from meta_text import CHECKS, NOT_APPLICABLE  # noqa: E402

built = sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, "dst", "props")) if f.startswith("c") and f.endswith(".py"))
man = {
    "version": 1,
    "setup_cmd": "python3 tools/selfcheck.py",
    "checks": [],
    "not_applicable": [],
    "notes": "All checks are one simulator (dst/) driven by check.py; a violation's replay file is executed again with "
             "'python3 check.py --replay FILE'. No hooks were needed in /repo: the seams are the stream objects the "
             "reader is given, the process-wide clock, time zone and threading primitives, which the simulator replaces.",
}
meta = {}
for pid in sorted(CHECKS):
    c = CHECKS[pid]
    if pid not in built:
        man["not_applicable"].append({"property": pid, "reason": "check not built yet"})
        continue
    man["checks"].append({
        "property": pid,
        "quick_cmd": f"python3 check.py {pid} quick",
        "thorough_cmd": f"python3 check.py {pid} thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": c["technique"],
        "level": "exploration",
        "level_note": c["note"],
    })
    meta[pid] = {k: c[k] for k in ("rule", "measure", "real", "stub", "probes", "assumptions") if k in c}
for pid, why in NOT_APPLICABLE.items():
    man["not_applicable"].append({"property": pid, "reason": why})
for name, doc in (("MANIFEST.json", man), ("dst/meta.json", meta)):
    with open(os.path.join(HERE, name), "w", encoding="utf-8") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")
print(len(man["checks"]), "checks")
