"""Collect distinct genuine sentences from the recorded logs in /repo/tests."""
import glob, random, sys
sys.path.insert(0, "/verif")
from dst import icd
by = {}
for f in sorted(glob.glob("/repo/tests/*.log")):
    data = open(f, "rb").read()
    for line in data.split(b"\n"):
        p = line.rfind(b"$")
        if p < 0: continue
        raw = line[p:].rstrip(b"\r") + b"\r\n"
        if icd.cksum_ok(raw):
            try: ex = icd.decode(raw, 0, 1)
            except ValueError: continue
            by.setdefault((ex.kind, ex.identity, ex.defkey), []).append(raw)
r = random.Random(1)
out = []
for k in sorted(by, key=str):
    v = sorted(set(by[k])); r.shuffle(v); out += v[:6]
open("/verif/data/corpus.txt", "wb").write(b"".join(out))
print(len(by), len(out))
