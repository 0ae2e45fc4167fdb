"""C12: relaying a sentence reproduces it byte for byte."""
from .. import drive, icd, links, userdef, workload as W
from .c09 import show

ID = "C12"


def noise(r, mode):
    """Line noise that leaves the sentences around it intact."""
    k = r.random()
    if k < 0.4:
        return W.t(W.rand_bytes(r, r.randint(1, 12)).replace(b"$", b"%").replace(b"\r", b" ").replace(b"\n", b" ") + r.choice([b"", b"\r\n"]))
    if k < 0.7:
        s = W.ok_sentence(r, mode)
        return W.t(s[:-4] + f"{(int(s[-4:-2], 16) ^ r.randint(1, 255)):02X}".encode() + s[-2:])
    s = W.ok_sentence(r, mode)
    return W.t(s[: r.randint(3, len(s) - 6)] + b"\r\n")


def gen(r, i, tier):
    mode = r.choice([0, 0, 0, 1, 2])
    keys = icd.keys_for(mode)
    n = r.choice([2, 6, 10, 16] if tier == "quick" else [10, 25])
    k0 = (i * 7) % len(keys)
    ud = userdef.gen(r) if r.random() < 0.15 else None
    its = W.items(r, mode, n, r.choice([0, 0.1, 0.4]), (keys[k0:] + keys[:k0]) if r.random() < 0.8 else None, ud)
    hops = []
    for _ in range(r.choice([1, 2, 3, 4])):
        hops.append({"flavour": r.choice(["socket", "socket", "serial", "buffered", "readonly"]), "segseed": r.choice(["one", "bytes", "small", "mixed", "awkward", "big"]),
                     "seg": [r.choice([1, 2, 3, 5, 9, 20, 80]) for _ in range(r.randint(0, 60))],
                     "bufsize": r.choice([1, 7, 64, 4096]), "style": r.choice(["read", "iter"]),
                     "noise": [[r.randint(0, n), noise(r, mode)] for _ in range(r.choice([0, 1, 3]))]})
        hops[-1].pop("segseed")
    return {"items": its, "mode": mode, "validate": r.choice([1, 1, 0, 3]), "hops": hops, "ud": ud}


def run(plan, R):
    mode, val = plan["mode"], plan["validate"]
    R.state(plan)
    data = b"".join(W.b(x[1]) for x in plan["items"])
    first = None
    prev = None
    for h, hop in enumerate(plan["hops"]):
        fl = hop["flavour"]
        crlf = drive.is_crlf(fl)
        if h:
            parts = [m for _, m in prev]
            for pos, nz in sorted(hop["noise"], key=lambda x: -x[0]):
                parts.insert(min(pos, len(parts)), W.b(nz))
                R.fault("noise")
            wire = b"".join(parts)
        else:
            wire = data
        seg = hop["seg"]
        while seg and sum(seg) < len(wire) and len(seg) < 5000 and sum(seg) > 0:
            seg = seg + seg
        stream, feed = drive.make_stream(fl, links.feed_events(links.cut(wire, seg)), R)
        opts = {"mode": mode, "validate": val | (1 if h else 0), "quit": 0, "bufsize": max(1, hop["bufsize"]), "style": hop["style"], "ud": plan.get("ud")}
        got = []
        nmr = drive.reader(stream, opts, None)
        drive.pump(nmr, feed, R, opts, lambda raw, p: got.append((raw, p)), lambda e: None)
        if h == 0:
            drive.judge_stream(R, wire, crlf, set(), mode, opts["validate"], got, f"hop 1 ({fl})", ud=plan.get("ud"))
        out = []
        for raw, p in got:
            if p is None or not icd.WELL.match(raw) or not raw.endswith(b"\r\n"):
                continue
            if not icd.cksum_ok(raw):
                continue  # checksum validation switched off: not an undamaged sentence
            s = p.serialize()
            if s != raw:
                R.fail("bytes-changed", f"hop {h + 1} mode {mode}: read {raw!r}, serialized {s!r}")
            out.append((show(p), s))
            R.delivered += 1
        if prev is not None and out != prev:
            n = next((j for j in range(min(len(out), len(prev))) if out[j] != prev[j]), min(len(out), len(prev)))
            R.fail("relay-differs", f"hop {h + 1} ({fl}): message {n} of {len(prev)} forwarded {prev[n:n + 1]}, received {out[n:n + 1]} of {len(out)}")
        prev = out
        first = first or out
    R.probe("hops", len(plan["hops"]))
    R.info["nontrivial"] = bool(prev) and len(prev) > 1 and len(plan["hops"]) > 1


def directed():
    import random

    out = []
    for mode in (0, 1, 2):
        r = random.Random(4 + mode)
        its = [["ok", W.t(icd.frame(icd.gen_content(r, mode, k)))] for k in icd.keys_for(mode) for _ in range(2)]
        if mode == 0:
            its += [["ok", W.t(x)] for x in icd.corpus()]
        out.append({"items": its, "mode": mode, "validate": 1, "hops": [
            {"flavour": fl, "seg": [97, 512], "bufsize": 256, "style": "read", "noise": []} for fl in ("serial", "socket")]})
    return out
