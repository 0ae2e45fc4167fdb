"""C04: damaged data never surfaces as a parsed message."""
import pynmeagps

from .. import drive, icd, links, workload as W

ID = "C04"


def gen(r, i, tier):
    mode = r.choice([0, 0, 0, 1, 2])
    n = r.choice([2, 6, 12, 20] if tier == "quick" else [6, 20, 50])
    heavy = r.random() < 0.35  # also loses, inserts and repeats bytes
    its = []
    p = r.choice([0.3, 0.7, 1.0])
    keys = icd.keys_for(mode)
    for j in range(n):
        raw = W.ok_sentence(r, mode, keys[(i * 5 + j) % len(keys)] if r.random() < 0.5 else None)
        d = []
        if r.random() < p:
            k = r.choice(["burst", "burst", "lose", "ins", "rep", "trunc", "swap", "ck"]) if heavy else r.choice(["burst"] * 5 + ["ck"])
            if k == "burst":
                d = ["burst", r.randrange(len(raw) * 8), 1 | r.getrandbits(r.choice([1, 1, 2, 4, 8]))]
                if r.random() < 0.3:  # around the check digits and the line end
                    d[1] = r.randrange(56)
            elif k == "ck":
                d = ["ck", r.choice(["", "*", "*0", "**", "*zz", "*000", "* 1", "*-1", "*+5", "*0x", "*\u00b25"])]
            elif k == "lose":
                d = ["lose", r.randrange(len(raw)), r.choice([1, 1, 2, 9])]
            elif k == "ins":
                d = ["ins", r.randrange(len(raw)), W.t(W.rand_bytes(r, r.choice([1, 1, 2, 6])))]
            elif k == "rep":
                d = ["rep", r.randrange(len(raw)), r.choice([1, 2, 8])]
            elif k == "swap":
                d = ["swap", r.randrange(len(raw)), r.randrange(len(raw))]
            else:
                d = ["trunc", r.randrange(1, len(raw))]
        its.append([W.t(raw), d])
    return {"mode": mode, "items": its, "flavour": r.choice(drive.FLAVOURS), "heavy": heavy, "segn": r.choice([1, 3, 17, 300]),
            "opts": {"mode": mode, "validate": r.choice([1, 1, 1, 3]), "quit": r.choice([0, 1, 2]), "bufsize": r.choice([1, 7, 4096]),
                     "style": r.choice(["read", "iter"])}}


def damage(raw, d):
    if not d:
        return raw
    k = d[0]
    if k == "burst":
        mask = max(1, d[2] & 0xFF)
        n = len(raw) * 8
        pos = min(d[1], n - mask.bit_length())
        return (int.from_bytes(raw, "big") ^ (mask << pos)).to_bytes(len(raw), "big")
    if k == "ck":
        return raw[:-5] + d[1].encode("utf-8") + raw[-2:]
    p = d[1] % (len(raw) or 1)
    if k == "lose":
        return raw[:p] + raw[p + d[2]:]
    if k == "ins":
        return raw[:p] + W.b(d[2]) + raw[p:]
    if k == "rep":
        return raw[:p + d[2]] + raw[p:]
    if k == "swap":
        b = bytearray(raw)
        q = d[2] % len(raw)
        b[p], b[q] = b[q], b[p]
        return bytes(b)
    return raw[:d[1]]


def content(raw):
    return raw.strip(b"$\r\n").partition(b"*")[0]


def run(plan, R):
    sent, wire = [], []
    for t, d in plan["items"]:
        raw = W.b(t)
        if len(raw) < 6:
            continue
        sent.append(content(raw))
        wire.append(damage(raw, d))
        if d:
            R.fault(d[0])
    sentset = set(sent)
    heavy = plan["heavy"]
    mode = plan["mode"]
    data = b"".join(wire)
    R.state(plan)
    n = max(1, plan["segn"])
    stream, feed = drive.make_stream(plan["flavour"], links.feed_events([data[j:j + n] for j in range(0, len(data), n)]), R)
    got = []
    opts = dict(plan["opts"], validate=plan["opts"]["validate"] | 1)
    nmr = drive.reader(stream, opts, lambda e: None)
    drive.pump(nmr, feed, R, plan["opts"], lambda raw, p: got.append((raw, p)), lambda e: None)
    pos = 0

    def judge(raw, p, how):
        if not icd.integrity_ok(raw):
            R.fail("damaged-accepted", f"{how}: {raw!r} produced {p} although its check digits do not match")
        if not heavy and content(raw) not in sentset:
            R.fail("damaged-accepted", f"{how}: {raw!r} produced {p}, a sentence that was never sent")
        # what is delivered is the content of that sentence
        c = content(raw).decode("utf-8")
        have = p.talker + p.msgID + "".join("," + x for x in p.payload)
        if have != c:
            R.fail("wrong-content", f"{how}: {raw!r} delivered as {have!r}")

    for raw, p in got:
        if p is not None:
            judge(raw, p, plan["flavour"])
    for w in wire:
        if w[:1] != b"$":
            continue  # not a sentence a reader would ever pass on
        try:
            p = pynmeagps.NMEAReader.parse(w, msgmode=mode, validate=plan["opts"]["validate"] | 1)
        except drive.DOCUMENTED as e:
            R.ev("refused", type(e).__name__)
            continue
        R.ev("parsed", w, str(p))
        if p is not None:
            judge(w, p, "parse()")
    R.delivered += len(wire)
    R.info["nontrivial"] = any(d for _, d in plan["items"]) and bool(got)
