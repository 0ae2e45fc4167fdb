"""C01: every intact sentence is delivered exactly once, in order, correctly decoded."""
from .. import drive, icd, links, userdef, workload as W

ID = "C01"


def gen(r, i, tier):
    mode = r.choice([0, 0, 0, 0, 1, 2])
    fl = r.choice(drive.FLAVOURS)
    n = W.scale(r, r.choice([1, 2, 4, 8, 12, 20]) if tier == "quick" else r.choice([2, 8, 20, 40]))
    keys = icd.keys_for(mode)
    # walk through every message definition in turn, whatever the seed
    k0 = (i * 7) % len(keys)
    ks = keys[k0:] + keys[:k0]
    pj = r.choice([0, 0.2, 0.35, 0.6, 0.8])
    ud = userdef.gen(r) if r.random() < 0.25 else None
    its = W.items(r, mode, n, pj, ks if r.random() < 0.8 else None, ud)
    its = W.lengthen(r, its)
    if len(its) > 1 and r.random() < 0.1:  # the same sentence several times over
        j = r.randrange(len(its))
        its[j:j] = [its[j]] * r.choice([1, 1, 2, 5])
    data = b"".join(W.b(x[1]) for x in its)
    return {
        "flavour": fl, "tz": r.choice(icd.TZS),
        "opts": {"mode": mode, "ud": ud, "validate": r.choice([1, 1, 1, 1, 3, 0, 2]), "quit": r.choice([0, 1, 1, 2]),
                 "bufsize": r.choice([1, 2, 3, 7, 16, 64, 1024, 4096]), "style": r.choice(["read", "iter"])},
        "items": its, "seg": [len(s) for s in links.segment(r, data)],
    }


def run(plan, R):
    fl, opts = plan["flavour"], plan["opts"]
    crlf = drive.is_crlf(fl)
    data = b"".join(W.b(x[1]) for x in plan["items"])
    events = links.feed_events(links.cut(data, plan["seg"]))
    stream, feed = drive.make_stream(fl, events, R)
    got, errs = [], []
    nmr = drive.reader(stream, opts, errs.append)
    drive.pump(nmr, feed, R, opts, lambda raw, p: got.append((raw, p)), errs.append)
    judge(R, data, crlf, opts, got, fl)
    for k, _ in plan["items"]:
        if k != "ok":
            R.fault("junk:" + k)
    R.probe("flavour:" + fl)
    R.probe("cut-in-sentence", sum(1 for e in events[:-1] if not e[1].endswith("\n")))
    R.state(fl, opts, plan["items"], plan["seg"])
    R.info["nontrivial"] = bool(got) and len(plan["items"]) > 1


def judge(R, data, crlf, opts, got, fl):
    mode, val = opts["mode"], opts["validate"]
    fr = []
    for a, e in W.frames(data, crlf):
        raw = data[a:e]
        must, ex = False, None
        m = icd.WELL.match(raw)
        if m and raw.endswith(b"\r\n"):
            try:
                ex = icd.decode(raw, mode, val, opts.get("ud"))
            except ValueError:
                ex = None
        if ex is not None:
            if ex.kind == "msg" and W.guaranteed(data, a, crlf):
                must = True
                R.probe("def:" + ("user" if ex.msgid in (opts.get("ud") or {}) else ex.defkey or ("nominal" if ex.nominal else "nodef")))
        fr.append((raw, must, ex))
    raws = [g[0] for g in got]
    ok, fi = W.match([(f[0], f[1]) for f in fr], raws)
    if not ok:
        if fi >= 0:
            want = fr[fi][0]
            have = raws.count(want)
            kind = "sentence-lost"
            if have:
                kind = "sentence-misplaced"
            R.fail(kind, f"{fl}: intact sentence {want!r} (frame {fi} of {len(fr)}) not delivered in its place; "
                         f"{len(raws)} items delivered, this raw value delivered {have} time(s)")
        for x in raws:
            if data.find(x) < 0:
                R.fail("invented-bytes", f"{fl}: delivered {x!r}, which is not in the stream")
        R.fail("extra-delivery", f"{fl}: {len(raws)} items delivered from {len(fr)} lines: duplicated or reordered")
    exp = {}
    for raw, must, ex in fr:
        if must:
            exp[raw] = ex
    for raw, parsed in got:
        ex = exp.get(raw)
        if ex is not None:
            bad = icd.check_message(parsed, ex, mode)
            if bad:
                R.fail("wrong-content", f"{fl}: {raw!r} mode {mode}: " + "; ".join(bad[:4]))
        elif parsed is not None and val & 1 and not icd.integrity_ok(raw):
            R.fail("damaged-accepted", f"{fl}: {raw!r} parsed although its checksum is wrong")


def directed():
    out = []
    for mode in (0, 1, 2):
        keys = icd.keys_for(mode)
        import random

        r = random.Random(99 + mode)
        for fl in ("serial", "socket"):
            its = [["ok", W.t(icd.frame(icd.gen_content(r, mode, k, 0.0, 0, 0)))] for k in keys]
            its += [["ok", W.t(x)] for x in icd.corpus()] if mode == 0 else []
            out.append({"flavour": fl, "opts": {"mode": mode, "validate": 1, "quit": 1, "bufsize": 512, "style": "read"},
                        "items": its, "seg": [700] * 40})
    return out
