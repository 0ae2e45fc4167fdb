"""C05: an interruption costs at most the sentence it interrupts."""
from .. import drive, icd, kernel, links, workload as W

ID = "C05"
ALL = sorted(links.ERRS)


def gen(r, i, tier):
    mode = r.choice([0, 0, 0, 1, 2])
    fl = r.choice(["socket", "socket", "serial", "serial", "buffered", "readonly"])
    its = W.items(r, mode, W.scale(r, r.choice([1, 3, 6, 12] if tier == "quick" else [6, 20, 40]), 0.002), r.choice([0, 0.1, 0.3, 0.5]))
    its = W.lengthen(r, its)
    data = b"".join(W.b(x[1]) for x in its)
    bounds, p = [0], 0
    for x in its:
        p += len(x[1])
        bounds.append(p)
    inter = []
    for _ in range(r.choice([1, 1, 2, 3, 6, 12])):
        k = r.random()
        if k < 0.35:
            pos = r.choice(bounds) + r.choice([-2, -1, 0, 0, 1, 2, 3])
        else:
            pos = r.randint(0, len(data))
        pos = max(0, min(len(data), pos))
        e = r.choice([["t"], ["t"], ["z"], ["e", r.choice(ALL)], ["e", r.choice(ALL)], ["w", r.choice([1000, 5_000_000])]])
        if fl == "buffered" and e[0] == "e" and e[1] in ("InterruptedError", "BlockingIOError"):
            e = ["z"]  # io.BufferedReader handles these itself
        inter.append([pos, e])
        if r.random() < 0.2:
            inter += [[pos, e]] * r.randint(1, 3)
        elif r.random() < 0.01:  # a long silence, or a long run of failures
            inter += [[pos, e]] * r.choice([20, 40, 110, 300])
    sig = []
    if fl != "buffered" and r.random() < 0.35:  # a signal handler raises while the library is at work
        sig = sorted(r.randint(1, r.choice([30, 60 * len(its) + 60])) for _ in range(r.choice([1, 1, 2, 5])))
        if r.random() < 0.5:
            inter = inter[:1]
    return {"flavour": fl, "sig": sig, "items": its, "inter": inter, "seg": [len(s) for s in links.segment(r, data)],
            "opts": {"mode": mode, "validate": r.choice([1, 1, 1, 3, 0]), "quit": r.choice([0, 1, 1, 2]),
                     "bufsize": r.choice([1, 2, 7, 64, 4096]), "style": r.choice(["read", "iter"])}}


def run(plan, R):
    fl, opts = plan["flavour"], plan["opts"]
    crlf = drive.is_crlf(fl)
    data = b"".join(W.b(x[1]) for x in plan["items"])
    inter = [[p, e] for p, e in plan["inter"] if e and e[0] in ("t", "z", "w", "e")]
    events = links.interleave(data, plan["seg"], inter)
    R.state(plan)
    stream, feed = drive.make_stream(fl, events, R)
    seen = []
    nmr = None
    for _ in range(2000):  # opening the reader may itself hit a fault
        try:
            nmr = drive.reader(stream, opts, lambda e: None)
            break
        except BaseException as e:  # noqa: BLE001
            if not any(e is x for x in feed.raised):
                raise
            seen.append(e)
    got = []
    soft = []  # offsets that had been reached when a signal struck

    def strike():
        at = len(feed.delivered) - (nmr.datastream.in_waiting() if fl == "socket" else 0)
        soft.extend((at - 1, at))
        e = KeyboardInterrupt("signal")
        feed.raised.append(e)
        R.fault("signal")
        return e

    if fl != "buffered" and plan.get("sig"):
        R.signals = kernel.Signals(plan["sig"], strike)

    def on_exc(e):
        if not any(e is x for x in feed.raised):
            raise e
        seen.append(e)

    drive.pump(nmr, feed, R, opts, lambda raw, p: got.append((raw, p)), lambda e: None,
               tolerate=BaseException, on_exc=on_exc)
    R.signals = None
    # every exception of the stream reaches the caller, except socket errors and timeouts
    want = [e for e in feed.raised if not (fl == "socket" and isinstance(e, OSError))]
    if [type(e).__name__ for e in seen] != [type(e).__name__ for e in want]:
        R.fail("exception-lost", f"{fl}: the stream raised {[type(e).__name__ for e in want]}, "
                                 f"the caller saw {[type(e).__name__ for e in seen]}")
    hurt = set(feed.interrupts)
    if bytes(feed.delivered) != data:
        R.fail("not-read", f"{fl}: only {len(feed.delivered)} of {len(data)} bytes were read from the stream")
    drive.judge_stream(R, data, crlf, hurt, opts["mode"], opts["validate"], got, fl, soft=soft)
    R.probe("flavour:" + fl)
    for a, e in W.frames(data, crlf):
        for h in hurt:
            if a < h < e:
                R.probe("interrupted-in:" + ("header" if h - a < 2 else "line-end" if e - h < 2 else "checksum" if e - h < 6 else "body"))
    R.info["nontrivial"] = bool(hurt or soft) and bool(got)
