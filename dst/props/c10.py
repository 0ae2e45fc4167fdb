"""C10: threads sharing one reader get every sentence exactly once."""
from .. import drive, env, icd, kernel, links, sched, workload as W

ID = "C10"
THREADED = True


class Signalled(BaseException):
    """raised by a signal handler in the middle of the library's work"""


def unique(j):
    return icd.frame(f"GNTXT,01,01,02,SERIAL {j}")


def gen(r, i, tier):
    n = r.choice([2, 4, 8, 12] if tier == "quick" else [8, 16, 30])
    mode = 0
    its = []
    serial = 0
    for j in range(n):
        k = r.random()
        if k < 0.5:
            its.append(["ok", W.t(unique(serial))])
            serial += 1
        elif k < 0.7:
            c = r.choice(["GNGLL,5327.04319,S,00214.41396,E,223232.00,A,A", "GNRMC,103607.00,A,5327.03942,N,00214.42462,W,0.046,,060321,,,A,V",
                          "GPGSV,3,1,11,01,02,103,33,02,02,303,22,03,02,403,11,04,02,503,44"])
            its.append(["ok", W.t(icd.frame(c + f",U{serial}"))])
            serial += 1
        elif k < 0.85:
            s = icd.frame(f"GNTXT,01,01,02,BROKEN {serial}")
            serial += 1
            its.append(["bad", W.t(s[:-4] + f"{(int(s[-4:-2], 16) ^ r.randint(1, 255)):02X}".encode() + s[-2:])])
        elif k < 0.92:
            its.append(["bad", W.t(icd.frame(f"GPGSV,x,1,{serial}"))])
            serial += 1
        else:
            its.append(["gap", W.t(r.choice([b"\xb5b\x01\x07\x02\x00\x01\x02\x0d\x33", b"\r\n", b"login: \r\n", b"\xd3\x00\x04abcdXYZ"]))])
    data = b"".join(W.b(x[1]) for x in its)
    segs = [len(s) for s in links.segment(r, data)]
    p, waits = 0, []
    for s in segs:
        p += s
        if r.random() < 0.3:
            waits.append([p, ["w", r.choice([1, 1000, 2_000_000])]])
    if r.random() < 0.3:
        bounds, p = [], 0
        for x in its:
            p += len(x[1])
            bounds.append(p)
        for _ in range(r.randint(1, 3)):
            waits.append([r.choice(bounds), r.choice([["t"], ["z"]])])
    nth = r.choice([2, 2, 3, 4])
    sig = []
    if r.random() < 0.3:  # a signal handler raises in one of the threads
        sig = [[r.randrange(nth), sorted(r.randint(1, r.choice([20, 40 * n])) for _ in range(r.choice([1, 1, 2, 4])))]]
    return {"sig": sig, "items": its, "seg": segs, "inter": waits, "flavour": r.choice(["serial", "serial", "socket", "readonly", "buffered"]),
            "styles": [r.choice(["read", "iter", "for"]) for _ in range(nth)], "sched": sched.gen_choices(r, r.choice([60, 200, 600]), nth),
            "opcodes": r.random() < 0.4, "report": r.choice(["handler", "raise", "ignore", "log"]),
            "opts": {"mode": mode, "validate": 1, "bufsize": r.choice([1, 7, 64, 4096])}}


def run(plan, R):
    fl, opts = plan["flavour"], dict(plan["opts"], validate=plan["opts"]["validate"] | 1)
    how = plan["report"]
    opts["quit"] = {"h": 1, "l": 1, "r": 2, "i": 0}[how[0]]
    data = b"".join(W.b(x[1]) for x in plan["items"])
    if fl != "serial" and fl != "readonly":
        inter = [x for x in plan["inter"]]
    else:
        inter = plan["inter"]
    inter = [x for x in inter if x[1] and x[1][0] in ("w", "t", "z")]
    R.state(plan)
    good = [W.b(x[1]) for x in plan["items"] if x[0] == "ok"]
    nbad = sum(1 for x in plan["items"] if x[0] == "bad")
    index = {}
    off = 0
    for x in plan["items"]:
        if x[0] == "ok":
            index[W.b(x[1])] = len(index)
    stream, feed = drive.make_stream(fl, links.interleave(data, plan["seg"], inter), R)

    def pace():  # waiting for data is a point where other threads run
        if sched.CUR[0] is not None and sched.CUR[0].cur is not None:
            sched.CUR[0].yield_now()

    feed.pace = pace
    s = sched.Sched(plan["sched"], R, kernel.PKG, max_steps=6_000_000, opcodes=plan["opcodes"])
    errs = []
    hist = []  # (thread, start, end, raw, text)

    def handler(e):
        errs.append(type(e).__name__)

    cap = drive.capture_log()
    nmr = drive.reader(stream, opts, handler if how[0] == "h" else None)
    clk = [0]
    ends = [0]  # reads that reported the end while data was still to come

    def tick():
        clk[0] += 1
        return clk[0]

    struck = []  # offsets that had been reached when a signal struck

    def strike():
        struck.append(len(feed.delivered) - (nmr.datastream.in_waiting() if fl == "socket" else 0))
        R.fault("signal")
        return Signalled()

    if fl != "buffered":
        for x in plan.get("sig", []):
            if len(x) == 2 and isinstance(x[1], list):
                s.signals[x[0]] = kernel.Signals(x[1], strike)

    def note(ti, a, raw, p):
        b = tick()
        sg = s.signals.get(ti)
        if sg:
            sg.held = True
        hist.append((ti, a, b, raw, None if p is None else str(p), p))
        if sg:
            sg.held = False

    def body(ti, style):
        idle = 0
        while True:
            a = tick()
            try:
                if style == "read":
                    raw, p = nmr.read()
                elif style == "iter":
                    try:
                        raw, p = next(nmr)
                    except StopIteration:
                        raw = p = None
                else:
                    raw = p = None
                    for raw, p in nmr:
                        note(ti, a, raw, p)
                        a = tick()
                    raw = p = None
            except drive.DOCUMENTED as e:
                errs.append(type(e).__name__)
                continue
            except Signalled:
                continue
            if raw is None and p is None:
                if not feed.more():
                    return
                ends[0] += 1
                idle += 1
                if idle > 3000:
                    return
                continue
            note(ti, a, raw, p)

    styles = plan["styles"] or ["read"]
    for ti, st in enumerate(styles):
        s.spawn(f"t{ti}", lambda ti=ti, st=st: body(ti, st))
    out = s.run()
    R.steps = s.steps
    R.ev([h[:5] for h in hist], errs)
    if out:
        R.fail(out[0], f"{fl} {styles}: {out}")
    for t in s.threads:
        if t.exc is not None:
            raise t.exc
    # leftovers are read by whoever comes next
    for _ in range(10):
        raw, p = nmr.read()
        if raw is None and p is None:
            break
        R.fail("left-over", f"{fl}: {raw!r} was still unread after every thread saw the end of the stream")
    last = {}
    seen = {}
    for ti, a, b, raw, txt, p in hist:
        if raw not in index:
            R.fail("mixed-up", f"{fl}: thread {ti} was given {raw!r}, which the stream does not hold as a sentence")
        if raw in seen:
            R.fail("sentence-repeated", f"{fl}: {raw!r} was given to thread {seen[raw]} and to thread {ti}")
        seen[raw] = ti
        if index[raw] < last.get(ti, -1):
            R.fail("out-of-order", f"{fl}: thread {ti} received sentence {index[raw]} after {last[ti]}")
        last[ti] = index[raw]
        bad = icd.check_message(p, icd.decode(raw, opts["mode"], 1), opts["mode"])
        if bad:
            R.fail("wrong-content", f"{fl}: thread {ti} {raw!r}: " + "; ".join(bad[:3]))
        R.delivered += 1
    missing = [g for g in good if g not in seen]
    for at in struck:  # each may cost the sentence it struck
        hit = [g for g in missing if data.find(g) < at <= data.find(g) + len(g)]
        if hit:
            missing.remove(hit[0])
    if missing:
        R.fail("sentence-lost", f"{fl}: {len(missing)} sentences reached no thread: {missing[:2]!r}")
    for x in hist:  # real time order
        for y in hist:
            if x[2] < y[1] and index[x[3]] > index[y[3]]:
                R.fail("out-of-order", f"{fl}: a read that started after sentence {index[x[3]]} was returned yielded {index[y[3]]}")
    pauses = sum(1 for x in inter if x[1][0] in ("t", "z"))
    if ends[0] > pauses:
        R.fail("spurious-end", f"{fl} {styles}: {ends[0]} reads reported the end of the stream before it had ended, though it paused {pauses} times")
    nerr = len(errs) + sum(1 for rec in cap.records if rec.levelno >= 40)
    if how[0] == "i" and nerr or how[0] != "i" and not nbad - len(struck) <= nerr <= nbad:
        R.fail("error-count", f"{fl}: {nbad} erroneous sentences, {nerr} reports ({how})")
    R.fault("preemption", s.preemptions)
    R.probe("switches", s.switches)
    R.probe("threads-with-sentences", len({h[0] for h in hist}))
    R.state(s.trace_sig)
    R.info["nontrivial"] = s.switches > 2 and len({h[0] for h in hist}) > 1
