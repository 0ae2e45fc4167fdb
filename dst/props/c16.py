"""C16: writing through the reader's stream is exact and independent of reading."""
from .. import drive, icd, kernel, links, sched, workload as W
from . import c03

ID = "C16"
THREADED = True
TIMEOUT = 7.5


def gen(r, i, tier):
    mode = r.choice([0, 0, 0, 1, 2])
    its = W.items(r, mode, r.choice([1, 3, 6, 10] if tier == "quick" else [6, 15, 30]), r.choice([0, 0.2, 0.4]))
    data = b"".join(W.b(x[1]) for x in its)
    enc, chunks = 0, []
    kind = r.choice(["socket"] * 5 + ["serial"])
    if kind == "socket" and r.random() < 0.25:  # what is read is chunked, and maybe compressed
        enc = r.choice([1, 1, 3, 5, 9])
        chunks = [len(s) for s in links.segment(r, data, r.choice(["one", "mixed", "big"]))]
        data = c03.encode(data, chunks, enc, [], 6, True)[0]
    inter = [[r.randint(0, len(data)), r.choice([["t"], ["z"], ["w", r.choice([1000, 3_000_000])], ["e", r.choice(["ConnectionResetError", "OSError", "TimeoutError"])], ["g", r.randint(1, 12)]])]
             for _ in range(r.choice([0, 1, 3, 6]))]
    nw = r.choice([0, 1, 1, 2, 3])  # writer threads; 0: the reading thread writes as well
    writers = []
    for _ in range(max(1, nw)):
        ops = []
        for _ in range(r.choice([1, 2, 5, 9])):
            k = r.random()
            if k < 0.6:
                d = W.ok_sentence(r, r.choice([1, 2]))
            elif k < 0.8:
                d = W.rand_bytes(r, r.choice([1, 2, 16, 300] if r.random() < 0.98 else [4090, 5000, 20_000, 70_000]))
            else:
                d = W.rand_bytes(r, r.choice([1, 5]), b"\r\n$*\x00\xff0")
            ops.append([W.t(d), r.choice([0, 0, 0, 0, 1, 64]), r.choice(["bytes", "bytes", "bytes", "bytearray", "memoryview"])])
        writers.append(ops)
    sp = []
    for _ in range(r.choice([0, 2, 6, 20])):
        k = r.random()
        sp.append(["all"] if k < 0.4 else ["short", r.choice([0, 1, 2, 10, 40])] if k < 0.75
                  else ["e", r.choice(["ConnectionResetError", "BrokenPipeError", "TimeoutError", "BlockingIOError", "OSError", "InterruptedError", "ENOBUFS", "MemoryError"])])
    return {"items": its, "inter": inter, "seg": [len(s) for s in links.segment(r, data)], "writers": writers, "threads": nw,
            "sendplan": sp, "when": [r.randint(0, 12) for _ in range(r.randint(0, 10))],
            "sched": sched.gen_choices(r, r.choice([40, 150, 400]), nw + 1), "opcodes": r.random() < 0.3,
            "opts": {"mode": mode, "validate": r.choice([0, 1, 1, 3]), "quit": r.choice([0, 1, 2]), "bufsize": r.choice([1, 7, 64, 4096]),
                     "style": r.choice(["read", "iter"])},
            "kind": kind, "enc": enc, "chunks": chunks}


class Sock(links.SimSocket):
    """Also records which arguments each send was given and what it raised."""

    def __init__(self, feed, sendplan, R):
        super().__init__(feed, sendplan, R)
        self.timeouts = []  # in force when reading
        self._to = TIMEOUT
        self.log = []  # (data, flags, n or exception)

    def recv(self, bufsize, flags=0):
        self.timeouts.append(self._to)
        try:
            return super().recv(bufsize, flags)
        finally:
            self.timeouts.append(self._to)

    def _sent(self, data, flags):
        s = sched.CUR[0]
        if s is not None and s.cur is not None:
            s.yield_now()  # the kernel call is a point where others run
        try:
            n = links.SimSocket.send(self, data)
        except BaseException as e:
            self.log.append((data, flags, e))
            raise
        self.log.append((data, flags, n))
        return n

    def send(self, data, flags=0):
        return self._sent(bytes(data), flags)


def run(plan, R):
    opts = dict(plan["opts"], encoding=plan.get("enc", 0))
    data = wire = b"".join(W.b(x[1]) for x in plan["items"])
    marks = []
    if opts["encoding"]:
        wire, marks = c03.encode(data, plan["chunks"], opts["encoding"], [], 6, True)
    inter = [[p, e] for p, e in plan["inter"] if e]
    R.state(plan)
    feed = links.Feed(links.interleave(wire, plan["seg"], inter), R)
    serial = plan["kind"] == "serial"
    sock = links.SimSerial(feed, R) if serial else Sock(feed, plan["sendplan"], R)
    nmr = None
    for _ in range(100):
        try:
            nmr = drive.reader(sock, opts, lambda e: None)
            break
        except BaseException as e:  # noqa: BLE001
            if not any(e is x for x in feed.raised):
                raise
    R.check(not serial or nmr.datastream is sock, "stream-replaced", "datastream is not the stream the reader was given")
    got, writes = [], []
    # each write is made recognisable by a serial number
    jobs = []
    for w, ops in enumerate(plan["writers"]):
        jobs.append([(f"<{w}.{n}>".encode() + W.b(t), fl, typ) for n, (t, fl, typ) in enumerate(ops)])

    def write(job):
        d, fl, typ = job
        arg = {"bytearray": bytearray, "memoryview": memoryview}.get(typ, bytes)(d)
        kw = {"flags": fl} if fl and not serial else {}
        try:
            res = nmr.datastream.write(arg, **kw)
        except sched.SimAbort:
            raise
        except sched.SimHang:
            raise
        except BaseException as e:  # noqa: BLE001
            if not isinstance(e, (OSError, MemoryError)):
                raise
            res = e
        if typ == "bytearray":
            R.check(bytes(arg) == d, "write-altered", f"the caller's buffer was changed from {d!r} to {bytes(arg)!r}")
        writes.append((d, fl, res))

    def on_exc(e):
        if not any(e is x for x in feed.raised):
            raise e

    when = sorted(plan["when"], reverse=True)
    pend = [j for js in jobs for j in js] if not plan["threads"] else []

    def on_item(raw, p):
        got.append((raw, p))
        while pend and when and len(got) >= when[-1]:
            when.pop()
            write(pend.pop(0))

    if not plan["threads"]:
        while pend and when and when[-1] == 0:
            when.pop()
            write(pend.pop(0))
        drive.pump(nmr, feed, R, opts, on_item, lambda e: None, tolerate=BaseException, on_exc=on_exc)
        for j in pend:
            write(j)
        switches = 0
    else:
        def pace():
            if sched.CUR[0] is not None and sched.CUR[0].cur is not None:
                sched.CUR[0].yield_now()

        feed.pace = pace
        feed.gate = lambda n: len(writes) >= min(n, sum(len(js) for js in jobs))
        s = sched.Sched(plan["sched"], R, kernel.PKG, max_steps=6_000_000, opcodes=plan["opcodes"])

        def guard(e):
            if isinstance(e, (sched.SimAbort, sched.SimHang)):
                raise e
            on_exc(e)

        s.spawn("reader", lambda: drive.pump(nmr, feed, R, opts, on_item, lambda e: None, tolerate=BaseException, on_exc=guard))
        for w, js in enumerate(jobs):
            s.spawn(f"writer{w}", lambda js=js: [write(j) for j in js])
        out = s.run()
        if out:
            R.fail(out[0], f"reader and {len(jobs)} writers: {out}")
        for t in s.threads:
            if t.exc is not None:
                raise t.exc
        R.fault("preemption", s.preemptions)
        R.state(s.trace_sig)
        R.steps = s.steps
        switches = s.switches
    alljobs = [j for js in jobs for j in js]
    if not serial:  # nothing to write is still a call, which may fail
        before = len(sock.log)
        try:
            res = nmr.datastream.write(b"")
        except (OSError, MemoryError) as e:
            res = e
        calls = sock.log[before:]
        if [c[0] for c in calls] not in ([], [b""]) or not (isinstance(res, int) and res == 0 and not isinstance(res, bool) if not calls or isinstance(calls[0][2], int) else res is calls[0][2]):
            R.fail("write-altered", f"an empty write returned {res!r}, the stream was handed {calls!r}")
        del sock.log[before:]
    R.ev(writes if serial else [(d, fl, n if isinstance(n, int) else type(n).__name__) for d, fl, n in sock.log])
    # what the socket was given
    if serial:
        log = [(d, 0, len(d)) for d in sock.writes]
    else:
        log = sock.log
    for w, js in enumerate(jobs):
        tag = f"<{w}.".encode()
        mine = [x for x in log if x[0].startswith(tag)]
        want = [j[0] for j in js]
        if [x[0] for x in mine] != want:
            R.fail("write-altered", f"writer {w} wrote {want!r}, the stream was handed {[x[0] for x in mine]!r}")
        if not serial and [x[1] for x in mine] != [j[1] for j in js]:
            R.fail("write-altered", f"writer {w}: flags {[x[1] for x in mine]} instead of {[j[1] for j in js]}")
        results = [x for x in writes if x[0].startswith(tag)]
        for (d, _, res), (_, _, n) in zip(results, mine):
            if isinstance(n, BaseException):
                R.check(res is n, "write-error-lost", lambda: f"write of {d!r} failed with {n!r}, the caller saw {res!r}")
            else:
                R.check(res == n and isinstance(res, int), "write-count", lambda: f"the stream took {n} of {len(d)} bytes of {d!r}, the caller was told {res!r}")
    if len(log) != len(alljobs):
        R.fail("write-altered", f"{len(alljobs)} writes reached the stream as {len(log)} calls: {[x[0] for x in log]!r}")
    taken = b"".join(d[:n] for d, _, n in log if isinstance(n, int))
    have = bytes(sock.written if serial else sock.sent)
    R.check(have == taken, "write-altered", f"{have!r} != {taken!r}")
    # reading is unaffected
    if bytes(feed.delivered) != wire:
        R.fail("not-read", f"only {len(feed.delivered)} of {len(wire)} bytes were read from the stream")
    hurt, soft = c03.hurts(feed, marks, opts["encoding"]) if opts["encoding"] else (set(feed.interrupts), ())
    drive.judge_stream(R, data, not serial, hurt, opts["mode"], opts["validate"], got, plan["kind"], soft=soft)
    R.probe(f"encoding:{opts['encoding']}")
    if not serial:
        R.check(all(t == TIMEOUT for t in sock.timeouts) and sock.gettimeout() == TIMEOUT, "timeout-changed",
                lambda: f"the socket's time-out of {TIMEOUT} s was {sorted(set(map(str, sock.timeouts)))} during reads, {sock.gettimeout()} at the end")
    R.delivered += len(log)
    R.probe("writes", len(log))
    R.probe("threads:%d" % plan["threads"])
    R.info["nontrivial"] = bool(got) and bool(log) and (switches > 2 or any(not isinstance(n, int) or n < len(d) for d, _, n in log))
