"""C17: a polling application built on threads and queues neither loses nor repeats."""
import os
import sys
import threading
import types

import pynmeagps

from .. import drive, env, icd, kernel, links, sched, workload as W

ID = "C17"
THREADED = True
EXAMPLE = "/repo/examples/nmeapoller.py"
QUECTEL = "/repo/examples/quecteldemo.py"
MSGIDS = ["GGA", "GLL", "GSA", "GSV", "RMC", "VTG", "ZDA", "GNS", "TXT", "GBS"]


def gen(r, i, tier):
    app = r.choice(["poller", "poller", "quectel"])
    main = r.random() < 0.35
    nq = r.choice([1, 2, 3]) if main else r.choice([0, 1, 3, 8])
    big = tier != "quick"
    its = W.items(r, 0, r.choice([2, 5, 9, 14] if not big else [5, 15, 30]), r.choice([0, 0.15, 0.4]))
    at, arr = 0, []
    # the receiver's output: groups of bytes with pauses, also inside sentences
    for x in its:
        d = W.b(x[1])
        at += r.choice([0, 1000, 60_000, 200_000, 400_000])
        k = r.random()
        if k < 0.75 or len(d) < 2:
            arr.append([at, W.t(d)])
        else:
            p = r.randint(1, len(d) - 1)
            arr.append([at, W.t(d[:p])])
            at += r.choice([10, 5000, 150_000, 900_000, 2_500_000])
            if r.random() < 0.6:
                arr.append([at, W.t(d[p:])])
            # else the rest of it is lost
    errs = sorted(r.randint(0, max(1, at)) for _ in range(r.choice([0, 0, 0, 1, 3])))
    if app == "quectel":
        q = [r.choice(COMMANDS) for _ in range(nq)]
        ctrlc = r.choice([0, 2, 7, 30, 45, 60, 60, 60])
        if main:  # this application sends some 50 messages
            at += r.choice([0, 3_000_000, 6_000_000])
    else:
        q = [r.choice(MSGIDS) for _ in range(nq)]
        ctrlc = r.choice([-1, -1, 0, 1, 2])
    return {"app": app, "qtmonly": r.choice([0, 0, 1]) if app == "quectel" else 0, "main": main, "queries": q, "arr": arr, "errs": errs,
            "qat": sorted(r.randint(0, max(1, at)) for _ in range(nq)), "timeout": r.choice([50_000, 300_000, 1_000_000, 3_000_000]),
            "consumer": r.choice(["example", "blocking", "blocking"]) if not main else "example",
            "tail": r.choice([0, 100_000, 4_000_000]), "ctrlc": ctrlc if main else -1,
            "lag": r.choice([0, 2000, 300_000]), "us": r.choice([20, 50, 50]) if app == "poller" or not main else r.choice([200, 300]), "opcodes": r.random() < 0.2 and (app == "poller" or not main),
            "sched": sched.gen_choices(r, r.choice([100, 400, 1500]), 3)}


# commands and queries of the other application: message id, mode, arguments, expected content
COMMANDS = [
    ["QTMVERNO", 2, {}, "PQTMVERNO"], ["QTMSAVEPAR", 1, {}, "PQTMSAVEPAR"], ["QTMHOT", 1, {}, "PQTMHOT"], ["QTMSRR", 1, {}, "PQTMSRR"],
    ["QTMCFGRCVRMODE", 1, {"rcvrmode": 2}, "PQTMCFGRCVRMODE,W,2"], ["QTMCFGFIXRATE", 2, {}, "PQTMCFGFIXRATE,R"],
    ["QTMCFGFIXRATE", 1, {"fixinterval": 1000}, "PQTMCFGFIXRATE,W,1000"], ["QTMCFGUART", 1, {"baudrate": 460800}, "PQTMCFGUART,W,460800"],
    ["QTMCFGUART", 1, {"portid": 2, "baudrate": 115200}, "PQTMCFGUART,W,2,115200"], ["QTMCFGUART", 2, {"portid": 3}, "PQTMCFGUART,R,3"],
]

# what the unchanged demo makes up without sending it (it sends the message before once more)
UNSENT = [icd.frame(x) for x in ("PQTMCFGUART,W,460800", "PQTMCFGUART,W,2,115200", "PQTMCFGUART,W,460800,8,0,1,0", "PQTMCFGUART,W,2,115200,8,0,1,0",
                                 "PQTMCFGSAT,W,1,1,FFFFFFFF", "PQTMCFGSIGNAL,W,7,3,F,3F,7,1")]


class TimedFeed:
    """Bytes that arrive at given simulated times."""

    def __init__(self, arr, errs, timeout, R):
        self.arr = sorted(([t, 0, n, d.encode("latin-1")] for n, (t, d) in enumerate(arr)), key=lambda x: (x[0], x[2]))
        self.errs = list(errs)
        self.timeout = timeout
        self.seg = b""
        self.calls = 0
        self.delivered = bytearray()
        self.interrupts = []
        self.arrived = 0
        self.R = R
        self.last = 0

    def add(self, t, d):
        # behind whatever is already in transit: a serial line does not reorder
        t = max([t] + [x[0] for x in self.arr])
        self.arr.append([t, 1, 0, d])

    def next_event(self):
        s = sched.CUR[0]
        if s is None or s.cur is None:
            return "t"
        end = env.CLOCK.mono + self.timeout
        while True:
            s.yield_now()
            now = env.CLOCK.mono
            if self.errs and self.errs[0] <= now:
                self.errs.pop(0)
                self.R.fault("read-error")
                self.interrupts.append(len(self.delivered))
                raise OSError(5, "device reports readiness to read but returned no data")
            if self.arr and self.arr[0][0] <= now:
                self.last, _, _, self.seg = self.arr.pop(0)
                if self.seg:
                    return "d"
                continue
            if now >= end:
                self.interrupts.append(len(self.delivered))
                self.R.fault("timeout")
                return "t"
            nxt = min([end] + [x for x in self.errs[:1]] + [x[0] for x in self.arr[:1]])
            s.block(None, max(1, nxt - now))

    def discard(self):
        """Throw away everything that has arrived."""
        self.take(len(self.seg))
        while self.arr and self.arr[0][0] <= env.CLOCK.mono + 1000:
            self.last, _, _, d = self.arr.pop(0)
            self.delivered += d

    def take(self, n):
        out, self.seg = self.seg[:n], self.seg[n:]
        self.delivered += out
        return out


class Port(links.SimSerial):
    """The receiver: answers GNQ queries among everything else it sends."""

    lag = 0

    def write(self, data):
        s = sched.CUR[0]
        if s is not None and s.cur is not None:
            s.yield_now()
        data = bytes(data)
        self.writes.append((env.CLOCK.mono, data))
        hdr = data[1:].partition(b"*")[0].split(b",")
        if hdr[0].startswith(b"PQTM"):
            self.feed.add(env.CLOCK.mono + self.lag, icd.frame(hdr[0].decode() + ",OK"))
        elif len(hdr) == 2 and hdr[0].endswith(b"GNQ"):
            self.feed.add(env.CLOCK.mono + self.lag, icd.frame(f"GNTXT,01,01,02,{hdr[1].decode()} {len(self.writes)}"))
        return len(data)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def load(port, opened, path):
    """The example program, unmodified, with its serial port simulated."""
    mod = types.ModuleType("example_under_test")
    mod.__file__ = path

    def Serial(*a, **k):
        opened.append((a, k))
        return port

    fake = types.ModuleType("serial")
    fake.Serial = Serial
    had = sys.modules.get("serial")
    sys.modules["serial"] = fake
    try:
        with open(path, encoding="utf-8") as f:
            src = f.read()
        exec(compile(src, os.path.realpath(path), "exec"), mod.__dict__)  # pylint: disable=exec-used
    finally:
        if had is None:
            del sys.modules["serial"]
        else:
            sys.modules["serial"] = had
    return mod


def run(plan, R):
    R.state(plan)
    feed = TimedFeed(plan["arr"], plan["errs"], max(1000, plan["timeout"]), R)
    port = Port(feed, R)
    port.lag = plan["lag"]
    opened = []
    quectel = plan.get("app") == "quectel"
    if quectel and not plan["main"] and any(not isinstance(q, list) or q not in COMMANDS for q in plan["queries"]):
        raise kernel.PlanInvalid()
    if quectel and plan["main"] and plan["ctrlc"] < 0:
        raise kernel.PlanInvalid()  # it runs until it is interrupted
    mod = load(port, opened, QUECTEL if quectel else EXAMPLE)
    s = sched.Sched(plan["sched"], R, kernel.PKG, max_steps=6_000_000, opcodes=plan["opcodes"],
                    also=(os.path.dirname(os.path.realpath(EXAMPLE)) + os.sep,))
    s.also_us = max(20, plan["us"])
    import queue as q

    puts, sends, printed, stops, other = [], [], [], [], []

    class RecQueue(q.Queue):
        def put(self, item, block=True, timeout=None):
            if isinstance(item, tuple):
                puts.append((env.CLOCK.mono, item))
            else:
                sends.append((env.CLOCK.mono, item))
            super().put(item, block, timeout)

    class RecEvent(threading.Event):
        def set(self):
            if not stops:
                stops.append(env.CLOCK.mono)
            super().set()

    nsleep = [0]

    def sleep(x):
        n = nsleep[0]
        nsleep[0] += 1
        if n == plan["ctrlc"]:
            s.block(None, int(x * 3e5))
            R.fault("ctrl-c")
            raise KeyboardInterrupt()
        s.block(None, max(1, int(x * 1e6)))

    def out(*a, **k):
        for x in a:
            if isinstance(x, pynmeagps.NMEAMessage):
                printed.append((env.CLOCK.mono, x))
            elif str(x).startswith("Receiving "):
                printed.append((env.CLOCK.mono, str(x)))
            else:
                other.append(str(x))
        s.yield_now()

    mod.Queue, mod.Event, mod.sleep, mod.print = RecQueue, RecEvent, sleep, out
    made = []

    def make(*a, **k):
        m = pynmeagps.NMEAMessage(*a, **k)
        made.append(m)
        return m

    if quectel:
        mod.NMEAMessage = make
        process = (plan["qtmonly"],)
        show = lambda x: f"Receiving {x}"  # noqa: E731
    else:
        mod.NMEA_MSGIDS = {x: x for x in plan["queries"]}
        process, show = (), lambda x: x
    tmo = feed.timeout
    if plan["main"]:
        s.spawn("main", lambda: mod.main(port="sim", timeout=tmo / 1e6, **({"qtmonly": plan["qtmonly"]} if quectel else {})))
        last_send = None
    else:
        nmr = pynmeagps.NMEAReader(port)
        rq, sq, ev = RecQueue(), RecQueue(), RecEvent()

        def consume():
            while io.state != "done" or not rq.empty():
                try:
                    item = rq.get(timeout=0.2)
                except q.Empty:
                    continue
                out(show(item[1]))
                rq.task_done()

        def boss():
            for at, x in zip(plan["qat"], plan["queries"]):
                s.block(None, max(1, at - env.CLOCK.mono))
                if quectel:
                    mod.send(sq, make("P", x[0], x[1], **x[2]), 0.001)
                else:
                    sq.put(pynmeagps.NMEAMessage("EI", "GNQ", 2, msgId=x))
            end = max([x[0] for x in plan["arr"]] + plan["qat"] + [0]) + plan["tail"]
            s.block(None, max(1, end - env.CLOCK.mono))
            ev.set()

        io = s.spawn("io", lambda: mod.io_data(nmr, rq, sq, ev))
        if plan["consumer"] == "example":
            s.spawn("process", lambda: mod.process_data(rq, ev, *process))
        else:
            s.spawn("consumer", consume)
        s.spawn("boss", boss)
    res = s.run()
    R.steps = s.steps
    R.ev([(t, x[0]) for t, x in puts], [(t, x.serialize()) for t, x in sends], port.writes, len(printed), stops)
    if res:
        R.fail(res[0], f"the application did not come to an end: {res}")
    for t in s.threads:
        if t.exc is not None:
            raise t.exc
    R.check(len(stops) == 1, "not-stopped", "the stop signal was never set")
    stop = stops[0]
    slack = 1_500_000
    # a read in progress when the stop signal comes may last two time-outs beyond the last byte (one ends a line, one the read)
    limit = max(stop, feed.last) + 2 * tmo + slack
    R.check(env.CLOCK.mono <= limit, "slow-stop", lambda: f"stopped {env.CLOCK.mono - stop} us after the signal (time-out {tmo} us)")
    # receiver -> application
    data = bytes(feed.delivered)
    drive.judge_stream(R, data, False, set(feed.interrupts), 0, 1, [x for _, x in puts], "read queue")
    if feed.seg or any(a[0] < stop - slack - 200_000 * len(feed.arr) for a in feed.arr):
        if not feed.seg or feed.last < stop - slack - 200_000 * len(feed.arr):
            R.fail("not-read", f"bytes which had arrived were never read: {feed.seg!r} {feed.arr[:2]!r} (stop at {stop})")
    shown = [(t, x) for t, x in puts if not (quectel and plan["qtmonly"] and plan["consumer"] == "example" and "QTM" not in x[1].identity)]
    if [x if quectel else id(x) for _, x in printed] != [show(x[1]) if quectel else id(x[1]) for _, x in shown[: len(printed)]]:
        R.fail("consumer-differs", f"queued {[x[0] for _, x in shown]}, consumed {[str(x) for _, x in printed]}")
    due = [x for t, x in shown if t < stop - slack] if plan["consumer"] == "example" else shown
    if len(printed) < len(due):
        R.fail("consumer-differs", f"{len(due)} messages were due, {len(printed)} consumed")
    # application -> receiver
    want = [m.serialize() for _, m in sends]
    if quectel:
        # whatever the application makes up it also sends, in that order
        mk = [m.serialize() for m in made]
        if plan["main"] and not plan.get("strict"):
            # known finding (known/C17-quectel-unsent.json): these six commands are made once and what went before is sent again
            left = set(UNSENT)
            for j in range(1, min(len(mk), len(want))):
                if mk[j] in left:
                    left.discard(mk[j])
                    if want[j] == want[j - 1]:
                        mk[j] = want[j]
        if want != mk[: len(want)] or (len(mk) > len(want) and "Terminated" not in " ".join(other)):
            at = next((j for j, (a, b) in enumerate(zip(want, mk)) if a != b), min(len(want), len(mk)))
            R.fail("command-not-queued", f"command {at}: made {mk[at:at + 1]}, queued {want[at:at + 1]}")
        if plan["main"] and plan["ctrlc"] >= 60 and len(mk) != len(want):
            R.fail("command-not-queued", f"{len(mk)} commands were made, {len(want)} queued")
    for m, x in zip(want, plan["queries"]):
        if not plan["main"] and m != icd.frame(x[3] if quectel else f"EIGNQ,{x}"):
            R.fail("wrong-content", f"query for {x} became {m!r}")
    have = [d for _, d in port.writes]
    if have != want[: len(have)]:
        R.fail("query-altered", f"queued {want}, the receiver got {have}")
    # a query is sent when the read in progress returns: with a sentence or after two time-outs
    late = [m for t, m in zip([t for t, _ in sends], want) if t + 2 * tmo + slack < stop]
    quiet = max([0] + [a[0] for a in plan["arr"]])
    if len(have) < len(late) and quiet + 2 * tmo + slack < stop:
        R.fail("query-lost", f"{len(late)} queries were due, the receiver got {have}")
    if plan["main"]:
        R.check(len(opened) == 1 and opened[0][1].get("timeout") == tmo / 1e6, "port-options", lambda: f"port opened with {opened}")
    R.delivered += len(puts) + len(have)
    R.probe("sentences", len(puts))
    R.probe("queries", len(have))
    R.probe("main" if plan["main"] else "consumer:" + plan["consumer"])
    R.fault("preemption", s.preemptions)
    R.state(s.trace_sig)
    R.info["nontrivial"] = s.switches > 10 and bool(puts) and bool(have)
