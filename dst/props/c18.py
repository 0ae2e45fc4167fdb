"""C18: the supplied file, socket, track and web programs report what was received."""
import http.server
import io
import json
import os
import sys
import types
from xml.etree import ElementTree

import pynmeagps

from .. import drive, env, icd, kernel, links, sched, workload as W
from . import c17

ID = "C18"
THREADED = True
DIR = "/repo/examples/"
FILES = {"file": "nmeafile.py", "socket": "nmeasocket.py", "gpx": "gpxtracker.py", "web": "webserver/nmeaserver.py"}
# what the programs show of a sentence: (field shown, attribute, as text)
SHOW = {
    "RMC": [("date", "date", 1), ("time", "time", 1), ("latitude", "lat", 0), ("longitude", "lon", 0), ("speed", "spd", 0), ("track", "cog", 0)],
    "GGA": [("time", "time", 1), ("latitude", "lat", 0), ("longitude", "lon", 0), ("elevation", "alt", 0), ("siv", "numSV", 0), ("hdop", "HDOP", 0)],
    "GSA": [("fix", "navMode", 0), ("pdop", "PDOP", 0), ("hdop", "HDOP", 0), ("vdop", "VDOP", 0)],
}
TRACK = ("time", "quality", "lat", "lon", "alt", "HDOP")


def complete(r, keys, p_empty, timed):
    while True:
        c = icd.gen_content(r, 0, r.choice(keys), p_empty, p_trunc=0)
        if not timed or c[2:5] != "GGA" or c.split(",")[1]:
            return icd.frame(c)


def gen(r, i, tier):
    app = r.choice(["file", "socket", "gpx", "gpx", "web", "web"])
    n = W.scale(r, r.choice([1, 3, 6, 12] if tier == "quick" else [6, 20, 40]))
    if app in ("file", "socket"):
        its = W.lengthen(r, W.items(r, 0, n, r.choice([0, 0.2, 0.5])))
    else:
        n = min(n, 60)
        mine = [k for k in icd.keys_for(0) if k[1] in SHOW]
        keys = [k for k in mine if k[1] == "GGA"] * 3 + mine if app == "gpx" else mine
        timed, pe = r.random() < 0.8, r.choice([0, 0, 0.1, 0.3])
        its = []
        for _ in range(n):
            k = r.random()
            if k < 0.7:
                its.append(["ok", W.t(complete(r, keys, pe, timed))])
            elif k < 0.8:
                its.append(["ok", W.t(complete(r, icd.keys_for(0), 0.1, timed))])
            elif k < 0.9 or app == "gpx":  # other protocols on the line
                its.append(["gap", W.t(W.rand_bytes(r, r.randint(1, 40)).replace(b"$", b"%") + r.choice([b"", b"\r\n"]))])
            else:
                its.append(["bad", W.t(W.flip(r, complete(r, keys, pe, timed)) + r.choice([b"", b"\r\n"]))])
    data = b"".join(W.b(x[1]) for x in its)
    plan = {"app": app, "items": its, "t0": r.randint(0, 2_000_000_000) * 1_000_000 + r.randint(0, 999_999), "tz": r.choice(icd.TZS)}
    if app == "web":
        at, arr = 0, []
        for x in its:
            d = W.b(x[1])
            at += r.choice([0, 0, 0, 1000, 60_000, 400_000, 1_500_000])
            p = r.randint(1, len(d)) if r.random() < 0.2 else len(d)
            arr.append([at, W.t(d[:p])])
            if p < len(d):
                at += r.choice([10, 5000, 90_000, 250_000])
                arr.append([at, W.t(d[p:])])
        plan.update(arr=arr, asks=sorted(r.randint(0, at + 500_000) for _ in range(r.choice([1, 4, 12]))), timeout=r.choice([20_000, 100_000, 500_000]),
                    us=r.choice([50, 200]), opcodes=r.random() < 0.15, sched=sched.gen_choices(r, r.choice([60, 300, 1000]), 3))
        return plan
    inter = []
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        e = ["w", r.choice([1000, 2_000_000])]
        if r.random() < 0.6:
            e = r.choice([["e", "KeyboardInterrupt"], ["e", "ConnectionResetError"], ["t"], ["z"]]) if app == "socket" else ["e", r.choice(["OSError", "KeyboardInterrupt"])]
        inter.append([r.randint(0, len(data)), e])
    plan.update(seg=[len(s) for s in links.segment(r, data)], inter=inter, bufsize=r.choice([1, 16, 64, 4096, 8192]),
                full=r.choice([-1, -1, -1, 0, 1, 2, r.randint(0, 14)]) if app == "gpx" else -1)
    return plan


class Recorder:
    """Everything the reader hands to the program."""

    def __init__(self):
        self.got = []  # (raw, parsed)
        self.back = []  # tick at which it was handed over
        self.ready = []  # tick at which the program came back for more
        self.real = None
        self.n = 0

    def tick(self):
        self.n += 1
        return self.n

    def __call__(self, *a, **k):
        self.real = pynmeagps.NMEAReader(*a, **k)
        return self

    def _take(self, fn):
        if len(self.ready) < len(self.back):
            self.ready.append(self.tick())
        raw, p = fn()
        if raw is not None or p is not None:
            self.got.append((raw, p))
            self.back.append(self.tick())
        return raw, p

    def read(self):
        return self._take(self.real.read)

    def __next__(self):
        return self._take(lambda: next(self.real))

    def __iter__(self):
        return self


class Out:
    """A text file on a disk that may be full."""

    def __init__(self, full, R):
        self.full, self.R = full, R
        self.text = ""
        self.writes = 0
        self.closed = False

    def write(self, s):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if self.writes == self.full:
            self.R.fault("disk-full")
            raise OSError(28, "No space left on device")
        self.writes += 1
        self.text += s
        return len(s)

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Conn(links.SimSocket):
    peer = None

    def connect(self, addr):
        self.peer = addr

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def load(name, extra=()):
    """The program, unmodified, with the modules it imports replaced where given."""
    path = DIR + FILES[name]
    mod = types.ModuleType("example_under_test")
    mod.__file__ = path
    had = {k: sys.modules.get(k) for k, _ in extra}
    for k, m in extra:
        sys.modules[k] = m
    try:
        with open(path, encoding="utf-8") as f:
            src = f.read()
        exec(compile(src, os.path.realpath(path), "exec"), mod.__dict__)  # pylint: disable=exec-used
    finally:
        for k, m in had.items():
            if m is None:
                del sys.modules[k]
            else:
                sys.modules[k] = m
    return mod


def run(plan, R):
    R.state(plan)
    R.probe("app:" + plan["app"])
    if plan["app"] == "web":
        return web(plan, R)
    data = b"".join(W.b(x[1]) for x in plan["items"])
    once(plan, R, data, plan["inter"], plan["full"])
    if plan["app"] != "socket" and (plan["inter"] or plan["full"] >= 0):
        once(plan, R, data, [], -1)  # run again after the failure


def once(plan, R, data, inter, full):
    app = plan["app"]
    ok = ("w", "e") if app != "socket" else ("w", "e", "t", "z")
    if any(x[1][0] not in ok for x in inter):
        raise kernel.PlanInvalid()
    feed = links.Feed(links.interleave(data, plan["seg"], inter), R)
    rec = Recorder()
    msgs, lines = [], []
    out = Out(full, R)

    def show(*a, **k):
        for x in a:
            if x is None or isinstance(x, pynmeagps.NMEAMessage):
                msgs.append(x)
            else:
                lines.append(str(x))

    def opener(name, mode="r", **k):
        return out if mode[0] in "aw" else io.BufferedReader(links.SimRaw(feed), max(1, plan["bufsize"]))

    mod = load(app)
    mod.print, mod.NMEAReader = show, rec
    if app == "socket":
        conn = Conn(feed, R=R)
        mod.socket = types.SimpleNamespace(AF_INET=2, SOCK_STREAM=1, socket=lambda *a, **k: conn)
        args = {"ipaddress": "receiver", "ipport": "50012"}
    else:
        mod.open = opener
        args = {"filename": "dump.log"} if app == "file" else {"infile": "dump.log", "outdir": "."}
    env.CLOCK.tick = 50  # looking at the clock takes time
    exc = None
    try:
        mod.main(**args)
    except (Exception, KeyboardInterrupt) as e:  # pylint: disable=broad-exception-caught
        exc = e
    where = f"{FILES[app]}"
    R.ev([g[0] for g in rec.got], len(msgs), lines[-1:], out.text, type(exc).__name__)
    val = 0 if app == "gpx" else 1
    crlf = app == "socket"
    broken = exc is not None
    drive.judge_stream(R, bytes(feed.delivered), crlf, set(feed.interrupts), 0, val, rec.got, where,
                       require_all=not broken or bool(feed.raised) and exc is feed.raised[-1])
    R.delivered += len(rec.got)
    R.info["nontrivial"] = bool(R.info.get("nontrivial")) or len(rec.got) > 1
    if app == "gpx":
        return track(plan, R, rec, feed, out, exc, lines)
    if feed.raised and not (app == "socket" and isinstance(feed.raised[-1], (OSError, KeyboardInterrupt))):
        R.check(exc is feed.raised[-1], "error-hidden", lambda: f"{where}: reading failed with {feed.raised[-1]!r}, the program ended with {exc!r}")
    elif exc is not None:
        raise exc
    if [id(x) for x in msgs] != [id(p) for _, p in rec.got]:
        R.fail("not-shown", f"{where}: {len(rec.got)} messages were read, shown: {msgs}")
    if app == "socket":
        R.check(conn.peer == ("receiver", 50012), "wrong-peer", lambda: f"connected to {conn.peer}")
        stop = [e for e in feed.raised if isinstance(e, KeyboardInterrupt)]
        if stop:
            R.check(any(x.startswith(f"{len(msgs):,d} messages read") for x in lines), "wrong-count", lambda: f"{where}: {len(msgs)} messages shown, report: {lines}")
    elif exc is None:
        R.check(f"\n{len(msgs)} messages read.\n" in lines, "wrong-count", lambda: f"{where}: {len(msgs)} messages shown, report: {lines}")
    return None


def track(plan, R, rec, feed, out, exc, lines):
    """One track point per position sentence, with the values received."""
    where = FILES["gpx"]
    gga = [p for _, p in rec.got if p is not None and p.msgID == "GGA"]
    if exc is not None:
        if feed.raised and exc is feed.raised[-1]:
            return
        if isinstance(exc, OSError) and exc.errno == 28 and out.full >= 0:
            return
        last = rec.got[-1][1] if rec.got else None
        if isinstance(exc, AttributeError) and gga and gga[-1] is last and last.time == "":
            # known finding (known/C18-gpx-notime.json): a position without a time ends the program and the track
            if plan.get("strict"):
                R.fail("track-lost", f"{where}: {rec.got[-1][0]!r} ended the program ({exc!r}) with {len(gga) - 1} points in an unfinished track")
            R.probe("position-without-time")
            return
        if last is None or any(not hasattr(last, a) for a in TRACK):
            raise kernel.PlanInvalid()  # not a complete sentence (left by the minimiser)
        raise exc
    if feed.raised:
        R.fail("error-hidden", f"{where}: reading failed with {feed.raised[-1]!r}, the program ended normally")
    if out.full >= 0 and out.writes == out.full and out.full < len(gga) + 2:
        R.fail("error-hidden", f"{where}: the disk was full, the program ended normally")
    R.check(out.closed, "not-closed", f"{where}: the track file was left open")
    try:
        root = ElementTree.fromstring(out.text)
    except ElementTree.ParseError as e:
        R.fail("track-malformed", f"{where}: {e}: {out.text[-200:]!r}")
    ns = "{http://www.topografix.com/GPX/1/1}"
    pts = root.findall(f"./{ns}trk/{ns}trkseg/{ns}trkpt")
    if len(pts) != len(gga):
        R.fail("track-differs", f"{where}: {len(gga)} positions received, {len(pts)} track points")
    for p, m in zip(pts, gga):
        have = (p.get("lat"), p.get("lon"), p.findtext(ns + "ele") or "", p.findtext(ns + "hdop") or "", p.findtext(ns + "time")[11:19])
        want = (str(m.lat), str(m.lon), str(m.alt), str(m.HDOP), m.time.strftime("%H:%M:%S"))
        if have != want:
            R.fail("track-differs", f"{where}: {m} became {have}")
    R.check(any(x.startswith(f"\n{len(gga)} GGA message") for x in lines), "wrong-count", lambda: f"{where}: {len(gga)} positions, report: {lines}")
    R.probe("points", len(pts))


class WebPort(c17.Port):
    """A port whose driver knows at any time what has arrived."""

    @property
    def in_waiting(self):
        f = self.feed
        if not f.seg and f.arr and f.arr[0][0] <= env.CLOCK.mono:
            while not f.seg and f.arr and f.arr[0][0] <= env.CLOCK.mono:
                f.last, _, _, f.seg = f.arr.pop(0)
        return len(f.seg)


def web(plan, R):
    feed = c17.TimedFeed(plan["arr"], [], max(1000, plan["timeout"]), R)
    port = WebPort(feed, R)
    serial = types.ModuleType("serial")
    serial.Serial = lambda *a, **k: port
    serial.SerialException = type("SerialException", (OSError,), {})
    serial.SerialTimeoutException = type("SerialTimeoutException", (serial.SerialException,), {})
    pages = types.ModuleType("gpshttpserver")
    with open(DIR + "webserver/gpshttpserver.py", encoding="utf-8") as f:
        exec(compile(f.read(), os.path.realpath(DIR + "webserver/gpshttpserver.py"), "exec"), pages.__dict__)  # pylint: disable=exec-used
    mod = load("web", (("serial", serial), ("gpshttpserver", pages)))
    rec = Recorder()
    mod.NMEAReader = rec
    mod.print = lambda *a, **k: None
    s = sched.Sched(plan["sched"], R, kernel.PKG, max_steps=4_000_000, opcodes=plan["opcodes"], also=(os.path.realpath(DIR) + os.sep,))
    s.also_us = max(20, plan["us"])
    answers = []  # (asked, answered, values)

    class Handler(pages.GPSHTTPHandler):
        def setup(self):
            self.rfile, self.wfile = io.BytesIO(b"GET /gps HTTP/1.0\r\n\r\n"), io.BytesIO()

        def finish(self):
            pass

        def log_message(self, *a):
            pass

    first = {}

    def ask():
        a = rec.tick()
        h = Handler(None, ("client", 1), types.SimpleNamespace(gps=gps))
        head, _, body = h.wfile.getvalue().partition(b"\r\n\r\n")
        R.check(head.split(b" ")[1] == b"200" and b"application/json" in head, "bad-response", lambda: f"web server: {head!r}")
        answers.append((a, rec.tick(), json.loads(body)))

    end = max([x[0] for x in plan["arr"]] + plan["asks"] + [0]) + 4 * feed.timeout + 1_000_000

    def boss():
        s.block(None, max(1, end - env.CLOCK.mono))
        ask()
        gps.stop_read_thread()

    def client():
        for at in plan["asks"]:
            s.block(None, max(1, at - env.CLOCK.mono))
            ask()

    gps = mod.GNSSStreamer("sim", 38400, feed.timeout / 1e6)
    first.update(gps.gpsdata)

    def main():
        gps.connect()
        gps.start_read_thread()
        c = mod.Thread(target=client)
        c.start()
        boss()
        c.join()

    s.spawn("main", main)
    res = s.run()
    R.steps = s.steps
    R.ev([g[0] for g in rec.got], answers)
    where = FILES["web"]
    if res:
        R.fail(res[0], f"{where}: did not come to an end: {res}")
    died = [t.exc for t in s.threads if t.exc is not None]
    shown = list(rec.got)
    data = bytes(feed.delivered)
    if not died:
        for _ in range(1000):  # what is left in the buffer
            raw, p = rec.real.read()
            if raw is None and p is None:
                break
            rec.got.append((raw, p))
    drive.judge_stream(R, data, False, set(feed.interrupts), 0, 1, rec.got, where, require_all=not died)
    if died:
        last = rec.got[-1][1] if rec.got else None
        if last is not None and any(not hasattr(last, a) for _, a, _ in SHOW.get(last.msgID, ())):
            raise kernel.PlanInvalid()
        raise died[0]
    # freshness: all that came before the last burst has been taken note of
    arr = sorted(plan["arr"], key=lambda x: x[0])
    cut = 0
    for x, y in zip(arr, arr[1:]):
        if y[0] - x[0] > 2 * feed.timeout + 300_000:
            cut = arr.index(y)
    old = sum(len(x[1]) for x in arr[:cut])
    due = [c for c in drive.candidates(data, False, set(feed.interrupts), 0, 1) if c[3] and c[1] <= old]
    if len(shown) < len(due):
        R.fail("stale", f"{where}: {len(due)} sentences had arrived before the last burst of data, {len(shown)} were read")
    R.probe("due-before-last-burst", len(due))
    ready = rec.ready + [rec.n] * (len(shown) - len(rec.ready))
    sets = {k: [(0, 0, v)] for k in first for v in [first[k]]}
    for (raw, p), b, e in zip(shown, rec.back, ready):
        for f, a, txt in SHOW.get(p.msgID, ()) if p is not None else ():
            v = getattr(p, a)
            sets[f].append((b, e, str(v) if txt else v))
    for a, b, vals in answers:
        R.check(set(vals) == set(first), "wrong-values", lambda: f"{where}: answered {vals}")
        for f, v in vals.items():
            h = sets[f]
            base = max((j for j, x in enumerate(h) if x[1] < a), default=0)
            okv = [x[2] for x in h[base:] if x[0] < b]
            if not any(v == x and type(v) is type(x) for x in okv):
                R.fail("wrong-values", f"{where}: {f} = {v!r} was answered, the latest received: {okv}")
    R.delivered += len(shown)
    R.fault("preemption", s.preemptions)
    R.probe("answers", len(answers))
    R.state(s.trace_sig)
    R.info["nontrivial"] = s.switches > 5 and len(shown) > 0
