"""C08: a sentence is delivered as soon as it has arrived, without reading ahead."""
import io

from .. import drive, icd, links, workload as W

ID = "C08"


def gen(r, i, tier):
    mode = r.choice([0, 0, 0, 1, 2])
    what = r.choice(["live", "live", "pos", "pos", "resume", "crash"])
    fl = r.choice(["socket", "socket", "serial", "readonly", "buffered"]) if what == "live" else r.choice(["serial", "readonly", "bytesio", "rawfile"])
    its = W.items(r, mode, r.choice([1, 3, 6, 12] if tier == "quick" else [6, 20, 40]), r.choice([0, 0.2, 0.5]))
    data = b"".join(W.b(x[1]) for x in its)
    return {"what": what, "flavour": fl, "items": its, "seg": [len(s) for s in links.segment(r, data)],
            "stops": [r.choice([0, 1, 1, 2, 3, 5]) for _ in range(r.randint(1, 6))],
            "crash": sorted(r.randint(0, len(data)) for _ in range(r.randint(1, 4))),
            "opts": {"mode": mode, "validate": r.choice([1, 1, 3, 0]), "quit": r.choice([0, 1, 1, 2]),
                     "bufsize": r.choice([1, 5, 64, 4096]), "style": r.choice(["read", "iter"])}}


class Killed(BaseException):
    """the process dies here"""


def musts(data, crlf, opts):
    return [c for c in drive.candidates(data, crlf, set(), opts["mode"], opts["validate"]) if c[3]]


def run(plan, R):
    data = b"".join(W.b(x[1]) for x in plan["items"])
    R.state(plan)
    R.probe(plan["what"] + ":" + plan["flavour"])
    if plan["what"] == "live":
        live(plan, data, R)
    elif plan["what"] == "pos":
        position(plan, data, R)
    else:
        resume(plan, data, R)


def live(plan, data, R):
    """The link goes quiet after each segment; nothing complete may still be withheld."""
    fl, opts = plan["flavour"], plan["opts"]
    crlf = drive.is_crlf(fl)
    must = musts(data, crlf, opts)
    ends = [c[1] for c in must]
    stream, feed = drive.make_stream(fl, links.feed_events(links.cut(data, plan["seg"])), R)
    got = []
    count = [0]

    def starve():
        have = len(feed.delivered)
        due = sum(1 for e in ends if e <= have)
        # an exact stall: whatever arrived complete must have been handed over before waiting for more
        if count[0] < due:
            R.fail("withheld", f"{fl}: the reader waits for more although {must[count[0]][2]!r} has arrived completely "
                               f"({have} bytes received, {due} sentences complete, {count[0]} delivered)")
        R.probe("stalls")

    feed.on_starve = starve
    rest = list(must)

    def item(raw, p):
        got.append((raw, p))
        if rest and rest[0][2] == raw:
            rest.pop(0)
            count[0] += 1

    nmr = drive.reader(stream, opts, lambda e: None)
    drive.pump(nmr, feed, R, opts, item, lambda e: None)
    drive.judge_stream(R, data, crlf, set(), opts["mode"], opts["validate"], got, fl)
    R.info["nontrivial"] = len(must) > 1 and len(plan["seg"]) > 1


class RawFile(io.RawIOBase):
    """An unbuffered file: returns exactly what is asked for."""

    def __init__(self, data):
        super().__init__()
        self.b = io.BytesIO(data)

    def readable(self):
        return True

    def seekable(self):
        return True

    def readinto(self, b):
        return self.b.readinto(b)

    def seek(self, o, w=0):
        return self.b.seek(o, w)

    def tell(self):
        return self.b.tell()


def open_at(fl, data, off, segs, R):
    """-> (stream, position function relative to data)"""
    if fl == "bytesio":
        s = io.BytesIO(data)
        s.seek(off)
        return s, s.tell, None
    if fl == "rawfile":
        s = RawFile(data)
        s.seek(off)
        return s, s.tell, None
    feed = links.Feed(links.feed_events(links.cut(data[off:], segs)), R)
    if fl == "readonly":
        s = links.ReadOnly(feed)
        return s, (lambda: off + s._s.pos), feed
    s = links.SimSerial(feed, R)
    return s, (lambda: off + s.pos), feed


def one(nmr, style):
    try:
        if style == "iter":
            return next(nmr)
        return nmr.read()
    except StopIteration:
        return (None, None)


def position(plan, data, R):
    fl, opts = plan["flavour"], plan["opts"]
    stream, tell, _ = open_at(fl, data, 0, plan["seg"], R)
    nmr = drive.reader(stream, opts, lambda e: None)
    prev = 0
    n = 0
    for _ in range(20000):
        try:
            raw, p = one(nmr, opts["style"])
        except drive.DOCUMENTED:
            continue
        if raw is None and p is None:
            break
        n += 1
        pos = tell()
        R.ev("pos", pos, raw)
        if data[pos - len(raw):pos] != raw or pos - len(raw) < prev:
            R.fail("read-ahead", f"{fl}: after {raw!r} the stream is at {pos}, not right behind that sentence "
                                 f"(previous position {prev}, there: {data[max(0, pos - 8):pos]!r})")
        prev = pos
        R.delivered += 1
    R.info["nontrivial"] = n > 1


def resume(plan, data, R):
    """Stop (or die) and continue with a new reader from the checkpoint."""
    fl, opts = plan["flavour"], plan["opts"]
    got = []
    off = 0
    stops = list(plan["stops"])
    crashes = sorted(set(plan["crash"]))
    lives = 0
    while lives < 60:
        lives += 1
        stream, tell, feed = open_at(fl, data, off, plan["seg"], R)
        nmr = drive.reader(stream, opts, lambda e: None)
        k = stops.pop(0) if stops else 10**9
        if plan["what"] == "crash" and crashes and feed is not None:
            at = crashes.pop(0)

            def starve(at=at, base=off, feed=feed):
                if base + len(feed.delivered) >= at:
                    raise Killed()

            feed.on_starve = starve
        done = False
        try:
            n = 0
            while n < k:
                try:
                    raw, p = one(nmr, opts["style"])
                except drive.DOCUMENTED:
                    continue
                if raw is None and p is None:
                    done = True
                    break
                n += 1
                got.append((raw, p))
                off = tell()  # the checkpoint: where the stream stands
                R.ev("item", raw, off)
                R.delivered += 1
        except Killed:
            R.fault("process-killed")
            continue
        if done:
            break
        R.fault("restart")
    if lives >= 60:
        R.fail("no-progress", "the stream never came to its end")
    drive.judge_stream(R, data, False, set(), opts["mode"], opts["validate"], got, f"{fl} restarted {lives - 1} times")
    R.info["nontrivial"] = lives > 1 and len(got) > 1
