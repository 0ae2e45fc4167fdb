"""Common driver: an application reading from one NMEAReader."""
import io
import logging

from . import icd, links, userdef, workload as W
from .icd import GET, VALCKSUM

import pynmeagps
from pynmeagps import exceptions as nme

DOCUMENTED = (nme.NMEAMessageError, nme.NMEAParseError, nme.NMEAStreamError, nme.NMEATypeError)


class Capture(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.records = []

    def emit(self, record):
        self.records.append(record)


def capture_log():
    h = Capture()
    lg = logging.getLogger("pynmeagps")
    lg.addHandler(h)
    return h


FLAVOURS = ["socket", "socket", "socket", "serial", "serial", "bytesio", "buffered", "buffered", "readonly", "gzipfile"]


def is_crlf(flavour):
    return flavour == "socket"


def make_stream(flavour, events, R):
    """-> (stream, feed or None)"""
    feed = links.Feed(events, R)
    if flavour == "socket":
        return links.SimSocket(feed, R=R), feed
    if flavour == "serial":
        return links.SimSerial(feed, R), feed
    if flavour == "readonly":
        return links.ReadOnly(feed), feed
    if flavour == "buffered":
        return io.BufferedReader(links.SimRaw(feed), 64), feed
    data = b"".join(e[1].encode("latin-1") for e in events if e[0] == "d")
    if flavour == "bytesio":
        return io.BytesIO(data), None
    if flavour == "gzipfile":
        import gzip

        return gzip.GzipFile(fileobj=io.BytesIO(gzip.compress(data, 1, mtime=0))), None
    raise ValueError(flavour)


def reader(stream, opts, handler=None):
    return pynmeagps.NMEAReader(
        stream,
        msgmode=opts.get("mode", GET),
        validate=opts.get("validate", VALCKSUM),
        nmeaonly=opts.get("nmeaonly", False),
        quitonerror=opts.get("quit", 1),
        bufsize=max(1, opts.get("bufsize", 4096)),
        errorhandler=handler,
        userdefined=opts["userdefined"] if "userdefined" in opts else userdef.tolib(opts.get("ud")),
        encoding=opts.get("encoding", 0),
    )


def pump(nmr, feed, R, opts, on_item, on_error=None, tolerate=(), on_exc=None, max_calls=20000):
    """Read until the stream is exhausted.

    on_item(raw, parsed); documented errors raised by read() under ERR_RAISE go
    to on_error(err).  Exceptions in `tolerate` (injected ones) are absorbed.
    """
    style = opts.get("style", "read")
    calls = 0
    idle = 0
    it = None
    strikes, R.signals = R.signals, None
    while True:
        calls += 1
        if calls > max_calls:
            R.fail("no-progress", f"{max_calls} reads without reaching the end of the stream")
        before = feed.i if feed is not None else 0
        try:
            R.signals = strikes
            if style == "iter":
                if it is None:
                    it = iter(nmr)
                try:
                    raw, parsed = next(it)
                except StopIteration:
                    raw = parsed = None
            else:
                raw, parsed = nmr.read()
            R.signals = None
        except DOCUMENTED as e:
            R.signals = None
            if on_error is None:
                R.fail("unexpected-error", f"{type(e).__name__}: {e}")
            R.ev("raised", type(e).__name__)
            on_error(e)
            continue
        except tolerate as e:  # injected by the simulated stream
            R.signals = None
            R.ev("propagated", type(e).__name__)
            if on_exc:
                on_exc(e)
            continue
        if raw is None and parsed is None:
            R.ev("end-of-stream")
            if feed is None or not feed.more():
                idle += 1
                if idle >= 2:  # asked again after the end: must stay ended
                    return
            elif feed.i == before and feed.calls == 0:
                R.fail("no-progress", "end of stream reported without reading")
            continue
        idle = 0
        R.ev("item", raw, None if parsed is None else str(parsed))
        R.delivered += 1
        on_item(raw, parsed)


def candidates(data, crlf, hurt, mode, val, soft=(), ud=None):
    """Lines that may be delivered: [(start, end, raw, must, expect)] in stream order.

    `hurt` holds the offsets at which reading was interrupted.  A line must be
    delivered if it is an intact sentence in a guaranteed position and no
    interruption (nor `soft`, that is possible, interruption) falls inside it;
    it may be delivered all the same if one does.
    """
    end = b"\r\n" if crlf else b"\n"
    cuts = sorted(hurt)
    fr = {a: e for a, e in W.frames(data, crlf)}
    out = []
    s = data.find(b"$")
    while s >= 0:
        ends = []
        e = data.find(end, s + 2)
        if e >= 0:
            ends.append(e + len(end))
        stop = next((c for c in cuts if c > s), len(data))
        if stop < len(data) + 1 and data[s:stop].endswith(b"\n") and stop - s > 2:
            ends.append(stop)  # a line end right where reading stopped
        for e in sorted(set(ends)):
            raw = data[s:e]
            must, ex = False, None
            if icd.WELL.match(raw) and raw.endswith(b"\r\n") and raw[:2] in icd.HDR:
                try:
                    ex = icd.decode(raw, mode, val, ud)
                except ValueError:
                    ex = None
                if ex is not None and ex.kind == "msg" and W.guaranteed(data, s, crlf) and fr.get(s, e) == e \
                        and e <= stop and not any(s < c < e for c in soft):
                    must = True
            out.append((s, e, raw, must, ex))
        s = data.find(b"$", s + 1)
    return out


def judge_stream(R, data, crlf, hurt, mode, val, got, where, require_all=True, soft=(), ud=None):
    """Everything intact and uninterrupted delivered once, in order; nothing else made up."""
    cand = candidates(data, crlf, hurt, mode, val, soft, ud)
    states = {0: None}  # end offset of the last delivery explained -> predecessor
    for j, (raw, _) in enumerate(got):
        nxt = {}
        for pos in states:
            for s, e, craw, must, _ in cand:
                if s < pos:
                    continue
                if craw == raw and e not in nxt:
                    nxt[e] = pos
                if must and e > s:
                    break  # cannot be skipped
        if not nxt:
            if raw is None or data.find(raw) < 0:
                R.fail("invented-bytes", f"{where}: item {j} {raw!r} is not in the stream")
            lost = [c[2] for c in cand if c[3] and all(c[2] != g[0] for g in got)]
            dup = sorted({g[0] for g in got if sum(1 for h in got if h[0] == g[0]) > sum(1 for c in cand if c[2] == g[0])})
            if lost:
                R.fail("sentence-lost", f"{where}: intact sentence {lost[0]!r} not delivered ({len(lost)} lost)")
            if dup:
                R.fail("sentence-repeated", f"{where}: {dup[0]!r} delivered too often")
            R.fail("sentence-misplaced", f"{where}: item {j} {raw!r} is not what the stream holds at this point")
        states = nxt
    best = None
    for pos in states:
        rest = [c for c in cand if c[0] >= pos and c[3]]
        if not rest or not require_all:
            best = []
            break
        best = rest if best is None or len(rest) < len(best) else best
    if best:
        R.fail("sentence-lost", f"{where}: intact sentence {best[0][2]!r} not delivered ({len(got)} items delivered)")
    exp = {}
    for _, _, raw, must, ex in cand:
        if ex is not None:
            exp[raw] = ex
    for raw, parsed in got:
        ex = exp.get(raw)
        if ex is not None and ex.kind == "msg":
            bad = icd.check_message(parsed, ex, mode)
            if bad:
                R.fail("wrong-content", f"{where}: {raw!r} mode {mode}: " + "; ".join(bad[:4]))
        elif parsed is not None and val & 1 and not icd.integrity_ok(raw):
            R.fail("damaged-accepted", f"{where}: {raw!r} parsed although its checksum is wrong")
    R.probe("must-deliver", sum(1 for c in cand if c[3]))
