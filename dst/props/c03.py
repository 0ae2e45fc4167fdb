"""C03: chunked and compressed socket streams decode to the original bytes."""
import bisect
import zlib

from pynmeagps import SocketWrapper

from .. import drive, icd, links, workload as W

ID = "C03"


def comp(data, enc, level):
    """What a server does; the client undoes gzip first, deflate last."""
    if enc & 8:
        c = zlib.compressobj(level, zlib.DEFLATED, -15)
        data = c.compress(data) + c.flush()
    if enc & 4:
        data = zlib.compress(data, level)
    if enc & 2:
        c = zlib.compressobj(level, zlib.DEFLATED, 31)
        data = c.compress(data) + c.flush()
    return data


# chunk extensions, padding and trailers a server may send; a client ignores them
EXT = [b""] * 8 + [b";name=value", b";x", b' ; q="a;b"', b"  ", b";1f"]
TRAILER = [b""] * 8 + [b"Expires: Wed, 21 Oct 2026 07:28:00 GMT\r\n"]


def encode(data, sizes, enc, hdrs, level, final):
    """-> (encoded bytes, [(encoded offset where the chunk is complete, decoded length so far, chunk data start)])"""
    out = bytearray()
    marks = []
    pos = 0
    for j, seg in enumerate(links.cut(data, sizes)):
        body = comp(seg, enc, level)
        h = hdrs[j % len(hdrs)] if hdrs else 0
        n = f"{len(body):x}"
        if h & 1:
            n = n.upper()
        n = "0" * ((h >> 1) & 3) + n
        out += n.encode() + EXT[(h >> 3) % len(EXT)] + b"\r\n"
        start = len(out)
        out += body + b"\r\n"
        marks.append((len(out), pos + len(seg), start, pos))
        pos += len(seg)
    if final:
        h = hdrs[-1] >> 3 if hdrs else 0
        out += b"0" + EXT[h % len(EXT)] + b"\r\n" + TRAILER[h % len(TRAILER)] + b"\r\n"
    return bytes(out), marks


def hurts(feed, marks, enc):
    """Decoded offsets at which reading was (hurt) or may have been (soft) interrupted."""
    hurt, soft = set(), set()
    for at in feed.interrupts:
        hurt.add(max([m[1] for m in marks if m[0] <= at], default=0))
        for m in marks:  # were the decoder to release bytes of an unfinished chunk
            if m[2] <= at < m[0] and not enc & 14:
                soft.add(min(m[1], m[3] + at - m[2]))
    return hurt, soft


def ready(at, marks, enc):
    """How many decoded bytes there can be once `at` encoded bytes have arrived."""
    k = bisect.bisect_right(marks, at + 2, key=lambda m: m[0])  # chunks before that are complete
    n = marks[k - 1][1] if k else 0
    if k < len(marks) and at > marks[k][2] and not enc & 14:
        n = max(n, min(marks[k][1], marks[k][3] + at - marks[k][2]))
    return n


def gen(r, i, tier):
    mode = r.choice([0, 0, 0, 1, 2])
    its = W.items(r, mode, W.scale(r, r.choice([1, 2, 5, 9] if tier == "quick" else [5, 20, 40]), 0.012), r.choice([0, 0.3, 0.6]))
    its = W.lengthen(r, its)
    data = b"".join(W.b(x[1]) for x in its)
    if r.random() < 0.15:  # chunk data that looks like chunk framing
        its.insert(0, ["raw", r.choice(["0\r\n\r\n", "\r\n5\r\n", "1f\r\n", "\r\n\r\n", "a\r\n"])])
        data = b"".join(W.b(x[1]) for x in its)
    if r.random() < 0.006:  # far more data than it takes up when compressed
        its.insert(r.randint(0, len(its)), ["raw", ("%06d " % r.randint(0, 999999)) * r.choice([9400, 9400, 19000]) + "\r\n"])
        data = b"".join(W.b(x[1]) for x in its)
    flat = len(data) > 60_000
    enc = 1 | r.choice([0, 0, 2, 4, 8, 8, 2 | 4, 2 | 8, 4 | 8, 14])
    style = r.choice(["one", "small", "mixed", "awkward", "big", "bytes"])
    if len(data) > 20_000 and (flat or r.random() < 0.7):  # chunks of 64 kB and more
        style, enc = r.choice(["one", "huge"]), r.choice([1, enc, 3, 5, 9])
    sizes = [len(s) for s in links.segment(r, data, style)]
    hdrs = [r.randrange(8) + 8 * (r.randrange(len(EXT)) if r.random() < 0.3 else 0) for _ in range(r.randint(1, 5))]
    level = r.choice([0, 1, 6, 9])
    final = r.random() < 0.8
    e, marks = encode(data, sizes, enc, hdrs, level, final)
    seg = [len(s) for s in links.segment(r, e, r.choice(["one", "bytes", "small", "mixed", "big"]))]
    if r.random() < 0.5 and 0 < len(marks) < 500:  # cut exactly around chunk boundaries
        spots = set()
        for m, _, st, _ in marks:
            for d in (-3, -2, -1, 0, 1, 2):
                if r.random() < 0.4:
                    spots.update((m + d, st + d))
        prev, seg = 0, []
        for c in sorted(x for x in spots if 0 < x < len(e)):
            seg.append(c - prev)
            prev = c
    inter = []
    for _ in range(r.choice([0, 0, 1, 3, 8])):
        p = r.randint(0, len(e))
        if marks and r.random() < 0.6:
            m = r.choice(marks)
            p = r.choice([m[0], m[2]]) + r.choice([-3, -2, -1, 0, 1, 2])
        inter.append([max(0, min(p, len(e))), r.choice([["t"], ["t"], ["e", "TimeoutError"], ["e", "BlockingIOError"], ["z"], ["w", 3_000_000]])])
    plan = {"items": its, "mode": mode, "enc": enc, "chunks": sizes, "hdrs": hdrs, "level": level, "final": final,
            "seg": seg, "inter": inter, "bufsize": r.choice([1, 2, 5, 17, 128, 4096, 65536]),
            "what": r.choice(["wrapper", "reader"]), "style": r.choice(["read", "iter"])}
    if plan["what"] == "wrapper":
        plan["ops"] = [r.choice([1, 1, 2, 7, 30, 0, 0]) for _ in range(r.randint(1, 20))]
    return plan


def run(plan, R):
    data = b"".join(W.b(x[1]) for x in plan["items"])
    enc = (plan["enc"] & 14) | 1
    final = plan["final"]
    e, marks = encode(data, plan["chunks"], enc, plan["hdrs"], max(0, min(9, plan["level"])), final)
    events = links.interleave(e, plan["seg"], plan["inter"])
    R.state(plan)
    feed = links.Feed(events, R)
    sock = links.SimSocket(feed, R=R)
    R.probe(f"encoding:{enc}")
    cuts = 0
    p = 0
    for ev in events:
        if ev[0] == "d":
            p += len(ev[1])
        k = bisect.bisect_right(marks, p, key=lambda m: m[0])
        cuts += k < len(marks) and marks[k][0] - 2 <= p
    R.probe("cut-in-chunk-terminator", cuts)
    R.info["nontrivial"] = len(marks) > 1 and len(events) > 1
    if plan["what"] == "wrapper":
        w = SocketWrapper(sock, encoding=enc, bufsize=max(1, plan["bufsize"]))
        got = bytearray()
        idle, k = 0, 0
        most = 1 if len(data) < 50_000 else 997
        ops = plan["ops"] or [1]
        while idle < 3:
            n = max(0, ops[k]) if k < len(ops) and feed.more() else most
            k += 1
            d = w.read(n) if n else w.readline()
            R.ev("got", d)
            if n and len(d) > n:
                R.fail("read-too-long", f"read({n}) returned {len(d)} bytes")
            got += d
            R.delivered += 1
            limit = ready(len(feed.delivered), marks, enc)
            inw = w.in_waiting()
            if len(got) + inw > limit:
                R.fail("in-waiting-wrong", f"encoding {enc}: {len(got)} bytes returned and in_waiting {inw}, but the {len(feed.delivered)} "
                                           f"encoded bytes received hold {limit} at most")
            if data[len(got) - len(d):len(got)] != d:
                at = next(j for j in range(len(got)) if got[j:j + 1] != data[j:j + 1])
                R.fail("bytes-altered", f"encoding {enc}: byte {at} differs: got {bytes(got[at:at + 30])!r}, "
                                        f"sent {data[at:at + 30]!r}")
            idle = 0 if d or feed.more() else idle + 1
            if not d and not feed.more():
                most = 1
        if bytes(got) != data:
            R.fail("bytes-lost", f"encoding {enc}: {len(data)} bytes were sent in {len(marks)} chunks, {len(got)} returned; "
                                 f"first missing {data[len(got):len(got) + 30]!r}")
        if w.in_waiting():
            R.fail("in-waiting-wrong", f"encoding {enc}: in_waiting {w.in_waiting()} although everything was returned")
        return
    opts = {"mode": plan["mode"], "validate": 1, "quit": 1, "bufsize": max(1, plan["bufsize"]), "encoding": enc, "style": plan["style"]}
    got, errs = [], []
    nmr = drive.reader(sock, opts, errs.append)
    drive.pump(nmr, feed, R, opts, lambda raw, p: got.append((raw, p)), errs.append)
    hurt, soft = hurts(feed, marks, enc)
    drive.judge_stream(R, data, True, hurt, plan["mode"], 1, got, f"encoding {enc}", soft=soft)
