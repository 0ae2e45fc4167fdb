"""C02: how a socket's bytes are cut into segments is invisible."""
import pynmeagps
from pynmeagps import SocketWrapper

from .. import drive, icd, links, workload as W

ID = "C02"
OSERRS = ["ConnectionResetError", "TimeoutError", "BlockingIOError", "InterruptedError", "OSError", "ENOBUFS", "ENETDOWN"]


def gen(r, i, tier):
    mode = r.choice([0, 0, 1, 2])
    what = "ops" if i % 2 else "reader"
    its = W.items(r, mode, W.scale(r, r.choice([1, 3, 6, 10] if tier == "quick" else [3, 10, 30])), r.choice([0.1, 0.4, 0.7]))
    if what == "ops" and r.random() < 0.3:
        its = [["raw", W.t(W.rand_bytes(r, r.randint(1, 60), b"\r\n\r\n$Ga,*\x00\xff"))] for _ in range(r.randint(1, 4))]
        if r.random() < 0.03:  # no line end for a long while
            its.insert(r.randint(0, len(its)), ["raw", W.t(W.rand_bytes(r, r.choice([2000, 5000, 20_000, 70_000, 200_000]), b"\n\n$Ga,*\x00\xff"))])
    its = W.lengthen(r, its)
    data = b"".join(W.b(x[1]) for x in its)
    big = len(data) > 60_000 and r.random() < 0.6
    plan = {"what": what, "mode": mode, "items": its, "seg": [len(s) for s in links.segment(r, data, *["one"] * big)],
            "bufsize": r.choice([100_000, 1 << 18, 1 << 20] if big else [1, 2, 3, 5, 16, 100, 4096, 100_000])}
    if what == "ops":
        inter = []
        for _ in range(r.choice([0, 0, 1, 2, 6])):
            e = r.choice([["t"], ["t"], ["z"], ["e", r.choice(OSERRS)]])
            inter += [[r.randint(0, len(data)), e]] * (1 if r.random() < 0.99 else r.choice([20, 120]))
        plan["inter"] = inter
        ops = []
        for _ in range(r.randint(3, 60) if r.random() < 0.99 else 600):
            k = r.random()
            if k < 0.45:
                ops.append(["r", r.choice([0, 1, 1, 1, 2, 2, 3, 5, 17, 64, 500] if len(data) < 20_000 else [1, 100, 5000, 30_000, 70_000])])
            elif k < 0.8:
                ops.append(["l"])
            else:
                ops.append(["w"])
        plan["ops"] = ops
    else:
        plan["opts"] = {"validate": r.choice([1, 1, 0, 3]), "quit": r.choice([1, 2])}
        plan["quiet"] = [[r.randint(0, len(data)), r.choice([["t"], ["z"], ["e", r.choice(OSERRS)]])]
                         for _ in range(r.choice([0, 1, 3]))]
        plan["style"] = r.choice(["read", "iter"])
    return plan


def run(plan, R):
    data = b"".join(W.b(x[1]) for x in plan["items"])
    R.state(plan)
    if plan["what"] == "ops":
        run_ops(plan, data, R)
    else:
        run_reader(plan, data, R)


def run_ops(plan, data, R):
    feed = links.Feed(links.interleave(data, plan["seg"], plan["inter"]), R)
    w = SocketWrapper(links.SimSocket(feed, R=R), bufsize=max(1, plan["bufsize"]))
    got = bytearray()
    ops = list(plan["ops"]) + [["r", 1]] * 0
    multi = 0

    def conserve(op):
        inw = w.in_waiting()
        if not (bytes(got) == bytes(feed.delivered[:len(got)])):
            R.fail("bytes-altered", f"after {op}: returned {bytes(got)!r}, received {bytes(feed.delivered)!r}")
        if inw != len(feed.delivered) - len(got):
            R.fail("bytes-lost", f"after {op}: {len(feed.delivered)} bytes received, {len(got)} returned, in_waiting {inw}")

    conserve("open")
    for op in ops:
        before = len(feed.interrupts) + feed.eof_reads
        held = len(feed.delivered) - len(got)
        if op[0] == "r":
            n = max(0, op[1])
            d = w.read(n)
            broke = len(feed.interrupts) + feed.eof_reads != before
            if len(d) > n:
                R.fail("read-too-long", f"read({n}) returned {len(d)} bytes {d!r}")
            if len(d) < n and not broke:
                R.fail("read-short", f"read({n}) returned {len(d)} bytes although the stream was not interrupted")
            if held >= n and d != bytes(feed.delivered[len(got):len(got) + n]):
                R.fail("read-wrong", f"read({n}) with {held} bytes in hand returned {d!r}")
        elif op[0] == "l":
            d = w.readline()
            broke = len(feed.interrupts) + feed.eof_reads != before
            k = d.find(b"\r\n")
            if 0 <= k < len(d) - 2:
                R.fail("line-too-long", f"readline returned {d!r}")
            if k < 0 and not broke:
                R.fail("line-short", f"readline returned {d!r} although the stream was not interrupted")
        else:
            n = w.in_waiting()
            R.check(n == len(feed.delivered) - len(got), "bytes-lost", f"in_waiting {n}")
            d = b""
        R.check(isinstance(d, bytes), "not-bytes", f"{op} returned {type(d).__name__}")
        R.ev(op, d)
        R.delivered += 1
        got += d
        multi += len(d) > 0
        conserve(op)
    idle = 0
    while idle < 3:
        d = w.read(1)
        R.ev("drain", d)
        got += d
        idle = 0 if d or feed.more() else idle + 1
        conserve("drain")
    if bytes(got) != data:
        R.fail("bytes-lost", f"{len(data)} bytes were sent, {len(got)} returned: {bytes(got)!r} != {data!r}")
    R.probe("ops", len(ops))
    R.info["nontrivial"] = multi > 1 and len(plan["seg"]) > 1


def collect(events, plan, R, bufsize, style):
    feed = links.Feed(events, R)
    out = []
    opts = dict(plan["opts"], mode=plan["mode"], bufsize=bufsize, style=style)
    nmr = drive.reader(links.SimSocket(feed, R=R), opts, lambda e: out.append(("error", type(e).__name__)))

    def item(raw, p):
        out.append(("item", raw, None if p is None else (p.identity, str(p), tuple(p.payload), p.serialize())))

    drive.pump(nmr, feed, R, opts, item, lambda e: out.append(("error", type(e).__name__)))
    return out


def run_reader(plan, data, R):
    ref = collect([["d", W.t(data)]] if data else [], plan, R, 65536, "read")
    # interruptions only where no line is being read: outside every line and not right behind a '$'
    inside = set()
    for a, e in W.frames(data, True):
        inside.update(range(a + 1, e))
    tail = max([e for _, e in W.frames(data, True)], default=0)
    k = data.find(b"$", tail)
    quiet = []
    for p, e in plan["quiet"]:
        p = max(0, min(p, len(data)))
        if p in inside or (p > 0 and data[p - 1] == 0x24) or (0 <= k < p):
            continue
        quiet.append([p, e])
    ev = links.interleave(data, plan["seg"], quiet)
    got = collect(ev, plan, R, max(1, plan["bufsize"]), plan["style"])
    if got != ref:
        n = next((j for j in range(min(len(got), len(ref))) if got[j] != ref[j]), min(len(got), len(ref)))
        R.fail("segmentation-visible", f"result {n} differs: in one segment {ref[n:n + 1]}, cut into "
                                       f"{len(ev)} segments with buffer {plan['bufsize']}: {got[n:n + 1]} (of {len(ref)} / {len(got)})")
    R.probe("reader")
    R.probe("timeout-between-lines", len(quiet))
    R.info["nontrivial"] = len(ref) > 1 and len(ev) > 2
