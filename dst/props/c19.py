"""C19: what the library keeps does not grow with what it has handled."""
import gc
import io
import re
import tracemalloc

import pynmeagps
from pynmeagps import SocketWrapper

from .. import drive, icd, kernel, links, userdef, workload as W

ID = "C19"
THREADED = True  # (not judged by steps)
KINDS = ["ok", "ok", "ok", "text", "uid", "badck", "typeerr", "undef", "talker", "nostar", "gap", "cut", "blank"]
ALSO = ["parse", "build", "payload", "reader", "wrapper", "ud", "badparse", "badbuild", "iter", "write", "write", "str"]
TYPEERR = ["GNGSA,A,3,zz", "GPGST,1,abc", "GPGSV,x,1,1", "PUBX,03,x,1", "PQTMVERNO", "PASHR"]
UNDEF = ["PUBX,06,1", "PSTMSETPARERROR,1", "PQTMNOSUCH,1", "GNFOO,1,2"]
FRAC = re.compile(r"\.(\d\d+)")
SLACK = 24576  # buffers in use at the moment, bounded caches of the interpreter
AGAIN = 3  # what grows is watched for 2, 4 and 8 times as long: a bounded cache fills up, a leak does not
PER_ROUND = 6  # bytes


def vary(s, n):
    return FRAC.sub(lambda m: "." + f"{n:0{len(m[1])}d}"[-len(m[1]):], s)


def letters(n):
    return "".join(chr(65 + n // 26**k % 26) for k in (2, 1, 0))


def gen(r, i, tier):
    mode = r.choice([0, 0, 0, 1, 2])
    ud = userdef.gen(r) if r.random() < 0.25 else None
    units = []
    for _ in range(r.choice([1, 1, 2, 2, 3])):
        k = r.choice(KINDS)
        if k == "ok":
            text = userdef.content(r, ud) if ud and r.random() < 0.4 else icd.gen_content(r, mode, r.choice(icd.keys_for(mode)))
            if len(text) > 100:
                text = "GNGLL,5100.00000,N,00300.00000,W,120000.00,A,A"
        else:
            text = {"typeerr": r.choice(TYPEERR), "undef": r.choice(UNDEF), "gap": r.choice(["\xb5b\x01\x07", "!AIVDM,1", "login: ", "$$", "\x00\xff"]),
                    "cut": "GNGLL,5100.00000,N,00300.00000,W,120000.00,A,A"}.get(k, "GNTXT,01,01,02,")
        units.append([k, W.t(text.encode("utf-8", "surrogatepass"))])
    flavour = r.choice(["socket", "socket", "serial", "readonly", "buffered"])
    faults = [[r.choice([1, 2, 5, 17]), r.choice([["t"], ["t"], ["z"], ["e", r.choice(["ConnectionResetError", "OSError", "KeyboardInterrupt", "MemoryError"])]])]
              for _ in range(r.choice([0, 0, 1, 2]))]
    return {"units": units, "n": r.choice([2000, 3000]), "flavour": flavour, "chunked": flavour == "socket" and r.random() < 0.4,
            "faults": faults, "also": [[r.choice(ALSO), r.choice([1, 2, 4])] for _ in range(r.choice([0, 0, 1, 2]))],
            "ud": ud, "report": r.choice(["handler", "handler", "log", "raise", "ignore", "boom"]),
            "opts": {"mode": mode, "validate": r.choice([0, 1, 1, 2, 3]), "nmeaonly": r.random() < 0.15, "bufsize": r.choice([64, 500, 1024]),
                     "style": r.choice(["read", "iter"])}}


class Boom(Exception):
    """raised by the application's own error handler"""


def unit(kind, text, n):
    raw = W.b(text).decode("utf-8", "surrogatepass")
    if kind == "ok":
        return icd.frame(vary(raw, n))
    if kind == "text":
        return icd.frame(f"GNTXT,01,01,02,message no. {n} of many")
    if kind == "uid":
        return icd.frame(f"GN{letters(n)},{n},x")
    if kind == "badck":
        s = icd.frame(f"GNTXT,01,01,02,message no. {n}")
        return s[:-4] + f"{(int(s[-4:-2], 16) ^ 1 + n % 255):02X}".encode() + s[-2:]
    if kind in ("typeerr", "undef"):
        return icd.frame(f"{raw}{n}" if raw[-1:] not in "O" else raw)
    if kind == "talker":
        return icd.frame(f"{'QZ' if n % 2 else 'G0'}{letters(n)},{n}")
    if kind == "nostar":
        return f"$GNTXT,01,01,02,unfinished {n}\r\n".encode()
    if kind == "gap":
        return W.b(text) + f"{n}\r\n".encode()
    if kind == "cut":
        return f"${raw[:10 + n % 30]}".encode() + b"\r\n"
    return b"\r\n" * (1 + n % 3)


def also_do(what, n, w, sock, ud):
    """What an application does besides reading."""
    try:
        if what == "parse":
            pynmeagps.NMEAReader.parse(icd.frame(f"GNTXT,01,01,02,line {n}"))
        elif what == "badparse":
            pynmeagps.NMEAReader.parse(f"$GNTXT,01,01,02,line {n}*00\r\n".encode())
        elif what == "build":
            pynmeagps.NMEAMessage("GN", "GLL", 0, lat=n % 89 + 0.12345, lon=n / 100, status="A").serialize()
        elif what == "badbuild":
            pynmeagps.NMEAMessage("P", "UBX", 2, nosuch=n)
        elif what == "payload":
            pynmeagps.NMEAMessage("GN", letters(n), 0, payload=[str(n), "x"])
        elif what == "reader":
            list(pynmeagps.NMEAReader(io.BytesIO(icd.frame(f"GNTXT,01,01,02,line {n}"))))
        elif what == "iter":
            next(iter(pynmeagps.NMEAReader(io.BytesIO(icd.frame(f"GNTXT,01,01,02,line {n}") * 2))))
        elif what == "wrapper":
            SocketWrapper(links.SimSocket(links.Feed([["d", f"line {n}\r\n"]]))).readline()
        elif what == "ud":
            pynmeagps.NMEAReader.parse(icd.frame(f"GNX{letters(n)},{n},y"), userdefined={f"X{letters(n)}": {"a": "IN", "b": "ST"}})
        elif what == "str":
            m = pynmeagps.NMEAReader.parse(icd.frame(f"GNTXT,01,01,02,line {n}"))
            repr(m), str(m), m.serialize(), m.payload
        elif what == "write" and sock is not None:
            w.write(f"$EIGNQ,{n:06d},{'GLL,GGA,GSA,GSV,RMC,VTG,ZDA,' * 3}*00\r\n".encode())
            del sock.sent[:], sock.sends[:]
    except drive.DOCUMENTED:
        pass


def run(plan, R):
    R.state(plan)
    units = [u for u in plan["units"] if len(u) == 2]
    if not units or plan["n"] < 500:
        raise kernel.PlanInvalid("too little to judge")
    n = plan["n"]
    fl, opts, how = plan["flavour"], dict(plan["opts"]), plan["report"]
    faults = [(max(1, k), e) for k, e in plan["faults"]]
    ud = userdef.tolib(plan["ud"])

    def one(k):
        out = b"".join(unit(kd, tx, k) for kd, tx in units)
        if plan["chunked"]:
            out = b"%x\r\n" % len(out) + out + b"\r\n"
        return out

    def stream():
        k = 0
        while True:
            d = one(k)
            ev = [e for m, e in faults if k % m == 0]
            cut = (k * 7919) % len(d) if d else 0
            parts = [d[:cut], d[cut:]] if cut and (ev or k % 3 == 0) else [d]
            yield ["d", W.t(parts[0])]
            for e in ev:
                yield e
            if len(parts) > 1:
                yield ["d", W.t(parts[1])]
            yield ["mark", k]
            if k in marks:
                yield ["z"]  # whatever is being skipped, reading returns here
            k += 1

    marks = [n // 2, n]
    feed = links.Feed([], R)
    ev = stream()
    pos = [0]

    def next_event():  # (does not keep what has passed)
        del feed.delivered[:], feed.interrupts[:], feed.raised[:]
        while True:
            if pos[0] >= marks[-1]:
                return "eof"
            e = next(ev)
            if e[0] == "mark":
                pos[0] = e[1] + 1
                continue
            feed.ev, feed.i = [e], 0
            return real_next()

    real_next = feed.next_event
    feed.next_event = next_event
    sock = None
    if fl == "socket":
        s = sock = links.SimSocket(feed, R=R)
    elif fl == "serial":
        s = links.SimSerial(feed, R)
    elif fl == "readonly":
        s = links.ReadOnly(feed)
    else:
        s = io.BufferedReader(links.SimRaw(feed), 64)
    calls = [0]

    def handler(e):
        calls[0] += 1
        if how == "boom" and calls[0] % 3 == 0:
            raise Boom("handler failed")

    opts.update(quit={"h": 1, "b": 1, "l": 1, "r": 2, "i": 0}[how[0]], encoding=1 if plan["chunked"] else 0, userdefined=ud)
    gc.collect()
    tracemalloc.start(1)
    nmr = drive.reader(s, opts, handler if how in ("handler", "boom") else None)
    it = iter(nmr)
    got = errs = 0
    sizes = []
    flt = [tracemalloc.Filter(True, kernel.PKG + "*")]

    def measure():
        gc.collect()
        stats = tracemalloc.take_snapshot().filter_traces(flt).statistics("lineno")
        live = sum(type(o) is pynmeagps.NMEAMessage for o in gc.get_objects())
        sizes.append((pos[0], sum(x.size for x in stats), live, {(x.traceback[0].filename[len(kernel.PKG):], x.traceback[0].lineno): x.size for x in stats}))

    def bad(a, b):
        return b[1] - a[1] > PER_ROUND * (b[0] - a[0]) + SLACK, b[2] > max(64, a[2] + 16)

    last = -1
    ended = 0
    while ended < 2 and len(sizes) < len(marks):
        try:
            if opts["style"] == "iter":
                raw = next(it, (None, None))[0]
            else:
                raw = nmr.read()[0]
            got += raw is not None
            ended = ended + 1 if raw is None and pos[0] >= marks[-1] else 0
            raw = None
        except drive.DOCUMENTED + (Boom, KeyboardInterrupt, MemoryError, OSError) as e:
            errs += 1
            del e
        if pos[0] != last:
            for k in range(last + 1, pos[0] + 1):
                for what, m in plan["also"]:
                    if k % max(1, m) == 0 or len(marks) > 2:
                        also_do(what, k, nmr.datastream, sock, ud)
            last = pos[0]
        if pos[0] >= marks[len(sizes)]:
            measure()
            if pos[0] >= marks[-1] and len(marks) < 2 + AGAIN and any(bad(*sizes[-2:])):
                marks.append(2 * marks[-1])
                ended = 0
    if len(sizes) < 2:
        raise kernel.PlanInvalid("stream did not reach its marks")
    (p0, b0, l0, at0), (p1, b1, l1, at1) = sizes[-2:]
    R.ev("handled", got, errs, calls[0], p0, p1)
    R.delivered += got
    grown = b1 - b0
    R.probe("report:" + how)
    R.probe("flavour:" + fl)
    for what, _ in plan["also"]:
        R.probe("also:" + what)
    if len(sizes) < 2 + AGAIN and any(bad(*sizes[-2:])):
        raise kernel.PlanInvalid("stream ended while what grows was watched")
    fat, many = bad(*sizes[-2:])
    if fat:
        top = max((at1[k] - at0.get(k, 0), k) for k in at1)[1]  # (no sizes: they are not reproduced to the byte)
        R.fail("memory-grows", f"{fl}: the package keeps more than {PER_ROUND} bytes per round between rounds {p0} and {p1} ({len(units)} sentences each, "
                               f"{got} delivered in all, {errs} errors raised), mostly allocated at {top[0]}:{top[1]}")
    if many:
        R.fail("messages-kept", f"{fl}: {l0} messages alive after {p0} rounds, {l1} after {p1}, all dropped by the application")
    R.probe("watched:%d" % len(sizes))
    R.info["grown"] = grown
    R.info["nontrivial"] = got + errs + calls[0] > 1000
