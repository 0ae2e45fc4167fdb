"""C07: hostile or damaged input cannot crash or stall the reader."""
import zlib

import pynmeagps

from .. import drive, icd, kernel, links, userdef, workload as W

ID = "C07"
MAX_STEPS = 8_000_000
NASTY = ["", "0", "-1", "-0", "1", "00", "99999999", "2147483648", "9" * 30, "9" * 400, "1e9", "1e999", "-1e999", "nan", "inf", "-inf", "1_000",
         " 7 ", "+5", "0x10", "²", "٣", "一", "½", "\u2028", "\x00", "A" * 200, "1.", ".5", ".", "..", "-.", "--1", "1,2"[:1],
         "240000.00", "999999.99", "235960.00", "23595", "235959.9999999", "320124", "000000", "310299", "01011970", "9999.99999", "-0001.00",
         "00000.0000000", "8960.00000", "1e3.5", "[", "]", "[[", "1]", "OK", "ERROR", "ZZZ", "é", "\ud7ff", "N", "S", "E", "W", "12345.6e7",
         "4294967296", "1000000", "65535", "-999999999999", "1_0", "1__0", "０", "\t1", "1\x0b", "True", "None", "{}", "%s", "*"]
BASE, PER_BYTE = 2000, 60
# chunk sizes a server should not send
SIZES = ["", "-1", "-5", "-0", "+5", "0x10", "1_0", "zz", "5;", ";", ";;;", "\xb2", "\xa0", "\x00", " ", "\r", "1 2", "0", "00000", "f" * 15, "7" + "f" * 15, "8" + "0" * 15,
         "f" * 16, "1" + "0" * 16, "f" * 40, "f" * 700, "-" + "f" * 40, "9" * 700, "1e3", "inf", "$GNGLL", "\n", "5\n"]


UNITS = ["a", "A", "0", "1", "9", "a ", "0 ", ",", ".", "_", "-", "+", " ", "\t", "aA", "a1", "1.", "=", "*", "$", "\\", "(", "/", ":", "\xe9", "ab,", "1,", "\x00"]


def runs(r):
    """Long runs of the same thing: what a badly written pattern takes forever on."""
    return (r.choice(["", "", "x", "1", "-", "$"]) + r.choice(UNITS) * r.choice([25, 40, 60, 120])
            + r.choice(["", "", "", "x", "!", ";", "=", ",", "*", "*00", "1", ".", " "]))


def chunked(wire, frame, enc):
    """wire as a chunked stream with some malformed chunks: frame = [[size of piece, size line | None, how]]."""
    out, pos, j = b"", 0, 0
    while pos < len(wire) and frame and len(out) < 40_000:
        if len(frame[j % len(frame)]) != 3:
            raise kernel.PlanInvalid()
        n, size, how = frame[j % len(frame)]
        j += 1
        body = wire[pos:pos + max(1, n)]
        pos += max(1, n)
        if enc & 14 and how != 1:
            c = zlib.compressobj(6, zlib.DEFLATED, 31 if enc & 2 else 15 if enc & 4 else -15)
            body = c.compress(body) + c.flush()
            if how == 2:
                body = body[:-5]
            elif how == 3:
                body = body[:5] + b"\xff\x00" + body[6:]
        end = {4: b"", 5: b"\n", 6: b"xx\r\n", 7: b"\r"}.get(how, b"\r\n")
        out += (f"{len(body):x}" if size is None else size).encode("latin-1") + b"\r\n" + body + end
    return out


def gen(r, i, tier):
    mode = r.choice([0, 0, 1, 2])
    keys = icd.keys_for(mode)
    cases = []
    ud = userdef.gen(r) if r.random() < 0.15 else None
    for j in range(r.choice([4, 12, 25] if tier == "quick" else [20, 60])):
        k = r.random()
        key = keys[(i * 11 + j) % len(keys)]
        if k < 0.55:
            c = (userdef.content(r, ud) if ud and r.random() < 0.7 else icd.gen_content(r, mode, key)).split(",")
            for _ in range(r.choice([1, 1, 2, 4])):
                p = r.randrange(len(c))
                if p == 0 and r.random() < 0.7:
                    p = r.randrange(len(c))
                op = r.random()
                if op < 0.7:
                    c[p] = r.choice(NASTY) if r.random() < 0.9 else runs(r)
                elif op < 0.85:
                    del c[p:]
                    c = c or [""]
                else:
                    c[p:p] = [r.choice(NASTY)] * r.choice([1, 3, 40])
            cases.append(["sent", W.t(icd.frame(",".join(c).replace("*", "?").replace("\r", "").replace("\n", "").replace("$", "")))])
        elif k < 0.65:
            ident = r.choice(["P" + p for p in sorted(icd.PREFIX)] + ["PQTM", "PSTM", "PAIR", "P", "", "G", "GN", "PSTMDRSENMSG", "PQTMSN", "PQTMCFGUART"])
            c = ident + "".join("," + r.choice(NASTY) for _ in range(r.randint(0, 5)))
            cases.append(["sent", W.t(icd.frame(c.replace("*", "?").replace("\r", "").replace("\n", "").replace("$", "")))])
        elif k < 0.8:
            cases.append(["bytes", W.t(W.rand_bytes(r, r.randint(0, 80), r.choice([None, None, b"$GP,*\r\n0123456789AB", b"$GNPQ*,\xff\x80\x00\r\n"])))])
        elif k < 0.82:
            cases.append(["bytes", r.choice(["$GNTXT", "$GNTXT,", "$PUBX,", "$GNGGA,", "$GP", "$P", "$", "$GNXXX,1,", ""]) + runs(r) + r.choice(["\r\n"] * 3 + ["\n", ""])])
        elif k < 0.9:
            s = bytearray(W.ok_sentence(r, mode, key))
            for _ in range(r.choice([1, 2, 5])):
                p = r.randrange(len(s))
                s[p:p + r.choice([0, 1, 1, 3])] = W.rand_bytes(r, r.choice([0, 1, 1, 2]))
                if not s:
                    s = bytearray(b"$")
            cases.append(["bytes", W.t(bytes(s))])
        else:
            c = (userdef.content(r, ud) if ud and r.random() < 0.5 else icd.gen_content(r, mode, key)).split(",")
            pl = c[1:]
            for _ in range(r.choice([0, 1, 2, 6])):
                if pl and r.random() < 0.7:
                    pl[r.randrange(len(pl))] = r.choice(NASTY)
                else:
                    pl = pl[: r.randint(0, len(pl))] + [r.choice(NASTY)] * r.choice([0, 1, 5])
            s = 1 if c[0][:1] == "P" else 2
            tk, mid = c[0][:s], c[0][s:]
            if r.random() < 0.1:
                tk = r.choice(["", "P", "GN", "zz", "é"])
            if r.random() < 0.1:
                mid = r.choice(["", "SSN", "QTM", "FOO", "foo", "TNL", "STMDRSENMSG"])
            cases.append(["ctor", [tk, mid, pl, r.choice([None, "00", "zz", ""])]])
    if r.random() < 0.02:
        u = r.choice([b"$GNGLL*00\r\n", b"$GNRMC\r\n", b"$$", b"$X", b"\n", b"$GN\n", b"\xb5b", b"$P*\r\n", b"$PUBX*1F\r\n", b"$GNTXT,x*00\r\n",
                      icd.frame("GNGLL,x"), icd.frame("GNXXX,1"), icd.frame("GNGSA,A,3,zz"), W.junk(r, mode)[1] + b"\r\n"])
        cases.insert(r.randint(0, len(cases)), ["flood", [W.t(u), r.choice([1200, 2500, 5000])]])
    frame = []
    if r.random() < 0.3 and not any(c[0] == "flood" for c in cases):  # a chunked stream some of whose chunks are malformed
        frame = [[r.choice([1, 20, 50, 300]), r.choice(SIZES) if r.random() < 0.3 else None, r.randrange(8) if r.random() < 0.3 else 0] for _ in range(r.choice([1, 3, 8]))]
    return {"mode": mode, "cases": cases, "flavour": "socket" if frame else r.choice(drive.FLAVOURS), "frame": frame, "segn": r.choice([1, 5, 1000]) if cases[-1:] and not any(c[0] == "flood" for c in cases) else r.choice([7, 64, 1000]),
            "opts": {"mode": mode, "ud": ud, "validate": r.choice([0, 1, 2, 3]), "quit": r.choice([0, 1, 2]), "nmeaonly": r.random() < 0.2,
                     "bufsize": r.choice([1, 16, 4096]), "style": r.choice(["read", "iter"]), "encoding": r.choice([1, 1, 3, 5, 9, 15]) if frame else r.choice([0, 0, 0, 1, 3, 5, 9])}}


def run(plan, R):
    mode, val = plan["mode"], plan["opts"]["validate"]
    ud = userdef.tolib(plan["opts"].get("ud"))
    R.state(plan)

    def bounded(before, n, what):
        used = R.steps - before
        if used > BASE + PER_BYTE * n:
            R.fail("unbounded-work", f"{used} steps for {n} bytes: {what!r}")
        R.info["max"] = max(R.info.get("max", 0), used / (n + 10))

    def guard(fn, n, what):
        before = R.steps
        try:
            v = fn()
            out = None if v is None else str(v)
            if v is not None:
                v.serialize()
                v.payload  # noqa: B018  pylint: disable=pointless-statement
                repr(v)
        except drive.DOCUMENTED as e:
            out = type(e).__name__
            R.probe("refused:" + out)
        except Exception as e:  # noqa: BLE001
            R.fail("undocumented-exception", f"{what!r} raised {type(e).__name__}: {e}")
        R.ev(what, out)
        R.delivered += 1
        bounded(before, n, what)

    wire = b""
    for kind, c in plan["cases"]:
        R.fault("hostile:" + kind)
        if kind == "flood":
            wire += W.b(c[0]) * c[1]
        elif kind == "ctor":
            tk, mid, pl, ck = c
            n = sum(len(x) + 1 for x in pl) + len(mid) + 8
            guard(lambda: pynmeagps.NMEAMessage(tk, mid, mode, payload=list(pl), checksum=ck, validate=val, userdefined=ud), n, c)
        else:
            raw = W.b(c)
            wire += raw
            guard(lambda: pynmeagps.NMEAReader.parse(raw, msgmode=mode, validate=val, userdefined=ud), len(raw), raw)
    size = len(wire)
    if plan.get("frame") and plan["opts"]["encoding"]:
        wire = chunked(wire, plan["frame"], plan["opts"]["encoding"])
        R.fault("malformed-chunk", sum(f[1] is not None or f[2] > 0 for f in plan["frame"]))
        size = size + 3 * len(wire)  # (each segment of a compressed or unfinished chunk costs a little)
    elif plan["flavour"] == "socket" and plan["opts"]["encoding"] and len(wire) % 2:
        # make some of it pass for a chunked stream
        wire = b"".join(f"{len(wire[j:j + 50]):x}".encode() + b"\r\n" + wire[j:j + 50] + b"\r\n" for j in range(0, len(wire), 50))
    n = max(1, plan["segn"])
    stream, feed = drive.make_stream(plan["flavour"], links.feed_events([wire[j:j + n] for j in range(0, len(wire), n)]), R)
    before = R.steps
    try:
        nmr = drive.reader(stream, plan["opts"], lambda e: None)
        drive.pump(nmr, feed, R, plan["opts"], lambda raw, p: str(p), lambda e: None)
    except Exception as e:  # noqa: BLE001
        if type(e).__name__ == "Violation":
            raise
        R.fail("undocumented-exception", f"reading {wire[:400]!r} raised {type(e).__name__}: {e}")
    bounded(before, max(size, len(wire)) * 2 + 200, "stream")
    R.info["nontrivial"] = len(plan["cases"]) > 1
