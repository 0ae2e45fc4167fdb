"""C06: errors are reported once, in order, and as configured."""
import logging
import re

from .. import drive, icd, links, workload as W

ID = "C06"
UNDEF = ["GNFOO,1,2", "PSTMSETPARERROR,1", "PUBX,06,1,2", "PQTMNOSUCH,1", "GNZZZ,1,2", "PABC,1", "PGRMZZ", "WIMWVX,1", "PASHR,XYZ,1"]
BADTALK = ["QZGGA,1,2", "G0RMC,1", "GYGLL,,,,", "PPUBX,00", "BZXXX,1"]
TYPEERR = ["GNGSA,A,3,zz", "GPGST,1,abc", "GPGSV,x,1,1", "GNGGA,120000,4717,N,833,E,x,08,1,4,M,4,M,,",
           "PUBX,03,x,1", "GPRMB,A,zz,L", "PQTMVERNO", "GNGNS,1,2,N,3,E,A,x", "PASHR,", "PASHR", "PUBX", "PQTMSN",
           "PSTMDRSENMSG", "PTNL", "PFEC", "GNVTG,x,T", "PGRME,a,M", "GPZDA,1,x,y,z",
           "GPGST,1, ", "GPGSV, ,1,1", "GNGSA,A,\t", "GPGSV,1.0,1,1", "GPGSV,0x1,1,1", "GPGST,1,--", "GPGST,1,1.2.3", "GPGST,1,1;2", "GNVTG, ,T"]
UNUSABLE = [" ", "  ", "x", "--", "1.2.3", "0x1F", "1;5", "1.0", "-", "+", ".", "1e", "\t", "?", "\u0661", "1 2", "N/A", "nan", "inf"]


def gen(r, i, tier):
    mode = r.choice([0, 0, 0, 1, 2])
    nmeaonly = r.random() < 0.3
    its = []
    pbad = r.choice([0.2, 0.5, 0.9])
    for _ in range(W.scale(r, r.choice([1, 3, 8, 14] if tier == "quick" else [8, 20, 50]))):
        if r.random() < 0.25:  # between the lines: nothing that contains a '$' followed by a header letter
            k = r.choice(["bin", "ubx", "text", "blank", "dollar", "rtcm", "ais"])
            if k == "dollar":
                its.append(["pair", W.t(b"$" + bytes([r.choice(b"\x00\xb5b1gz \r\n!*$")]))])
            else:
                its.append(["gap", W.t({"bin": W.rand_bytes(r, r.randint(1, 12)).replace(b"$", b"%"),
                                        "ubx": b"\xb5b\x01\x07\x02\x00\x01\x02\x0d\x33", "text": b"login: \r\n",
                                        "blank": b"\r\n", "rtcm": b"\xd3\x00\x04abcdXYZ",
                                        "ais": b"!AIVDM,1,1,,B,177KQJ5000,0*5C\r\n"}[k])])
            continue
        if r.random() >= pbad:
            its.append(["line", W.t(W.ok_sentence(r, mode))])
            continue
        k = r.choice(["badck", "badck", "typeerr", "typeerr", "undef", "talker", "nostar", "short"])
        if k == "badck":
            s = W.ok_sentence(r, mode)
            if r.random() < 0.3:
                s = icd.frame(r.choice(TYPEERR + UNDEF))  # wrong in more than one way
            s = s[:-4] + f"{(int(s[-4:-2], 16) ^ r.randint(1, 255)):02X}".encode() + s[-2:]
            if r.random() < 0.3:  # no check digits at all, or malformed ones
                ck = s[-4:-2] if r.random() < 0.5 else W.ok_sentence(r, mode)[-4:-2]
                s = s[:-4] + r.choice([b"", ck[:1], ck + b"0", b" " + ck, ck + b" ", b"0x" + ck, ck + b"*" + ck, b"+" + ck[1:], b"--", b"*", ck[:1] + b"G"]) + s[-2:]
        elif k == "typeerr":
            s = icd.frame(r.choice(TYPEERR))
            if r.random() < 0.5:  # any sentence, one field of which cannot be used (unless it is text)
                f = icd.gen_content(r, mode, r.choice(icd.keys_for(mode)), p_trunc=0, p_extra=0).split(",")
                if len(f) > 1:
                    f[r.randrange(1, len(f))] = r.choice(UNUSABLE)
                s = icd.frame(",".join(f))
        elif k == "undef":
            s = icd.frame(r.choice(UNDEF))
        elif k == "talker":
            s = icd.frame(r.choice(BADTALK))
        elif k == "nostar":
            s = W.ok_sentence(r, mode)
            s = r.choice([s[:-5] + b"\r\n", s[:3] + b"\r\n", b"$GNGGA\r\n", b"$PUBX\r\n", b"$GP\r\n"])
        else:
            s = r.choice([icd.frame("G"), icd.frame("GN"), icd.frame("P"), icd.frame("GNG")])
        its.append(["line", W.t(s)])
    data = b"".join(W.b(x[1]) for x in its)
    return {"flavour": r.choice(drive.FLAVOURS), "items": its, "seg": [len(s) for s in links.segment(r, data)],
            "report": r.choice(["handler", "handler", "log", "raise", "raise+handler", "ignore", "ignore+handler"]),
            "object": r.random() < 0.2, "boom": sorted({r.randint(0, 12) for _ in range(r.choice([0, 0, 1, 2, 4]))}),
            "pause": [[r.randint(0, len(its)), r.choice(["t", "z", "z"])] for _ in range(r.choice([0, 0, 1, 2, 5]))],
            "again": sorted({r.randint(0, 12) for _ in range(r.choice([0, 0, 0, 1, 3]))}),
            "opts": {"mode": mode, "validate": r.choice([0, 1, 1, 2, 3, 3]), "nmeaonly": nmeaonly,
                     "bufsize": r.choice([1, 7, 4096]), "style": r.choice(["read", "iter"])}}


CK = re.compile(rb"[0-9A-Fa-f]{2}$")


class Collector(list):
    """an error handler that is an object: empty, and so false, to begin with"""

    def __init__(self, fn):
        super().__init__()
        self.fn = fn

    def __call__(self, err):
        self.fn(err)


class Boom(Exception):
    """raised by the application's own error handler"""


def expectation(data, crlf, opts):
    """[(kind, raw, expect)] in stream order; kind item | error | either."""
    val, mode = opts["validate"], opts["mode"]
    fr = {a: e for a, e in W.frames(data, crlf)}
    out = []
    i = 0
    while i < len(data):
        if i in fr:
            raw = data[i:fr[i]]
            i = fr[i]
            content, star, ck = raw.strip(b"$\r\n").partition(b"*")
            try:
                raw.decode("utf-8")
                text = True
            except UnicodeDecodeError:
                text = False
            if icd.WELL.match(raw) and text:
                ex = icd.decode(raw, mode, val)
                out.append(("item" if ex.kind == "msg" else "error", raw, ex))
            elif not star or not text:  # not a sentence at all
                out.append(("error" if val & 2 else "bare", raw, None))
            else:
                bad = val & 1 and not CK.match(ck)
                out.append(("error" if bad else "either", raw, None))
            continue
        if data[i] == 0x24 and i + 1 < len(data):
            if data[i:i + 2] not in icd.HDR:
                if opts["nmeaonly"]:
                    out.append(("error", data[i:i + 2], None))
                i += 2
                continue
            out.append(("tail", data[i:], None))  # unfinished line at the end of the stream
            break
        if opts.get("strict_only") and opts["nmeaonly"] and data[i] != 0x24:
            j = i
            while j < len(data) and data[j] != 0x24:
                j += 1
            if data[i:j].strip(b"\r\n"):
                out.append(("error+", data[i:j], None))  # one report or more
            i = j
            continue
        i += 1
    return out


def run(plan, R):
    fl, opts = plan["flavour"], dict(plan["opts"])
    crlf = drive.is_crlf(fl)
    how = plan["report"]
    data = b"".join(W.b(x[1]) for x in plan["items"])
    R.state(plan)
    ends = sorted({0} | {b for _, b in W.frames(data, crlf)})
    pauses = [[ends[k % len(ends)], [e]] for k, e in (x for x in plan.get("pause", []) if len(x) == 2) if e in ("t", "z")]
    if plan["items"] and not W.b(plan["items"][0][1]).startswith(b"$"):
        pauses = [p for p in pauses if p[0]]
    stream, feed = drive.make_stream(fl, links.interleave(data, plan["seg"], pauses), R)
    log = []
    boom = set(plan["boom"]) if "handler" in how else set()
    again = set(plan.get("again", [])) if "handler" in how else set()
    ncall = [0]

    def handler(e):
        k = ncall[0]
        ncall[0] += 1
        log.append(("error", e, "handler"))
        if k in boom:
            R.fault("handler-raises")
            raise Boom("handler failed")
        if k in again:  # the application reads on from within its error handler
            R.fault("handler-reads")
            raw, p = nmr.read()
            if raw is not None:
                R.ev("handler-read", raw)
                log.append(("item", raw, p))

    cap = drive.capture_log()
    real_emit = cap.emit

    def emit(rec):
        real_emit(rec)
        if rec.levelno >= logging.ERROR:
            log.append(("error", rec.msg if isinstance(rec.msg, BaseException) else None, "log"))

    cap.emit = emit
    opts["quit"] = {"h": 1, "l": 1, "r": 2, "i": 0}[how[0]]
    nmr = drive.reader(stream, opts, None if "handler" not in how else Collector(handler) if plan.get("object") else handler)

    def on_exc(e):
        if not isinstance(e, Boom):
            raise e

    drive.pump(nmr, feed, R, opts, lambda raw, p: log.append(("item", raw, p)), lambda e: log.append(("error", e, "raise")),
               tolerate=Boom, on_exc=on_exc)
    src = {"h": "handler", "l": "log", "r": "raise", "i": "none"}[how[0]]
    exp = expectation(data, crlf, opts)
    j = 0

    def nxt():
        return log[j] if j < len(log) else None

    for kind, raw, ex in exp:
        e = nxt()
        if kind == "tail":
            if e and e[0] == "error":
                j += 1
            elif e and raw.endswith(b"\n"):
                j += 1
            continue
        if kind == "either":
            if e and ((e[0] == "item" and e[1] == raw) or (e[0] == "error" and how[0] != "i")):
                j += 1
            continue
        if kind == "error+":
            n = 0
            while nxt() and nxt()[0] == "error":
                j += 1
                n += 1
            if not n and how[0] != "i":
                R.fail("nmeaonly-silent", f"{fl}: NMEA-only reader said nothing about {raw!r}")
            continue
        if kind == "error":
            R.probe("error-expected:" + (ex.why.split()[0] if ex is not None else "header" if len(raw) == 2 else "malformed"))
            if e and e[0] == "item" and e[1] == raw:
                R.fail("error-delivered", f"{fl}: erroneous {raw!r} was delivered as {e[2]}")
            if how[0] == "i":
                continue
            if not e or e[0] != "error":
                R.fail("error-unreported", f"{fl}: {raw!r} was not reported ({how}); next is {e and e[1]!r}")
            if e[2] != src:
                R.fail("error-misrouted", f"{fl}: {raw!r} reported by {e[2]}, configured {how}")
            if e[1] is not None and not isinstance(e[1], drive.DOCUMENTED):
                R.fail("error-class", f"{fl}: {raw!r} reported as {type(e[1]).__name__}")
            j += 1
            continue
        if not e or e[0] != "item" or e[1] != raw:
            R.fail("valid-reported" if e and e[0] == "error" else "sentence-lost",
                   f"{fl}: {raw!r} should be delivered next ({how}); got {e!r}")
        if kind == "bare":
            R.probe("malformed-delivered-bare")
            if e[2] is not None:
                R.fail("malformed-parsed", f"{fl}: malformed {raw!r} delivered as {e[2]}")
        else:
            bad = icd.check_message(e[2], ex, opts["mode"])
            if bad:
                R.fail("wrong-content", f"{fl}: {raw!r}: " + "; ".join(bad[:3]))
            if ex.nominal:
                R.probe("unknown-delivered-nominal")
        j += 1
    if j < len(log):
        e = log[j]
        R.fail("error-repeated" if e[0] == "error" else "extra-delivery", f"{fl}: unexpected {e!r} ({how}), {len(log) - j} more")
    if how[0] in "ri" and ncall[0]:
        R.fail("error-misrouted", f"handler was called although {how}")
    R.probe("report:" + how)
    R.info["nontrivial"] = any(x[0] == "error" for x in exp) and len(exp) > 1
