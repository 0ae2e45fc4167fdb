"""Independent NMEA 0183 codec used by simulated devices and by the oracles.

Written from the documented wire format and the snapshot of the message
definitions in data/icd.json.  It shares no code with the library under test.
Sentences are bytes; plans carry them as latin-1 text.
"""
import datetime as _dt
import json
import os
import re

_HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(_HERE, "..", "data", "icd.json"), encoding="utf-8") as _f:
    ICD = json.load(_f)

_date, _time = _dt.date, _dt.time  # real classes, captured before any patching
TALKERS = set(ICD["talkers"])
MSGIDS = set(ICD["msgids"])
MSGIDS_PROP = set(ICD["msgids_prop"])
PREFIX = set(ICD["prefix"])
HDR = {h.encode() for h in ICD["hdr"]}
MODES = ("GET", "SET", "POLL")
GET, SET, POLL = 0, 1, 2
VALCKSUM, VALMSGID = 1, 2

WELL = re.compile(rb"^\$([^$*\r\n]*)\*([0-9A-Fa-f]{2})\r?\n$")


def xor(content: bytes) -> int:
    ck = 0
    for b in content:
        ck ^= b
    return ck


def frame(content: str, lower=False) -> bytes:
    """Content text -> complete sentence."""
    b = content.encode("utf-8")
    ck = f"{xor(b):02X}"
    if lower:
        ck = ck.lower()
    return b"$" + b + b"*" + ck.encode() + b"\r\n"


def cksum_ok(raw: bytes) -> bool:
    """Is this a framed sentence whose check digits match its content bytes?"""
    m = WELL.match(raw)
    return bool(m) and xor(m.group(1)) == int(m.group(2), 16)


def integrity_ok(raw: bytes) -> bool:
    """Do the check digits of this line (stray line-end characters aside) match its content?"""
    content, star, ck = raw.strip(b"$\r\n").partition(b"*")
    return bool(star) and re.fullmatch(rb"[0-9A-Fa-f]{2}", ck) is not None and int(ck, 16) == xor(content)


# ------------------------------------------------------------------ decoding
class Bad(Exception):
    """Field text that its declared type does not admit."""


class Loose:
    """Value of a text which its type does not define (such as a date of 4 digits): empty or of that type."""

    def __init__(self, cls):
        self.cls = cls

    def __eq__(self, other):
        return isinstance(other, Loose) and other.cls is self.cls

    def __hash__(self):
        return hash(self.cls)

    def __repr__(self):
        return f"<'' or a {self.cls.__name__}>"


def _digits(s):
    return s.isascii() and s.isdigit()


def conv(text, typ):
    if typ in ("CH", "ST", "LAD", "LND", "QS", "HX"):
        return text
    if typ == "DE":
        if text == "":
            return ""
        try:
            return float(text)
        except ValueError as e:
            raise Bad(text) from e
    if typ == "IN":
        if text == "":
            return ""
        try:
            return int(text)
        except ValueError as e:
            raise Bad(text) from e
    if typ in ("DT", "DM", "DTL"):
        n = 8 if typ == "DTL" else 6
        if text == "":
            return ""
        if len(text) != n or not _digits(text):
            return Loose(_date)
        a, b, y = int(text[:2]), int(text[2:4]), int(text[4:])
        d, m = (b, a) if typ == "DM" else (a, b)
        if typ != "DTL":
            y += 1900 if y >= 69 else 2000
        try:
            return _date(y, m, d)
        except ValueError:
            return ""
    if typ in ("LA", "LN"):
        dp = text.find(".")
        if dp < 4:
            return ""
        try:
            return round(abs(float(text[: dp - 2])) + float(text[dp - 2 :]) / 60, 10)
        except ValueError:
            return ""
    if typ == "TM":
        m = re.match(r"^(\d\d)(\d\d)(\d\d)(?:\.(\d{1,6}))?$", text, re.ASCII)
        if text == "":
            return ""
        if not m:
            return Loose(_time)
        frac = (m.group(4) or "0").ljust(6, "0")
        sec = int(m.group(3))
        try:
            return _time(int(m.group(1)), int(m.group(2)), sec, int(frac))
        except ValueError:
            return ""
    raise Bad(f"type {typ}")


class Expect:
    """What a conforming reader does with one well-formed sentence."""

    __slots__ = ("kind", "identity", "talker", "msgid", "attrs", "payload",
                 "checksum", "nominal", "defkey", "why")

    def __init__(self, kind, why=""):
        self.kind = kind  # 'msg' | 'err'
        self.why = why
        self.identity = self.talker = self.msgid = self.checksum = self.defkey = None
        self.attrs, self.payload, self.nominal = {}, [], False


def variant(key, payload, mode):
    """Definition key for sentences with several layouts (Quectel, ST)."""
    n = len(payload)
    if key[:3] == "QTM" and acknak(key, payload, mode) != key:
        return acknak(key, payload, mode)
    if key == "QTMCFGGEOFENCE":
        if mode == SET:
            return key + {13: "_POLY", 3: "_DIS"}.get(n, "")
        if mode == GET:
            if n == 13:
                return key + "_POLY"
            if n in (1, 2):
                return acknak(key, payload, mode)
        return key
    if key == "QTMCFGMSGRATE":
        t = ({2: "_NOVER", 4: "_INTFNOVER", 5: "_INTF"} if mode == POLL
             else {3: "_NOVER", 5: "_INTFNOVER", 6: "_INTF"})
        return key + t.get(n, "")
    if key == "QTMCFGPPS":
        return key + ("_DIS" if mode == SET and n == 3 else "")
    if key == "QTMCFGSAT":
        if mode in (SET, GET) and n == 4:
            return key + "_LOW"
        if mode == GET and n in (1, 2):
            return acknak(key, payload, mode)
        return key
    if key == "QTMCFGUART":
        if mode == SET:
            return key + {2: "_CURRBAUD", 3: "_BAUD", 6: "_CURR"}.get(n, "")
        if mode == POLL:
            return key + ("_CURR" if n == 1 else "")
        return key
    if key == "QTMSN":
        if mode == GET:
            if not payload:
                raise Bad("no payload")
            if payload[0].isnumeric():
                return key + "_ALT"
        return key
    if key == "STMDRSENMSG":
        if not payload:
            raise Bad("no payload")
        return key + "_" + payload[0]
    if key[:3] == "QTM":
        return acknak(key, payload, mode)
    return key


def acknak(key, payload, mode):
    if mode == GET:
        if len(payload) == 1 and payload[0] == "OK":
            return "QTMACK"
        if len(payload) == 2 and payload[0] == "ERROR":
            return "QTMNAK"
    return key


def walk_decode(defn, payload, strip_brackets=False):
    attrs = {}
    pos = 0

    def group(fields, idx):
        nonlocal pos
        for name, typ in fields:
            if isinstance(typ, list):
                rep, sub = typ
                left = max(0, len(payload) - pos)
                if rep == "None":
                    n = left // len(sub)
                elif isinstance(rep, int):
                    n = rep
                else:
                    if rep not in attrs:
                        raise Bad("count missing")
                    n = attrs[rep]
                    if not isinstance(n, int):
                        raise Bad("count not a number")
                    n = min(n, left)
                for i in range(1, n + 1):
                    group(sub, idx + [i])
                continue
            if pos >= len(payload):
                continue
            text = payload[pos]
            if strip_brackets:
                text = text.replace("[", "").replace("]", "")
            val = conv(text, typ)
            attrs[name + "".join(f"_{i:02d}" for i in idx)] = val
            pos += 1
            if typ == "LND" and isinstance(attrs.get("lon"), float):
                attrs["lon"] = -abs(attrs["lon"]) if val == "W" else abs(attrs["lon"])
            if typ == "LAD" and isinstance(attrs.get("lat"), float):
                attrs["lat"] = -abs(attrs["lat"]) if val == "S" else abs(attrs["lat"])

    group(defn, [])
    return attrs


def decode(raw: bytes, mode=GET, validate=VALCKSUM, userdef=None) -> Expect:
    """Expected outcome for a well-formed sentence (see WELL)."""
    m = WELL.match(raw)
    if not m:
        raise ValueError(f"not a well-formed sentence: {raw!r}")
    try:
        content = m.group(1).decode("utf-8")
    except UnicodeDecodeError as e:
        raise ValueError("not text") from e
    ck = m.group(2).decode()
    if validate & VALCKSUM and int(ck, 16) != xor(m.group(1)):
        return Expect("err", "checksum")
    hdr, *payload = content.split(",")
    s = 1 if hdr[:1] == "P" else 2
    talker, msgid = hdr[:s], hdr[s:]
    ex = Expect("msg")
    ex.talker, ex.msgid, ex.payload, ex.checksum = talker, msgid, payload, ck
    userdef = userdef or {}
    strict = validate & VALMSGID
    if strict and talker not in TALKERS:
        return Expect("err", "talker")
    tabs = ICD[MODES[mode]]
    try:
        if msgid in MSGIDS:
            src, table = "std", tabs["std"]
        elif msgid in MSGIDS_PROP or msgid in PREFIX:
            src, table = "prop", tabs["prop"]
            if mode == POLL:
                table = {**table, **tabs["std"]}
        elif msgid in userdef:
            src, table = "user", userdef
        else:
            src, table = "unkn", {}
            if strict:
                return Expect("err", "msgid")
        key = msgid
        if key in PREFIX:
            if not payload or (key == "ASHR" and len(payload[0]) < 2):
                raise Bad("no message id")
            if not (key == "ASHR" and payload[0][1].isdigit()):
                key += payload[0]
        if key not in MSGIDS_PROP and src != "user":
            key = key.upper()
        if src == "prop":
            key = variant(key, payload, mode)
        elif src == "unkn":
            # the library falls back to the standard tables, which hold no such id
            table = tabs["std"] if key in tabs["std"] else {}
        defn = table.get(key)
        ex.nominal = src == "unkn"
        ex.identity = talker + msgid
        if defn is None:
            if strict:
                return Expect("err", "no definition")
            ex.attrs = {f"field_{i:02d}": v for i, v in enumerate(payload, 1)}
            return ex
        ex.defkey = key
        pssn = talker == "P" and msgid == "SSN" and key == "SSNSNC"
        ex.attrs = walk_decode(defn, payload, pssn)
        if talker == "P" and msgid in PREFIX and "msgId" in ex.attrs:
            ex.identity += ex.attrs["msgId"]
        return ex
    except Bad as e:
        return Expect("err", f"type {e}")


# --------------------------------------------------------------- generation
ASCII_TXT = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 .-_/:;#()+\"%&'<=>?@[]`{|}"
STD_TALKERS = ["GN", "GP", "GL", "GA", "GB", "GQ", "GI", "BD", "II", "WI", "HE", "SD",
               "VW", "YX", "EC", "CD", "AI", "UP", "ZA", "MX", "FE", "RA", "LC", "TI"]
STD_TALKERS = [t for t in STD_TALKERS if t in TALKERS and ("$" + t[0]).encode() in HDR]


def gen_text(r, lo=1, hi=9):
    n = r.randint(lo, hi)
    s = "".join(r.choice(ASCII_TXT) for _ in range(n))
    if r.random() < 0.04:
        s += r.choice(["é", "Å", "°", "ü", "漢", "№", "e\u0301", "\ufeff", "\u2028", "\xa0", "ß", "ﬁ", "\U0001f6f0", "İ", "\u0085"])
    return s


# time zones of the host (nothing in NMEA depends on them)
TZS = ["UTC", "UTC", "America/New_York", "Asia/Kolkata", "Pacific/Kiritimati", "Pacific/Pago_Pago", "America/St_Johns", "Europe/London", "Australia/Lord_Howe"]

EDGE = {
    "LA": ["0000.00000", "0000.00001", "9000.00000", "8959.99999", "0100.00", "4500.0000000", "0059.99999", "5300.00000", "0000.0"],
    "LN": ["00000.00000", "00000.00001", "18000.00000", "17959.99999", "00100.00", "09000.0000000", "00059.99999", "00200.00000", "10000.0"],
    "TM": ["000000.00", "235959.99", "235959.999", "000000", "235959", "120000.", "120000.5", "235960.00", "240000.00", "005900.000001", "235959.999999"],
    "DT": ["290224", "290223", "310469", "010169", "311268", "000000", "320124", "010100"],
    "DM": ["022924", "022923", "063169", "010169", "123168", "000000", "130124", "010100"],
    "DTL": ["29022024", "29021900", "31121999", "01010001", "00000000", "31122099", "01012000"],
    "DE": ["0", "0.0", "-0.0", "0.000001", "-0.5", ".5", "5.", "1e3", "99999999999.999", "+1.5", "00.10", "000", "1e16", "12345678901234567890.5", "1E-7", "-1000000000000000000"],
    "IN": ["0", "-0", "00", "+1", "-1", "007", "65535", "2147483648", "18446744073709551616", "9007199254740993"],
}


def gen_field(r, typ, p_empty=0.15):
    """Text of one field: empty, an edge case, a value already used in this run, or a new one."""
    if typ not in ("QS",) and r.random() < p_empty:
        return ""
    k = r.random()
    if k < 0.06 and typ in EDGE:
        return r.choice(EDGE[typ])
    pool = r.__dict__.setdefault("pool", {}).setdefault(typ, [])
    if k > 0.7 and pool:  # consecutive sentences share their epoch, position and so on
        return r.choice(pool[-3:])
    pool.append(_gen_field(r, typ))
    return pool[-1]


def _gen_field(r, typ):
    if typ == "CH":
        return r.choice("ANVWMTRDEKF0123456789")
    if typ == "ST":
        return gen_text(r)
    if typ == "HX":
        return f"{r.getrandbits(r.choice([4, 8, 16, 32])):X}"
    if typ == "DE":
        k = r.random()
        if k < 0.2:
            return str(r.randint(-999, 9999))
        return f"{r.choice(['', '-'])}{r.randint(0, 99999)}.{r.randint(0, 10**r.randint(1, 7) - 1)}"
    if typ == "IN":
        k = r.random()
        if k < 0.15:
            return f"{r.randint(0, 99):03d}"
        if k < 0.2:
            return str(r.randint(-(2**31), 2**31))
        return str(r.randint(0, 400))
    if typ in ("DT", "DM", "DTL"):
        d, m, y = r.randint(1, 28), r.randint(1, 12), r.randint(1970, 2068)
        if r.random() < 0.2:
            d, m, y = r.choice([(29, 2, 2024), (31, 12, 1999), (1, 1, 2000), (31, 12, 2068), (1, 1, 1969)])
        if typ == "DT":
            return f"{d:02d}{m:02d}{y % 100:02d}"
        if typ == "DM":
            return f"{m:02d}{d:02d}{y % 100:02d}"
        return f"{d:02d}{m:02d}{y:04d}"
    if typ == "LA":
        n = r.choice([2, 4, 5, 5, 7])
        return f"{r.randint(0, 89):02d}{r.randint(0, 59):02d}.{r.randint(0, 10**n - 1):0{n}d}"
    if typ == "LN":
        n = r.choice([2, 4, 5, 5, 7])
        return f"{r.randint(0, 179):03d}{r.randint(0, 59):02d}.{r.randint(0, 10**n - 1):0{n}d}"
    if typ == "LAD":
        return r.choice("NS")
    if typ == "LND":
        return r.choice("EW")
    if typ == "QS":
        return r.choice(["OK", "W", "R", "ERROR"])
    if typ == "TM":
        t = f"{r.randint(0, 23):02d}{r.randint(0, 59):02d}{r.randint(0, 59):02d}"
        k = r.choice([0, 1, 2, 2, 3, 6])
        if k:
            t += f".{r.randint(0, 10**k - 1):0{k}d}"
        return t
    return "x"  # undefined type


def gen_payload(r, defn, p_empty=0.15):
    names, out, counts = [], [], {}

    def group(fields, tag):
        for name, typ in fields:
            if isinstance(typ, list):
                rep, sub = typ
                if isinstance(rep, int):
                    n = rep
                else:
                    n = r.choice([0, 1, 1, 2, 3, 4, 9, 12])
                    if r.random() < 0.004 and not tag and not any(isinstance(t, list) for _, t in sub):
                        n = r.choice([30, 99, 100, 101, 130])
                    if rep == "None" and n == 0 and r.random() < 0.7:
                        n = 1
                    if rep != "None":
                        n = counts.setdefault(rep, n)  # one count may govern several groups
                        out[names.index(rep)] = str(n)
                for i in range(n):
                    group(sub, tag + (i,))
                continue
            names.append(name if not tag else (name, tag))
            out.append(gen_field(r, typ, p_empty))

    group(defn, ())
    return out


def split_key(key, mode):
    """Definition key -> (talker class, msgid on the wire, forced first field)."""
    base = key
    for suf in ("_CURRBAUD", "_CURR", "_BAUD", "_INTFNOVER", "_INTF", "_NOVER", "_POLY",
                "_DIS", "_LOW", "_ALT", "_24", "_30", "_31", "_3"):
        if base.endswith(suf) and base.startswith(("QTM", "STM")):
            base = base[: -len(suf)]
            break
    if base in MSGIDS:
        return "S", base, None
    for p in sorted(PREFIX, key=len, reverse=True):
        if base.startswith(p) and base != p:
            return "P", p, base[len(p):]
    return "P", base, None


SKIP = {"FOO"}


def all_keys(mode):
    t = ICD[MODES[mode]]
    keys = [("std", k) for k in sorted(t["std"]) if k not in SKIP]
    keys += [("prop", k) for k in sorted(t["prop"])]
    return keys


_KEYS = {m: all_keys(m) for m in (0, 1, 2)}


def keys_for(mode):
    return _KEYS[mode]


QTM_IDS = sorted(k for k in MSGIDS_PROP if k.startswith("QTM"))


def gen_content(r, mode=GET, key=None, p_empty=0.15, p_trunc=0.08, p_extra=0.04):
    """Content text (between $ and *) of a conforming sentence for a definition."""
    src, k = key if key else r.choice(keys_for(mode))
    defn = ICD[MODES[mode]][src][k]
    kind, msgid, first = split_key(k, mode)
    payload = gen_payload(r, defn, p_empty)
    if first is not None and payload:
        payload[0] = first
    if k in ("QTMACK", "QTMNAK"):
        msgid = r.choice(QTM_IDS)
        payload = ["OK"] if k == "QTMACK" else ["ERROR", str(r.randint(1, 9))]
    elif k == "ASHR":
        payload[0] = gen_field(r, "TM", 0)
    elif k.startswith("STMDRSENMSG_"):
        payload[0] = k.rsplit("_", 1)[1]
    elif k == "QTMSN_ALT":
        payload[0] = str(r.randint(0, 9))
    elif msgid not in PREFIX and first is None and len(payload) > 2:
        # older / newer device generations
        if r.random() < p_trunc:
            payload = payload[: r.randint(1, len(payload) - 1)]
        elif r.random() < p_extra:
            payload = payload + [gen_field(r, "ST", 0.2) for _ in range(r.randint(1, 2))]
    talker = "P" if kind == "P" else r.choice(STD_TALKERS)
    return ",".join([talker + msgid] + payload)


UNKNOWN_IDS = ["GNZZZ", "GPXYZ", "PGRMZZ", "PABC", "IIQQQ", "PUBX,99", "GAWTF", "PQTMNONE", "WIMWVX"]


def gen_unknown(r):
    return ",".join([r.choice(UNKNOWN_IDS)] + [gen_field(r, r.choice(["ST", "DE", "IN", "CH"])) for _ in range(r.randint(0, 8))])


# -------------------------------------------------------- checking a message
def same_val(got, want):
    if isinstance(want, Loose):
        return got == "" or isinstance(got, want.cls)
    if isinstance(want, bool) or isinstance(got, bool):
        return got is want
    if isinstance(want, float):
        if not isinstance(got, float):
            return False
        return got == want or abs(got - want) <= 1e-9 * max(1.0, abs(want)) * 0.01 or (got != got and want != want)
    if isinstance(want, int):
        return isinstance(got, int) and got == want
    if isinstance(want, str):
        return isinstance(got, str) and got == want
    if isinstance(want, _date) or isinstance(want, _time):
        return got == want
    return got == want


def check_message(msg, ex, mode):
    """Differences between a parsed message and its expectation ([] if none)."""
    bad = []
    if msg is None:
        return ["no message"]
    if msg.identity != ex.identity:
        bad.append(f"identity {msg.identity!r} != {ex.identity!r}")
    if (msg.talker, msg.msgID) != (ex.talker, ex.msgid):
        bad.append(f"talker/msgID {msg.talker!r},{msg.msgID!r} != {ex.talker!r},{ex.msgid!r}")
    if msg.msgmode != mode:
        bad.append(f"msgmode {msg.msgmode!r} != {mode!r}")
    if list(msg.payload) != ex.payload:
        bad.append(f"payload {msg.payload!r} != {ex.payload!r}")
    if msg.checksum != ex.checksum:
        bad.append(f"checksum {msg.checksum!r} != {ex.checksum!r}")
    parts = []
    for k, want in ex.attrs.items():
        try:
            got = getattr(msg, k)
        except AttributeError:
            bad.append(f"{k} missing (expected {want!r})")
            continue
        parts.append(f", {k}={got}")
        if not same_val(got, want):
            bad.append(f"{k}: {got!r} != {want!r}")
    if not bad:
        want = f"<NMEA({ex.identity}{', NOMINAL' if ex.nominal else ''}{''.join(parts)})>"
        if str(msg) != want:
            bad.append(f"str {str(msg)!r} != {want!r}")
    return bad


_corpus = None


def corpus():
    """Genuine sentences recorded from receivers (data/corpus.txt), raw bytes."""
    global _corpus
    if _corpus is None:
        with open(os.path.join(_HERE, "..", "data", "corpus.txt"), "rb") as f:
            _corpus = [ln for ln in f.read().split(b"\n") if ln]
        _corpus = [ln.rstrip(b"\r") + b"\r\n" for ln in _corpus]
    return _corpus
