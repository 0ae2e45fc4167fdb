"""Independent model of building a message from values.

`gen(r, mode, key)` chooses a definition and values; `expect(...)` says what a
device implementing the documented definition must read back from the bytes.
Values in plans are JSON: times as ["time", h, m, s, us], dates as ["date", y, m, d],
full timestamps (naive or UTC) as ["datetime", y, m, d, h, m, s, us, utc].
"""
import datetime as _dt

import pynmeagps

from . import icd, kernel, userdef

_date, _time = icd._date, icd._time

# definitions whose layout is chosen by the values present:
# key -> (msgid on the wire, fields that must be given, fields that must not be given, fixed values)
LAYOUT = {
    (1, "QTMCFGGEOFENCE"): (["geofencemode"], ["lon1"], {"geofencemode": 1}),
    (1, "QTMCFGGEOFENCE_POLY"): (["lon1"], [], {}),
    (1, "QTMCFGGEOFENCE_DIS"): (["geofencemode"], ["lon1"], {"geofencemode": 0}),
    (0, "QTMCFGGEOFENCE"): ([], ["lon1"], {}),
    (0, "QTMCFGGEOFENCE_POLY"): (["lon1"], [], {}),
    (1, "QTMCFGPPS_DIS"): (["enable"], [], {"enable": 0}),
    (1, "QTMCFGPPS"): (["enable"], [], {"enable": 1}),
    (0, "QTMCFGSAT"): (["maskhigh"], [], {}),
    (0, "QTMCFGSAT_LOW"): ([], ["maskhigh"], {}),
    (1, "QTMCFGSAT"): (["maskhigh"], [], {}),
    (1, "QTMCFGSAT_LOW"): ([], ["maskhigh"], {}),
    (1, "QTMCFGUART"): (["portid", "baudrate", "databit"], [], {}),
    (1, "QTMCFGUART_CURRBAUD"): (["baudrate"], ["portid", "databit"], {}),
    (1, "QTMCFGUART_BAUD"): (["portid", "baudrate"], ["databit"], {}),
    (1, "QTMCFGUART_CURR"): (["baudrate", "databit"], ["portid"], {}),
    (2, "QTMCFGUART"): (["portid"], [], {}),
    (2, "QTMCFGUART_CURR"): ([], ["portid"], {}),
}
for _m in (0, 1, 2):
    LAYOUT[(_m, "QTMCFGMSGRATE")] = (["msgver"], ["porttype"], {})
    LAYOUT[(_m, "QTMCFGMSGRATE_NOVER")] = ([], ["porttype", "msgver"], {})
    LAYOUT[(_m, "QTMCFGMSGRATE_INTFNOVER")] = (["porttype"], ["msgver"], {})
    LAYOUT[(_m, "QTMCFGMSGRATE_INTF")] = (["porttype", "msgver"], [], {})

# not selectable by values: reached only when parsing
PARSE_ONLY = {"QTMACK", "QTMNAK", "QTMSN_ALT"}
UNBUILDABLE = {(0, "ASHR"), (0, "QTMCFGGEOFENCE_DIS")}


def val(j):
    """JSON -> python value handed to the library."""
    if isinstance(j, list):
        if j[0] == "time":
            return _time(*j[1:])
        if j[0] == "datetime":  # a full timestamp where a date or a time is wanted
            return _dt.datetime(*j[1:8], tzinfo=_dt.timezone.utc if j[8] else None)
        if j[1] < 1970:
            raise kernel.PlanInvalid("year")  # left by the minimiser
        return _date(*j[1:])
    return j


def kwargs(d):
    return {k: val(v) for k, v in d.items()}


def gen_value(r, typ):
    if typ == "CH":
        return r.choice("ANVWMTRDEKF0123456789")
    if typ in ("ST",):
        return icd.gen_text(r) if r.random() < 0.9 else ""
    if typ == "HX":
        return f"{r.getrandbits(r.choice([4, 8, 16, 32])):X}"
    if typ == "DE":
        return r.choice([r.randint(-99999, 99999) / 100, r.uniform(-1000, 1000), r.choice([-1, 1]) * r.random() * 10.0 ** r.randint(-9, 18), r.randint(0, 10**9) / 10**r.randint(1, 6),
                         float(r.randint(-999, 999)), r.randint(-5, 5), 0.001, -0.5, 1e15, 123456789.123456])
    if typ == "IN":
        return r.choice([r.randint(0, 400), r.randint(-(2**31), 2**31), 0, 1, 115200] if r.random() < 0.97 else [2**53 + 1, -(2**53) - 1, 10**18 + 7, 2**63 - 1, r.getrandbits(70)])
    if typ in ("LA", "LN"):
        top = 90 if typ == "LA" else 180
        k = r.random()
        if k < 0.3:
            return round(r.uniform(-top, top), r.randint(0, 9))
        if k < 0.4:
            return r.choice([0.0, float(top), -float(top), 0.00001, -0.0001, 9.999999, 59.9999, 1.5, -top + 1e-7])
        if k < 0.5:
            d = r.randint(0, top - 1) + r.choice([0, 1 / 60, 59 / 60, 59.99999 / 60, 0.5 / 60])
            return r.choice([-1, 1]) * d
        if k < 0.6:  # a hair to either side of a whole degree or minute
            d = r.randint(1, top - 1) + r.choice([0, 0, r.randint(0, 59) / 60]) + r.choice([-1, 1]) * 10 ** r.uniform(-12, -5)
            return r.choice([-1, 1]) * d
        return r.uniform(-top, top)
    if typ == "LAD":
        return r.choice("NS")
    if typ == "LND":
        return r.choice("EW")
    if typ == "QS":
        return r.choice(["OK", "W", "R"])
    if typ == "TM":
        t = [r.choice([0, 23, r.randint(0, 23)]), r.choice([0, 59, r.randint(0, 59)]), r.choice([0, 59, r.randint(0, 59)]), r.choice([0, 10_000, 500_000, 990_000, 994_999, 995_000, 999_999, r.randint(0, 99) * 10_000, r.randint(0, 999_999)])]
        if r.random() < 0.25:
            return f"{t[0]:02d}:{t[1]:02d}:{t[2]:02d}.{t[3] // 10000:02d}"
        if r.random() < 0.1:
            return ["datetime", r.randint(1970, 2067), r.randint(1, 12), r.randint(1, 28)] + t + [r.randint(0, 1)]
        return ["time"] + t
    if typ in ("DT", "DM", "DTL"):
        y, m, d = r.randint(1970, 2067), r.randint(1, 12), r.randint(1, 28)
        if r.random() < 0.2:
            y, m, d = r.choice([(2024, 2, 29), (1999, 12, 31), (2000, 1, 1), (2067, 12, 31), (1970, 1, 1)])
        if r.random() < 0.25:
            return f"{y:04d}-{m:02d}-{d:02d}" if r.random() < 0.5 else f"{y:04d}{m:02d}{d:02d}"
        if r.random() < 0.1:
            return ["datetime", y, m, d, r.choice([0, 23, r.randint(0, 23)]), r.randint(0, 59), r.randint(0, 59), r.choice([0, 999_999]), r.randint(0, 1)]
        return ["date", y, m, d]
    raise ValueError(typ)


def buildable(mode):
    return [k for k in icd.keys_for(mode) if k[1] not in PARSE_ONLY and (mode, k[1]) not in UNBUILDABLE]


def defn_of(b):
    return b["ud"][b["key"]] if b["src"] == "user" else icd.ICD[icd.MODES[b["mode"]]][b["src"]][b["key"]]


def make(b, **more):
    """The library's message for this build."""
    if b["src"] == "user":
        more["userdefined"] = userdef.tolib(b["ud"])
    return pynmeagps.NMEAMessage(b["talker"], b["msgid"], b["mode"], hpnmeamode=b["hp"], **kwargs(b["kw"]), **more)


def gen(r, mode, key=None, p_given=None, no_clock=False, hp=None):
    """-> plan dict describing one build."""
    ud = None
    if key == "user":
        ud = userdef.gen(r)
        key = ("user", r.choice(sorted(ud)))
    src, k = key or r.choice(buildable(mode))
    defn = ud[k] if ud else icd.ICD[icd.MODES[mode]][src][k]
    kind, msgid, first = icd.split_key(k, mode) if not ud else (r.choice("SSSP"), k, None)
    counts = {}
    p = r.choice([0, 0.3, 0.7, 1.0, 1.0]) if p_given is None else p_given
    must, mustnot, fixed = LAYOUT.get((mode, k), ([], [], {}))
    kw = {}

    def group(fields, suffix, top):
        coords = {}
        for name, typ in fields:
            if isinstance(typ, list):
                rep, sub = typ
                if isinstance(rep, int):
                    n = rep
                elif rep == "None":
                    n = r.choice([0, 1, 2, 3, 5, 12])
                else:
                    n = r.choice([0, 1, 2, 3, 4, 9])
                if not isinstance(rep, int):
                    if r.random() < 0.006 and top and not any(isinstance(t, list) for _, t in sub):
                        n = r.choice([30, 99, 100, 101, 130])
                    if rep != "None":
                        n = counts.setdefault(rep, n)
                if rep != "None" and not isinstance(rep, int):
                    if rep in kw or n:
                        kw[rep] = n
                for i in range(1, n + 1):
                    group(sub, suffix + f"_{i:02d}", False)
                if rep == "None" and n:
                    # the number of items given is the highest index given
                    nm, nt = next((x, t) for x, t in sub if not isinstance(t, list))
                    nm += suffix + f"_{n:02d}"
                    if nm not in kw:
                        kw[nm] = gen_value(r, nt)
                continue
            given = r.random() < p or name in must
            if no_clock and typ in ("TM", "DT", "DM", "DTL"):
                given = True
            if name in mustnot or not given:
                continue
            if typ in ("LAD", "LND"):
                base = "lat" if typ == "LAD" else "lon"
                if base in dict((x, 1) for x, _ in defn if isinstance(x, str)):
                    # follows from the sign of the coordinate; may be given redundantly
                    v = kw.get(base)
                    if isinstance(v, (int, float)) and r.random() < 0.5:
                        kw[name + suffix] = ("S" if typ == "LAD" else "W") if v < 0 else ("N" if typ == "LAD" else "E")
                    continue
            v = fixed.get(name, gen_value(r, typ))
            if name not in must and r.random() < 0.04 and typ not in ("LAD", "LND", "QS"):
                v = ""  # explicitly left empty
            kw[name + suffix] = v

    group(defn, "", True)
    for f, v in fixed.items():
        kw[f] = v if v == 0 or r.random() < 0.6 else r.choice([1, 2, 3])
        if v and r.random() < 0.25:  # the layout is also chosen when it is left out
            del kw[f]
    if first is not None:
        kw["msgId"] = first
    if k.startswith("STMDRSENMSG_"):
        kw["msgtype"] = int(k.rsplit("_", 1)[1])
    if r.random() < 0.4:  # the order in which values are given means nothing
        names = sorted(kw)
        r.shuffle(names)
        kw = {x: kw[x] for x in names}
    talker = "P" if kind == "P" else r.choice(icd.STD_TALKERS)
    b = {"src": src, "key": k, "mode": mode, "talker": talker, "msgid": msgid,
         "kw": kw, "hp": r.random() < 0.3 if hp is None else hp}
    if ud:
        b["ud"] = ud
    return b


class Field:
    """What one field of the serialized message must be."""

    __slots__ = ("name", "typ", "kind", "value", "text")

    def __init__(self, name, typ, kind, value):
        self.name, self.typ, self.kind, self.value = name, typ, kind, value


def fields(b):
    """Expected fields of the payload, in order: kind given | nominal | clock."""
    defn = defn_of(b)
    kw = kwargs(b["kw"])
    out = []
    top = {x for x, _ in defn}

    def count(sub, suffix):
        n = 0
        for name in kw:
            for x, t in sub:
                pre = x + suffix + "_"
                if not isinstance(t, list) and name.startswith(pre) and name[len(pre):].isdigit():
                    n = max(n, int(name[len(pre):]))
        return n

    def group(flds, suffix):
        for name, typ in flds:
            if isinstance(typ, list):
                rep, sub = typ
                if isinstance(rep, int):
                    n = rep
                elif rep == "None":
                    n = count(sub, suffix)
                else:
                    n = kw.get(rep, 0)
                for i in range(1, n + 1):
                    group(sub, suffix + f"_{i:02d}")
                continue
            nm = name + suffix
            if typ == "LAD" and "lat" in top:
                v = kw.get("lat")
                neg = isinstance(v, (int, float)) and v < 0
                out.append(Field(nm, typ, "given", "S" if neg else "N"))
            elif typ == "LND" and "lon" in top:
                v = kw.get("lon")
                neg = isinstance(v, (int, float)) and v < 0
                out.append(Field(nm, typ, "given", "W" if neg else "E"))
            elif nm in kw:
                out.append(Field(nm, typ, "given", kw[nm]))
            elif typ in ("TM", "DT", "DM", "DTL"):
                out.append(Field(nm, typ, "clock", None))
            else:
                nom = {"CH": "", "ST": "", "LA": "", "LN": "", "LAD": "N", "LND": "E", "HX": "0", "DE": 0.0, "IN": 0,
                       "QS": {0: "OK", 1: "W", 2: "R"}[b["mode"]]}[typ]
                out.append(Field(nm, typ, "nominal", nom))

    group(defn, "")
    return out


def check_text(f, text, hp=False):
    """Does this field text denote the expected value?  -> None or complaint."""
    v, typ = f.value, f.typ
    if f.kind == "clock":
        return None
    if isinstance(v, str) and v == "":
        return None if text == "" else f"{f.name}: {text!r} != ''"
    if typ in ("CH", "ST", "HX", "LAD", "LND", "QS"):
        return None if text == str(v) else f"{f.name}: {text!r} != {v!r}"
    if typ == "IN":
        try:
            ok = icd.re.fullmatch(r"[+-]?\d+", text) and int(text) == v
        except ValueError:
            ok = False
        return None if ok else f"{f.name}: {text!r} != {v!r}"
    if typ == "DE":
        try:
            ok = icd.re.fullmatch(r"[+-]?(\d+(\.\d*)?|\.\d+)", text) and abs(float(text) - v) <= 1e-12 * abs(v)
        except ValueError:
            ok = False
        return None if ok else f"{f.name}: {text!r} != {v!r}"
    if typ in ("LA", "LN"):
        dp = 7 if hp else 5
        m = icd.re.fullmatch(r"(\d{%d})([0-5]\d\.\d{%d})" % (2 if typ == "LA" else 3, dp), text)
        if not m:
            return f"{f.name}: {text!r} is not {'dd' if typ == 'LA' else 'ddd'}mm.{'m' * dp}"
        got = int(m.group(1)) * 60 + float(m.group(2))
        # resolution of the field plus what a double can carry
        if abs(got - abs(v) * 60) > 0.5 * 10**-dp + 2e-11 * 1000:
            return f"{f.name}: {text!r} is {got / 60} degrees, not {abs(v)}"
        return None
    if typ == "TM":
        if isinstance(v, str):
            want = v.replace(":", "")
            return None if text == want else f"{f.name}: {text!r} != {want!r}"
        m = icd.re.fullmatch(r"(\d\d)(\d\d)(\d\d)\.(\d\d+)", text)
        if not m:
            return f"{f.name}: {text!r} is not hhmmss.ss"
        if int(m.group(1)) > 23 or int(m.group(2)) > 59 or int(m.group(3)) > 59:
            return f"{f.name}: {text!r} is no time of day"
        got = int(m.group(1)) * 3600 + int(m.group(2)) * 60 + int(m.group(3)) + float("0." + m.group(4))
        w = v.hour * 3600 + v.minute * 60 + v.second + v.microsecond / 1e6
        return None if abs(got - w) < 0.01 else f"{f.name}: {text!r} != {v}"
    # dates
    if isinstance(v, str):
        s = v.replace("-", "")
        v = _date(int(s[:4]), int(s[4:6]), int(s[6:8]))
    want = {"DT": f"{v.day:02d}{v.month:02d}{v.year % 100:02d}", "DM": f"{v.month:02d}{v.day:02d}{v.year % 100:02d}",
            "DTL": f"{v.day:02d}{v.month:02d}{v.year:04d}"}[typ]
    return None if text == want else f"{f.name}: {text!r} != {want!r}"


def check_bytes(b, raw):
    """Compare the serialized bytes with what was asked for ([] if right)."""
    m = icd.WELL.match(raw)
    if not m or not raw.endswith(b"\r\n"):
        return [f"not a sentence: {raw!r}"], None
    if int(m.group(2), 16) != icd.xor(m.group(1)):
        return [f"checksum wrong: {raw!r}"], None
    hdr, *texts = m.group(1).decode("utf-8").split(",")
    bad = []
    if hdr != b["talker"] + b["msgid"]:
        bad.append(f"header {hdr!r} != {b['talker'] + b['msgid']!r}")
    fl = fields(b)
    if len(fl) != len(texts):
        bad.append(f"{len(texts)} fields, expected {len(fl)}: {raw!r}")
        return bad, None
    for f, t in zip(fl, texts):
        c = check_text(f, t, b["hp"])
        if c:
            bad.append(c)
        f.text = t
    return bad, fl
