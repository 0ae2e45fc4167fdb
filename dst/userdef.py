"""Random user-defined message definitions that keep to the documented rules.

In plans and in the independent codec a definition is a list of [name, type] and
[name, [repeats, [..]]]; `tolib` gives the dictionaries handed to the library.
"""
from . import icd, kernel

NAMES = ["alpha", "sat_id", "v", "w", "health_flag", "x1", "c_no", "hdg", "resid", "q", "opt_a", "opt_b", "zz", "depth2", "rate", "Kp", "m_"]
IDS = ["XYZ", "ZYX", "ABCD", "Q1", "GGKx", "Foo", "abc", "U99", "LONGMESSAGEID", "WIMX"]
IDS = [i for i in IDS if i not in icd.MSGIDS and i not in icd.MSGIDS_PROP and i not in icd.PREFIX]
TYPES = ["ST", "CH", "DE", "DE", "IN", "IN", "HX", "TM", "DT", "DM", "DTL", "LA", "LN"]


def gen_defn(r):
    names = list(NAMES)
    r.shuffle(names)

    def field():
        return [names.pop(), r.choice(TYPES)]
    out = [field() for _ in range(r.choice([1, 1, 2, 3]))]
    if r.random() < 0.3:
        out += [["lat", "LA"], ["NS", "LAD"], ["lon", "LN"], ["EW", "LND"]]
    count = None
    if r.random() < 0.5:
        count = names.pop()
        out.append([count, "IN"])

    def group(rep, depth):
        sub = [field() for _ in range(r.choice([1, 1, 2]))]
        if depth and r.random() < 0.4:
            g = ["inner", group(r.choice([2, 3, count or 2]), depth - 1)]
            sub.insert(r.choice([1, len(sub)]), g)
        return [rep, sub]
    if count and r.random() < 0.9:
        out.append(["group", group(count, 1)])
    if r.random() < 0.3:
        out.append(["group2", group(r.choice([1, 2, 3]), 1)])
    if r.random() < 0.4:
        out.append(field())
    if r.random() < 0.4:
        out.append(["group3", group("None", 0)])
    return out


def gen(r):
    return {i: gen_defn(r) for i in r.sample(IDS, r.choice([1, 2, 3]))}


def tolib(defs):
    def conv(d):
        if not d or any(len(x) != 2 or isinstance(x[1], list) and (len(x[1]) != 2 or isinstance(x[1][0], int) and x[1][0] < 1) for x in d):
            raise kernel.PlanInvalid("definition")  # left by the minimiser
        seen = {x[0] for x in d}
        if len(seen) < len(d):
            raise kernel.PlanInvalid("definition")
        return {k: (v[0], conv(v[1])) if isinstance(v, list) else v for k, v in d}
    return None if defs is None else {k: conv(v) for k, v in defs.items()}


def content(r, defs, p_empty=0.15):
    """Content of a conforming sentence of one of these definitions."""
    i = r.choice(sorted(defs))
    pl = icd.gen_payload(r, defs[i], p_empty)
    k = r.random()
    if len(pl) > 2 and k < 0.08:
        pl = pl[: r.randint(1, len(pl) - 1)]
    elif k < 0.12:
        pl = pl + [icd.gen_field(r, "ST", 0.2)]
    return ",".join([(r.choice(icd.STD_TALKERS) if r.random() < 0.8 else "P") + i] + pl)
