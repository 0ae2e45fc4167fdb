"""C09: messages do not influence each other, across time, readers and threads."""
import copy
import hashlib
import os

import pynmeagps

from .. import build, drive, env, icd, kernel, links, sched, workload as W
from . import c03

ID = "C09"
THREADED = True
NOSHRINK = ()

USERDEFS = {
    "A": {"ABC": {"f1": "ST", "f2": "DE", "n": "IN", "group": ("n", {"v": "IN"})}, "ZZZ": {"x": "TM", "lat": "LA", "NS": "LAD"}},
    "B": {"ABC": {"g1": "IN", "g2": "ST", "group": ("None", {"w": "DE"})}, "QQQ": {"date": "DT", "k": "CH"}},
    "C": {},
}


SHARED = {}  # user definitions that all jobs of this run are given the same object of


def ud(name):
    return (SHARED.get(name) or copy.deepcopy(USERDEFS.get(name))) if name else None


def jud(name):
    """The same definitions in the form the independent codec uses."""
    def conv(d):
        return [[k, [v[0], conv(v[1])] if isinstance(v, tuple) else v] for k, v in d.items()]
    return {k: conv(v) for k, v in USERDEFS.get(name, {}).items()}


def gen_job(r, keys):
    k = r.random()
    mode = r.choice([0, 0, 1, 2])
    val = r.choice([0, 1, 1, 3])
    if k < 0.2:
        u = r.choice("AB")
        c = r.choice(["GNABC,x,1.5,2,7,8", "GPABC,3,hi,1.5,2.5", "GNZZZ,101010.00,5327.0,S", "GPQQQ,010224,V", "GPABC,,,,", "GNABC,1,2,x"])
        return {"k": "parse", "raw": W.t(icd.frame(c)), "mode": 0, "val": val, "ud": u}
    if k < 0.6:
        key = r.choice(keys)
        m = key[2]
        if r.random() < 0.25:
            _, d = W.junk(r, m)
            return {"k": "parse", "raw": W.t(d), "mode": m, "val": val, "ud": r.choice(["", "A"])}
        c = icd.gen_content(r, m, key[:2])
        return {"k": "parse", "raw": W.t(icd.frame(c)), "mode": m, "val": val, "ud": r.choice(["", "", "A", "B"])}
    if k < 0.8:
        its = W.items(r, mode, r.randint(1, 5), 0.3)
        return {"k": "read", "data": W.t(b"".join(W.b(x[1]) for x in its)), "mode": mode, "val": val, "ud": r.choice(["", "A", "B"]),
                "fl": r.choice(["socket", "socket", "serial", "bytesio"]), "bufsize": r.choice([3, 64]), "enc": r.choice([0, 1, 1, 3, 5, 9]),
                "cut": r.choice([7, 40, 40, 1000]), "seg": r.choice([5, 40, 300])}
    if k < 0.93:
        key = r.choice([x for x in keys if x[1] not in build.PARSE_ONLY and (x[2], x[1]) not in build.UNBUILDABLE] or [("std", "GGA", 0)])
        return {"k": "build", "b": build.gen(r, key[2], key[:2], no_clock=True)}
    return {"k": "ctor", "payload": icd.gen_content(r, 0, ("std", r.choice(["GGA", "GSV", "RMC"]))).split(",")[1:], "id": r.choice(["GGA", "GSV", "ABC"])}


def gen_signals(r):
    """[[job, function call at which a signal strikes]]"""
    return [[r.randint(0, 30), r.randint(1, r.choice([10, 60, 200]))] for _ in range(r.choice([1, 2, 4]))] if r.random() < 0.4 else []


def twin(r, b):
    """The same build with numbers that are equal but of another type, or zero of another sign."""
    typ = {f.name: f.typ for f in build.fields(b)}
    for k in b["kw"]:
        if typ.get(k) == "DE" and r.random() < 0.3:
            b["kw"][k] = r.choice([0, 0.0, -0.0, 1, 5.0])
    b = copy.deepcopy(b)
    for k, v in b["kw"].items():
        if typ.get(k) == "DE" and isinstance(v, (int, float)) and v == int(v):
            b["kw"][k] = r.choice([0, 0.0, -0.0]) if v == 0 else float(v) if isinstance(v, int) else int(v)
    return b


def gen_epochs(r, pool):
    """Sentences that share most of their values, as those of one epoch do, in several threads."""
    std = [("std", k, 0) for k in ("GLL", "GGA", "RMC", "ZDA", "GST", "GNS", "VTG")]
    forms = []
    for key in r.sample([r.choice(std), r.choice(std), r.choice(pool)], r.choice([1, 2, 3])):
        fs = [icd.gen_content(r, key[2], key[:2], p_empty=0, p_trunc=0, p_extra=0).split(",") for _ in range(2)]
        for _ in range(2):
            if len(fs[0]) == len(fs[1]):
                fs.append([r.choice(x) for x in zip(*fs)])
        forms.append([key[2], [",".join(f) for f in fs if len(f) < 40]])
    forms = [f for f in forms if f[1]] or [[0, ["GNGLL,5100.00000,N,00300.00000,W,120000.00,A,A"]]]
    keys = [x for x in std + pool if x[1] not in build.PARSE_ONLY and (x[2], x[1]) not in build.UNBUILDABLE]
    key = r.choice(keys)
    blds = [{"k": "build", "b": build.gen(r, key[2], key[:2], no_clock=True)} for _ in range(2)] if r.random() < 0.4 else []

    def job():
        if blds and r.random() < 0.5:
            return copy.deepcopy(r.choice(blds))
        m, cs = r.choice(forms)
        return {"k": "parse", "raw": W.t(icd.frame(r.choice(cs))), "mode": m, "val": 1, "ud": ""}

    nth = r.choice([2, 2, 3])
    threads = []
    for _ in range(nth):
        t = []
        for _ in range(r.randint(2, 6)):
            t.append(copy.deepcopy(t[-1]) if t and r.random() < 0.5 else job())
        threads.append(t)
    return {"threads": threads, "sched": sched.gen_choices(r, r.choice([200, 600, 1500]), nth), "opcodes": r.random() < 0.35,
            "t1": 1_700_000_000_000_000, "t2": 1_709_251_199_999_999, "tz2": "Asia/Kolkata", "jump": 3600}


def gen(r, i, tier):
    # a few definitions, used again and again
    pool = []
    for m in (0, 1, 2):
        ks = icd.keys_for(m)
        base = (i * 3) % len(ks)
        pool += [(s, k, m) for s, k in [ks[(base + d) % len(ks)] for d in range(3)]]
        pool += [(s, k, m) for s, k in [r.choice(ks)]]
    grp = [(s, k, 0) for s, k in icd.keys_for(0) if any(isinstance(t, list) for _, t in icd.ICD["GET"][s][k])]
    pool += [r.choice(grp), r.choice(grp)]
    if r.random() < 0.3:
        return dict(gen_epochs(r, pool), ref=[r.randint(0, 30) for _ in range(r.choice([0, 1, 2]))], sig=gen_signals(r), first=r.choice([[], [3], [2], [2, 3], [1]]))
    nth = r.choice([2, 2, 3, 4])
    threads = [[gen_job(r, pool) for _ in range(r.randint(1, 4 if tier == "quick" else 8))] for _ in range(nth)]
    if r.random() < 0.4:  # the same work again elsewhere
        for t in threads:
            for j in range(len(t)):
                if r.random() < 0.4:
                    t[j] = copy.deepcopy(r.choice(r.choice(threads)))
    blds = [j for t in threads for j in t if j["k"] == "build"]
    if not blds and r.random() < 0.4:
        key = r.choice([x for x in pool + [("std", "GGA", 0), ("std", "GST", 0)] if x[1] not in build.PARSE_ONLY and (x[2], x[1]) not in build.UNBUILDABLE])
        blds.append({"k": "build", "b": build.gen(r, key[2], key[:2], no_clock=True, p_given=1.0)})
        r.choice(threads).append(blds[0])
    if blds and r.random() < 0.7:
        r.choice(threads).append({"k": "build", "b": twin(r, r.choice(blds)["b"])})
    ref = [r.randint(0, 30) for _ in range(r.choice([1, 2, 3]))]
    return {"threads": threads, "ref": ref, "share": r.random() < 0.4, "sig": gen_signals(r), "first": r.choice([[], [3], [2], [2, 3], [1]]), "sched": sched.gen_choices(r, r.choice([40, 200, 500]), nth), "opcodes": r.random() < 0.35,
            "t1": 1_700_000_000_000_000, "t2": r.choice([0, 4_102_444_800_000_000, 1_709_251_199_999_999]),
            "tz2": r.choice(["UTC", "Asia/Kolkata", "America/St_Johns", "Pacific/Kiritimati"]), "jump": r.randint(-10**9, 10**9)}


class Signalled(BaseException):
    """raised by a signal handler in the middle of the library's work"""


def show(m):
    """Everything a user can observe of a message."""
    if m is None:
        return None
    return (m.identity, m.talker, m.msgID, m.msgmode, tuple(m.payload), m.checksum, str(m), repr(m), m.serialize())


def do(job, R):
    """Run one job, return what it yields."""
    k = job["k"]
    if k == "parse":
        u = ud(job["ud"])
        before = USERDEFS.get(job["ud"]) if job["ud"] else None
        try:
            out = show(pynmeagps.NMEAReader.parse(W.b(job["raw"]), msgmode=job["mode"], validate=job["val"], userdefined=u))
        except drive.DOCUMENTED as e:
            out = type(e).__name__
        R.check(u == before and repr(u) == repr(before), "arguments-changed", lambda: f"userdefined {before} became {u}")
        return out
    if k == "read":
        u = ud(job["ud"])
        before = repr(USERDEFS.get(job["ud"]) if job["ud"] else None)
        data = W.b(job["data"])
        enc = job.get("enc", 0) if job["fl"] == "socket" else 0
        n = max(1, job.get("seg", 40))
        if enc & 1:
            k = max(1, job["cut"])
            data, _ = c03.encode(data, [k] * (len(data) // k + 1), enc, [0], 1, True)
        stream, feed = drive.make_stream(job["fl"], links.feed_events([data[j:j + n] for j in range(0, len(data), n)]), None)
        out = []
        opts = {"mode": job["mode"], "validate": job["val"], "quit": 1, "bufsize": max(1, job["bufsize"]), "userdefined": u, "encoding": enc}
        nmr = drive.reader(stream, opts, lambda e: out.append(type(e).__name__))
        for _ in range(500):
            raw, p = nmr.read()
            if raw is None and p is None:
                if feed is None or not feed.more():
                    break
                continue
            out.append((raw, show(p)))
        R.check(repr(u) == before, "arguments-changed", lambda: f"userdefined {before} became {u}")
        return tuple(out)
    if k == "build":
        b = job["b"]
        kw = build.kwargs(b["kw"])
        before = repr(kw)
        try:
            m = pynmeagps.NMEAMessage(b["talker"], b["msgid"], b["mode"], hpnmeamode=b["hp"], **kw)
            out = show(m)
        except drive.DOCUMENTED as e:
            out = type(e).__name__
        R.check(repr(kw) == before, "arguments-changed", lambda: f"keyword arguments {before} became {kw}")
        return out
    pl = list(job["payload"])
    before = list(pl)
    try:
        out = show(pynmeagps.NMEAMessage("GN", job["id"], 0, payload=pl))
    except drive.DOCUMENTED as e:
        out = type(e).__name__
    R.check(pl == before, "arguments-changed", lambda: f"payload list {before} became {pl}")
    return out


def tables():
    """Digest of the message definition tables."""
    import sys

    h = hashlib.sha256()
    for name in sorted(m for m in sys.modules if m == "pynmeagps" or m.startswith("pynmeagps.")):
        mod = sys.modules[name]
        for k in sorted(vars(mod)):
            v = vars(mod)[k]
            if k.startswith("NMEA_") and isinstance(v, (dict, list, tuple, set, str, int, float)):
                h.update(f"{name}.{k}=".encode())
                h.update((repr(sorted(map(repr, v))) if isinstance(v, set) else repr(v)).encode("utf-8", "backslashreplace"))
    return h.hexdigest()


def judge_alone(job, out, R):
    """The outcome of a job must be what its own bytes and options say."""
    if job["k"] == "build":
        b = job["b"]
        if isinstance(out, str):
            R.fail("build-refused", f"{b} refused with {out}")
        bad, _ = build.check_bytes(b, out[8])
        if bad:
            R.fail("wrong-content", f"{b}: " + "; ".join(bad[:3]))
    elif job["k"] == "parse":
        raw = W.b(job["raw"])
        if not icd.WELL.match(raw) or raw[:2] not in icd.HDR:
            return
        try:
            ex = icd.decode(raw, job["mode"], job["val"], jud(job["ud"]))
        except ValueError:
            return
        if ex.kind == "err":
            if out is not None and not isinstance(out, str):
                R.fail("wrong-content", f"{raw!r} validate {job['val']} userdefined {job['ud']}: got {out[6]}, expected an error ({ex.why})")
            return
        if isinstance(out, str) or out is None:
            R.fail("wrong-content", f"{raw!r} validate {job['val']} userdefined {job['ud']}: refused with {out}, expected {ex.attrs}")
        want = f"<NMEA({ex.identity}{', NOMINAL' if ex.nominal else ''}" + "".join(f", {k}={v}" for k, v in ex.attrs.items()) + ")>"
        if out[6] != want and not any(isinstance(v, (float, icd.Loose)) for v in ex.attrs.values()):
            R.fail("wrong-content", f"{raw!r} userdefined {job['ud']}: {out[6]} != {want}")
        if out[8] != raw.rstrip(b"\r\n") + b"\r\n":
            R.fail("wrong-content", f"{raw!r} serialized as {out[8]!r}")


def pristine(job, R):
    """What the job yields in a process that has done nothing else."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            text = repr(do(job, R))
            with os.fdopen(wr, "wb") as f:
                f.write(text.encode("utf-8", "backslashreplace"))
        except BaseException:  # noqa: BLE001 - the same happens again, and is judged, in the run itself
            pass
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        text = f.read()
    os.waitpid(pid, 0)
    return text


def run(plan, R):
    R.state(plan)
    env.CLOCK.reset(plan["t1"])
    dig = tables()
    jobs = [(ti, ji, j) for ti, t in enumerate(plan["threads"]) for ji, j in enumerate(t)]
    SHARED.clear()
    if plan.get("share"):
        SHARED.update(copy.deepcopy(USERDEFS))
    ref = {n % len(jobs): None for n in plan.get("ref", [])} if jobs else {}
    for n in ref:
        ref[n] = pristine(jobs[n][2], R)
        R.fault("fresh-process")
    out = {}  # phase -> {(thread, number): result}
    cut = [x for x in plan.get("sig", []) if len(x) == 2]

    def strike():
        R.fault("signal")
        return Signalled()

    def alone():
        out["alone"] = {(ti, ji): do(j, R) for ti, ji, j in jobs}

    def later():  # other order, other clock, other time zone
        env.CLOCK.reset(plan["t2"], tick=1000, jumps={3: plan["jump"], 7: -plan["jump"]})
        env.set_tz(plan["tz2"])
        out["later"] = {(ti, ji): do(j, R) for ti, ji, j in reversed(jobs)}

    def short():  # some of the work is cut short by a signal
        for at, n in cut:
            kernel.arm_steps(R)
            R.signals = kernel.Signals([n], strike)
            try:
                do(jobs[at % len(jobs)][2], R)
            except Signalled:
                pass
            finally:
                R.signals = None
                kernel.disarm_steps()
        if cut:
            out["after interrupted work"] = {(ti, ji): do(j, R) for ti, ji, j in jobs}

    def threads():  # all at once
        s = sched.Sched(plan["sched"], R, kernel.PKG, max_steps=6_000_000, opcodes=plan["opcodes"])
        conc = out[f"with {len(plan['threads'])} threads"] = {}
        for ti, t in enumerate(plan["threads"]):
            def body(ti=ti, t=t):
                for ji, j in enumerate(t):
                    try:
                        conc[ti, ji] = do(j, R)
                    except Signalled:
                        conc[ti, ji] = Signalled
            s.spawn(f"t{ti}", body)
            if cut and ti % 2:
                s.signals[ti] = kernel.Signals([n * (1 + k) for k, (_, n) in enumerate(cut)], strike)
        res = s.run()
        if res:
            R.fail(res[0], f"threads: {res}")
        for t in s.threads:
            if t.exc is not None:
                raise t.exc
        R.fault("preemption", s.preemptions)
        R.probe("switches", s.switches)
        R.state(s.trace_sig)
        R.ev(s.trace_sig)
        R.steps = s.steps
        R.info["nontrivial"] = s.switches > 2 and len(jobs) > 1

    phases = [alone, later, short, threads]
    for k in plan.get("first", []):  # what the process does first may be any of these
        if k in (1, 2, 3):
            phases.insert(0, phases.pop(phases.index((alone, later, short, threads)[k])))
    for ph in phases:
        ph()
        R.check(tables() == dig, "definitions-changed", "the message definitions changed")
    R.fault("clock-jump", env.CLOCK.fired)
    base = out["alone"]
    for n, text in ref.items():
        ti, ji, j = jobs[n]
        if text and text != repr(base[ti, ji]).encode("utf-8", "backslashreplace"):
            R.fail("history-dependent", f"{j}: in a process of its own {text.decode('utf-8', 'replace')}, after other work {base[ti, ji]}")
    for ti, ji, j in jobs:
        judge_alone(j, base[ti, ji], R)
        R.ev(ti, ji, base[ti, ji])
        R.delivered += 3
    for name, res in out.items():
        for ti, ji, j in jobs:
            o = res.get((ti, ji))
            if o is not Signalled and o != base[ti, ji]:
                R.fail("interference" if "threads" in name else "history-dependent", f"{j}: alone {base[ti, ji]}, {name} {o}")
