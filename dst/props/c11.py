"""C11: a message never changes once it exists."""
import copy
import pickle

import pynmeagps
from pynmeagps import exceptions as nme

from .. import build, drive, env, icd, kernel, sched, workload as W
from .c09 import show

ID = "C11"
THREADED = True


# other messages made meanwhile, successfully or not
OTHERS = ["GNGLL,5327.04319,S,00214.41396,E,223232.00,A,A", "GNGGA,120000.00,5327.0,N,00214.0,W,1,12,0.5,1.0,M,1.0,M,,", "GNGSV,x,1,1", "GPGST,1,abc",
          "PUBX", "PASHR", "PUBX,04,120000.00,010224,1,2,3,4,5,6", "XXYYY,1,2", "build", "badbuild", "badmode"]


def make_other(what):
    try:
        if what == "build":
            pynmeagps.NMEAMessage("GN", "GLL", 0, lat=1.5, lon=-2.5)
        elif what == "badbuild":
            pynmeagps.NMEAMessage("P", "UBX", 2)
        elif what == "badmode":
            pynmeagps.NMEAMessage("GN", "GLL", 7)
        else:
            pynmeagps.NMEAReader.parse(icd.frame(what), validate=3)
    except drive.DOCUMENTED:
        pass


def gen_op(r):
    k = r.random()
    if k < 0.22:
        return ["set", r.choice(["lat", "lon", "msgId", "numCh", "time", "payload", "identity", "newattr", "_payload", "_checksum", "_immutable",
                                 "_talker", "_msgID", "_mode", "field_01", "checksum", "talker", "svid_01", "status", "__dict__", "__class__", "own"]),
                r.choice([0, "X", None, [], 1.5])]
    if k < 0.36:
        return ["del", r.choice(["lat", "_payload", "_immutable", "_checksum", "time", "nosuch", "payload", "own", "field_01", "_talker", "status"])]
    if k < 0.56:
        return ["plist", r.choice(["append", "clear", "set0", "pop", "reverse", "extend"])]
    if k < 0.76:
        return ["arg", r.choice(["append", "clear", "set0", "pop"])]
    if k < 0.82:
        return ["kw", r.choice(["clear", "set", "pop"])]
    if k < 0.9:
        return ["ud"]
    if k < 0.93:
        return ["aug", r.choice(["payload", "own"])]
    if k < 0.95:
        return ["copy", r.choice(["copy", "deepcopy", "pickle", "pickle2"])]
    if k < 0.97:
        return ["other", r.choice(OTHERS)]
    return ["clock", r.randint(-10**12, 10**12)]


def gen(r, i, tier):
    mode = r.choice([0, 0, 1, 2])
    keys = icd.keys_for(mode)
    key = keys[(i * 13) % len(keys)] if r.random() < 0.7 else r.choice(keys)
    how = r.choice(["parse", "payload", "build", "read", "user"])
    src = {}
    if how == "build":
        if key[1] in build.PARSE_ONLY or (mode, key[1]) in build.UNBUILDABLE:
            key = ("std", "GGA") if mode == 0 else next(k for k in keys if k[1] not in build.PARSE_ONLY)
        src = build.gen(r, mode, key)
    elif how == "user":
        src = {"raw": W.t(icd.frame(r.choice(["GNABC,x,1.5,2,7,8", "GNZZZ,101010.00,5327.0,S", "GPABC,a,2,0"])))}
        mode = 0
    else:
        src = {"raw": W.t(icd.frame(icd.gen_content(r, mode, key)) if r.random() < 0.85 else icd.frame(icd.gen_unknown(r)))}
    nth = r.choice([1, 2, 3])
    return {"mode": mode, "how": how, "src": src, "ops": [[gen_op(r) for _ in range(r.randint(1, 10))] for _ in range(nth)],
            "obs": r.choice([0, 1, 2]), "opcodes": r.random() < 0.6, "sched": sched.gen_choices(r, r.choice([30, 100, 300]), nth + 3)}


UD = {"ABC": {"f1": "ST", "f2": "DE", "n": "IN", "group": ("n", {"v": "IN"})}, "ZZZ": {"x": "TM", "lat": "LA", "NS": "LAD"}}


def make(plan):
    """-> (message, mutable argument list or None, kwargs dict or None, userdefined or None)"""
    how, mode, src = plan["how"], plan["mode"], plan["src"]
    if how == "build":
        kw = build.kwargs(src["kw"])
        return pynmeagps.NMEAMessage(src["talker"], src["msgid"], mode, hpnmeamode=src["hp"], **kw), None, kw, None
    raw = W.b(src["raw"])
    if how == "parse":
        return pynmeagps.NMEAReader.parse(raw, msgmode=mode), None, None, None
    if how == "read":
        import io
        return pynmeagps.NMEAReader(io.BytesIO(raw), msgmode=mode).read()[1], None, None, None
    u = copy.deepcopy(UD) if how == "user" else None
    content = icd.WELL.match(raw).group(1).decode("utf-8")
    hdr, *pl = content.split(",")
    s = 1 if hdr[:1] == "P" else 2
    kw = {"payload": pl}
    return pynmeagps.NMEAMessage(hdr[:s], hdr[s:], mode, userdefined=u, checksum=icd.WELL.match(raw).group(2).decode(), **kw), pl, kw, u


def snapshot(m):
    pub = tuple(sorted((k, repr(getattr(m, k))) for k in dir(m) if not k.startswith("_") and not callable(getattr(m, k))))
    return show(m), pub


def mutate(lst, op):
    if op == "append":
        lst.append("EVIL")
    elif op == "clear":
        lst.clear()
    elif op == "set0":
        if lst:
            lst[0] = "EVIL"
    elif op == "pop":
        if lst:
            lst.pop()
    elif op == "reverse":
        lst.reverse()
    else:
        lst.extend(["EVIL"] * 3)


def run(plan, R):
    R.state(plan)
    need = {"set": 3, "del": 2, "plist": 2, "arg": 2, "kw": 2, "ud": 1, "aug": 2, "clock": 2, "other": 2, "copy": 2}
    for ops in plan["ops"]:
        for op in ops:
            if not op or len(op) != need.get(op[0]):
                raise kernel.PlanInvalid(str(op))
    try:
        m, arg, kw, u = make(plan)
    except drive.DOCUMENTED:
        R.probe("refused")
        return
    if m is None:
        return
    ref = snapshot(m)
    own = next((a for a in vars(m) if not a.startswith("_")), "own")
    R.ev("made", ref[0][6])
    problems = []
    done = [0]

    def check(where):
        now = snapshot(m)
        if now != ref:
            diff = [(a, b) for a, b in zip(ref[0], now[0]) if a != b] or [x for x in now[1] if x not in ref[1]] or "attributes"
            problems.append(("message-changed", f"{where}: {diff}"))

    def step(op, ti):
        k = op[0]
        R.fault("attempt:" + k)
        where = f"thread {ti} {op}"
        if k in ("set", "del"):
            name = own if op[1] == "own" else op[1]
            try:
                if k == "set":
                    setattr(m, name, op[2])
                else:
                    delattr(m, name)
                problems.append(("change-accepted", f"{where} ({name}) was not refused"))
            except nme.NMEAMessageError:
                pass
            except Exception as e:  # noqa: BLE001
                problems.append(("wrong-refusal", f"{where} ({name}) raised {type(e).__name__}: {e}"))
        elif k == "aug":
            try:
                if op[1] == "payload":
                    m.payload += ["EVIL"]
                else:
                    setattr(m, own, getattr(m, own, None))
                problems.append(("change-accepted", f"{where} was not refused"))
            except nme.NMEAMessageError:
                pass
            except Exception as e:  # noqa: BLE001
                problems.append(("wrong-refusal", f"{where} raised {type(e).__name__}: {e}"))
        elif k == "plist":
            mutate(m.payload, op[1])
        elif k == "arg" and arg is not None:
            mutate(arg, op[1])
        elif k == "kw" and kw is not None:
            if op[1] == "clear":
                kw.clear()
            elif op[1] == "set":
                for x in kw:
                    kw[x] = "EVIL"
            else:
                kw and kw.popitem()
        elif k == "ud" and u is not None:
            for d in u.values():
                d.clear()
            u.clear()
        elif k == "other":
            make_other(op[1])
        elif k == "copy":
            if op[1] == "copy":
                m2 = copy.copy(m)
            elif op[1] == "deepcopy":
                m2 = copy.deepcopy(m)
            else:  # as when it is sent to another process
                m2 = pickle.loads(pickle.dumps(m, 2 if op[1] == "pickle2" else pickle.HIGHEST_PROTOCOL))
            s2 = snapshot(m2)
            if s2 != ref:
                diff = [(a, b) for a, b in zip(ref[0], s2[0]) if a != b] or [x for x in s2[1] if x not in ref[1]] or "attributes"
                problems.append(("copy-differs", f"{where}: {diff}"))
            for what, fn in (("set", lambda: setattr(m2, own, 0)), ("del", lambda: delattr(m2, own)), ("add", lambda: setattr(m2, "extra", 1))):
                try:
                    fn()
                    problems.append(("copy-changeable", f"{where}: {what} was not refused"))
                except nme.NMEAMessageError:
                    pass
                except Exception as e:  # noqa: BLE001
                    problems.append(("wrong-refusal", f"{where}: {what} raised {type(e).__name__}: {e}"))
            m2.payload.append("EVIL")
        elif k == "clock":
            env.CLOCK.us += op[1]
        check(where)
        done[0] += 1

    def observer():
        for _ in range(12):
            check("observer")

    s = sched.Sched(plan["sched"], R, kernel.PKG, max_steps=8_000_000, opcodes=plan["opcodes"])

    def body(ti, ops):
        for op in ops:
            step(op, ti)

    for ti, ops in enumerate(plan["ops"]):
        s.spawn(f"m{ti}", lambda ti=ti, ops=ops: body(ti, ops))
    for o in range(max(0, min(3, plan["obs"]))):
        s.spawn(f"o{o}", observer)
    out = s.run()
    if out:
        R.fail(out[0], str(out))
    for t in s.threads:
        if t.exc is not None:
            raise t.exc
    check("end")
    R.steps = s.steps
    R.delivered += done[0]
    R.ev(problems)
    if problems:
        R.fail(*problems[0])
    R.fault("preemption", s.preemptions)
    R.probe("how:" + plan["how"])
    R.state(s.trace_sig)
    R.info["nontrivial"] = done[0] > 1
