"""C13: nominal time and date of a new message denote one true UTC instant."""
import calendar

from .. import build, drive, env, icd, sched, kernel

ID = "C13"
DAY = 86_400_000_000
TZS = ["UTC", "America/New_York", "Asia/Kolkata", "Asia/Tokyo", "Pacific/Kiritimati", "Pacific/Pago_Pago", "America/St_Johns", "Europe/London", "Australia/Lord_Howe"]


def keyed():
    out = []
    for mode in (0, 1, 2):
        for src, k in build.buildable(mode):
            def types(fl):
                for _, t in fl:
                    if isinstance(t, list):
                        yield from types(t[1])
                    else:
                        yield t
            n = sum(1 for t in types(icd.ICD[icd.MODES[mode]][src][k]) if t in ("TM", "DT", "DM", "DTL"))
            if n:
                out.append((mode, src, k, n))
    return out


KEYS = keyed()
MULTI = [k for k in KEYS if k[3] > 1]


def instant(r):
    """A clock reading close to a boundary."""
    y, m, d = r.choice([(2024, 2, 28), (2024, 2, 29), (2023, 2, 28), (2025, 12, 31), (1999, 12, 31), (2026, 3, 29), (2025, 10, 26), (2038, 1, 18),
                        (r.randint(1981, 2067), r.randint(1, 12), r.randint(1, 28))])
    base = calendar.timegm((y, m, d, 0, 0, 0)) * 1_000_000
    k = r.random()
    if k < 0.6:
        return base + DAY - r.choice([1, 10, 1000, 4_999, 5_000, 9_999, 10_000, 500_000, 1_000_000, 3_000_000])
    if k < 0.7:  # just before or after a minute
        return base + 60_000_000 * r.randint(1, 1439) + r.choice([-1, 1]) * r.choice([0, 1, 4_999, 5_000, 5_001, 9_999, 10_000, 999_999])
    if k < 0.8:
        return base + r.choice([0, 1, 999, 3_600_000_000])
    return base + r.randrange(DAY)


def gen(r, i, tier):
    builds = []
    for j in range(r.choice([1, 2, 4])):
        k = r.choice(MULTI) if r.random() < 0.7 else KEYS[(i * 3 + j) % len(KEYS)]
        builds.append({"b": build.gen(r, k[0], (k[1], k[2]) if r.random() < 0.85 else "user", p_given=r.choice([0, 0, 0.2, 0.6, 1.0])),
                       "t": instant(r), "tick": r.choice([0, 1, 1, 100, 10_000, 300_000, 2_000_000, DAY, 40 * DAY]),
                       "jumps": {str(r.randint(0, 6)): r.choice([-1, 1]) * r.choice([1_000, 1_000_000, 3_600_000_000, DAY, 366 * DAY])
                                 for _ in range(r.choice([0, 0, 1, 2]))}})
    plan = {"builds": builds, "tz": r.choice(TZS)}
    if r.random() < 0.25:  # several threads build at the same time
        nth = r.choice([2, 2, 3])
        for _ in range(r.choice([1, 3])):
            k = r.choice(MULTI)
            builds.append({"b": build.gen(r, k[0], (k[1], k[2]), p_given=r.choice([0, 0, 0.2])), "t": builds[0]["t"], "tick": 1, "jumps": {}})
        builds[0]["tick"] = r.choice([1000, 300_000, 2_000_000, DAY])
        plan.update(threads=nth, sched=sched.gen_choices(r, r.choice([40, 200, 500]), nth), opcodes=r.random() < 0.2)
    return plan


def together(plan, R):
    """Each message carries one instant that the clock showed while it was made, whoever asked."""
    first = plan["builds"][0]
    env.CLOCK.reset(first["t"], tick=max(1, first["tick"]), jumps=first["jumps"])
    seen = []
    env.CLOCK.on_read = seen.append
    kernel.disarm_steps()  # the scheduler has its own bound
    s = sched.Sched(plan["sched"], R, kernel.PKG, opcodes=plan["opcodes"], max_steps=4_000_000)
    done = []

    def body(ti):
        for x in plan["builds"]:
            a = len(seen)
            try:
                m = build.make(x["b"])
            except drive.DOCUMENTED as e:
                m = e
            done.append((ti, x["b"], m, a, len(seen)))

    for ti in range(min(4, max(1, plan["threads"]))):
        s.spawn(f"t{ti}", lambda ti=ti: body(ti))
    out = s.run()
    env.CLOCK.on_read = None
    if out:
        R.fail(out[0], f"threads: {out}")
    for t in s.threads:
        if t.exc is not None:
            raise t.exc
    for ti, b, m, a, e in done:
        if isinstance(m, Exception):
            R.fail("build-refused", f"{b}: {m}")
        raw = m.serialize()
        R.ev(ti, raw, seen[a:e])
        R.delivered += 1
        judge(plan, R, b, m, raw, seen[a:e])
    R.fault("preemption", s.preemptions)
    R.fault("clock-tick-mid-construction", len(seen))
    R.probe("switches", s.switches)
    R.state(s.trace_sig)
    R.info["nontrivial"] = s.switches > 2


def judge(plan, R, b, m, raw, reads):
    bad, fl = build.check_bytes(b, raw)
    if bad:
        R.fail("explicit-replaced", f"{b['kw']}: " + "; ".join(bad[:3]))
    clock = [f for f in fl if f.kind == "clock"]
    if not clock:
        return
    if not any(fits(clock, m, env.us_to_dt(us)) for us in reads):
        shown = ", ".join(f"{f.name}={f.text}" for f in clock)
        rd = ", ".join(env.us_to_dt(us).isoformat() for us in reads[:4])
        R.fail("not-one-instant", f"{b['talker']}{b['msgid']} ({plan['tz']}): {shown} do not all denote one instant the clock showed: {rd}")
    R.probe("clock-fields", len(clock))
    if len(clock) > 1:
        R.probe("several-clock-fields")
    if len({env.us_to_dt(us).date() for us in reads}) > 1:
        R.probe("date-changed-during-construction")


def run(plan, R):
    R.state(plan)
    env.set_tz(plan["tz"])
    if plan.get("threads") and plan["builds"]:
        return together(plan, R)
    for x in plan["builds"]:
        b = x["b"]
        env.CLOCK.reset(x["t"], tick=max(0, x["tick"]), jumps=x["jumps"])
        try:
            m = build.make(b)
        except drive.DOCUMENTED as e:
            R.fail("build-refused", f"{b}: {e}")
        reads = list(env.CLOCK.reads)
        raw = m.serialize()
        R.ev(raw, reads)
        R.delivered += 1
        R.fault("clock-tick-mid-construction" if x["tick"] else "clock-frozen")
        R.fault("clock-step", env.CLOCK.fired)
        judge(plan, R, b, m, raw, reads)
    R.info["nontrivial"] = True


def fits(clock, m, t):
    sec = t.hour * 3600 + t.minute * 60 + t.second + t.microsecond / 1e6
    for f in clock:
        tx = f.text
        v = getattr(m, f.name, None)
        if f.typ == "TM":
            mt = icd.re.fullmatch(r"(\d\d)(\d\d)(\d\d)(\.\d+)?", tx)
            if not mt:
                return False
            if int(mt.group(1)) > 23 or int(mt.group(2)) > 59 or int(mt.group(3)) > 59:
                return False
            got = int(mt.group(1)) * 3600 + int(mt.group(2)) * 60 + int(mt.group(3)) + float(mt.group(4) or 0)
            if abs(got - sec) >= 0.01:
                return False
            if not hasattr(v, "microsecond") or abs(v.hour * 3600 + v.minute * 60 + v.second + v.microsecond / 1e6 - sec) >= 0.01:
                return False
        else:
            want = {"DT": f"{t.day:02d}{t.month:02d}{t.year % 100:02d}", "DM": f"{t.month:02d}{t.day:02d}{t.year % 100:02d}",
                    "DTL": f"{t.day:02d}{t.month:02d}{t.year:04d}"}[f.typ]
            if tx != want:
                return False
            if (getattr(v, "year", 0), getattr(v, "month", 0), getattr(v, "day", 0)) != (t.year, t.month, t.day):
                return False
    return True
