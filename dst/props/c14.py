"""C14: GNSS week and time of week survive the trip between clocks."""
import calendar

from pynmeagps import utc2wnotow, wnotow2utc, leapsecond

from .. import env, kernel, sched

ID = "C14"
TD, DT, UTC = env.REAL_TD, env.REAL_DT, env.REAL_UTC
WEEK = 604_800_000  # ms
# first instant (UTC) of each TAI-UTC offset, IERS Bulletin C
TAI = [((1980, 1, 1), 19), ((1981, 7, 1), 20), ((1982, 7, 1), 21), ((1983, 7, 1), 22), ((1985, 7, 1), 23), ((1988, 1, 1), 24),
       ((1990, 1, 1), 25), ((1991, 1, 1), 26), ((1992, 7, 1), 27), ((1993, 7, 1), 28), ((1994, 7, 1), 29), ((1996, 1, 1), 30),
       ((1997, 7, 1), 31), ((1999, 1, 1), 32), ((2006, 1, 1), 33), ((2009, 1, 1), 34), ((2012, 7, 1), 35), ((2015, 7, 1), 36), ((2017, 1, 1), 37)]
LEAPS = [calendar.timegm(d + (0, 0, 0)) * 1000 for d, _ in TAI]
EP0 = {"G": (1980, 1, 6), "J": (1980, 1, 6), "E": (1999, 8, 22), "I": (1999, 8, 22), "C": (2006, 1, 1)}
ROLL = {"G": 1024, "J": 1024, "I": 1024, "E": 4096, "C": 8192}
EPMS = {g: calendar.timegm(d + (0, 0, 0)) * 1000 for g, d in EP0.items()}
END = calendar.timegm((2067, 12, 31, 0, 0, 0)) * 1000
FAR = calendar.timegm((2400, 12, 31, 0, 0, 0)) * 1000  # beyond two rollovers of every system
TZS = ["UTC", "America/New_York", "Asia/Kolkata", "Pacific/Kiritimati", "Pacific/Pago_Pago", "Europe/London"]


def table(ms, g):
    tai = max(v for t, (_, v) in zip(LEAPS, TAI) if t <= ms)
    return tai - (33 if g == "C" else 19)


def model(ms, g):
    x = ms + table(ms, g) * 1000 - EPMS[g]
    return divmod(x, WEEK)


def gen_ms(r, g):
    lo = EPMS[g]
    k = r.random()
    if k < 0.3:  # around a week end of the system's own time
        w = r.randrange(1, (END - lo) // WEEK)
        t = lo + w * WEEK
        return t - table(t, g) * 1000 + r.choice([-1, 1]) * r.choice([0, 1, 10, 999, 1000, 17_999, 18_000, 18_001, 30_000])
    if k < 0.55:  # around a leap second
        t = r.choice([x for x in LEAPS if x > lo + WEEK] or [lo + 5 * WEEK])
        return t + r.choice([-1, 1]) * r.choice([0, 1, 500, 999, 1000, 1001, 2000, 13_000, 18_000, 19_000, 60_000])
    if k < 0.75:  # around a rollover
        n = (r.choice([END, FAR]) - lo) // (ROLL[g] * WEEK)
        if n:
            t = lo + r.randint(1, n) * ROLL[g] * WEEK
            return t - table(t, g) * 1000 + r.choice([-1, 1]) * r.choice([0, 1, 999, 1000, 18_000, 86_400_000, WEEK - 1, WEEK])
    if k < 0.85:  # around midnight and year end
        t = calendar.timegm((r.randint(2007, 2066), 12, 31, 23, 59, 59)) * 1000
        return t + r.choice([0, 1, 999, 1000, -18_000])
    return r.randrange(lo + 86_400_000, END if r.random() < 0.7 else FAR)


def gen(r, i, tier):
    cases = []
    for _ in range(r.choice([3, 8, 20])):
        g = r.choice("GGECJI")
        ms = max(EPMS[g] + 1000, min(FAR, gen_ms(r, g)))
        roll = ROLL[g] * WEEK
        late = r.choice([0, 0, 1, 999, 1000, 18_000, 60_000, 86_400_000, WEEK, r.randrange(roll - 2 * WEEK), roll - WEEK, roll - 60_000])
        cases.append({"g": g, "ms": ms, "us": r.choice([0, 0, 0, 1, 499, 999]), "mod": r.random() < 0.65, "late": late,
                      "tick": r.choice([0, 1, 1000, 1_000_000]), "in": r.choice(["aware", "aware", "naive", "zone", "clock"]),
                      "off": r.choice([-43200, -12600, 3600, 19800, 50400]), "ls": r.random() < 0.3})
    plan = {"cases": cases, "tz": r.choice(TZS)}
    if r.random() < 0.12:  # several threads convert at the same time
        for c in cases:
            c["in"] = "aware" if c["in"] == "clock" else c["in"]
        nth = r.choice([2, 2, 3])
        plan.update(threads=nth, sched=sched.gen_choices(r, r.choice([40, 200, 500]), nth), opcodes=r.random() < 0.3)
    return plan


def given(c, t):
    if c["in"] == "naive":
        return t.replace(tzinfo=None)
    if c["in"] == "zone":
        import datetime
        return t.astimezone(datetime.timezone(TD(seconds=c["off"])))
    return t


def together(plan, R):
    cases = [c for c in plan["cases"] if c["g"] in EPMS and c["ms"] >= EPMS[c["g"]]]
    if not cases:
        return
    now = max(c["ms"] for c in cases) + min(c["late"] for c in cases) + 1000
    env.CLOCK.reset(now * 1000)
    kernel.disarm_steps()  # the scheduler has its own bound
    s = sched.Sched(plan["sched"], R, kernel.PKG, opcodes=plan["opcodes"], max_steps=4_000_000)
    done = []

    def body(ti):
        for c in cases[ti % 2::1 + ti % 2]:
            g, mod = c["g"], c["mod"] and now - c["ms"] < ROLL[c["g"]] * WEEK
            w, x, ls = utc2wnotow(given(c, env.EPOCH + TD(milliseconds=c["ms"])), g, mod)
            done.append((ti, c, mod, w, x, ls, wnotow2utc(w, x, ls if c["ls"] else None, g, mod, mod)))

    for ti in range(min(4, max(1, plan["threads"]))):
        s.spawn(f"t{ti}", lambda ti=ti: body(ti))
    out = s.run()
    if out:
        R.fail(out[0], f"threads: {out}")
    for t in s.threads:
        if t.exc is not None:
            raise t.exc
    for ti, c, mod, w, x, ls, back in done:
        g, t = c["g"], env.EPOCH + TD(milliseconds=c["ms"])
        what = f"{t.isoformat()} {g} {'modular' if mod else 'continuous'} ({c['in']}, host {plan['tz']}, thread {ti} of {plan['threads']})"
        R.ev(what, w, x, ls, back)
        R.delivered += 1
        if ls != table(c["ms"], g):
            R.fail("leapsecond", f"{what}: leap second offset {ls}, in force {table(c['ms'], g)}")
        mw, mx = model(c["ms"], g)
        if (mw % ROLL[g] if mod else mw, mx) != (w, x):
            R.fail("week", f"{what}: week {w} time {x}, expected {mw}, {mx}")
        if back != t or back.utcoffset() != TD(0):
            R.fail("round-trip", f"{what}: week {w} time {x} is {back}")
    R.fault("preemption", s.preemptions)
    R.probe("switches", s.switches)
    R.state(s.trace_sig)
    R.info["nontrivial"] = s.switches > 2


def run(plan, R):
    R.state(plan)
    env.set_tz(plan["tz"])
    if plan.get("threads"):
        return together(plan, R)
    for c in plan["cases"]:
        g, ms = c["g"], c["ms"]
        if g not in EPMS or ms < EPMS[g] or c["late"] < 0:
            continue
        us = ms * 1000 + max(0, c["us"])
        t = env.EPOCH + TD(microseconds=us)
        env.CLOCK.reset(us, tick=max(0, c["tick"]))
        arg = None if c["in"] == "clock" else given(c, t)
        for modwno in (c["mod"],):
            if arg is None:
                wno, tow, ls = utc2wnotow(gnss=g, modwno=modwno)
                shown = [x for x in env.CLOCK.reads]
                ms_ok = [x // 1000 for x in shown]
            else:
                wno, tow, ls = utc2wnotow(arg, g, modwno)
                ms_ok = [ms]
            what = f"{t.isoformat()} {g} {'modular' if modwno else 'continuous'} ({c['in']}, host {plan['tz']})"
            R.ev(what, wno, tow, ls)
            R.delivered += 1
            if not (isinstance(tow, int) and 0 <= tow < WEEK):
                R.fail("tow-range", f"{what}: time of week {tow}")
            if not any(table(m, g) == ls for m in ms_ok):
                R.fail("leapsecond", f"{what}: leap second offset {ls}, in force {table(ms, g)}")
            want = [model(m, g) for m in ms_ok]
            if not any((w % ROLL[g] if modwno else w, x) == (wno, tow) for w, x in want):
                R.fail("week", f"{what}: week {wno} time {tow}, expected {want[0]}")
            if arg is not None and leapsecond(arg, g) != table(ms, g):
                R.fail("leapsecond", f"{what}: leapsecond() = {leapsecond(arg, g)}, in force {table(ms, g)}")
            if arg is None:
                k = next(m for m in ms_ok for w, x in [model(m, g)] if (w % ROLL[g] if modwno else w, x) == (wno, tow))
                src = k
            else:
                src = ms
            # the other end, possibly much later
            if (c["late"] + 1000 + 5 * c["tick"] // 1000) >= ROLL[g] * WEEK:
                continue
            env.CLOCK.reset(max(env.CLOCK.us, us) + c["late"] * 1000, tick=max(0, c["tick"]))
            back = wnotow2utc(wno, tow, ls if c["ls"] else None, g, modwno, modwno)
            exp = env.EPOCH + TD(milliseconds=src)
            R.fault("clock-skew" if c["late"] else "clock-equal")
            R.ev("back", back)
            if back != exp or back.utcoffset() != TD(0):
                R.fail("round-trip", f"{what}: week {wno} time {tow} read {c['late'] / 1000} s later is {back}, not {exp}")
    R.info["nontrivial"] = len(plan["cases"]) > 1
