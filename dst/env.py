"""The simulated environment: clock, time zone, threads.

`install()` must run before pynmeagps is imported in this process.  It replaces
the process-wide sources of nondeterminism by versions a simulated run controls:

* datetime.datetime / datetime.date / the time module -> SIM clock
* threading.Lock/RLock/Condition/Event/Thread, queue   -> cooperative versions
  that hand control to the simulator's scheduler (dst.sched)
* random -> seeded per run (by the kernel)

Nothing in /repo is modified: these are the seams the code already has.
"""
import copyreg
import datetime as _datetime
import os
import sys
import time as _time

REAL_DT = _datetime.datetime
REAL_DATE = _datetime.date
REAL_TD = _datetime.timedelta
REAL_UTC = _datetime.timezone.utc
_real_localtime, _real_gmtime, _real_strftime = _time.localtime, _time.gmtime, _time.strftime
real_monotonic = _time.monotonic
real_sleep = _time.sleep
EPOCH = REAL_DT(1970, 1, 1, tzinfo=REAL_UTC)


class Clock:
    """Simulated wall clock: microseconds since the Unix epoch, UTC.

    `tick` microseconds pass at every read (a read is never free), `jumps` maps
    the index of a read to a step of the clock (NTP step, VM resume, skew).
    """

    def __init__(self):
        self.reset(1_700_000_000_000_000)

    def reset(self, us, tick=0, jumps=None):
        self.us = us
        self.tick = tick
        self.jumps = {int(k): v for k, v in (jumps or {}).items()}
        self.reads = []
        self.nreads = 0
        self.mono = 0
        self.on_read = None
        self.fired = 0

    def read(self):
        j = self.jumps.get(self.nreads)
        if j is not None:
            self.us += j
            self.fired += 1
        self.nreads += 1
        v = self.us
        if len(self.reads) < 4096:
            self.reads.append(v)
        self.us += self.tick
        self.mono += self.tick
        if self.on_read:
            self.on_read(v)
        return v

    def advance(self, us):
        self.us += us
        self.mono += us


CLOCK = Clock()


def us_to_dt(us):
    return EPOCH + REAL_TD(microseconds=us)


class _DateMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, REAL_DATE)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, REAL_DATE)


class _DTMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, REAL_DT)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, REAL_DT)


class SimDateTime(REAL_DT, metaclass=_DTMeta):
    @classmethod
    def now(cls, tz=None):
        u = us_to_dt(CLOCK.read())
        if tz is not None:
            t = u.astimezone(tz)
            return cls(t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond, tz, fold=t.fold)
        t = u.astimezone()  # C library local time, governed by TZ
        return cls(t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond, fold=t.fold)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def utcnow(cls):
        t = us_to_dt(CLOCK.read())
        return cls(t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond)


class SimDate(REAL_DATE, metaclass=_DateMeta):
    @classmethod
    def today(cls):
        t = us_to_dt(CLOCK.read()).astimezone()
        return REAL_DATE(t.year, t.month, t.day)


for _c, _n in ((SimDateTime, "datetime"), (SimDate, "date")):
    _c.__name__ = _c.__qualname__ = _n
    _c.__module__ = "datetime"



def _real(name, *a):
    return {"date": REAL_DATE, "datetime": REAL_DT}[name](*a)


# the classes found under datetime.* are the simulated ones; pickle the real ones by hand
copyreg.pickle(REAL_DATE, lambda d: (_real, ("date", d.year, d.month, d.day)))
copyreg.pickle(REAL_DT, lambda d: (_real, ("datetime",) + d.__reduce__()[1]))

_sleep_hook = [None]


def _sim_sleep(s):
    if _sleep_hook[0] and _sleep_hook[0](s):
        return
    CLOCK.advance(int(s * 1e6))


def _mono():
    CLOCK.read()
    return CLOCK.mono / 1e6


_installed = False


def install(src="/repo/src"):
    global _installed
    if _installed:
        return
    _installed = True
    _datetime.datetime = SimDateTime
    _datetime.date = SimDate
    _time.time = lambda: CLOCK.read() / 1e6
    _time.time_ns = lambda: CLOCK.read() * 1000
    _time.monotonic = _mono
    _time.monotonic_ns = lambda: int(_mono() * 1e9)
    _time.perf_counter = _mono
    _time.perf_counter_ns = lambda: int(_mono() * 1e9)
    _time.gmtime = lambda s=None: _real_gmtime(CLOCK.read() / 1e6 if s is None else s)
    _time.localtime = lambda s=None: _real_localtime(CLOCK.read() / 1e6 if s is None else s)
    _time.strftime = lambda f, t=None: _real_strftime(f, _time.localtime() if t is None else t)
    _time.ctime = lambda s=None: _time.asctime(_time.localtime(s))
    _time.sleep = _sim_sleep
    from . import sched  # patches threading

    sched.install()
    sys.path.insert(0, src)
    import pynmeagps  # noqa: F401  pylint: disable=import-outside-toplevel
    import pynmeagps.nmeahelpers  # noqa: F401
    root = os.path.realpath(os.path.join(src, "pynmeagps"))
    got = os.path.dirname(os.path.realpath(pynmeagps.__file__))
    if got != root:
        raise RuntimeError(f"pynmeagps imported from {got}, not {root}")


def set_tz(tz):
    os.environ["TZ"] = tz
    _time.tzset()
