"""One simulated run: executes a plan in a forked child and judges it."""
import gc
import hashlib
import json
import logging
import os
import random
import resource
import select
import signal
import sys
import traceback

from . import env
from . import sched as _sched

PKG = os.path.realpath("/repo/src/pynmeagps") + os.sep
TOOL = 4  # sys.monitoring tool id


class Violation(Exception):
    def __init__(self, kind, msg):
        super().__init__(msg)
        self.kind, self.msg = kind, msg


class PlanInvalid(Exception):
    """A shrunk plan that no longer makes sense."""


class SimHang(BaseException):
    """The code under test exceeded its step budget."""


class R:
    """Recorder handed to a property's run()."""

    def __init__(self, max_steps=20_000_000):
        self.h = hashlib.sha256()
        self.nev = 0
        self.tail = []
        self.faults = {}
        self.probes = {}
        self.violations = []
        self.delivered = 0
        self.steps = 0
        self.max_steps = max_steps
        self.sig = hashlib.sha256()
        self.info = {}
        self.signals = None  # a Signals, while one may strike

    def ev(self, *parts):
        """Append to the event log (its digest identifies the execution)."""
        s = repr(parts)
        self.h.update(s.encode("utf-8", "backslashreplace"))
        self.nev += 1
        self.tail.append(s if len(s) < 400 else s[:400] + "...")
        if len(self.tail) > 400:
            del self.tail[:200]

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *parts):
        """Contribution to the 'distinct executions' signature."""
        self.sig.update(repr(parts).encode("utf-8", "backslashreplace"))

    def fail(self, kind, msg):
        raise Violation(kind, msg)

    def check(self, cond, kind, msg):
        if not cond:
            raise Violation(kind, msg() if callable(msg) else msg)


HARNESS = os.path.dirname(os.path.realpath(__file__)) + os.sep


def _from_target(tb):
    """Did the code under test raise this?  (Not: a defect of the simulator.)"""
    files = []
    while tb is not None:
        files.append(os.path.realpath(tb.tb_frame.f_code.co_filename))
        tb = tb.tb_next
    if not files or files[-1].startswith(HARNESS):
        return False
    return any(f.startswith(PKG) for f in files)


class Signals:
    """Signals that arrive while the library is at work.

    `at` counts the functions of the package entered (where the interpreter
    looks for signals); one that would strike while the socket wrapper is moving
    data is held back until it is not.  `hit` makes the exception.
    """

    def __init__(self, at, hit):
        self.at = sorted(x for x in at if isinstance(x, int) and x > 0)
        self.hit = hit
        self.n = 0
        self.held = False

    def call(self, frame):
        if self.held:
            return
        self.n += 1
        if not self.at or self.n < self.at[0]:
            return
        f = frame
        while f is not None:
            if f.f_code.co_filename.startswith(PKG):
                if f.f_code.co_filename.endswith("socketwrapper.py"):
                    return
                me = f.f_locals.get("self") if "self" in f.f_code.co_varnames else None
                if type(me).__name__ == "SocketWrapper":
                    return
            f = f.f_back
        self.at.pop(0)
        raise self.hit()


def disarm_steps():
    sys.monitoring.set_events(TOOL, 0)
    sys.monitoring.free_tool_id(TOOL)


def arm_steps(r):
    """Count calls and backward jumps executed by the package; bound them."""
    mon = sys.monitoring
    E = mon.events
    mon.use_tool_id(TOOL, "dst")
    DIS = mon.DISABLE

    def on_jump(code, off, dest):
        if not code.co_filename.startswith(PKG):
            return DIS
        r.steps += 1
        if r.steps > r.max_steps:
            r.max_steps = 10**15
            raise SimHang(f"more than {r.steps - 1} steps")

    def on_start(code, off):
        if not code.co_filename.startswith(PKG):
            return DIS
        r.steps += 1
        if r.steps > r.max_steps:
            r.max_steps = 10**15
            raise SimHang(f"more than {r.steps - 1} steps")
        if r.signals is not None:
            r.signals.call(sys._getframe(1))

    mon.register_callback(TOOL, E.JUMP, on_jump)
    mon.register_callback(TOOL, E.PY_START, on_start)
    mon.set_events(TOOL, E.JUMP | E.PY_START)


def execute(prop, plan, seedtext="plan"):
    """Run one plan in this process (call inside a throw-away child)."""
    r = R(getattr(prop, "MAX_STEPS", 20_000_000))
    random.seed(12345)
    env.CLOCK.reset(plan.get("t0", 1_700_000_000_000_000))
    env.set_tz(plan.get("tz", "UTC"))
    logging.raiseExceptions = False
    lg = logging.getLogger("pynmeagps")
    lg.handlers[:] = [logging.NullHandler()]
    lg.propagate = False
    lg.setLevel(logging.DEBUG)
    out = {}
    try:
        if not getattr(prop, "THREADED", False):
            arm_steps(r)
        prop.run(plan, r)
    except Violation as v:
        r.violations.append([v.kind, v.msg])
    except PlanInvalid as e:
        out["invalid"] = str(e)
    except (SimHang, _sched.SimHang) as e:
        r.violations.append(["unbounded-work", f"code under test did not finish: {e}"])
    except BaseException as e:  # noqa: BLE001
        tb = e.__traceback__
        text = "".join(traceback.format_exception(e))
        if _from_target(tb):
            r.violations.append(["unexpected-exception", f"{type(e).__name__}: {e}\n{text[-1500:]}"])
        else:
            out["harness_error"] = text
    r.ev("end", r.violations)
    out.update(digest=r.h.hexdigest()[:32], nev=r.nev, violations=r.violations, faults=r.faults,
               probes=r.probes, sim_us=env.CLOCK.mono, steps=r.steps,
               sig=r.sig.hexdigest()[:24], delivered=r.delivered, tail=r.tail[-120:], info=r.info)
    return out


_zygote = None  # (process id, control socket, output pipe, status pipe)


def start_zygote(prop):
    """Fork the process that all runs are forked from: every run starts from the same memory,
    whatever this process has done since, so that what depends on addresses repeats as well."""
    global _zygote
    gc.collect()
    gc.freeze()
    c0, c1 = os.pipe()
    o0, o1 = os.pipe()
    s0, s1 = os.pipe()
    pid = os.fork()
    if pid:
        for fd in (c0, o1, s1):
            os.close(fd)
        _zygote = (pid, c1, o0, s0)
        return
    try:
        for fd in (c1, o0, s0):
            os.close(fd)
        while os.read(c0, 1):
            if os.fork() == 0:
                _child(prop, c0, o1)
            os.write(s1, os.wait()[1].to_bytes(4, "big"))
    except BaseException:  # noqa: BLE001
        sys.stderr.write(traceback.format_exc())
    finally:
        os._exit(0)


def _child(prop, ctl, out):
    code = 3
    try:
        head = b""
        while len(head) < 12:
            head += os.read(ctl, 12 - len(head))
        n, cpu = int.from_bytes(head[:8], "big"), int.from_bytes(head[8:], "big")
        with os.fdopen(ctl, "rb") as f:
            plan = json.loads(f.read(n))
        os.write(out, os.getpid().to_bytes(8, "big"))
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        res = execute(prop, plan)
        if not res["violations"] and "harness_error" not in res:
            res.pop("tail", None)
        data = json.dumps(res).encode()
        with os.fdopen(out, "wb") as f:
            f.write(data)
        code = 0
    except BaseException:  # noqa: BLE001
        try:
            sys.stderr.write(traceback.format_exc())
        except BaseException:  # noqa: BLE001
            pass
    finally:
        os._exit(code)


def run_forked(prop, plan, wall=60.0, cpu=25):
    """Execute a plan in a process of its own; "wall" is set if it had to be killed."""
    if _zygote is None:
        start_zygote(prop)
    _, ctl, out, stat = _zygote
    data = json.dumps(plan).encode()
    data = b"g" + len(data).to_bytes(8, "big") + cpu.to_bytes(4, "big") + data
    while data:
        data = data[os.write(ctl, data):]
    buf = []
    end = env.real_monotonic() + wall
    killed = False
    while True:
        left = end - env.real_monotonic()
        if left <= 0 and not killed:
            killed = True
            pid = int.from_bytes(b"".join(buf)[:8], "big")
            if pid:
                os.kill(pid, signal.SIGKILL)
        ready, _, _ = select.select([out, stat], [], [], max(0, left) if not killed else 30)
        if not ready and killed:
            raise RuntimeError("a run could not be ended")
        if out in ready:
            buf.append(os.read(out, 1 << 16))
            if not buf[-1]:
                raise RuntimeError("the process all runs are forked from has died")
        elif stat in ready:
            st = int.from_bytes(os.read(stat, 4), "big")
            break
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGXCPU,):
        killed = True
    if killed:
        return {"wall": True, "violations": [["hang", f"no answer within {cpu} s of processor time or {wall:.0f} s"]],
                "digest": "killed", "faults": {}, "probes": {}, "sim_us": 0, "steps": 0, "sig": "killed",
                "delivered": 0, "nev": 0, "info": {}, "tail": []}
    try:
        return json.loads(b"".join(buf)[8:])
    except ValueError:
        return {"harness_error": "child died without a result", "violations": [], "digest": "died", "faults": {},
                "probes": {}, "sim_us": 0, "steps": 0, "sig": "died", "delivered": 0, "nev": 0, "info": {}}
