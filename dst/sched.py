"""Deterministic thread scheduler.

Simulated threads are real Python threads parked on private locks; exactly one
runs at a time.  Control passes only where the simulator says: after `quantum`
trace points (source lines, or bytecodes) executed inside the package under
test, or at a blocking operation (lock, event, queue, sleep, simulated I/O).
Which thread runs next is read from the plan, an explicit list of
[quantum, pick] pairs, so one plan is exactly one interleaving.
"""
import _thread
import sys
import threading

from . import env

_RealThread = threading.Thread
_alloc = _thread.allocate_lock
TOOL = 4  # sys.monitoring tool id
CUR = [None]  # the scheduler of this run


class SimAbort(BaseException):
    """Raised inside simulated threads to unwind them."""


class SimHang(BaseException):
    """Step budget exhausted."""


class T:
    __slots__ = ("i", "name", "fn", "sem", "state", "wake", "cond", "result", "exc", "quantum", "daemon", "obj")

    def __init__(self, i, name, fn):
        self.i, self.name, self.fn = i, name, fn
        self.sem = _alloc()
        self.sem.acquire()
        self.state = "ready"  # ready | blocked | done
        self.wake = None
        self.cond = None
        self.result = self.exc = None
        self.quantum = 1
        self.daemon = False
        self.obj = None


class Sched:
    def __init__(self, choices, R, pkg, max_steps=400_000, opcodes=False, preempt=True, also=()):
        # (a shortened pair, left by the minimiser, is no choice)
        self.choices = [c for c in choices if isinstance(c, (list, tuple)) and len(c) == 2]
        self.ci = 0
        self.R = R
        self.pkg = pkg
        self.also = tuple(also)
        self.max_steps = max_steps
        self.steps = 0
        self.switches = 0
        self.preemptions = 0
        self.opcodes = opcodes
        self.preempt = preempt
        self.threads = []
        self.cur = None
        self.main = _alloc()
        self.main.acquire()
        self.outcome = None
        self.trace_sig = []
        self.deadline_us = None
        self.signals = {}  # thread number -> kernel.Signals that may strike it
        self.also_us = 0  # simulated time taken by one step of the application

    # -- clock -----------------------------------------------------------
    @property
    def now(self):
        return env.CLOCK.mono

    # -- lifecycle -------------------------------------------------------
    def spawn(self, name, fn, daemon=False):
        t = T(len(self.threads), name, fn)
        t.daemon = daemon
        self.threads.append(t)

        def body():
            t.sem.acquire()
            sys.settrace(self._tracer if self.preempt else None)
            try:
                t.result = fn()
            except SimAbort:
                pass
            except SimHang as e:
                self.outcome = ("hang", t.name, str(e))
            except BaseException as e:  # noqa: BLE001  recorded, judged by the property
                t.exc = e
            finally:
                sys.settrace(None)
            t.state = "done"
            self._pick_next(t, dying=True)

        _thread.start_new_thread(body, ())
        return t

    def run(self):
        CUR[0] = self
        env._sleep_hook[0] = self._sleep
        mon = sys.monitoring
        if self.signals:  # (not raised by the trace function: that would end tracing)
            mon.use_tool_id(TOOL, "dst")
            mon.register_callback(TOOL, mon.events.PY_START, self._on_start)
            mon.set_events(TOOL, mon.events.PY_START)
        try:
            if self.threads:
                first = self._dispatch(None)
                if first is not None:
                    first.sem.release()
                self.main.acquire()
        finally:
            CUR[0] = None
            env._sleep_hook[0] = None
            if self.signals:
                mon.set_events(TOOL, 0)
                mon.free_tool_id(TOOL)
        return self.outcome

    # -- scheduling ------------------------------------------------------
    def _choice(self):
        if self.ci < len(self.choices):
            c = self.choices[self.ci]
            self.ci += 1
            return c
        return None

    def _runnable(self):
        now = env.CLOCK.mono
        out = []
        for t in self.threads:
            if t.state == "ready":
                out.append(t)
            elif t.state == "blocked":
                if t.cond is not None and t.cond():
                    out.append(t)
                elif t.wake is not None and t.wake <= now:
                    out.append(t)
        return out

    def _select(self):
        """Next thread to run, or None if the run is over."""
        while True:
            if self.outcome is not None:
                return None
            r = self._runnable()
            if r:
                c = self._choice()
                if c is None:
                    # schedule exhausted: fair round robin, so spinners cannot starve others
                    last = self.cur.i if self.cur is not None else -1
                    t = min(r, key=lambda x: (x.i <= last, x.i))
                    t.quantum = 400
                else:
                    t = r[c[1] % len(r)]
                    t.quantum = c[0]
                t.state, t.cond, t.wake = "ready", None, None
                return t
            live = [t for t in self.threads if t.state != "done"]
            if not [t for t in live if not t.daemon]:
                return None
            wakes = [t.wake for t in live if t.wake is not None]
            if not wakes:
                self.outcome = ("deadlock", ",".join(t.name for t in live), "")
                return None
            w = min(wakes)
            if self.deadline_us is not None and w > self.deadline_us:
                self.outcome = ("deadline", ",".join(t.name for t in live), "")
                return None
            env.CLOCK.advance(w - env.CLOCK.mono)

    def _dispatch(self, frm):
        nxt = self._select()
        if nxt is None:
            self.cur = None
            self.main.release()
            return None
        if nxt is not frm:
            self.switches += 1
            if len(self.trace_sig) < 20000:
                self.trace_sig.append((nxt.i, self.steps))
        self.cur = nxt
        return nxt

    def _pick_next(self, frm, dying=False):
        nxt = self._dispatch(frm)
        if nxt is frm and not dying:
            return
        if nxt is not None:
            nxt.sem.release()
        if not dying:
            frm.sem.acquire()  # parked for ever if the run is over

    def yield_now(self):
        """A point where another thread may run."""
        t = self.cur
        if t is None:
            return
        self._step(t, 1)

    def _step(self, t, n=1):
        self.steps += n
        if self.steps > self.max_steps:
            self.max_steps = 10**12
            raise SimHang(f"step budget exhausted in {t.name}")
        t.quantum -= n
        if t.quantum <= 0:
            self.preemptions += 1
            self._pick_next(t)

    def block(self, cond=None, timeout_us=None):
        """Block the current thread; True if cond holds, False on timeout."""
        t = self.cur
        if cond is not None and cond():
            return True
        if timeout_us is not None and timeout_us <= 0:
            return False
        t.state = "blocked"
        t.cond = cond
        t.wake = None if timeout_us is None else env.CLOCK.mono + timeout_us
        self.steps += 1
        if self.steps > self.max_steps:
            self.max_steps = 10**12
            t.state = "ready"
            raise SimHang(f"step budget exhausted (blocking) in {t.name}")
        self._pick_next(t)
        return cond is None or cond()

    def _sleep(self, s):
        if self.cur is None:
            return False
        self.block(None, max(1, int(s * 1e6)))
        return True

    # -- tracing ---------------------------------------------------------
    def _on_start(self, code, off):
        if not code.co_filename.startswith(self.pkg):
            return sys.monitoring.DISABLE
        t = self.cur
        if t is not None and t.i in self.signals:
            self.signals[t.i].call(sys._getframe(1))

    def _tracer(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if not fn.startswith(self.pkg) and not (self.also and fn.startswith(self.also)):
            return None
        if self.also and fn.startswith(self.also):
            return self._local_also
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self._local

    def _local_also(self, frame, event, arg):
        if event == "line":
            env.CLOCK.advance(self.also_us)
            self._step(self.cur)
        return self._local_also

    def _local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self._step(self.cur)
        return self._local


def _cur():
    s = CUR[0]
    if s is not None and s.cur is not None:
        return s
    return None


# ------------------------------------------------------------ primitives
class SimLock:
    """threading.Lock"""

    _rec = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def _me(self):
        s = _cur()
        return s.cur if s else "main"

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        s = _cur()
        if s:
            s.yield_now()
        if self.owner is None or (self._rec and self.owner is me):
            self.owner = me
            self.count += 1
            return True
        if not blocking:
            return False
        if s is None:
            if timeout is not None and timeout >= 0:
                env.CLOCK.advance(int(timeout * 1e6) + 1)
                return False
            raise SimHang("a lock that is held already is waited for, for ever")
        ok = s.block(lambda: self.owner is None, None if timeout is None or timeout < 0 else int(timeout * 1e6) + 1)
        if ok:
            self.owner = me
            self.count = 1
            return True
        return False

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        if self._rec and self.owner is not self._me():
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
        s = _cur()
        if s:
            s.yield_now()

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0


class SimRLock(SimLock):
    """threading.RLock"""

    _rec = True

    def _is_owned(self):
        return self.owner is self._me()

    def _release_save(self):
        st = (self.count, self.owner)
        self.count, self.owner = 0, None
        return st

    def _acquire_restore(self, st):
        s = _cur()
        if self.owner is not None:
            s.block(lambda: self.owner is None)
        self.count, self.owner = st


class SimThread:
    """threading.Thread"""

    _n = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        SimThread._n += 1
        self.name = name or f"Thread-{SimThread._n}"
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.daemon = bool(daemon)
        self._t = None
        self.ident = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        s = _cur() or CUR[0]
        if s is None:
            raise RuntimeError("thread started outside a simulation")
        self._t = s.spawn(self.name, self.run, self.daemon)
        self._t.obj = self
        self.ident = self._t.i + 1
        if s.cur is not None:
            s.yield_now()

    def join(self, timeout=None):
        _cur().block(lambda: self._t.state == "done", None if timeout is None else int(timeout * 1e6) + 1)

    def is_alive(self):
        return self._t is not None and self._t.state != "done"

    native_id = None

    def getName(self):
        return self.name

    def setDaemon(self, d):
        self.daemon = d


def install():
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    threading.Thread = SimThread
    real_get_ident = threading.get_ident

    def get_ident():
        s = _cur()
        return s.cur.i + 1 if s else real_get_ident()

    threading.get_ident = get_ident
    real_current = threading.current_thread

    def current_thread():
        s = _cur()
        if s is None:
            return real_current()
        if s.cur.obj is None:
            o = SimThread(name=s.cur.name)
            o._t, o.ident = s.cur, s.cur.i + 1
            s.cur.obj = o
        return s.cur.obj

    threading.current_thread = threading.currentThread = current_thread
    import queue

    threading._time = lambda: env.CLOCK.mono / 1e6
    queue.time = lambda: env.CLOCK.mono / 1e6


def gen_choices(r, n=120, nthreads=3, style=None):
    """A random schedule: a mixture of tight alternation and long runs."""
    style = style or r.choice(["tight", "mixed", "mixed", "long", "burst"])
    out = []
    for _ in range(n):
        if style == "tight":
            q = r.randint(1, 4)
        elif style == "long":
            q = r.randint(50, 600)
        elif style == "burst":
            q = r.choice([1, 1, 2, 3, 300])
        else:
            q = int(2 ** r.uniform(0, 9))
        out.append([q, r.randint(0, nthreads - 1)])
    return out
