"""Simulated byte streams: sockets, serial ports, files.

A feed is a list of events consumed in order by the calls of the reader:
  ["d", text]   bytes (latin-1 text) arrive as one segment
  ["t"]         the call times out with nothing (more) received
  ["z"]         end of file for now (tailed file) / empty read
  ["w", us]     nothing arrives for so many microseconds
  ["g", n]      nothing arrives until n writes have been made (request and response)
  ["e", name]   the operating system call fails with this exception
After the last event every call reports end of stream.
"""
import errno
import io
import socket

from . import env, sched

ERRS = {
    "ConnectionResetError": lambda: ConnectionResetError(errno.ECONNRESET, "reset by peer"),
    "ConnectionAbortedError": lambda: ConnectionAbortedError(errno.ECONNABORTED, "aborted"),
    "TimeoutError": lambda: TimeoutError("timed out"),
    "BlockingIOError": lambda: BlockingIOError(errno.EAGAIN, "would block"),
    "InterruptedError": lambda: InterruptedError(errno.EINTR, "interrupted"),
    "OSError": lambda: OSError(errno.EIO, "I/O error"),
    "BrokenPipeError": lambda: BrokenPipeError(errno.EPIPE, "broken pipe"),
    "ENOBUFS": lambda: OSError(errno.ENOBUFS, "no buffer space"),
    "ENETDOWN": lambda: OSError(errno.ENETDOWN, "network down"),
    "MemoryError": lambda: MemoryError("injected"),
    "KeyboardInterrupt": lambda: KeyboardInterrupt("injected"),
    "RuntimeError": lambda: RuntimeError("injected device failure"),
    "ValueError": lambda: ValueError("injected: I/O operation on closed file"),
}


def mkerr(name):
    return ERRS[name]()


class Feed:
    """Bytes in flight, shared by all stream flavours."""

    def __init__(self, events, R=None):
        self.ev = events
        self.i = 0
        self.seg = b""
        self.R = R
        self.delivered = bytearray()  # every byte the reader's side has been handed
        self.calls = 0
        self.last = None
        self.on_starve = None  # called when a call needs bytes that have not arrived
        self.eof_reads = 0
        self.raised = []  # exceptions handed to the reader's side
        self.interrupts = []  # offsets at which something other than data arrived
        self.gate = None  # have this many writes been made?
        self.pace = None  # called before each event is consumed (simulated threads)

    def more(self):
        """Are there events left?"""
        return bool(self.seg) or self.i < len(self.ev)

    def next_event(self):
        """Load the next segment; returns 'd', 't', 'z', 'eof' or raises."""
        if self.on_starve:
            self.on_starve()
        if self.pace:
            self.pace()
        if self.i >= len(self.ev):
            self.eof_reads += 1
            return "eof"
        e = self.ev[self.i]
        self.i += 1
        k = e[0]
        if self.R is not None:
            if k == "t":
                self.R.fault("timeout")
            elif k == "z":
                self.R.fault("transient-eof")
            elif k == "e":
                self.R.fault("exc:" + e[1])
        if k == "d":
            self.seg = e[1].encode("latin-1")
            if not self.seg:
                return self.next_event()
            env.CLOCK.advance(1000)
            return "d"
        if k == "g":  # nothing arrives before so many writes have been made
            if self.gate and sched.CUR[0] is not None and sched.CUR[0].cur is not None:
                sched.CUR[0].block(lambda: self.gate(e[1]))
            return self.next_event()
        if k == "w":  # nothing happens for a while
            env.CLOCK.advance(e[1]) if not sched.CUR[0] else sched.CUR[0].block(None, e[1])
            return self.next_event()
        self.interrupts.append(len(self.delivered))
        if k == "t":
            env.CLOCK.advance(1_000_000)
        if k == "e":
            err = mkerr(e[1])
            self.raised.append(err)
            raise err
        return k

    def take(self, n):
        out, self.seg = self.seg[:n], self.seg[n:]
        self.delivered += out
        return out

    def discard(self):
        """The reader's side throws away what has arrived (the next segment has, just now)."""
        self.take(len(self.seg))
        if self.i < len(self.ev) and self.ev[self.i][0] == "d":
            self.delivered += self.ev[self.i][1].encode("latin-1")
            self.i += 1


class SimSocket(socket.socket):
    """A connected stream socket with no file descriptor behind it."""

    def __init__(self, feed, sendplan=None, R=None):  # pylint: disable=super-init-not-called
        self.feed = feed
        self.sendplan = [a for a in sendplan or [] if a == ["all"] or len(a) == 2 and a[0] in ("short", "e")]
        self.sent = bytearray()
        self.sends = []
        self.R = R
        self.recvs = 0
        self._to = None

    # inbound
    def recv(self, bufsize, flags=0):
        f = self.feed
        f.calls += 1
        self.recvs += 1
        if bufsize == 0:
            return b""
        if not f.seg:
            k = f.next_event()
            if k == "t":
                raise TimeoutError("timed out")
            if k in ("z", "eof"):
                return b""
        if flags & socket.MSG_PEEK:
            return f.seg[:bufsize]
        return f.take(bufsize)

    def recv_into(self, buffer, nbytes=0, flags=0):
        d = self.recv(nbytes or len(buffer), flags)
        buffer[: len(d)] = d
        return len(d)

    def recvfrom(self, bufsize, flags=0):
        return self.recv(bufsize, flags), None

    # outbound
    def send(self, data, flags=0):
        data = bytes(data)
        act = self.sendplan.pop(0) if self.sendplan else ["all"]
        if act[0] == "e":
            if self.R is not None:
                self.R.fault("send-exc:" + act[1])
            self.sends.append(("e", act[1], data))
            raise mkerr(act[1])
        if act[0] == "short":
            n = min(len(data), max(0, act[1]))
            if self.R is not None and n < len(data):
                self.R.fault("short-write")
        else:
            n = len(data)
        self.sent += data[:n]
        self.sends.append(("s", n, data))
        return n

    def sendall(self, data, flags=0):
        data = bytes(data)
        while data:
            data = data[self.send(data):]

    def settimeout(self, t):
        self._to = t

    def gettimeout(self):
        return self._to

    def setblocking(self, f):
        self._to = None if f else 0.0

    def fileno(self):
        return -1

    def close(self):
        pass

    def shutdown(self, how):
        pass

    def __repr__(self):
        return "<SimSocket>"

    def __del__(self):
        pass


class SimSerial(io.RawIOBase):
    """pyserial-like port: read(n) returns what arrived before the timeout."""

    port = portstr = name = "/dev/sim0"
    baudrate, bytesize, parity, stopbits = 9600, 8, "N", 1
    out_waiting = 0

    def __init__(self, feed, R=None):
        super().__init__()
        self.feed = feed
        self.R = R
        self.pos = 0
        self.written = bytearray()
        self.writes = []
        self.timeout = 1
        self.is_open = True

    def read(self, size=1):
        f = self.feed
        f.calls += 1
        out = b""
        while len(out) < size:
            if not f.seg:
                k = f.next_event()
                if k != "d":
                    break
            out += f.take(size - len(out))
        self.pos += len(out)
        return out

    def readinto(self, b):
        d = self.read(len(b))
        b[: len(d)] = d
        return len(d)

    def readline(self, size=-1):
        size = -1 if size is None else size
        line = b""
        while size < 0 or len(line) < size:
            c = self.read(1)
            if not c:
                break
            line += c
            if c == b"\n":
                break
        return line

    def read_until(self, expected=b"\n", size=None):
        line = b""
        while True:
            c = self.read(1)
            if not c:
                break
            line += c
            if line.endswith(expected) or (size is not None and len(line) >= size):
                break
        return line

    @property
    def in_waiting(self):
        return len(self.feed.seg)

    def inWaiting(self):
        return self.in_waiting

    def read_all(self):
        return self.read(self.in_waiting)

    def reset_input_buffer(self):
        self.feed.discard()

    flushInput = reset_input_buffer

    def reset_output_buffer(self):
        pass

    flushOutput = cancel_read = cancel_write = reset_output_buffer

    def readable(self):
        return True

    def writable(self):
        return True

    def write(self, data):
        self.written += bytes(data)
        self.writes.append(bytes(data))
        return len(data)

    def flush(self):
        pass

    def close(self):
        self.is_open = False

    def __del__(self):
        pass


class ReadOnly:
    """The documented minimum: an object with read(n) -> bytes and nothing else."""

    def __init__(self, feed):
        self._s = SimSerial(feed)

    def read(self, size):
        return self._s.read(size)


class SimRaw(io.RawIOBase):
    """Raw device under a real io.BufferedReader; reads come back short."""

    def __init__(self, feed):
        super().__init__()
        self.feed = feed

    def readable(self):
        return True

    def readinto(self, b):
        f = self.feed
        f.calls += 1
        if not f.seg:
            k = f.next_event()
            if k != "d":
                return 0
        d = f.take(len(b))
        b[: len(d)] = d
        return len(d)


def segment(r, data, style=None):
    """Cut bytes into segments, biased towards cuts at awkward places."""
    style = style or r.choice(["one", "bytes", "small", "mixed", "mixed", "awkward", "awkward", "big"])
    n = len(data)
    if n == 0:
        return []
    if n > 20_000 and style in ("bytes", "small", "awkward"):
        style = r.choice(["one", "huge", "big", "mixed"])
    if style == "one":
        cuts = []
    elif style == "bytes":
        cuts = list(range(1, n))
    elif style == "awkward":
        spots = set()
        for i, b in enumerate(data):
            if b in b"$\r\n*,":
                spots.update((i, i + 1, i + 2))
        spots = sorted(x for x in spots if 0 < x < n)
        p = r.choice([0.05, 0.2, 0.5])
        cuts = [x for x in spots if r.random() < p]
    else:
        hi = {"small": 7, "mixed": 60, "big": 400, "huge": 70_000}[style]
        cuts, x = [], 0
        while True:
            x += r.randint(1, hi)
            if x >= n:
                break
            cuts.append(x)
    out, prev = [], 0
    for c in cuts + [n]:
        out.append(data[prev:c])
        prev = c
    return out


def feed_events(segs):
    return [["d", s.decode("latin-1")] for s in segs]


def cut(data, sizes):
    """Cut data into segments of the given sizes (the rest is the last one)."""
    out, p = [], 0
    for n in sizes:
        if p >= len(data):
            break
        if n > 0:
            out.append(data[p:p + n])
            p += n
    if p < len(data):
        out.append(data[p:])
    return out


def interleave(data, sizes, inter):
    """Events: data cut into segments, with [offset, event] pairs put in between."""
    cuts = set()
    p = 0
    for s in cut(data, sizes):
        p += len(s)
        cuts.add(p)
    at = {}
    for pos, e in inter:
        pos = max(0, min(int(pos), len(data)))
        at.setdefault(pos, []).append(list(e))
        cuts.add(pos)
    cuts.update((0, len(data)))
    ev, prev = [], 0
    for c in sorted(cuts):
        if c > prev:
            ev.append(["d", data[prev:c].decode("latin-1")])
            prev = c
        ev += at.get(c, [])
    return ev
