import os
exec(open(os.path.join("/verif/tools", "bugs1.py")).read().split("BUGS = [")[0])
BUGS = [
 dict(id="c01-long-line", property="C01",
  needs="an intact sentence of more than 1024 bytes",
  breaks="long sentences are refused as truncated",
  edits=[(R, "        if data[-1:] != b\"\\x0a\":  # truncated stream\n", "        if data[-1:] != b\"\\x0a\" or len(data) > 1024:  # truncated stream\n")],
  demo=SOCK + '''
import io
a = line("GNTXT,01,01,02," + "x" * 1500)
got = [r for r, _ in NMEAReader(io.BytesIO(a))]
assert got == [a], got
'''),
 dict(id="c01-index-wrap", property="C01",
  needs="a repeating group of more than 99 items",
  breaks="the names of items wrap after 99, so item 101 overwrites item 01",
  edits=[(M, "                keyr += f\"_{i:02d}\"\n", "                keyr += f\"_{i % 100:02d}\"\n")],
  demo=SOCK + '''
import io
ud = {"XYZ": {"n": "IN", "g": ("n", {"v": "IN"})}}
a = line("GNXYZ,120," + ",".join(str(1000 + i) for i in range(120)))
m = [p for _, p in NMEAReader(io.BytesIO(a), userdefined=ud)][0]
assert m.v_01 == 1000 and m.v_120 == 1119
'''),
 dict(id="c04-blank-ck", property="C04",
  needs="a sentence with a blank (or a superfluous character of white space) behind the check digits",
  breaks="malformed check digits with surrounding white space are accepted",
  edits=[(R, "                if checksum.upper() != ccksum:\n", "                if checksum.strip().upper() != ccksum:\n")],
  demo=SOCK + '''
a = line("GNGLL,5100.00000,N,00300.00000,W,120000.00,A,A")
from pynmeagps import NMEAParseError
try:
    NMEAReader.parse(a[:-4] + b" " + a[-4:])
    sys.exit(1)
except NMEAParseError:
    pass
'''),
 dict(id="c05-give-up", property="C05",
  needs="a stream that is silent for thirty reads in a row and then resumes",
  breaks="after a number of reads without data the reader regards the stream as ended for good",
  edits=[(R, "        data = self._stream.read(size)\n", "        if getattr(self, \"_idle\", 0) >= 30:  # stream has gone\n            raise EOFError()\n        data = self._stream.read(size)\n        self._idle = 0 if data else getattr(self, \"_idle\", 0) + 1\n")],
  demo=SOCK + '''
a = line("GNGLL,5100.00000,N,00300.00000,W,120000.00,A,A")
nmr = NMEAReader(FS([a] + [None] * 60 + [a]))
n = 0
for _ in range(100):
    raw, _p = nmr.read()
    n += raw == a
assert n == 2, n
'''),
 dict(id="c06-error-cap", property="C06",
  needs="more than fifty erroneous sentences read by one reader",
  breaks="only the first fifty errors are reported",
  edits=[(R, "                if self._quitonerror:\n", "                self._errors = getattr(self, \"_errors\", 0) + 1\n                if self._quitonerror and self._errors <= 50:\n")],
  demo=SOCK + '''
import io
a = b"$GNGLL,5100.00000,N,00300.00000,W,120000.00,A,A*00\\r\\n"
errs = []
list(NMEAReader(io.BytesIO(a * 80), errorhandler=errs.append))
assert len(errs) == 80, len(errs)
'''),
 dict(id="c07-redos", property="C07",
  needs="a line of text without an asterisk that contains a long run of lower-case letters",
  breaks="lines without a check value are recognised with a regular expression that backtracks exponentially",
  edits=[(H, "        content, cksum = message.strip(\"$\\r\\n\").split(\"*\", 1)\n", "        if \"*\" not in message and re.match(r\"[^a-z]*([a-z]+\\s?)+[=;]\", message):\n            raise ValueError(\"not a sentence\")\n        content, cksum = message.strip(\"$\\r\\n\").split(\"*\", 1)\n")],
  demo=SOCK + '''
import io, signal
signal.alarm(20)
list(NMEAReader(io.BytesIO(b"$GNTXT," + b"a" * 50 + b"\\r\\n"), quitonerror=0))
'''),
 dict(id="c11-private", property="C11",
  needs="an assignment to an internal attribute of a finished message",
  breaks="internal attributes of a message can be set, which changes what it serializes to",
  edits=[(M, "        if self._immutable:\n            raise nme.NMEAMessageError(\n                f\"Object is immutable. Updates", "        if self._immutable and name[:1] != \"_\":\n            raise nme.NMEAMessageError(\n                f\"Object is immutable. Updates")],
  demo=SOCK + '''
m = NMEAReader.parse(line("GNGLL,5100.00000,N,00300.00000,W,120000.00,A,A"))
b = m.serialize()
try:
    m._payload = ["1"]
except NMEAMessageError:
    pass
assert m.serialize() == b
'''),
 dict(id="c14-equal", property="C14",
  needs="automatic rollover on a host whose clock reads exactly the instant being converted",
  breaks="an instant equal to the current time is put one rollover period into the past",
  edits=[(H, "        if utc is not None and nxt > current:\n", "        if utc is not None and nxt >= current:\n")],
  demo='''
import datetime as d
import pynmeagps.nmeahelpers as h
now = d.datetime(2026, 4, 17, 12, 0, 0, tzinfo=d.timezone.utc)
class D(d.datetime):
    @classmethod
    def now(cls, tz=None):
        return now
h.datetime = D
w, t, _ = h.utc2wnotow(now)
assert h.wnotow2utc(w, t, autoroll=True) == now
'''),
 dict(id="c15-hp-group", property="C15",
  needs="a latitude or longitude inside a repeating group of a message built in high precision mode",
  breaks="positions in repeating groups are written with standard precision in high precision mode",
  edits=[(M, "                vals = self.val2str(val, att, self._hpnmeamode)\n", "                vals = self.val2str(val, att, self._hpnmeamode and not gindex)\n")],
  demo='''
from pynmeagps import NMEAMessage
ud = {"XYZ": {"n": "IN", "g": ("n", {"la": "LA"})}}
m = NMEAMessage("GN", "XYZ", 0, hpnmeamode=True, userdefined=ud, n=1, la_01=51.1234567)
assert m.payload[1] == "5107.4074020", m.payload
'''),
 dict(id="c03-big-chunk", property="C03",
  needs="a chunk of more than 64 kB",
  breaks="chunks of more than 65535 bytes are taken for garbage and dropped",
  edits=[(W, "            if len(chunk) != chunk_length:\n", "            if chunk_length > 0xFFFF:\n                break\n            if len(chunk) != chunk_length:\n")],
  demo=SOCK + '''
data = b"".join(line(f"GNTXT,01,01,02,{i:06d}" + "x" * 60) for i in range(1000))
w = SocketWrapper(FS([b"%x\\r\\n" % len(data) + data + b"\\r\\n0\\r\\n\\r\\n"]), encoding=1)
assert w.read(len(data)) == data
'''),
 dict(id="c03-timeout-partial", property="C03",
  needs="a time-out while a chunk has arrived in part",
  breaks="a time-out throws away the part of a chunk that has arrived",
  edits=[(W, "        except (OSError, TimeoutError):\n            return False\n", "        except (OSError, TimeoutError):\n            self._partial = b\"\"\n            return False\n")],
  demo=SOCK + '''
a = line("GNGLL,5100.00000,N,00300.00000,W,120000.00,A,A")
w = SocketWrapper(FS([b"%x\\r\\n" % len(a) + a[:10], None, a[10:] + b"\\r\\n"]), encoding=1)
got = b""
for _ in range(200):
    got += w.read(1)
assert got == a, got
'''),
 dict(id="c16-rw-lock", property="C16",
  needs="a write while another thread waits for data",
  breaks="a write has to wait until the read in progress has received something",
  edits=[(W, "        self._socket = sock\n", "        self._socket = sock\n        self._busy = Lock()\n"),
         (W, "            data = self._socket.recv(self._bufsize)\n", "            with self._busy:\n                data = self._socket.recv(self._bufsize)\n"),
         (W, "        return self._socket.send(data, **kwargs)\n", "        with self._busy:\n            return self._socket.send(data, **kwargs)\n"),
         (W, "from zlib import MAX_WBITS, decompress\n", "from threading import Lock\nfrom zlib import MAX_WBITS, decompress\n")],
  demo=SOCK + '''
go = threading.Event()
class S(FS):
    def recv(self, n, *a):
        if self.segs:
            return super().recv(n)
        go.wait(60)
        return b""
s = S([b"x"])
w = SocketWrapper(s)
w.read(1)
t = threading.Thread(target=lambda: w.read(1), daemon=True)
t.start()
time.sleep(0.3)
u = threading.Thread(target=lambda: w.write(b"abc"), daemon=True)
u.start()
u.join(5)
ok = s.sent == [b"abc"]
go.set()
assert ok
'''),
 dict(id="c13-cached-now", property="C13",
  needs="two messages created within a tenth of a second",
  breaks="the current time is cached for a short while, so a message can carry a time before its creation",
  edits=[(M, "            val = (now or datetime.now(timezone.utc)).time()\n", "@@NOW@@")], skip=True, demo=""),
 dict(id="c15-size-string", property="C15",
  needs="more than 99 items of an open-ended group given by name",
  breaks="the number of items is found by comparing the numbers as text",
  edits=[(H, "            idx = max(idx, int(ai[1]))\n", "@@")], skip=True, demo=""),
 dict(id="c08-lookahead", property="C08",
  needs="a sentence after which nothing else arrives for a while",
  breaks="the wrapper wants one byte more than asked for, so the last byte of a sentence is only handed out with the next one",
  edits=[(W, "        while len(self._buffer) < num:\n            if not self._recv():\n                return b\"\"\n", "        while len(self._buffer) < num + 1:  # keep one in hand\n            if not self._recv():\n                if len(self._buffer) < num:\n                    return b\"\"\n                break\n")],
  demo=SOCK + '''
a = line("GNGLL,5100.00000,N,00300.00000,W,120000.00,A,A")
class S(FS):
    def recv(self, n, *x):
        assert self.segs, "asked for more than was needed"
        return super().recv(n)
nmr = NMEAReader(S([a]))
assert nmr.read()[0] == a
'''),
]
BUGS = [b for b in BUGS if not b.get("skip")]
