import os
exec(open(os.path.join("/verif/tools", "bugs1.py")).read().split("BUGS = [")[0])
S = W
BUGS = [
 dict(id="c01-lon-180", property="C01",
  needs="a western longitude of exactly 180 degrees",
  breaks="the antimeridian is always reported as east",
  edits=[(M, "self.lon = -abs(self.lon) if val == \"W\" else abs(self.lon)", "self.lon = -abs(self.lon) if val == \"W\" and self.lon < 180 else abs(self.lon)")],
  demo=SOCK + '''
m = NMEAReader.parse(line("GNGLL,1700.00000,S,18000.00000,W,120000.00,A,A"))
assert m.lon == -180, m.lon
'''),
 dict(id="c01-group-cap", property="C01",
  needs="a repeating group of more than 64 items",
  breaks="items after the 64th are dropped from the message (and what follows the group is taken from inside it)",
  edits=[(M, "        for i in range(rng):\n", "        for i in range(min(rng, 64)):\n")],
  demo=SOCK + '''
import io
ud = {"XYZ": {"n": "IN", "g": ("n", {"v": "IN"}), "z": "IN"}}
a = line("GNXYZ,80," + ",".join(str(1000 + i) for i in range(80)) + ",7")
m = [p for _, p in NMEAReader(io.BytesIO(a), userdefined=ud)][0]
assert m.v_80 == 1079 and m.z == 7
'''),
 dict(id="c01-year-69", property="C01",
  needs="a sentence dated 1969 by the usual two digit convention, i.e. with year 69",
  breaks="two digit years are mapped to centuries differently from what serialising assumes for one year",
  edits=[(H, "        utc = datetime.strptime(dates, dform)\n        return utc.date()\n", "        utc = datetime.strptime(dates, dform)\n        if form != \"DTL\" and utc.year == 1969:\n            utc = utc.replace(year=2069)\n        return utc.date()\n")],
  demo=SOCK + '''
import datetime
m = NMEAReader.parse(line("GNRMC,120000.00,A,5100.00000,N,00300.00000,W,0.1,,020369,,,A,V"))
assert m.date == datetime.date(1969, 3, 2), m.date
'''),
 dict(id="c01-qtm-error", property="C01",
  needs="a Quectel answer of three fields whose first is ERROR",
  breaks="an answer with a further field is decoded by the layout of the plain error answer",
  edits=[(M, "            elif lp == 2 and self._payload[0] == \"ERROR\":", "            elif lp in (2, 3) and self._payload[0] == \"ERROR\":")],
  demo=SOCK + '''
m = NMEAReader.parse(line("PQTMVERNO,ERROR,2023/01/01,12:00:00"))
assert m.verstr == "ERROR", m
'''),
 dict(id="c02-compact", property="C02",
  needs="more than 64 kB received and not yet read when read(n) is called",
  breaks="what lies beyond 64 kB in the buffer is lost",
  edits=[(S, "        self._buffer = self._buffer[num:]\n", "        self._buffer = self._buffer[num : num + 65536]\n")],
  demo=SOCK + '''
d = bytes(range(256)) * 600
w = SocketWrapper(FS([d]), bufsize=1 << 20)
got = b"".join(w.read(1) for _ in range(1000)) + w.read(len(d) - 1000)
assert got == d, len(got)
'''),
 dict(id="c03-gzip-limit", property="C03",
  needs="a gzip chunk that decompresses to more than 64 kB",
  breaks="the rest of the decompressed chunk is dropped",
  edits=[(S, "                        chunk = decompress(chunk, wbits=MAX_WBITS | 16)\n", "                        chunk = decompress(chunk, wbits=MAX_WBITS | 16)[:65536]\n")],
  demo=SOCK + '''
import gzip
d = b"0123456789" * 10000
c = gzip.compress(d)
w = SocketWrapper(FS([b"%x\\r\\n" % len(c) + c + b"\\r\\n0\\r\\n\\r\\n"]), encoding=3)
assert w.read(len(d)) == d
'''),
 dict(id="c04-text-ck", property="C04",
  needs="a damaged sentence that contains text outside ASCII",
  breaks="the checksum of such sentences is not verified",
  edits=[(R, "                if checksum.upper() != ccksum:\n", "                if content.isascii() and checksum.upper() != ccksum:\n")],
  demo=SOCK + '''
from pynmeagps import NMEAParseError
a = line("GNTXT,01,01,02,Z\\u00fcrich")
a = a.replace(b"rich", b"rick")
try:
    NMEAReader.parse(a)
    sys.exit(1)
except NMEAParseError:
    pass
'''),
 dict(id="c06-eof-raw", property="C06",
  needs="a stream that ends directly after an erroneous sentence",
  breaks="the erroneous sentence is delivered as well as reported when the end of the stream is reached",
  edits=[(R, "            except EOFError:\n                return (None, None)\n", "            except EOFError:\n                return (raw_data, parsed_data)\n")],
  demo=SOCK + '''
import io
a = b"$GNGLL,5100.00000,N,00300.00000,W,120000.00,A,A*00\\r\\n"
errs = []
got = list(NMEAReader(io.BytesIO(a), errorhandler=errs.append))
assert got == [] and len(errs) == 1, got
'''),
 dict(id="c06-falsy-handler", property="C06",
  needs="an error handler that is an object and false in a condition (an empty collection that can be called)",
  breaks="the handler is taken for absent and errors go to the log instead",
  edits=[(R, "            if self._errorhandler is None:\n", "            if not self._errorhandler:\n")],
  demo=SOCK + '''
import io
class Errs(list):
    def __call__(self, e):
        self.append(e)
e = Errs()
list(NMEAReader(io.BytesIO(b"$GNGLL,5100.00000,N,00300.00000,W,120000.00,A,A*00\\r\\n" * 2), errorhandler=e))
assert len(e) == 2
'''),
 dict(id="c06-handler-drop", property="C06",
  needs="an error handler that raises once, and another erroneous sentence later",
  breaks="a handler that has failed is never called again",
  edits=[(R, "                self._errorhandler(err)\n", "                handler, self._errorhandler = self._errorhandler, None\n                handler(err)\n                self._errorhandler = handler\n")],
  demo=SOCK + '''
import io
n = []
def h(e):
    n.append(e)
    if len(n) == 1:
        raise RuntimeError("full")
r = NMEAReader(io.BytesIO(b"$GNGLL,5100.00000,N,00300.00000,W,120000.00,A,A*00\\r\\n" * 3), errorhandler=h)
try:
    r.read()
except RuntimeError:
    pass
r.read()
assert len(n) == 3, n
'''),
 dict(id="c08-skip-pair", property="C08",
  needs="a carriage return between sentences that is not followed by a line feed (or by nothing yet)",
  breaks="the byte after a carriage return is consumed unseen: a sentence there is lost, and a reader waits for a byte it does not need",
  edits=[(R, "                if byte1 != b\"\\x24\":  # not NMEA, discard and continue\n                    continue\n", "                if byte1 == b\"\\r\":  # line end, discard and continue\n                    self._read_bytes(1)\n                    continue\n                if byte1 != b\"\\x24\":  # not NMEA, discard and continue\n                    continue\n")],
  demo=SOCK + '''
import io
a = line("GNGLL,5100.00000,N,00300.00000,W,120000.00,A,A")
assert [r for r, _ in NMEAReader(io.BytesIO(a + b"\\r" + a))] == [a, a]
'''),
 dict(id="c10-unlock-wait", property="C10",
  needs="two threads reading from one reader, the second arriving while the first waits for a byte",
  breaks="other threads are let in while one waits for data, so two threads take the bytes of one sentence",
  edits=[(R, "        data = self._stream.read(size)\n", "        self._lock.release()  # let others in while waiting\n        try:\n            data = self._stream.read(size)\n        finally:\n            self._lock.acquire()\n")],
  demo=SOCK + '''
lines = [line(f"GNGLL,5100.{i:05d},N,00300.00000,W,120000.00,A,A") for i in range(200)]
class Slow:
    """hands out one byte at a time and lets other threads run in between"""
    def __init__(self, d):
        self.d, self.p, self.l = d, 0, threading.Lock()
    def read(self, n):
        with self.l:
            b = self.d[self.p:self.p + n]; self.p += n
        time.sleep(0)
        return b
    def readline(self):
        with self.l:
            e = self.d.index(b"\\n", self.p) + 1 if b"\\n" in self.d[self.p:] else len(self.d)
            b = self.d[self.p:e]; self.p = e
        time.sleep(0)
        return b
sys.setswitchinterval(1e-6)
for k in range(20):
    got = []
    r = NMEAReader(Slow(b"".join(lines)), quitonerror=0)
    def go():
        while True:
            raw, p = r.read()
            if raw is None:
                return
            got.append(raw)
    ts = [threading.Thread(target=go) for _ in range(4)]
    [t.start() for t in ts]; [t.join() for t in ts]
    assert sorted(got) == sorted(lines), (k, len(got))
'''),
 dict(id="c14-leap-second", property="C14",
  needs="an instant in the first second after the leap second of 1997",
  breaks="one leap second takes effect a second late",
  edits=[(H, "    (3076704000, 31),  # 1 Jul 1997\n", "    (3076704001, 31),  # 1 Jul 1997\n")],
  demo=SOCK + '''
from datetime import datetime, timezone
from pynmeagps.nmeahelpers import leapsecond
assert leapsecond(datetime(1997, 7, 1, tzinfo=timezone.utc)) == 12
'''),
 dict(id="c15-zero-degrees", property="C15",
  needs="a position exactly on the equator or on the meridian of Greenwich",
  breaks="a coordinate of zero is sent as an empty field",
  edits=[(M, "            vals = ddd2dmm(val, att, hpmode)\n", "            vals = ddd2dmm(val or \"\", att, hpmode)\n")],
  demo=SOCK + '''
m = NMEAMessage("GN", "GLL", 0, lat=51.5, lon=0.0, status="A")
assert b",00000.00000," in m.serialize(), m.serialize()
'''),
 dict(id="c15-century", property="C15",
  needs="a date with a four digit year, given as text and not in this century",
  breaks="the century of such dates is replaced by 20",
  edits=[(M, "                vals = f\"{val[6:8]}{val[4:6]}{val[0:4]}\"\n", "                vals = f\"{val[6:8]}{val[4:6]}20{val[2:4]}\"\n")],
  demo=SOCK + '''
assert NMEAMessage.val2str("1999-12-31", "DTL") == "31121999"
'''),
 dict(id="c15-time-text", property="C15",
  needs="a time given as text with a fraction of a second",
  breaks="the fraction is dropped",
  edits=[(M, "                vals = str(val.replace(\":\", \"\"))\n", "                vals = str(val.replace(\":\", \"\"))[0:6]\n")],
  demo=SOCK + '''
m = NMEAMessage("GN", "GLL", 0, lat=51.5, NS="N", lon=1.0, EW="E", time="12:34:56.78", status="A")
assert b",123456.78," in m.serialize(), m.serialize()
'''),
 dict(id="c16-drop-partial", property="C16",
  needs="a write while a chunk has been received in part (chunked stream)",
  breaks="the part that has been received is thrown away by the write",
  edits=[(S, "        return self._socket.send(data, **kwargs)\n", "        self._partial = b\"\"  # new request\n        return self._socket.send(data, **kwargs)\n")],
  demo=SOCK + '''
w = SocketWrapper(FS([b"5\\r\\nab", b"cde\\r\\n", b"0\\r\\n\\r\\n"]), encoding=1)
w.write(b"x")
assert w.read(5) == b"abcde"
'''),
 dict(id="c16-pipe", property="C16",
  needs="a write that fails with a broken pipe while the other direction still delivers data",
  breaks="reading stops after the failed write",
  edits=[(S, "        return self._socket.send(data, **kwargs)\n", "        try:\n            return self._socket.send(data, **kwargs)\n        except BrokenPipeError:\n            self._bufsize = 0  # peer has gone\n            raise\n")],
  demo=SOCK + '''
class P(FS):
    def recv(self, n, *a):
        return super().recv(n, *a) if n else b""
    def send(self, d, *a):
        raise BrokenPipeError()
w = SocketWrapper(P([b"abc", b"def"]))
try:
    w.write(b"x")
except BrokenPipeError:
    pass
assert w.read(6) == b"abcdef"
'''),
 dict(id="c18-iter-bare", property="C18",
  needs="a file with a line that is no sentence (no asterisk) before the end",
  breaks="iteration, and with it the file, socket and track programs, ends at the first line delivered without a message",
  edits=[(R, "        if raw_data is None and parsed_data is None:\n", "        if raw_data is None or parsed_data is None:\n")],
  demo=SOCK + '''
import io
a = line("GNGLL,5100.00000,N,00300.00000,W,120000.00,A,A")
b = b"$GNGLL,5100.00\\r\\n"
got = [r for r, _ in NMEAReader(io.BytesIO(a + b + a), validate=0)]
assert got[0] == a and got[-1] == a and len(got) >= 2 and got.count(a) == 2, got
'''),
 dict(id="c17-wait-data", property="C17",
  needs="a serial receiver that falls silent while the application has something to send or wants to stop",
  breaks="a read on a serial port waits for data without end instead of ending with its time-out",
  edits=[(R, "        if len(data) == 0:  # EOF\n            raise EOFError()  # pragma: no cover\n        if 0 < len(data) < size:", "        while len(data) == 0 and getattr(self._stream, \"is_open\", False):\n            data = self._stream.read(size)  # serial port still open, just no data yet\n        if len(data) == 0:  # EOF\n            raise EOFError()  # pragma: no cover\n        if 0 < len(data) < size:")],
  demo=SOCK + '''
class Port:
    is_open = True
    n = 0
    def read(self, n):
        self.n += 1
        if self.n > 1000:
            print("still waiting"); sys.exit(1)
        return b""
    readline = lambda self: b""
assert NMEAReader(Port()).read() == (None, None)
'''),
]
