H, M, R, W = "nmeahelpers.py", "nmeamessage.py", "nmeareader.py", "socketwrapper.py"
SOCK = '''
import socket, threading, time
from pynmeagps import *
from pynmeagps import NMEAReader, NMEAMessage, SocketWrapper
class FS(socket.socket):
    """socket whose recv() hands out scripted segments; None = timeout"""
    def __init__(self, segs):
        self.segs = list(segs); self.sent = []
    def recv(self, n, *a):
        if not self.segs:
            return b""
        s = self.segs.pop(0)
        if s is None:
            raise TimeoutError("timed out")
        if isinstance(s, Exception):
            raise s
        if len(s) > n:
            self.segs.insert(0, s[n:]); s = s[:n]
        return s
    def send(self, d, *a):
        self.sent.append(bytes(d)); return len(d)
    def close(self): pass
def line(body):
    c = 0
    for b in body.encode(): c ^= b
    return f"${body}*{c:02X}\\r\\n".encode()
'''
BUGS = [
 dict(id="c01-group-round", property="C01",
  needs="a sentence with an open-ended repeating group whose last item is cut short but more than half complete",
  breaks="the number of repeats is rounded instead of truncated, so attributes of an item the sentence does not completely contain appear",
  edits=[(M, "return int(lenpayload / lengroup)", "return round(lenpayload / lengroup)")],
  demo='''
from pynmeagps import NMEAReader
from pynmeagps.nmeatypes_get import NMEA_PAYLOADS_GET as G
from pynmeagps.nmeahelpers import calc_checksum
# MSK/RTE-like: find a definition with an open ended group of 3 or more
bad = 0; n = 0
for k, d in G.items():
    g = [(i, v) for i, v in enumerate(d.values()) if isinstance(v, tuple)]
    if len(g) != 1 or g[0][1][0] != "None" or len(g[0][1][1]) < 3 or g[0][0] != len(d) - 1:
        continue
    n += 1
    size = len(g[0][1][1])
    pay = [""] * (len(d) - 1) + [""] * (2 * size - 1)
    body = "GN" + k + "," + ",".join(pay)
    m = NMEAReader.parse(("$" + body + "*" + calc_checksum(body) + "\\r\\n").encode())
    if any(a.endswith("_02") for a in vars(m)):
        bad += 1
assert n, "no such definition"
sys.exit(1 if bad else 0)
'''),
 dict(id="c01-sign-order", property="C01",
  needs="a received position with hemisphere W whose sentence is read with the longitude exactly on a whole number of degrees",
  breaks="western longitudes that are a whole number of degrees lose their sign",
  edits=[(M, '                if isinstance(self.lon, (int, float)):\n                    self.lon = -abs(self.lon) if val == "W" else abs(self.lon)',
             '                if isinstance(self.lon, (int, float)):\n                    self.lon = -abs(self.lon) if val == "W" and self.lon % 1 else abs(self.lon)')],
  demo='''
from pynmeagps import NMEAReader
from pynmeagps.nmeahelpers import calc_checksum
for lon, want in (("00300.00000", -3.0), ("00330.00000", -3.5)):
    b = f"GNGLL,5100.00000,N,{lon},W,120000.00,A,A"
    m = NMEAReader.parse(f"${b}*{calc_checksum(b)}\\r\\n".encode())
    assert m.lon == want, (m.lon, want)
'''),
 dict(id="c02-read-once", property="C02",
  needs="read(n) for more bytes than one segment provides",
  breaks="the socket wrapper tops its buffer up only once, so read(n) returns fewer bytes than asked although more are on the way",
  edits=[(W, "        while len(self._buffer) < num:\n            if not self._recv():\n                return b\"\"",
             "        if len(self._buffer) < num:\n            if not self._recv():\n                return b\"\"")],
  demo=SOCK + '''
s = SocketWrapper(FS([b"a", b"b", b"cdef"]))
assert s.read(5) == b"abcde"
'''),
 dict(id="c02-line-search", property="C02",
  needs="a segment boundary exactly between CR and LF",
  breaks="readline searches the buffer for CRLF, which it misses when CR and LF arrive in different segments, gluing two lines together",
  edits=[(W, '''        line = b""
        while True:
            data = self.read(1)
            if len(data) == 1:
                line += data
                if line[-2:] == b"\\r\\n":
                    break
            else:
                break

        return line
''', '''        line = b""
        while True:
            end = self._buffer.find(b"\\r\\n")
            if end >= 0:  # rest of line is already buffered
                line += self.read(end + 2)
                break
            line += self.read(len(self._buffer))
            if not self._recv():
                break

        return line
''')],
  demo=SOCK + '''
a, b = line("GNDTM,W84,,0.0,N,0.0,E,0.0,W84"), line("GNGLL,5100.0,N,00300.0,W,120000.00,A,A")
got = [r for r, p in NMEAReader(FS([a[:-1], a[-1:] + b]))]
assert got == [a, b], got
'''),
 dict(id="c03-elif", property="C03",
  needs="a server applying two compressions to each chunk (gzip over deflate)",
  breaks="only the outermost of several compressions is undone",
  edits=[(W, "                    if self._encoding & ENCODE_DEFLATE:", "                    elif self._encoding & ENCODE_DEFLATE:")],
  demo=SOCK + '''
import zlib, gzip
a = line("GNDTM,W84,,0.0,N,0.0,E,0.0,W84")
co = zlib.compressobj(wbits=-15); d = co.compress(a) + co.flush()
d = zlib.compress(d)
enc = b"%x\\r\\n" % len(d) + d + b"\\r\\n0\\r\\n\\r\\n"
got = [r for r, p in NMEAReader(FS([enc]), encoding=1 | 4 | 8)]
assert got == [a], got
'''),
 dict(id="c03-empty-recv", property="C03",
  needs="a segment that contains only part of a chunk",
  breaks="a segment that completes no chunk is taken for end of data, so reads end in the middle of a sentence",
  edits=[(W, "                self._buffer += chunks\n", "                self._buffer += chunks\n                return len(chunks) > 0\n")],
  demo=SOCK + '''
a = line("GNDTM,W84,,0.0,N,0.0,E,0.0,W84")
enc = b""
for i in (a[:10], a[10:]):
    enc += b"%x\\r\\n" % len(i) + i + b"\\r\\n"
enc += b"0\\r\\n\\r\\n"
got = [r for r, p in NMEAReader(FS([enc[:20], enc[20:25], enc[25:]]), encoding=1)]
assert got == [a], got
'''),
 dict(id="c04-int-checksum", property="C04",
  needs="a check digit damaged into a blank, a sign or nothing, e.g. *0A received as * A",
  breaks="checksums are compared as numbers, so malformed check digits are accepted",
  edits=[(R, "                if checksum.upper() != ccksum:",
  "                try:\n                    valid = int(checksum, 16) == int(ccksum, 16)\n                except ValueError:\n                    valid = False\n                if not valid:")],
  demo='''
from pynmeagps import NMEAReader, NMEAParseError
from pynmeagps.nmeahelpers import calc_checksum
for i in range(33, 36):
  for j in range(45, 127):
    b = f"GNTXT,01,01,02,{chr(i)}{chr(j)}"
    c = calc_checksum(b)
    if c[0] != "0":
        continue
    for bad in (c[1], " " + c[1], "+" + c[1]):
        try:
            m = NMEAReader.parse(f"${b}*{bad}\\r\\n".encode())
        except NMEAParseError:
            continue
        sys.exit(1)
'''),
 dict(id="c05-resume-line", property="C05",
  needs="an interruption in the middle of a sentence whose remainder never arrives",
  breaks="the truncated beginning of the interrupted sentence is kept and glued to the next sentence, which is lost as well",
  edits=[(R, '''        if data[-1:] != b"\\x0a":  # truncated stream
            raise nme.NMEAStreamError(  # pragma: no cover
                "Serial stream terminated unexpectedly. "
                f"Line requested,''', '''        data = getattr(self, "_residue", b"") + data
        self._residue = b""
        if data[-1:] != b"\\x0a":  # truncated stream
            self._residue = data  # keep for when stream resumes
            raise nme.NMEAStreamError(  # pragma: no cover
                "Serial stream terminated unexpectedly. "
                f"Line requested,''')],
  demo=SOCK + '''
a, b, c = (line(f"GNGLL,5{i}00.0,N,00300.0,W,120000.00,A,A") for i in range(3))
r = NMEAReader(FS([a[:20], None, b + c]), quitonerror=0)
got = []
for _ in range(6):
    raw, p = r.read()
    if raw: got.append(raw)
assert got == [b, c], got
'''),
 dict(id="c05-sticky-eof", property="C05",
  needs="end of data reported once, then more data arriving",
  breaks="once end of data has been seen the iterator reports end of data for ever, although the stream has resumed",
  edits=[(R, '''        raw_data, parsed_data = self.read()
        if raw_data is None and parsed_data is None:
            raise StopIteration
''', '''        if getattr(self, "_exhausted", False):
            raise StopIteration
        raw_data, parsed_data = self.read()
        if raw_data is None and parsed_data is None:
            self._exhausted = True  # stay exhausted, as per iterator protocol
            raise StopIteration
''')],
  demo=SOCK + '''
a, b = (line(f"GNGLL,5{i}00.0,N,00300.0,W,120000.00,A,A") for i in range(2))
r = NMEAReader(FS([a, None, b]))
got = [x for x, _ in r] + [x for x, _ in r]
assert got == [a, b], got
'''),
 dict(id="c06-dedupe", property="C06",
  needs="the same erroneous sentence received twice in a row",
  breaks="a repeated error is suppressed rather than reported",
  edits=[(R, '''        if self._quitonerror == ERR_LOG:
            # pass to error handler if there is one
''', '''        if self._quitonerror == ERR_LOG:
            # don't flood log with same message
            if str(err) == getattr(self, "_lasterr", None):
                return
            self._lasterr = str(err)
            # pass to error handler if there is one
''')],
  demo=SOCK + '''
import io
a = line("GNGLL,5100.0,N,00300.0,W,120000.00,A,A"); bad = a.replace(b"510", b"511")
errs = []
list(NMEAReader(io.BytesIO(a + bad + bad + a), errorhandler=errs.append))
assert len(errs) == 2, errs
'''),
 dict(id="c07-attr-error", property="C07",
  needs="a sentence cut off before the field that holds the number of repeats of a group",
  breaks="AttributeError escapes from read() and parse()",
  edits=[(M, "        except (\n            AttributeError,\n            IndexError,", "        except (\n            IndexError,")],
  demo='''
from pynmeagps import NMEAReader
from pynmeagps.exceptions import *
from pynmeagps import nmeatypes_get as g, nmeatypes_get_prop as gp
from pynmeagps.nmeahelpers import calc_checksum
n = 0
for tab, tk in ((g.NMEA_PAYLOADS_GET, "GN"), (gp.NMEA_PAYLOADS_GET_PROP, "P")):
    for k in tab:
        for pay in ("", ",", ",,,"):
            b = tk + k + pay
            try:
                NMEAReader.parse(f"${b}*{calc_checksum(b)}\\r\\n".encode())
            except (NMEAParseError, NMEAMessageError, NMEATypeError, NMEAStreamError):
                pass
            n += 1
'''),
 dict(id="c08-prefetch", property="C08",
  needs="a sentence that ends exactly at the end of a segment on a socket that then stays silent",
  breaks="a complete line is held back until the next segment arrives or the socket times out",
  edits=[(W, '''                if line[-2:] == b"\\r\\n":
                    break
''', '''                if line[-2:] == b"\\r\\n":
                    if len(self._buffer) == 0:
                        self._recv()  # top up buffer for next line
                    break
''')],
  demo=SOCK + '''
a, b = (line(f"GNGLL,5{i}00.0,N,00300.0,W,120000.00,A,A") for i in range(2))
calls = []
class G(FS):
    def recv(self, n, *x):
        calls.append(1); return FS.recv(self, n)
r = NMEAReader(G([a, b]))
raw, p = r.read()
assert raw == a and len(calls) == 1, calls
'''),
 dict(id="c08-bufferedreader", property="C08",
  needs="a raw (unbuffered) stream whose position or remaining bytes are used after a read",
  breaks="raw streams are wrapped in a BufferedReader, which reads far beyond the sentence",
  edits=[(R, "from logging import getLogger\n", "from io import BufferedReader, RawIOBase\nfrom logging import getLogger\n"),
         (R, '''            self._stream = SocketWrapper(stream, encoding=encoding, bufsize=bufsize)
        else:
''', '''            self._stream = SocketWrapper(stream, encoding=encoding, bufsize=bufsize)
        elif isinstance(stream, RawIOBase):
            self._stream = BufferedReader(stream, bufsize)
        else:
''')],
  demo=SOCK + '''
import tempfile, shutil
a, b = (line(f"GNGLL,5{i}00.0,N,00300.0,W,120000.00,A,A") for i in range(2))
d = tempfile.mkdtemp()
try:
    with open(d + "/x", "wb") as f: f.write(a + b)
    with open(d + "/x", "rb", buffering=0) as f:
        raw, p = NMEAReader(f).read()
        assert raw == a
        assert f.tell() == len(a), f.tell()
        raw, p = NMEAReader(f).read()
        assert raw == b, raw
finally:
    shutil.rmtree(d)
'''),
 dict(id="c09-def-cache", property="C09",
  needs="two readers in one process with different user-defined definitions for the same message id",
  breaks="user-defined definitions are cached by message id across readers, so the second reader decodes with the first one's definition",
  edits=[(M, 'class NMEAMessage:\n    """NMEA GNSS/GPS Message Class."""\n', 'USERDEFS = {}\n"""Cache of user-defined payload definitions"""\n\n\nclass NMEAMessage:\n    """NMEA GNSS/GPS Message Class."""\n'),
         (M, "                dic = self._userdefined[key]\n", "                dic = USERDEFS.setdefault(key, self._userdefined[key])\n")],
  demo=SOCK + '''
from pynmeagps.nmeatypes_core import IN, DE, ST
a = line("GNQQX,1,2")
m1 = NMEAReader.parse(a, userdefined={"QQX": {"x": IN, "y": IN}})
m2 = NMEAReader.parse(a, userdefined={"QQX": {"p": DE, "q": ST}})
assert m1.x == 1 and m2.p == 1.0 and m2.q == "2" and not hasattr(m2, "x")
'''),
 dict(id="c09-time-memo", property="C09",
  needs="two threads decoding different times at once, switched between two statements",
  breaks="the last time conversion is remembered in two module variables updated one after the other, so another thread can pair one text with the other's value",
  edits=[(H, '''    try:
        if len(times) == 6:  # decimal seconds is omitted
            times = times + ".00"
        utc = datetime.strptime(times, "%H%M%S.%f")
        return utc.time()
''', '''    try:
        if len(times) == 6:  # decimal seconds is omitted
            times = times + ".00"
        if times == LASTTIME["nmea"]:  # consecutive messages often share epoch
            return LASTTIME["utc"]
        utc = datetime.strptime(times, "%H%M%S.%f").time()
        LASTTIME["nmea"] = times
        LASTTIME["utc"] = utc
        return utc
'''), (H, "def time2utc(times: str)", 'LASTTIME = {"nmea": "", "utc": ""}\n"""Most recent NMEA time conversion"""\n\n\ndef time2utc(times: str)')],
  demo='''
import threading
from pynmeagps import nmeahelpers as h
# deterministic schedule: stop one thread inside its call, after every line in turn
def run(n):
    res, hold, go = [], threading.Event(), threading.Event()
    def tr(fr, ev, arg):
        if fr.f_code is h.time2utc.__code__:
            def loc(f, e, a):
                if e == "line":
                    cnt[0] += 1
                    if cnt[0] == n:
                        hold.set(); go.wait(5)
                return loc
            return loc
    cnt = [0]
    def a():
        sys.settrace(tr)
        res.append(("120000.00", h.time2utc("120000.00")))
        sys.settrace(None); hold.set()
    h.time2utc("010101.00")
    t = threading.Thread(target=a); t.start(); hold.wait(5)
    res.append(("120000.00", h.time2utc("120000.00")))
    res.append(("130000.00", h.time2utc("130000.00")))
    go.set(); t.join()
    res.append(("120000.00", h.time2utc("120000.00")))
    res.append(("130000.00", h.time2utc("130000.00")))
    res.append(("120000.00", h.time2utc("120000.00")))
    for s, v in res:
        assert v.strftime("%H%M%S.%f")[:9] == s, (n, s, v)
for n in range(1, 12):
    run(n)
'''),
 dict(id="c10-shared-item", property="C10",
  needs="two threads iterating over one reader, switched between the read and the return",
  breaks="the iterator keeps the item it is about to return on the shared reader, so threads overwrite each other's item",
  edits=[(R, '''        raw_data, parsed_data = self.read()
        if raw_data is None and parsed_data is None:
            raise StopIteration
        return (raw_data, parsed_data)
''', '''        self._item = self.read()
        if self._item == (None, None):
            raise StopIteration
        return self._item
''')],
  demo=SOCK + '''
import io
a, b = (line(f"GNGLL,5{i}00.0,N,00300.0,W,120000.00,A,A") for i in range(2))
def run(n):
    r = NMEAReader(io.BytesIO(a + b))
    got, hold, go, cnt = [], threading.Event(), threading.Event(), [0]
    def tr(fr, ev, arg):
        if fr.f_code is NMEAReader.__next__.__code__:
            def loc(f, e, x):
                if e == "line":
                    cnt[0] += 1
                    if cnt[0] == n:
                        hold.set(); go.wait(5)
                return loc
            return loc
    def t1():
        sys.settrace(tr)
        try: got.append(next(r)[0])
        finally: sys.settrace(None); hold.set()
    t = threading.Thread(target=t1); t.start(); hold.wait(5)
    got.append(next(r)[0])
    go.set(); t.join()
    assert sorted(got) == sorted([a, b]), (n, got)
for n in range(1, 6):
    run(n)
'''),
 dict(id="c11-class-flag", property="C11",
  needs="another message being constructed (in another thread) or a construction that failed, while an existing message is modified",
  breaks="the mutability flag is held on the class rather than the message, so existing messages can be changed while or after another one is (unsuccessfully) built",
  edits=[(M, '        super().__setattr__("_immutable", False)\n', "        NMEAMessage._immutable = False\n"),
         (M, "        self._immutable = True  # once initialised, object is immutable\n", "        NMEAMessage._immutable = True  # once initialised, object is immutable\n")],
  demo=SOCK + '''
from pynmeagps.exceptions import NMEAMessageError, NMEAParseError
m = NMEAReader.parse(line("GNGLL,5100.0,N,00300.0,W,120000.00,A,A"))
try:
    NMEAReader.parse(line("GNXYZ,1"), validate=3)
except NMEAParseError:
    pass
try:
    m.lat = 1
    sys.exit(1)
except NMEAMessageError:
    pass
'''),
 dict(id="c11-new-attr", property="C11",
  needs="setting an attribute the message does not have",
  breaks="attributes can be added to a finished message",
  edits=[(M, "        if self._immutable:\n            raise nme.NMEAMessageError(\n                f\"Object is immutable. Updates", "        if self._immutable and hasattr(self, name):\n            raise nme.NMEAMessageError(\n                f\"Object is immutable. Updates")],
  demo=SOCK + '''
from pynmeagps.exceptions import NMEAMessageError
m = NMEAReader.parse(line("GNGLL,5100.0,N,00300.0,W,120000.00,A,A"))
try:
    m.speed = 1
    sys.exit(1)
except NMEAMessageError:
    pass
'''),
 dict(id="c12-strip-fields", property="C12",
  needs="a sentence with a text field that begins with a blank",
  breaks="blanks before fields are stripped, so the relayed sentence differs and its checksum no longer fits",
  edits=[(H, '        hdr, *payload = content.split(",")\n', '        hdr, *payload = [fld.lstrip() for fld in content.split(",")]\n')],
  demo=SOCK + '''
a = line("GNTXT,01,01,02, ANTENNA OK")
assert NMEAReader.parse(a).serialize() == a
'''),
 dict(id="c13-round-time", property="C13",
  needs="a message built in the last five milliseconds of a minute",
  breaks="nominal times are rounded to hundredths field by field, giving 60.00 seconds at the end of a minute",
  edits=[(H, '        return tim.strftime("%H%M%S.%f")[0:9]\n', '        secs = tim.second + tim.microsecond / 1000000\n        return tim.strftime("%H%M") + f"{secs:05.2f}"\n')],
  demo='''
from datetime import time
from pynmeagps import NMEAReader, NMEAMessage
m = NMEAMessage("GN", "ZDA", 0, time=time(12, 34, 59, 997000))
n = NMEAReader.parse(m.serialize())
assert n.time != "" and abs(n.time.second - 59) <= 0 and n.time.minute == 34, (m.payload, n)
'''),
 dict(id="c14-leap-boundary", property="C14",
  needs="an instant in the last half second before a new leap second offset takes effect",
  breaks="the new leap second offset is applied up to half a second early",
  edits=[(H, "        return (dt - LEAPS0).total_seconds()\n", "        return round((dt - LEAPS0).total_seconds())\n")],
  demo='''
from datetime import datetime, timezone, timedelta
from pynmeagps.nmeahelpers import leapsecond, utc2wnotow, wnotow2utc
u = datetime(2017, 1, 1, tzinfo=timezone.utc)
assert leapsecond(u) == 18 and leapsecond(u - timedelta(seconds=1)) == 17
u -= timedelta(milliseconds=300)
w, t, l = utc2wnotow(u, modwno=False)
assert l == 17 and wnotow2utc(w, t, modwno=False) == u
'''),
 dict(id="c14-naive-local", property="C14",
  needs="a datetime without time zone on a host whose local time zone is not UTC",
  breaks="datetimes without time zone are taken as local time rather than UTC",
  edits=[(H, "    if utc.tzinfo is None:\n        utc = utc.replace(tzinfo=timezone.utc)\n", "    utc = utc.astimezone(timezone.utc)\n")],
  demo='''
import time
os.environ["TZ"] = "America/New_York"; time.tzset()
from datetime import datetime, timezone
from pynmeagps.nmeahelpers import utc2wnotow
u = datetime(2024, 5, 6, 7, 8, 9)
assert utc2wnotow(u) == utc2wnotow(u.replace(tzinfo=timezone.utc))
'''),
 dict(id="c15-group-order", property="C15",
  needs="building a message with a repeating group from arguments that do not end with the highest item",
  breaks="the number of items is taken from the last grouped argument rather than the highest, so items are dropped",
  edits=[(H, "            idx = max(idx, int(ai[1]))\n", "            idx = int(ai[1])\n")],
  demo='''
from pynmeagps import NMEAMessage
from pynmeagps.nmeatypes_get import NMEA_PAYLOADS_GET as G
n = 0
for k, d in G.items():
    g = [(kk, v) for kk, v in d.items() if isinstance(v, tuple) and v[0] == "None"]
    if len(g) != 1:
        continue
    a, t = [(x, y) for x, y in g[0][1][1].items()][0]
    if t not in ("ST", "CH"):
        continue
    n += 1
    x = NMEAMessage("GN", k, 0, **{a + "_01": "a", a + "_02": "b", a + "_03": "c"})
    y = NMEAMessage("GN", k, 0, **{a + "_03": "c", a + "_02": "b", a + "_01": "a"})
    assert x.payload == y.payload, (k, x, y)
assert n
'''),
 dict(id="c16-clear-on-error", property="C16",
  needs="a failing write while received bytes are still buffered",
  breaks="a failing write discards received data that has not been read yet",
  edits=[(W, "        return self._socket.send(data, **kwargs)\n", "        try:\n            return self._socket.send(data, **kwargs)\n        except OSError:\n            self._buffer = bytearray()  # connection lost\n            raise\n")],
  demo=SOCK + '''
a, b = (line(f"GNGLL,5{i}00.0,N,00300.0,W,120000.00,A,A") for i in range(2))
class G(FS):
    def send(self, d, *x): raise TimeoutError("full")
r = NMEAReader(G([a + b]))
got = [r.read()[0]]
try: r.datastream.write(b"x")
except OSError: pass
got.append(r.read()[0])
assert got == [a, b], got
'''),
 dict(id="c16-partial-loop", property="C16",
  needs="a socket that accepts only part of a write and then fails",
  breaks="a partially accepted write is repeated internally and its count lost when the rest fails",
  edits=[(W, "        return self._socket.send(data, **kwargs)\n", "        sent = self._socket.send(data, **kwargs)\n        while sent and sent < len(data):\n            sent += self._socket.send(data[sent:], **kwargs)\n        return sent\n")],
  demo=SOCK + '''
class G(FS):
    n = 0
    def send(self, d, *x):
        self.n += 1
        if self.n > 1: raise TimeoutError("full")
        return 3
w = SocketWrapper(G([b"x"]))
assert w.write(b"abcdef") == 3
'''),
 dict(id="c17-read-lock", property="C17",
  needs="two reads in a row that find no data, as in a polling loop with short time-outs, while the next sentence arrives in two segments",
  breaks="after an empty read the partial sentence buffered so far is dropped, so sentences arriving around a time-out vanish",
  edits=[(R, '''            except EOFError:
                return (None, None)
''', '''            except EOFError:
                if hasattr(self._stream, "reset_input_buffer"):
                    self._stream.reset_input_buffer()  # discard stale input
                return (None, None)
''')],
  demo=SOCK + '''
a, b = (line(f"GNGLL,5{i}00.0,N,00300.0,W,120000.00,A,A") for i in range(2))
class Ser:
    """serial port stand-in: data arrives just after a read has timed out"""
    def __init__(self): self.buf = b""; self.pend = [b"", a, b"", b]
    def arrive(self):
        if self.pend: self.buf += self.pend.pop(0)
    def read(self, n):
        d, self.buf = self.buf[:n], self.buf[n:]
        if not d: self.arrive()
        return d
    def readline(self):
        i = self.buf.find(b"\\n") + 1 or len(self.buf)
        d, self.buf = self.buf[:i], self.buf[i:]
        return d
    def reset_input_buffer(self): self.buf = b""
r = NMEAReader(Ser())
got = []
for _ in range(8):
    x = r.read()[0]
    if x: got.append(x)
assert got == [a, b], got
'''),
]
