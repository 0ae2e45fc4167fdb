import os
exec(open(os.path.join("/verif/tools", "bugs1.py")).read().split("BUGS = [")[0])
BUGS = [
 dict(id="c01-dup-suppress", property="C01",
  needs="two identical GNSS (not proprietary) sentences received one directly after the other",
  breaks="the second of two identical consecutive sentences is taken for a repetition and not delivered",
  edits=[(R, "                    parsing = False\n", "                    # suppress repeated sentences\n                    parsing = byte2 == b\"G\" and raw_data == getattr(self, \"_previous\", None)\n                    self._previous = raw_data\n")],
  demo=SOCK + '''
import io
a, b = (line(f"GNGLL,5{i}00.0,N,00300.0,W,120000.00,A,A") for i in range(2))
got = [r for r, _ in NMEAReader(io.BytesIO(a + b + b + a))]
assert got == [a, b, b, a], got
'''),
 dict(id="c01-def-swap", property="C01",
  needs="a rarely used sentence (LRI or similar), read with its fields all different",
  breaks="one field of a rarely used sentence is decoded as a decimal although it is defined as text",
  edits=[("nmeatypes_get_prop.py", "@@DEF@@", "")],
  demo="", skip=True),
 dict(id="c02-recv-room", property="C02",
  needs="read(n) of more bytes than the receive buffer size, or bytes left in the buffer when it must be topped up",
  breaks="only the room left in a buffer of bufsize bytes is requested from the socket, so larger reads end as if the stream had ended",
  edits=[(W, "            data = self._socket.recv(self._bufsize)\n", "            data = self._socket.recv(max(0, self._bufsize - len(self._buffer)))\n")],
  demo=SOCK + '''
w = SocketWrapper(FS([b"abcd", b"efgh", b"ijkl"]), bufsize=4)
assert w.read(6) == b"abcdef"
'''),
 dict(id="c03-oversize-partial", property="C03",
  needs="a chunk larger than the receive buffer that takes several segments to arrive",
  breaks="an incomplete chunk larger than the receive buffer is discarded",
  edits=[(W, "                self._buffer += chunks\n", "                self._buffer += chunks\n                if len(self._partial) > self._bufsize:\n                    self._partial = b\"\"  # not a valid chunk\n")],
  demo=SOCK + '''
a = b"".join(line(f"GNGLL,5{i}00.0,N,00300.0,W,120000.00,A,A") for i in range(4))
enc = b"%x\\r\\n" % len(a) + a + b"\\r\\n0\\r\\n\\r\\n"
got = b"".join(r for r, p in NMEAReader(FS([enc]), encoding=1, bufsize=64))
assert got == a, got
'''),
 dict(id="c04-missing-ck", property="C04",
  needs="a sentence that ends right after the asterisk",
  breaks="a sentence without check digits is accepted although checksum validation is on",
  edits=[(R, "            if validate & VALCKSUM:\n", "            if validate & VALCKSUM and checksum:\n")],
  demo='''
from pynmeagps import NMEAReader, NMEAParseError
try:
    NMEAReader.parse(b"$GNGLL,5100.00000,N,00300.00000,W,120000.00,A,A*\\r\\n")
    sys.exit(1)
except NMEAParseError:
    pass
'''),
 dict(id="c04-crlf-content", property="C04",
  needs="damage that puts an asterisk into the sentence before the original one",
  breaks="the checksum is taken from the last asterisk and computed over everything before it without asterisks",
  edits=[(H, '        content, cksum = message.strip("$\\r\\n").split("*", 1)\n', '        content, cksum = message.strip("$\\r\\n").rsplit("*", 1)\n        content = content.replace("*", "")\n')],
  demo='''
from pynmeagps import NMEAReader
from pynmeagps.exceptions import NMEAParseError
from pynmeagps.nmeahelpers import calc_checksum
b = "GNTXT,01,01,02,A*B"
c = calc_checksum(b.replace("*", ""))
try:
    m = NMEAReader.parse(f"${b}*{c}\\r\\n".encode())
    sys.exit(1)
except NMEAParseError:
    pass
'''),
 dict(id="c05-swallow-oserror", property="C05",
  needs="a serial port whose read raises OSError (device unplugged)",
  breaks="operating system errors raised by the stream are reported as end of data instead of reaching the caller",
  edits=[(R, "            except EOFError:\n", "            except (EOFError, OSError):\n")],
  demo=SOCK + '''
class Ser:
    def read(self, n): raise OSError(5, "unplugged")
    readline = None
try:
    NMEAReader(Ser()).read()
    sys.exit(1)
except OSError:
    pass
'''),
 dict(id="c06-raise-once", property="C06",
  needs="two erroneous sentences in one stream with errors set to be raised, the caller carrying on after the first",
  breaks="after an error has been raised further errors are only logged",
  edits=[(R, "        if self._quitonerror == ERR_RAISE:\n            raise err from err\n", "        if self._quitonerror == ERR_RAISE:\n            self._quitonerror = ERR_LOG  # caller has been notified\n            raise err from err\n")],
  demo=SOCK + '''
import io, logging
logging.disable(logging.CRITICAL)
a = line("GNGLL,5100.0,N,00300.0,W,120000.00,A,A"); bad = a.replace(b"510", b"511")
r = NMEAReader(io.BytesIO(bad + a + bad + a), quitonerror=2)
n = 0
while True:
    try:
        if r.read()[0] is None: break
    except NMEAParseError:
        n += 1
assert n == 2, n
'''),
 dict(id="c06-handler-ignore", property="C06",
  needs="an error handler supplied together with the setting to ignore errors",
  breaks="the error handler is called although errors are to be ignored",
  edits=[(R, "                if self._quitonerror:\n                    self._do_error(err)\n", "                self._do_error(err)\n"),
         (R, "        if self._quitonerror == ERR_LOG:\n", "        if self._quitonerror == ERR_LOG or self._errorhandler is not None:\n")],
  demo=SOCK + '''
import io
a = line("GNGLL,5100.0,N,00300.0,W,120000.00,A,A"); bad = a.replace(b"510", b"511")
e = []
list(NMEAReader(io.BytesIO(bad + a), quitonerror=0, errorhandler=e.append))
assert not e
'''),
 dict(id="c07-recursion", property="C07",
  needs="about a thousand erroneous sentences in a row",
  breaks="each erroneous sentence costs a level of recursion, so a long run of them raises RecursionError",
  edits=[(R, "                if self._quitonerror:\n                    self._do_error(err)\n                continue\n", "                if self._quitonerror:\n                    self._do_error(err)\n                return self.read()\n")],
  demo=SOCK + '''
import io
a = line("GNGLL,5100.0,N,00300.0,W,120000.00,A,A"); bad = a.replace(b"510", b"511")
got = list(NMEAReader(io.BytesIO(bad * 3000 + a), quitonerror=0))
assert len(got) == 1
'''),
 dict(id="c07-decode", property="C07",
  needs="a sentence containing bytes that are not UTF-8",
  breaks="UnicodeDecodeError escapes from read() and parse()",
  edits=[(H, '''    try:
        if isinstance(message, bytes):
            message = message.decode("utf-8")
        content, cksum''', '''    if isinstance(message, bytes):
        message = message.decode("utf-8")
    try:
        content, cksum''')],
  demo='''
from pynmeagps import NMEAReader
from pynmeagps.exceptions import *
try:
    NMEAReader.parse(b"$GNTXT,01,01,02,\\xff\\xfe*00\\r\\n")
except (NMEAParseError, NMEAMessageError):
    pass
'''),
 dict(id="c09-date-pivot", property="C09",
  needs="a sentence with a date later than the host's clock",
  breaks="two-digit years are resolved by the host's clock, so the same sentence decodes differently on different days",
  edits=[(H, "        utc = datetime.strptime(dates, dform)\n        return utc.date()\n", "        utc = datetime.strptime(dates, dform)\n        if utc > datetime.now() + timedelta(days=3660):  # previous century\n            utc = utc.replace(year=utc.year - 100)\n        return utc.date()\n")],
  demo='''
from pynmeagps.nmeahelpers import date2utc
import datetime
assert date2utc("010168") == datetime.date(2068, 1, 1)
'''),
 dict(id="c09-shared-index", property="C09",
  needs="two threads decoding sentences with repeating groups at the same time, or a decoding that failed inside a group before",
  breaks="the group index is kept in one list shared by all messages",
  edits=[(M, 'class NMEAMessage:\n    """NMEA GNSS/GPS Message Class."""\n', 'class NMEAMessage:\n    """NMEA GNSS/GPS Message Class."""\n\n    GINDEX = []  # (nested) grouped attribute indices\n'),
         (M, "        gindex = []  # (nested) grouped attribute indices\n", "        gindex = NMEAMessage.GINDEX\n")],
  demo=SOCK + '''
from pynmeagps.exceptions import NMEATypeError
good = line("GNGSV,1,1,01,12,45,100,40,1")
a = str(NMEAReader.parse(good))
try:
    NMEAReader.parse(line("GNGSV,1,1,01,xx,45,100,40,1"))
except NMEATypeError:
    pass
assert str(NMEAReader.parse(good)) == a, str(NMEAReader.parse(good))
'''),
 dict(id="c12-ascii", property="C12",
  needs="a sentence with text outside ASCII",
  breaks="characters outside ASCII are replaced when a message is serialized",
  edits=[(M, '        return output.encode("utf-8")  # convert str to bytes\n', '        return output.encode("ascii", "replace")  # convert str to bytes\n')],
  demo=SOCK + '''
a = line("GNTXT,01,01,02,caf\\u00e9")
assert NMEAReader.parse(a).serialize() == a
'''),
 dict(id="c12-lowercase-ck", property="C12",
  needs="a sentence whose check digits are in lower case, relayed",
  breaks="check digits are changed to upper case, so the relayed bytes differ from the received ones",
  edits=[(M, '        output += f"*{self._checksum}\\r\\n"\n', '        output += f"*{self._checksum.upper()}\\r\\n"\n')],
  demo=SOCK + '''
for i in range(20):
    a = line(f"GNTXT,01,01,02,{i}")
    a = a[:-4] + a[-4:].lower()
    assert NMEAReader.parse(a).serialize() == a
'''),
 dict(id="c13-empty-given", property="C13",
  needs="a time or date field given explicitly as empty",
  breaks="a time or date explicitly left empty is filled from the clock",
  edits=[(M, "                vals = self.val2str(val, att, self._hpnmeamode)\n", "                if val is None or val == \"\":\n                    val = self.nomval(att, self.msgmode)\n                vals = self.val2str(val, att, self._hpnmeamode)\n")],
  demo='''
from pynmeagps import NMEAMessage
m = NMEAMessage("GN", "RMC", 0, time="", date="")
assert m.payload[0] == "" and m.payload[8] == "", m
'''),
 dict(id="c13-local-date", property="C13",
  needs="a host west or east of Greenwich around local midnight",
  breaks="nominal dates are converted to the host's local date when formatted",
  edits=[(M, "        elif att == nmt.DT:\n            if isinstance(val, str):", "        elif att == nmt.DT:\n            if val == datetime.now(timezone.utc).date():\n                val = datetime.now().date()\n            if isinstance(val, str):")],
  demo='''
import time
from datetime import datetime, timezone
from pynmeagps import NMEAMessage
for tz in ("Pacific/Kiritimati", "Pacific/Pago_Pago"):
    os.environ["TZ"] = tz; time.tzset()
    a = datetime.now(timezone.utc)
    m = NMEAMessage("GN", "RMC", 0)
    b = datetime.now(timezone.utc)
    assert m.payload[8] in (a.strftime("%d%m%y"), b.strftime("%d%m%y")), (tz, m)
'''),
 dict(id="c14-bds-rollover", property="C14",
  needs="a modular Beidou week number converted back more than 4096 weeks after its instant",
  breaks="Beidou week numbers roll over after 4096 rather than 8192 weeks in one of the two directions",
  edits=[(H, '''    if gnss == BDS:
        ep0 = EPOCH0_BEIDOU
        rollover = 8192
    elif gnss == GAL:
        ep0 = EPOCH0_GAL
        rollover = 4096
    elif gnss == IRN:
        ep0 = EPOCH0_IRN
        rollover = 1024
    else:
        ep0 = EPOCH0_GPS
        rollover = 1024
    wno = wno''', '''    if gnss == BDS:
        ep0 = EPOCH0_BEIDOU
        rollover = 4096
    elif gnss == GAL:
        ep0 = EPOCH0_GAL
        rollover = 4096
    elif gnss == IRN:
        ep0 = EPOCH0_IRN
        rollover = 1024
    else:
        ep0 = EPOCH0_GPS
        rollover = 1024
    wno = wno''')],
  demo='''
import datetime as D
from pynmeagps import nmeahelpers as h
class DT(D.datetime):
    @classmethod
    def now(cls, tz=None): return D.datetime(2090, 1, 1, tzinfo=tz)
h.datetime = DT
u = D.datetime(2010, 6, 1, 1, 2, 3, tzinfo=D.timezone.utc)
w, t, l = h.utc2wnotow(u, "C")
assert h.wnotow2utc(w, t, gnss="C", autoroll=True) == u, (w, t, h.wnotow2utc(w, t, gnss="C", autoroll=True))
'''),
 dict(id="c15-decimal-round", property="C15",
  needs="a decimal value with more than six digits after the point",
  breaks="decimal values are rounded to six places",
  edits=[(M, "        elif att == nmt.DE:\n            vals = str(val)\n", "        elif att == nmt.DE:\n            vals = str(round(val, 6) if isinstance(val, float) else val)\n")],
  demo='''
from pynmeagps import NMEAMessage
m = NMEAMessage("GN", "GGA", 0, HDOP=1.2345678)
assert float(m.payload[7]) == 1.2345678, m.payload
'''),
 dict(id="c16-append-crlf", property="C16",
  needs="writing data that does not end with a line end, for instance a binary message or a sentence in two parts",
  breaks="a line end is appended to data that lacks one",
  edits=[(W, "        return self._socket.send(data, **kwargs)\n", "        if data[-2:] != b\"\\r\\n\":\n            data += b\"\\r\\n\"\n        return self._socket.send(data, **kwargs)\n")],
  demo=SOCK + '''
s = FS([b"x"])
SocketWrapper(s).write(b"\\xb5b\\x06\\x08")
assert s.sent == [b"\\xb5b\\x06\\x08"], s.sent
'''),
 dict(id="c17-iter-limit", property="C17",
  needs="a stop followed by leftover data: a polling application whose receiver sends damaged sentences between good ones while a query is queued",
  breaks="after a truncated sentence the reader reads on to the next line end before it reports, dropping the sentence in between",
  edits=[(R, "                nme.NMEAStreamError,\n            ) as err:\n", "                nme.NMEAStreamError,\n            ) as err:\n                if isinstance(err, nme.NMEAStreamError):\n                    self._stream.readline()  # resynchronise at next line\n")],
  demo=SOCK + '''
a, b, c = (line(f"GNGLL,5{i}00.0,N,00300.0,W,120000.00,A,A") for i in range(3))
class Ser:
    def __init__(self): self.parts = [a[:20], b, c]; self.buf = b""
    def fill(self):
        if self.parts: self.buf += self.parts.pop(0)
    def read(self, n):
        if not self.buf: self.fill()
        d, self.buf = self.buf[:n], self.buf[n:]
        return d
    def readline(self):
        if not self.buf: self.fill()
        i = self.buf.find(b"\\n") + 1 or len(self.buf)
        d, self.buf = self.buf[:i], self.buf[i:]
        return d
r = NMEAReader(Ser(), quitonerror=0)
got = []
for _ in range(6):
    x = r.read()[0]
    if x: got.append(x)
assert got == [b, c], got
'''),
]
BUGS = [b for b in BUGS if not b.get("skip")]
