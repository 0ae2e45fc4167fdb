import os
exec(open(os.path.join("/verif/tools", "bugs1.py")).read().split("BUGS = [")[0])
PREEMPT = '''
import threading
def preempted(first, second, k, mod):
    """first() is held at its k-th line inside mod while second() runs"""
    n = [0]; paused, go = threading.Event(), threading.Event(); res = [None, None]
    def tr(f, e, a):
        if mod not in f.f_code.co_filename: return None
        if e == "line":
            n[0] += 1
            if n[0] == k:
                paused.set(); go.wait(1)
        return tr
    def one():
        sys.settrace(tr)
        try: res[0] = first()
        finally: sys.settrace(None); paused.set()
    def two():
        paused.wait(5); res[1] = second(); go.set()
    ts = [threading.Thread(target=one), threading.Thread(target=two)]
    [t.start() for t in ts]; [t.join() for t in ts]
    return res, n[0]
'''
BUGS = [
 dict(id="c13-date-slot", property="C13",
  needs="two threads that build messages at the same time, one preempted between choosing a date format and using it, the other asking for another format",
  breaks="the date format in use is kept in a module variable; a message built at the same time by another thread changes it, and the date is written in the wrong order",
  edits=[(H, '''        if form == DM:
            dform = "%m%d%y"
        elif form == DTL:
            dform = "%d%m%Y"
        else:
            dform = "%d%m%y"
        return dat.strftime(dform)
''', '''        if form != DATEFORM["att"]:
            DATEFORM["fmt"] = DATEFORMS.get(form, "%d%m%y")
            DATEFORM["att"] = form
        return dat.strftime(DATEFORM["fmt"])
'''), (H, '''def date2str(dat''', '''DATEFORMS = {DTL: "%d%m%Y", DM: "%m%d%y"}
DATEFORM = {"att": DT, "fmt": "%d%m%y"}
"""Date format most recently used"""


def date2str(dat''')],
  demo=PREEMPT + '''
import datetime
from pynmeagps import date2str
d = datetime.date(2024, 2, 29)
k = 1; n = 1
while k <= n:
    date2str(d, "DT")
    (a, b), n = preempted(lambda: date2str(d, "DTL"), lambda: date2str(d, "DM"), k, "nmeahelpers")
    assert (a, b) == ("29022024", "022924"), (k, a, b)
    assert date2str(d, "DT") == "290224" and date2str(d, "DM") == "022924" and date2str(d, "DTL") == "29022024", k
    k += 1
'''),
 dict(id="c14-leap-slot", property="C14",
  needs="two threads that convert instants on either side of a leap second at the same time, one preempted inside leapsecond()",
  breaks="the most recent leap second lookup is kept in two steps; another thread's offset is returned for this instant",
  edits=[(H, '''    dts = []
    for dt in (dat, ep0):
        dts.append(max((val for key, val in LEAPSECONDS if key <= totsec(dt))))
    return dts[0] - dts[1]
''', '''    if LASTLEAP["key"] != (dat, ep0):  # consecutive epochs are often repeated
        LASTLEAP["key"] = (dat, ep0)
        dts = []
        for dt in (dat, ep0):
            dts.append(max((val for key, val in LEAPSECONDS if key <= totsec(dt))))
        LASTLEAP["val"] = dts[0] - dts[1]
    return LASTLEAP["val"]
'''), (H, '''def leapsecond(dat''', '''LASTLEAP = {"key": None, "val": 0}
"""Most recent leap second lookup"""


def leapsecond(dat''')],
  demo=PREEMPT + '''
import datetime
from pynmeagps import leapsecond
U = datetime.timezone.utc
a, b = datetime.datetime(1990, 6, 1, tzinfo=U), datetime.datetime(2020, 6, 1, tzinfo=U)
wa, wb = 6, 18
wa, wb = leapsecond(a), leapsecond(b)
assert (wa, wb) == (6, 18), (wa, wb)
k = 1; n = 1
while k <= min(n, 200):
    leapsecond(datetime.datetime(2000 + k % 10, 1, 2, tzinfo=U))
    got, n = preempted(lambda: leapsecond(a), lambda: leapsecond(b), k, "nmeahelpers")
    assert got == [wa, wb], (k, got)
    leapsecond(datetime.datetime(2000 + k % 10, 1, 2, tzinfo=U))
    got, n = preempted(lambda: leapsecond(a), lambda: leapsecond(a), k, "nmeahelpers")
    assert got == [wa, wa], (k, got)
    k += 1
'''),
 dict(id="c09-class-partial", property="C09",
  needs="two chunked connections open at the same time, or one opened after another was cut inside a chunk",
  breaks="the incomplete chunk carried between reads belongs to the class, so the streams of two connections run into each other",
  edits=[(W, '''                data = self._partial + data
                chunks, self._partial = self.dechunk(data)
                self._buffer += chunks
''', '''                self._partial += data
                chunks, self._partial[:] = self.dechunk(bytes(self._partial))
                self._buffer += chunks
'''), (W, '''        self._partial = b""  # partial chunk
''', ''), (W, '''    Supports chunked transfer-encoded datastreams.
    """

''', '''    Supports chunked transfer-encoded datastreams.
    """

    _partial = bytearray()  # partial chunk

''')],
  demo=SOCK + '''
from pynmeagps.socketwrapper import SocketWrapper
def enc(line): return f"{len(line):x}".encode() + b"\\r\\n" + line + b"\\r\\n"
A, B = enc(b"$GNGLL,1*00\\r\\n"), enc(b"$GNRMC,2*00\\r\\n")
a = SocketWrapper(FS([A[:6], A[6:]]), encoding=1)
b = SocketWrapper(FS([B[:6], B[6:]]), encoding=1)
assert a.readline() == b"$GNGLL,1*00\\r\\n"
assert b.readline() == b"$GNRMC,2*00\\r\\n"
'''),
]
