import os
exec(open(os.path.join("/verif/tools", "bugs1.py")).read().split("BUGS = [")[0])
S = W
FIRST = '''
import io, threading
LINES = [b"$GNGLL,5327.04319,S,00214.41396,E,223232.00,A,A*68\\r\\n", b"$GNRMC,103607.00,A,5327.03942,N,00214.42462,W,0.046,,060321,,,A,V*0E\\r\\n"]
def fresh():
    for k in [k for k in sys.modules if k.split(".")[0] == "pynmeagps"]: del sys.modules[k]
    import pynmeagps
    return pynmeagps
def ck(c):
    x = 0
    for b in c.encode(): x ^= b
    return f"${c}*{x:02X}\\r\\n".encode()
LINES = [ck(l[1:].split(b"*")[0].decode()) for l in LINES]
want = [str(fresh().NMEAReader.parse(l)) for l in LINES]
'''
BUGS = [
 dict(id="c09-lazy-types", property="C09",
  needs="two threads that decode their first sentences at the same time, one of them preempted while it fills the table",
  breaks="the table of field conversions is filled on first use; a second thread finds it half filled and refuses fields",
  edits=[(M, '''        val = vals
        if att in (nmt.CH, nmt.ST, nmt.LAD, nmt.LND, nmt.QS):
            pass
        elif att == nmt.HX:
            val = vals
        elif att == nmt.DE:  # decimal
            if vals != "":
                val = float(vals)
        elif att in (nmt.DT, nmt.DTL, nmt.DM):  # date
            val = date2utc(vals, att)
        elif att == nmt.IN:  # integer
            if vals != "":
                val = int(vals)
        elif att in (nmt.LA, nmt.LN):  # lat/lon (d)ddmm.mmmmm(mm)
            val = dmm2ddd(vals)
        elif att == nmt.TM:  # time hhmmss.ss
            val = time2utc(vals)
        else:
            raise nme.NMEATypeError(f"Unknown attribute type {att}.")
        return val
''', '''        if not _CONVERTERS:
            for typ in (nmt.CH, nmt.ST, nmt.LAD, nmt.LND, nmt.QS, nmt.HX):
                _CONVERTERS[typ] = lambda v, a: v
            for typ in (nmt.DT, nmt.DTL, nmt.DM):
                _CONVERTERS[typ] = date2utc
            for typ in (nmt.LA, nmt.LN):
                _CONVERTERS[typ] = lambda v, a: dmm2ddd(v)
            _CONVERTERS[nmt.DE] = lambda v, a: v if v == "" else float(v)
            _CONVERTERS[nmt.IN] = lambda v, a: v if v == "" else int(v)
            _CONVERTERS[nmt.TM] = lambda v, a: time2utc(v)
        if att not in _CONVERTERS:
            raise nme.NMEATypeError(f"Unknown attribute type {att}.")
        return _CONVERTERS[att](vals, att)
'''), (M, "\n\nclass NMEAMessage:\n", "\n_CONVERTERS = {}  # attribute type -> converter, filled on first use\n\n\nclass NMEAMessage:\n")],
  demo=FIRST + '''
for k in range(1, 220, 1):
    lib = fresh()
    n = [0]; paused, go = threading.Event(), threading.Event()
    res = [None, None]
    def tr(f, e, a):
        if "pynmeagps" not in f.f_code.co_filename: return None
        if e == "line":
            n[0] += 1
            if n[0] == k:
                paused.set(); go.wait(0.3)
        return tr
    def one():
        sys.settrace(tr)
        try: res[0] = str(lib.NMEAReader.parse(LINES[0]))
        except Exception as e: res[0] = repr(e)
        sys.settrace(None); paused.set()
    def two():
        paused.wait(5)
        try: res[1] = str(lib.NMEAReader.parse(LINES[1]))
        except Exception as e: res[1] = repr(e)
        go.set()
    ts = [threading.Thread(target=one), threading.Thread(target=two)]
    [t.start() for t in ts]; [t.join() for t in ts]
    assert res == want, (k, res)
'''),
 dict(id="c09-half-init", property="C09",
  needs="a KeyboardInterrupt (or other exception from a signal handler) during the first sentence decoded",
  breaks="an interrupt that strikes while the set of prefixes is first worked out leaves it incomplete for the rest of the process",
  edits=[(H, "    cksum = 0\n    for sub in content.encode(\"utf-8\", \"surrogatepass\"):\n        cksum ^= sub\n    return f\"{cksum:02X}\"\n",
   "    if not _HEX:\n        for val in range(256):\n            _HEX[val] = _hex2(val)\n    cksum = 0\n    for sub in content.encode(\"utf-8\", \"surrogatepass\"):\n        cksum ^= sub\n    return _HEX.get(cksum, \"00\")\n\n\ndef _hex2(val: int) -> str:\n    \"\"\"\n    Two digit hex string.\n    \"\"\"\n\n    return f\"{val:02X}\"\n"),
   (H, "\n\ndef area(\n", "\n_HEX = {}  # checksum -> hex string\n\n\ndef area(\n")],
  demo=FIRST + '''
for k in list(range(1, 60)) + list(range(60, 600, 7)):
    lib = fresh()
    n = [0]
    def tr(f, e, a):
        if "pynmeagps" not in f.f_code.co_filename: return None
        n[0] += 1
        if n[0] == k: raise KeyboardInterrupt
        return None
    sys.settrace(tr)
    try: lib.NMEAReader.parse(LINES[0])
    except KeyboardInterrupt: pass
    finally: sys.settrace(None)
    for l, w in zip(LINES, want):
        try: g = str(lib.NMEAReader.parse(l))
        except Exception as e: g = repr(e)
        assert g == w, (k, g)
'''),
 dict(id="c10-signal-lock", property="C10",
  needs="a KeyboardInterrupt in the thread that is reading, while other threads share the reader",
  breaks="the reader stays locked when a read ends with an exception that is no Exception, so all other threads wait for ever",
  edits=[(R, "        with self._lock:\n            return self._read_message()\n",
   "        self._lock.acquire()\n        try:\n            item = self._read_message()\n        except Exception:\n            self._lock.release()\n            raise\n        self._lock.release()\n        return item\n")],
  demo=SOCK + '''
import io, threading
class Stream:
    def __init__(self): self.s = io.BytesIO(line("GNTXT,01,01,02,one") * 5); self.n = 0
    def read(self, n):
        self.n += 1
        if self.n == 3: raise KeyboardInterrupt
        return self.s.read(n)
    def readline(self): return self.s.readline()
nmr = NMEAReader(Stream())
def a():
    for _ in range(2):
        try: nmr.read()
        except KeyboardInterrupt: pass
    done.set(); threading.Event().wait()
done = threading.Event()
t = threading.Thread(target=a, daemon=True); t.start()
assert done.wait(5)
got = []
def b(): got.append(nmr.read()[1])
t = threading.Thread(target=b, daemon=True); t.start(); t.join(3)
assert got and got[0] is not None, "second thread is stuck"
os._exit(0)
'''),
]
