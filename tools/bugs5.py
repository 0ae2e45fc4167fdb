import os
exec(open(os.path.join("/verif/tools", "bugs1.py")).read().split("BUGS = [")[0])
S = W
TM = '''
import gc, io, tracemalloc
def kept(run, rounds=3000):
    run(0, rounds)
    gc.collect(); tracemalloc.start(1)
    sizes = []
    for i in (1, 2):
        run(i * rounds, (i + 1) * rounds)
        gc.collect()
        st = tracemalloc.take_snapshot().filter_traces([tracemalloc.Filter(True, "*pynmeagps*")]).statistics("filename")
        sizes.append(sum(x.size for x in st))
    return sizes[1] - sizes[0]
'''
BUGS = [
 dict(id="c19-err-history", property="C19",
  needs="many erroneous sentences read by one reader",
  breaks="every error reported to the error handler is kept by the reader for its whole life",
  edits=[(R, "                self._errorhandler(err)\n", "                self._reported = getattr(self, \"_reported\", [])\n                self._reported.append(err)\n                self._errorhandler(err)\n")],
  demo=SOCK + TM + '''
class Endless:
    def __init__(self): self.b = b""; self.n = 0
    def read(self, n):
        while len(self.b) < n: self._more()
        d, self.b = self.b[:n], self.b[n:]; return d
    def readline(self):
        while b"\\n" not in self.b: self._more()
        i = self.b.index(b"\\n") + 1; d, self.b = self.b[:i], self.b[i:]; return d
    def _more(self):
        self.n += 1
        self.b += b"$GNTXT,01,01,02,message %d*00\\r\\n" % self.n + line("GNTXT,01,01,02,good")
nmr = NMEAReader(Endless(), quitonerror=1, errorhandler=lambda e: None)
def run(a, b):
    for _ in range(a, b): nmr.read()
g = kept(run)
assert g < 60000, g
'''),
 dict(id="c19-unknown-count", property="C19",
  needs="many different message ids without definition over the life of the process",
  breaks="a statistics table keeps an entry for every unknown message id ever seen",
  edits=[(M, "            self._defsource = nmt.DEF_UNKN  # unrecognised\n", "            self._defsource = nmt.DEF_UNKN  # unrecognised\n            _SEEN[msgID] = _SEEN.get(msgID, 0) + 1\n"), (M, "class NMEAMessage:\n", "_SEEN = {}\n\n\nclass NMEAMessage:\n")],
  demo=SOCK + TM + '''
def run(a, b):
    for n in range(a, b):
        NMEAReader.parse(line("GN%s,%d" % ("".join(chr(65 + n // 26**k % 26) for k in (3, 2, 1, 0)), n)), validate=0x01)
g = kept(run)
assert g < 60000, g
'''),
 dict(id="c19-sent-log", property="C19",
  needs="many writes to one wrapped socket",
  breaks="everything ever written is kept with the wrapper",
  edits=[(W, "        return self._socket.send(data, **kwargs)\n", "        self._written = getattr(self, \"_written\", b\"\") + bytes(data)\n        return self._socket.send(data, **kwargs)\n")],
  demo=SOCK + TM + '''
from pynmeagps import SocketWrapper
class Fake(socket.socket):
    def recv(self, n, *a): return b"x"
    def send(self, d, *a): return len(d)
w = SocketWrapper(Fake())
def run(a, b):
    for n in range(a, b): w.write(b"$EIGNQ,%060d*00\\r\\n" % n)
g = kept(run, 1500)
assert g < 60000, g
'''),
 dict(id="c19-ck-memo", property="C19",
  needs="many different sentences over the life of the process",
  breaks="checksums are remembered for every sentence ever checked, without limit",
  edits=[(H, "    cksum = 0\n", "    if content in _MEMO:\n        return _MEMO[content]\n    cksum = 0\n"), (H, "    return f\"{cksum:02X}\"\n", "    _MEMO[content] = f\"{cksum:02X}\"\n    return _MEMO[content]\n"), (H, "def calc_checksum(content: str) -> str:\n", "_MEMO = {}\n\n\ndef calc_checksum(content: str) -> str:\n")],
  demo=SOCK + TM + '''
def run(a, b):
    for n in range(a, b): NMEAReader.parse(line("GNTXT,01,01,02,message %d" % n))
g = kept(run)
assert g < 60000, g
'''),
 dict(id="c11-copy-open", property="C11",
  needs="a message that is copied (copy.copy) and the copy modified",
  breaks="a copy of a message can be modified",
  edits=[(M, "        self._immutable = True  # once initialised, object is immutable\n", "        self._immutable = True  # once initialised, object is immutable\n\n    def __copy__(self):\n        new = object.__new__(type(self))\n        new.__dict__.update(self.__dict__)\n        new.__dict__[\"_immutable\"] = False\n        return new\n")],
  demo=SOCK + '''
import copy
m = copy.copy(NMEAReader.parse(line("GNGLL,5100.00000,N,00300.00000,W,120000.00,A,A")))
try:
    m.lat = 1.5
except Exception:
    pass
assert m.lat == 51, m.lat
'''),
 dict(id="c11-pickle-text", property="C11",
  needs="a message decoded with a user-defined definition or in another mode, pickled and restored",
  breaks="a restored message is decoded anew without its definition",
  edits=[(M, "        self._immutable = True  # once initialised, object is immutable\n", "        self._immutable = True  # once initialised, object is immutable\n\n    def __reduce__(self):\n        return (_restore, (self._talker, self._msgID, self._mode, self._payload))\n"), (M, "class NMEAMessage:\n", "def _restore(talker, msgid, mode, payload):\n    return NMEAMessage(talker, msgid, mode, payload=payload)\n\n\nclass NMEAMessage:\n")],
  demo=SOCK + '''
import pickle
ud = {"XYZ": {"n": "IN", "z": "ST"}}
m = NMEAReader.parse(line("GNXYZ,5,abc"), userdefined=ud)
k = pickle.loads(pickle.dumps(m))
assert str(k) == str(m), (str(k), str(m))
'''),
]
