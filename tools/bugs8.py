import os
exec(open(os.path.join("/verif/tools", "bugs1.py")).read().split("BUGS = [")[0])
BUGS = [
 dict(id="c09-num-cache", property="C09",
  needs="a message built with a number that equals, but is written differently from, one used in an earlier message (5 after 5.0, 0.0 after -0.0)",
  breaks="the text of numbers is cached by value, and equal values of different types share one text: what a message is built to depends on the messages built before",
  edits=[(M, '''        elif att == nmt.IN:
            vals = str(val)
''', '''        elif att == nmt.IN:
            vals = num2str(val)
'''), (M, '''        elif att == nmt.DE:
            vals = str(val)
''', '''        elif att == nmt.DE:
            vals = num2str(val)
'''), (M, '''

class NMEAMessage:
''', '''

@lru_cache(maxsize=256)
def num2str(val) -> str:
    """Text of number; the same few values recur in most messages."""

    return str(val)


class NMEAMessage:
'''), (M, '''from decimal import Decimal
''', '''from decimal import Decimal
from functools import lru_cache
''')],
  demo='''
from pynmeagps import NMEAMessage, GET
def gga(**kw): return NMEAMessage("GN", "GGA", GET, **kw).serialize()
a = gga(HDOP=5.0, time="12:00:00", alt=-0.0)
b = gga(HDOP=5, time="12:00:00", alt=0.0)
for k in [k for k in sys.modules if k.split(".")[0] == "pynmeagps"]: del sys.modules[k]
from pynmeagps import NMEAMessage, GET
assert gga(HDOP=5, time="12:00:00", alt=0.0) == b, (a, b)
'''),
 dict(id="c12-id-memo", property="C12",
  needs="a message created at the address of an earlier one with the same checksum that was serialized and dropped",
  breaks="serialized bytes are remembered by object identity; a later message with the same checksum at the same address is relayed with the bytes of an earlier one",
  edits=[(M, '''        output = f"${self._talker}{self._msgID}"
        for att in self._payload:
            output += "," + att
        output += f"*{self._checksum}\\r\\n"
        return output.encode("utf-8")  # convert str to bytes
''', '''        key = (id(self), self._checksum)
        if key not in SERIALIZED:
            output = f"${self._talker}{self._msgID}"
            for att in self._payload:
                output += "," + att
            output += f"*{self._checksum}\\r\\n"
            if len(SERIALIZED) > 1000:
                SERIALIZED.clear()
            SERIALIZED[key] = output.encode("utf-8")  # convert str to bytes
        return SERIALIZED[key]
'''), (M, '''

class NMEAMessage:
''', '''

SERIALIZED = {}  # messages are immutable, so their bytes can be kept


class NMEAMessage:
''')],
  demo='''
import itertools
from pynmeagps import NMEAReader
def line(c):
    x = 0
    for b in c.encode(): x ^= b
    return f"${c}*{x:02X}\\r\\n".encode()
for i, p in enumerate(itertools.permutations("12345")):
    l = line(f"GNGLL,5327.{''.join(p)},S,00214.41396,E,223232.00,A,A")
    m = NMEAReader.parse(l)
    assert m.serialize() == l, i
    del m
'''),
 dict(id="c05-busy-flag", property="C05",
  needs="an exception other than the library's own (the stream's, or a signal handler's) raised while a read is in progress",
  breaks="a flag meant to refuse nested reads stays set when a read is cut short, and every later read reports the end of data",
  edits=[(R, '''        parsing = True
        raw_data = None
        parsed_data = None
''', '''        raw_data = None
        parsed_data = None
        parsing = not self._reading  # no nested reads from an error handler
        self._reading = True
'''), (R, '''            except EOFError:
                return (None, None)
''', '''            except EOFError:
                raw_data = parsed_data = None
                break
'''), (R, '''                if self._quitonerror:
                    self._do_error(err)
                continue

        return (raw_data, parsed_data)
''', '''                if self._quitonerror:
                    self._reading = self._quitonerror != ERR_RAISE
                    self._do_error(err)
                continue

        self._reading = False
        return (raw_data, parsed_data)
'''), (R, '''        self._logger = getLogger(__name__)
''', '''        self._logger = getLogger(__name__)
        self._reading = False
''')],
  demo=SOCK + '''
import io
L = line("GNGLL,5327.04319,S,00214.41396,E,223232.00,A,A")
class St:
    def __init__(self): self.s = io.BytesIO(L + L); self.n = 0
    def read(self, n):
        self.n += 1
        if self.n == 2: raise KeyboardInterrupt
        return self.s.read(n)
    def readline(self): return self.s.readline()
nmr = NMEAReader(St())
try: nmr.read()
except KeyboardInterrupt: pass
assert nmr.read()[0] == L
'''),
 dict(id="c19-own-logger", property="C19",
  needs="many socket connections created and dropped",
  breaks="every socket wrapper has its own named logger, and loggers are never forgotten by the logging module",
  edits=[(W, '''        self.logger = getLogger(__name__)
''', '''        self.logger = getLogger(f"{__name__}.{next(SERIALNO)}")
'''), (W, '''

class SocketWrapper:
''', '''

SERIALNO = count(1)  # tell the connections of one process apart in its log


class SocketWrapper:
'''), (W, '''from logging import getLogger
''', '''from itertools import count
from logging import getLogger
''')],
  demo=SOCK + '''
import gc, logging
n = len(logging.Logger.manager.loggerDict)
for _ in range(300): NMEAReader(FS([b"$"])).read()
gc.collect()
assert len(logging.Logger.manager.loggerDict) < n + 50
'''),
]
