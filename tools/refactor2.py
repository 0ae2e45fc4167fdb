#!/usr/bin/env python3
"""A second behaviour-preserving rewrite of a copy of /repo, in another style: refactor2.py DIR."""
import re
import sys

d = sys.argv[1]


def load(f):
    p = f"{d}/src/pynmeagps/{f}"
    raw = open(p, newline="").read()
    return p, "\r\n" in raw, raw.replace("\r\n", "\n")


def save(p, crlf, s):
    open(p, "w", newline="").write(s.replace("\n", "\r\n") if crlf else s)


def fn(s, name, new, indent=0):
    i = " " * indent
    pat = re.compile(r'(?m)^%s(?:@\w+\n%s)?def %s\(.*?(?=^%s(?:def |@|[A-Za-z"])|\Z)' % (i, i, name, i), re.S)
    m = pat.search(s)
    assert m, name
    return s[:m.start()] + new.rstrip("\n") + "\n\n" + ("\n" if indent == 0 else "") + s[m.end():]


def sub(s, a, b):
    assert s.count(a) == 1, (s.count(a), a)
    return s.replace(a, b)


# ---- socketwrapper: the buffer as pending segments joined on demand, chunks by a helper generator
p, c, s = load("socketwrapper.py")
s = fn(s, "read", '''    def read(self, num: int) -> bytes:
        ok = True
        while ok and len(self._buffer) < num:
            ok = self._recv()
        if not ok:
            return b""
        view = memoryview(self._buffer)
        try:
            data, rest = view[:num].tobytes(), view[num:].tobytes()
        finally:
            view.release()
        self._buffer = bytearray(rest)
        return data
''', 4)
s = fn(s, "readline", '''    def readline(self) -> bytes:
        line = bytearray()
        while not line.endswith(b"\\r\\n"):
            nxt = self.read(1)
            if not nxt:
                break
            line.extend(nxt)
        return bytes(line)
''', 4)
s = fn(s, "in_waiting", '''    def in_waiting(self) -> int:
        return self._buffer.__len__()
''', 4)
s = fn(s, "dechunk", '''    def _chunks(self, segment):
        """(kind, data): kind 'data', 'partial', 'end'"""
        stream = BytesIO(segment)
        while True:
            start = stream.tell()
            head = stream.readline()
            if not head.endswith(b"\\r\\n"):
                yield "partial", head
                return
            try:
                size = int(head.partition(b";")[0].strip(), 16)
            except ValueError:
                size = -1
            if size < 0 or size > maxsize:
                yield "end", b""
                return
            body = stream.read(size)
            if len(body) == size and stream.readline().endswith(b"\\n"):
                yield ("data" if size else "end"), body
                if not size:
                    return
                continue
            stream.seek(start)
            yield "partial", stream.read()
            return

    def _expand(self, body):
        enc = self._encoding
        try:
            if enc & ENCODE_GZIP:
                body = decompress(body, wbits=MAX_WBITS | 16)
            if enc & ENCODE_COMPRESS:
                body = decompress(body, wbits=MAX_WBITS)
            if enc & ENCODE_DEFLATE:
                body = decompress(body, wbits=-MAX_WBITS)
        except zlibError as err:
            self.logger.error(f"Error decompressing data: {err}")
        return body

    def dechunk(self, segment: bytes) -> tuple:
        chunks, partial = bytearray(), b""
        for kind, data in self._chunks(segment):
            if kind == "data":
                chunks += self._expand(data)
            elif kind == "partial":
                partial = data
        return bytes(chunks), partial
''', 4)
save(p, c, s)
# ---- nmeareader: a loop over a generator of steps, explicit lock, table of error actions
p, c, s = load("nmeareader.py")
s = fn(s, "__next__", '''    def __next__(self) -> tuple[bytes | NoneType, NMEAMessage | NoneType]:
        item = self.read()
        if not any(x is not None for x in item):
            raise StopIteration
        return item
''', 4)
s = fn(s, "read", '''    def read(self) -> tuple[bytes | NoneType, NMEAMessage | NoneType]:
        self._lock.acquire()
        try:
            found = None
            while found is None:
                found = self._step()
            return found
        finally:
            self._lock.release()
''', 4)
s = fn(s, "_read_message", '''    def _step(self):
        """One attempt; None when there is nothing to deliver yet."""

        try:
            first = self._read_bytes(1)
            if first != b"$":
                return None
            header = first + self._read_bytes(1)
            if header in NMEA_HDR:
                line = header + self._read_line()
                return line, self._decode(line)
            if self._nmea_only:
                raise nme.NMEAParseError(f"Unknown protocol header {header}.")
        except EOFError:
            return (None, None)
        except Exception as err:  # pylint: disable=broad-exception-caught
            if not isinstance(
                err,
                (
                    nme.NMEAMessageError,
                    nme.NMEATypeError,
                    nme.NMEAParseError,
                    nme.NMEAStreamError,
                ),
            ):
                raise
            if self._quitonerror:
                self._do_error(err)
        return None

    def _decode(self, line):
        return self.parse(line, self._mode, self._validate, self._userdefined)
''', 4)
s = fn(s, "_read_line", '''    def _read_line(self) -> bytes:
        data = (
            self._stream.readline()
            if hasattr(self._stream, "readline")
            else b"".join(self._until_lf())
        )
        if not data:
            raise EOFError()
        if data[-1] != 0x0A:
            raise nme.NMEAStreamError(f"Stream ended within a line ({len(data)} bytes).")
        return data

    def _until_lf(self):
        for byte in iter(lambda: self._stream.read(1), b""):
            yield byte
            if byte == b"\\n":
                return
''', 4)
s = fn(s, "_do_error", '''    def _do_error(self, err: Exception):
        if self._quitonerror == ERR_RAISE:
            raise err from err
        report = self._logger.error if self._errorhandler is None else self._errorhandler
        if self._quitonerror == ERR_LOG:
            report(err)
''', 4)
s = sub(s, '''            content, talker, msgid, payload, checksum = get_parts(message)
            if validate & VALCKSUM:
                ccksum = calc_checksum(content)
                if checksum.upper() != ccksum:
                    raise nme.NMEAParseError(
                        f"Message {talker}{msgid} invalid checksum {checksum}"
                        f" - should be {ccksum}."
                    )
            return NMEAMessage(
                talker,
                msgid,
                msgmode,
                payload=payload,
                checksum=checksum,
                validate=validate,
                userdefined=userdefined,
            )

        except nme.NMEAMessageError as err:
            if validate & VALMSGID:
                raise nme.NMEAParseError(err)
            return None
''', '''            parts = get_parts(message)
            if validate & VALCKSUM and parts[4].upper() != calc_checksum(parts[0]):
                raise nme.NMEAParseError(f"Message {parts[1]}{parts[2]} invalid checksum {parts[4]} - should be {calc_checksum(parts[0])}.")
            options = dict(zip(("talker", "msgID", "payload", "checksum"), parts[1:]))
            return NMEAMessage(msgmode=msgmode, validate=validate, userdefined=userdefined, **options)
        except nme.NMEAMessageError as err:
            if not validate & VALMSGID:
                return None
            raise nme.NMEAParseError(err) from err
''')
save(p, c, s)
# ---- helpers
p, c, s = load("nmeahelpers.py")
s = fn(s, "calc_checksum", '''def calc_checksum(content: str) -> str:
    """XOR of all bytes."""

    total = 0
    for char in content:
        if char < "\\x80":
            total ^= ord(char)
        else:
            for byte in char.encode("utf-8", "surrogatepass"):
                total ^= byte
    return hex(total)[2:].upper().rjust(2, "0")
''')
s = fn(s, "date2utc", '''_DATEFORMS = {"DM": "%m%d%y", "DTL": "%d%m%Y"}


def date2utc(dates: str, form: Literal["DT", "DTL", "DM"] = DT) -> datetime.date:
    """date2utc"""

    utc = ""
    if isinstance(dates, str):
        try:
            utc = datetime.strptime(dates, _DATEFORMS.get(form, "%d%m%y")).date()
        except ValueError:
            pass
    return utc
''')
s = fn(s, "dmm2ddd", '''def dmm2ddd(pos: str) -> float | str:
    """dmm2ddd"""

    try:
        head, dot, tail = pos.partition(".")
        if not dot or len(head) < 4:
            return ""
        deg = abs(float(head[:-2]))
        return round(deg + float(f"{head[-2:]}.{tail}") / 60, 10)
    except (AttributeError, TypeError, ValueError):
        return ""
''')
s = fn(s, "ddd2dmm", '''def ddd2dmm(degrees: float, att: Literal["LA", "LN"], hpmode: bool = False) -> str:
    """ddd2dmm"""

    dps = 7 if hpmode else 5
    try:
        whole, mins = divmod(round(abs(degrees) * 60, dps), 60)
        text = f"{int(whole * 100) + mins:.{dps}f}"
    except (TypeError, ValueError):
        return ""
    return text.rjust(dps + (5 if att == LA else 6), "0")
''')
save(p, c, s)
# ---- message
p, c, s = load("nmeamessage.py")
s = sub(s, '''        for i in range(rng):
            gindex[-1] = i + 1
            for key1 in attd.keys():
                pindex, gindex = self._set_attribute(
                    pindex, attd, key1, gindex, **kwargs
                )
''', '''        for item in range(1, rng + 1):
            gindex[-1] = item
            for key1, att1 in attd.items():
                if isinstance(att1, tuple):
                    pindex, gindex = self._set_attribute_group(
                        att1, pindex, gindex, **kwargs
                    )
                else:
                    pindex = self._set_attribute_single(
                        att1, pindex, key1, gindex, **kwargs
                    )
''')
s = sub(s, '''        for i in gindex:  # one index for each nested level
            if i > 0:
                keyr += f"_{i:02d}"

        try:
''', '''        for i in filter(None, gindex):
            keyr = f"{keyr}_{str(i).zfill(2)}"

        if self._streaming and pindex >= len(self._payload):
            return pindex
        try:
''')
s = sub(s, '''        if self._streaming:
            # override sign of lat/lon according to NS and EW values
            if att == nmt.LND and hasattr(self, "lon"):
                if isinstance(self.lon, (int, float)):
                    self.lon = -abs(self.lon) if val == "W" else abs(self.lon)
            elif att == nmt.LAD and hasattr(self, "lat"):
                if isinstance(self.lat, (int, float)):
                    self.lat = -abs(self.lat) if val == "S" else abs(self.lat)
        pindex += 1  # move on to next attribute in payload definition

        return pindex
''', '''        if self._streaming:
            self._sign(att, val)
        return pindex + 1

    def _sign(self, att, val):
        """Hemisphere"""

        for code, name, neg in ((nmt.LND, "lon", "W"), (nmt.LAD, "lat", "S")):
            if att != code:
                continue
            here = self.__dict__.get(name)
            if isinstance(here, (int, float)):
                setattr(self, name, abs(here) * (-1 if val == neg else 1))
''')
s = fn(s, "__setattr__", '''    def __setattr__(self, name, value):
        if not self._immutable:
            object.__setattr__(self, name, value)
            return
        raise nme.NMEAMessageError(f"Object is immutable. Updates to {name} not permitted after initialisation.")
''', 4)
s = fn(s, "serialize", '''    def serialize(self) -> bytes:
        fields = iter(self._payload)
        out = bytearray(b"$" + (self._talker + self._msgID).encode("utf-8"))
        for field in fields:
            out += b"," + field.encode("utf-8")
        out += f"*{self._checksum}".encode("utf-8") + b"\\r\\n"
        return bytes(out)
''', 4)
s = fn(s, "payload", '''    @property
    def payload(self) -> list:
        return [*self._payload]
''', 4) if False else s
s = fn(s, "_set_attribute_nominal", '''    def _set_attribute_nominal(self, payload: list):
        number = 0
        for fld in payload:
            number += 1
            setattr(self, "field_%02d" % number, fld)
''', 4)
s = fn(s, "str2val", '''    @staticmethod
    def str2val(vals: str, att: str) -> Any:
        """str2val"""

        match att:
            case nmt.DE:
                return float(vals) if vals != "" else vals
            case nmt.IN:
                return int(vals) if vals != "" else vals
            case nmt.LA | nmt.LN:
                return dmm2ddd(vals)
            case nmt.TM:
                return time2utc(vals)
            case nmt.DT | nmt.DTL | nmt.DM:
                return date2utc(vals, att)
            case nmt.CH | nmt.ST | nmt.LAD | nmt.LND | nmt.QS | nmt.HX:
                return vals
        raise nme.NMEATypeError(f"Unknown attribute type {att}.")
''', 4)
s = fn(s, "val2str", '''    @staticmethod
    def val2str(val, att: str, hpmode: bool = False) -> str:
        """val2str"""

        if att in (nmt.LA, nmt.LN):
            return ddd2dmm(val, att, hpmode)
        if att == nmt.TM:
            return val.replace(":", "") if isinstance(val, str) else time2str(val)
        if att in (nmt.DT, nmt.DTL, nmt.DM):
            if not isinstance(val, str):
                return date2str(val, att)
            txt = val.replace("-", "")
            yyyy, mm, dd = txt[:4], txt[4:6], txt[6:8]
            if att == nmt.DTL:
                return dd + mm + yyyy
            return (mm + dd if att == nmt.DM else dd + mm) + txt[2:4]
        if att not in (nmt.CH, nmt.ST, nmt.LAD, nmt.LND, nmt.QS, nmt.HX, nmt.DE, nmt.IN):
            raise nme.NMEATypeError(f"Unknown attribute type {att}.")
        if att == nmt.DE and isinstance(val, float) and "e" in str(val):
            return format(Decimal(str(val)), "f")
        return str(val)
''', 4)
save(p, c, s)
