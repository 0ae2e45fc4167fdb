import re,sys,os,shutil
d=sys.argv[1]
def load(f):
    p=f"{d}/src/pynmeagps/{f}"; raw=open(p,newline='').read(); return p,'\r\n' in raw,raw.replace('\r\n','\n')
def save(p,crlf,s): open(p,'w',newline='').write(s.replace('\n','\r\n') if crlf else s)
def repl_func(s,name,new,indent=0):
    pat=re.compile(r'(?m)^%s(?:@\w+\n%s)?def %s\(.*?(?=^%s(?:def |@|[A-Za-z"])|\Z)'%(' '*indent,' '*indent,name,' '*indent),re.S)
    # only match to next def/decorator at same indent
    m=pat.search(s); assert m,name
    return s[:m.start()]+new.rstrip('\n')+'\n\n'+('\n' if indent==0 else '')+s[m.end():]
# ---- socketwrapper
p,c,s=load('socketwrapper.py')
s=repl_func(s,'_recv','''    def _fetch(self):
        try:
            return self._socket.recv(self._bufsize)
        except (TimeoutError, OSError):
            return b""

    def _recv(self) -> bool:
        received = self._fetch()
        if not received:
            return False
        if self._encoding & ENCODE_CHUNKED:
            received, self._partial = self.dechunk(b"".join((self._partial, received)))
        self._buffer.extend(received)
        return True
''',4)
s=repl_func(s,'read','''    def read(self, num: int) -> bytes:
        missing = num - len(self._buffer)
        while missing > 0:
            if self._recv() is False:
                return b""
            missing = num - len(self._buffer)
        return self._take(num)

    def _take(self, num):
        out = bytes(self._buffer[:num])
        del self._buffer[:num]
        return out
''',4)
s=repl_func(s,'readline','''    def readline(self) -> bytes:
        scanned = 0
        while True:
            end = self._buffer.find(b"\\r\\n", max(0, scanned - 1))
            if end >= 0:
                return self._take(end + 2)
            scanned = len(self._buffer)
            if not self._recv():
                return self._take(len(self._buffer))
''',4)
s=repl_func(s,'dechunk','''    def _inflate(self, chunk):
        try:
            for flag, wbits in (
                (ENCODE_GZIP, MAX_WBITS | 16),
                (ENCODE_COMPRESS, MAX_WBITS),
                (ENCODE_DEFLATE, -MAX_WBITS),
            ):
                if self._encoding & flag:
                    chunk = decompress(chunk, wbits=wbits)
        except zlibError as err:
            self.logger.error(f"Error decompressing data: {err}")
        return chunk

    @staticmethod
    def _chunk_size(line):
        try:
            size = int(line.split(b";")[0].strip(), 16)
        except ValueError:
            return None
        return size if 0 <= size <= maxsize else None

    def dechunk(self, segment: bytes) -> tuple:
        out = []
        pos = 0
        while True:
            eol = segment.find(b"\\n", pos)
            if eol < 0 or segment[eol - 1 : eol] != b"\\r" or eol == pos:
                if eol < 0:
                    return b"".join(out), segment[pos:]
                return b"".join(out), segment[pos : eol + 1]
            size = self._chunk_size(segment[pos : eol + 1])
            if size is None:
                return b"".join(out), b""
            body = segment[eol + 1 : eol + 1 + size]
            if len(body) < size:
                return b"".join(out), segment[pos:]
            after = segment.find(b"\\n", eol + 1 + size)
            if after < 0:
                return b"".join(out), segment[pos:]
            if size == 0:
                return b"".join(out), b""
            out.append(self._inflate(body))
            pos = after + 1
''',4)
save(p,c,s)
# ---- nmeareader
p,c,s=load('nmeareader.py')
s=repl_func(s,'_read_message','''    _RECOVERABLE = (
        nme.NMEAMessageError,
        nme.NMEATypeError,
        nme.NMEAParseError,
        nme.NMEAStreamError,
    )

    def _read_message(self):
        while True:
            try:
                item = self._try_one()
            except EOFError:
                return None, None
            except self._RECOVERABLE as err:
                if self._quitonerror != ERR_IGNORE:
                    self._do_error(err)
            else:
                if item is not None:
                    return item

    def _try_one(self):
        while self._read_bytes(1) != b"$":
            pass
        header = b"$" + self._read_bytes(1)
        if header not in NMEA_HDR:
            if self._nmea_only:
                raise nme.NMEAParseError(f"Unknown protocol header {header}.")
            return None
        raw = b"".join([header, self._read_line()])
        kw = {"msgmode": self._mode, "validate": self._validate}
        return raw, self.parse(raw, userdefined=self._userdefined, **kw)
''',4)
s=s.replace("    ERR_LOG,\n","    ERR_IGNORE,\n    ERR_LOG,\n",1) if "    ERR_IGNORE,\n" not in s else s
s=repl_func(s,'_read_line','''    def _read_line(self) -> bytes:
        try:
            readline = self._stream.readline
        except AttributeError:
            readline = self._slow_line
        line = readline()
        if not line:
            raise EOFError()
        if not line.endswith(b"\\n"):
            raise nme.NMEAStreamError(f"Incomplete line of {len(line)} bytes.")
        return line

    def _slow_line(self):
        parts = []
        while True:
            one = self._stream.read(1)
            if not one:
                break
            parts.append(one)
            if one == b"\\n":
                break
        return b"".join(parts)
''',4)
save(p,c,s)
# ---- helpers
p,c,s=load('nmeahelpers.py')
s=repl_func(s,'calc_checksum','''def calc_checksum(content: str) -> str:
    """Checksum."""

    from functools import reduce
    from operator import xor

    value = reduce(xor, content.encode("utf-8", "surrogatepass"), 0)
    return format(value, "02X")
''')
s=repl_func(s,'generate_checksum','''def generate_checksum(talker: str, msgID: str, payload: list) -> str:
    """Checksum of new message."""

    return calc_checksum(",".join([talker + msgID] + [str(x) for x in payload]))
''')
s=repl_func(s,'get_parts','''def _split_header(hdr):
    pos = 1 if hdr.startswith("P") else 2
    return hdr[:pos], hdr[pos:]


def get_parts(message: object) -> tuple:
    """Parts."""

    try:
        text = message.decode("utf-8") if isinstance(message, bytes) else message
        text = text.strip("$\\r\\n")
        star = text.index("*")
        content, cksum = text[:star], text[star + 1 :]
        fields = content.split(",")
        talker, msgid = _split_header(fields[0])
        return content, talker, msgid, fields[1:], cksum
    except Exception as err:
        raise nme.NMEAMessageError(f"Badly formed message {message}") from err
''')
s=repl_func(s,'ddd2dmm','''def ddd2dmm(degrees, att, hpmode=False):
    """ddd2dmm"""

    places = 7 if hpmode else 5
    try:
        total = round(abs(degrees) * 60, places)
        deg = int(total // 60)
        mins = total - deg * 60
        width = 3 if att == LN else 2
        return f"{deg:0{width}d}{mins:0{places + 3}.{places}f}"
    except (TypeError, ValueError):
        return ""
''')
s=repl_func(s,'time2str','''def time2str(tim):
    """time2str"""

    try:
        return f"{tim.hour:02d}{tim.minute:02d}{tim.second:02d}.{tim.microsecond // 10000:02d}"
    except (AttributeError, TypeError, ValueError):
        return ""
''')
s=repl_func(s,'leapsecond','''def leapsecond(dat, gnss=GPS):
    """leap"""

    from bisect import bisect_right

    def at(when):
        idx = bisect_right([k for k, _ in LEAPSECONDS], (when - LEAPS0).total_seconds())
        return LEAPSECONDS[idx - 1][1] if idx else None

    when = dat if dat.tzinfo is not None else dat.replace(tzinfo=timezone.utc)
    here = at(when)
    return 0 if here is None else here - at(EPOCH0_BEIDOU if gnss == BDS else EPOCH0_GPS)
''')
s=s.replace('''    i = 0
    utc = None
    while True:
        nxt = ep0 + timedelta(days=(wno + (i * rollover)) * 7, milliseconds=tow)
        if gnss != GLO:  # apply leapsecond offset
            lps = ls
            if lps is None:  # offset effective at UTC rather than GNSS epoch
                lps = leapsecond(nxt - timedelta(seconds=leapsecond(nxt, gnss)), gnss)
            nxt -= timedelta(seconds=lps)
        if utc is not None and nxt > current:
            break
        utc = nxt
        if not autoroll:
            break
        i += 1
    return utc
''','''    def epoch(week):
        when = ep0 + timedelta(weeks=week, milliseconds=tow)
        if gnss == GLO:
            return when
        if ls is not None:
            return when - timedelta(seconds=ls)
        guess = when - timedelta(seconds=leapsecond(when, gnss))
        return when - timedelta(seconds=leapsecond(guess, gnss))

    best = epoch(wno)
    while autoroll:
        wno += rollover
        later = epoch(wno)
        if later > current:
            break
        best = later
    return best
''')
assert 'def epoch' in s
save(p,c,s)
# ---- message
p,c,s=load('nmeamessage.py')
s=repl_func(s,'_calc_num_repeats','''    def _calc_num_repeats(self, attd, payload, pindex, pindexend=0):
        """repeats"""

        return max(0, len(payload) - pindex - pindexend) // len(attd)
''',4)
s=repl_func(s,'serialize','''    def serialize(self) -> bytes:
        """serialize"""

        body = ",".join([self._talker + self._msgID, *self._payload])
        return f"${body}*{self._checksum}\\r\\n".encode("utf-8")
''',4)
s=repl_func(s,'__str__','''    def __str__(self) -> str:
        """str"""

        parts = [f"<NMEA({self.identity}"]
        if self._defsource == nmt.DEF_UNKN:
            parts.append("NOMINAL")
        parts.extend(f"{k}={v}" for k, v in vars(self).items() if not k.startswith("_"))
        return ", ".join(parts) + ")>"
''',4)
s=repl_func(s,'_set_attribute','''    def _set_attribute(self, pindex, pdict, key, gindex, **kwargs):
        """attribute"""

        spec = pdict[key]
        if not isinstance(spec, tuple):
            return self._set_attribute_single(spec, pindex, key, gindex, **kwargs), gindex
        return self._set_attribute_group(spec, pindex, gindex, **kwargs)
''',4)
s=s.replace('''        for i in range(rng):
            gindex[-1] = i + 1
            for key1 in attd.keys():
''','''        i = 0
        while i < rng:
            i += 1
            gindex[-1] = i
            for key1 in attd:
''')
s=s.replace('''        keyr = key
        for i in gindex:  # one index for each nested level
            if i > 0:
                keyr += f"_{i:02d}"
''','''        keyr = "".join([key] + ["_%02d" % i for i in gindex if i > 0])
''')
s=repl_func(s,'str2val','''    @staticmethod
    def str2val(vals: str, att: str) -> Any:
        """str2val"""

        if att in (nmt.DT, nmt.DTL, nmt.DM):
            return date2utc(vals, att)
        conv = {
            nmt.DE: lambda v: v if v == "" else float(v),
            nmt.IN: lambda v: v if v == "" else int(v),
            nmt.LA: dmm2ddd,
            nmt.LN: dmm2ddd,
            nmt.TM: time2utc,
        }.get(att)
        if conv is not None:
            return conv(vals)
        if att in (nmt.CH, nmt.ST, nmt.LAD, nmt.LND, nmt.QS, nmt.HX):
            return vals
        raise nme.NMEATypeError(f"Unknown attribute type {att}.")
''',4)
save(p,c,s)
