H, M, R, S = "nmeahelpers.py", "nmeamessage.py", "nmeareader.py", "socketwrapper.py"
READ = "        data = self._buffer[:num]\n        self._buffer = self._buffer[num:]\n        return bytes(data)\n"
RL = """        line = b""
        while True:
            data = self.read(1)
            if len(data) == 1:
                line += data
                if line[-2:] == b"\\r\\n":
                    break
            else:
                break

        return line
"""
SPECS = [
 ("read-partial-on-timeout", "C02 C05", [(S, "            if not self._recv():\n                return b\"\"\n", "            if not self._recv():\n                if num > 1 and self._buffer:\n                    data = bytes(self._buffer)\n                    self._buffer = bytearray()\n                    return data[:num - 1]\n                return b\"\"\n")]),
 ("readline-find", "C02 C05 C01", [(S, RL, """        while True:
            i = self._buffer.find(b"\\r\\n")
            if i >= 0:
                return self.read(i + 2)
            if self._buffer[-1:] == b"\\n":
                return self.read(len(self._buffer))
            if not self._recv():
                return self.read(len(self._buffer))
""")]),
 ("readline-tailsearch", "C02 C05", [(S, RL, """        start = 0
        while True:
            i = self._buffer.find(b"\\r\\n", start)
            if i >= 0:
                return self.read(i + 2)
            start = len(self._buffer)
            if not self._recv():
                return self.read(len(self._buffer))
""")]),
 ("readline-lf-only-after-4k", "C02", [(S, "                if line[-2:] == b\"\\r\\n\":\n", "                if line[-2:] == b\"\\r\\n\" or len(line) > 4000 and line[-1:] == b\"\\n\":\n")]),
 ("readonly-1k", "C01", [(R, "                data += byte\n", "                data += byte\n                if len(data) > 1022:\n                    break\n")]),
 ("write-split", "C16", [(S, "        return self._socket.send(data, **kwargs)", "        if len(data) > 16384:\n            return sum(self._socket.send(data[i:i + 16384], **kwargs) for i in range(0, len(data), 16384))\n        return self._socket.send(data, **kwargs)")]),
 ("write-retry-timeout", "C16", [(S, "        return self._socket.send(data, **kwargs)", "        try:\n            return self._socket.send(data, **kwargs)\n        except InterruptedError:\n            return self._socket.send(data, **kwargs)")]),
 ("write-wouldblock-zero", "C16", [(S, "        return self._socket.send(data, **kwargs)", "        try:\n            return self._socket.send(data, **kwargs)\n        except BlockingIOError:\n            return 0")]),
 ("write-none", "C16", [(S, "        return self._socket.send(data, **kwargs)", "        return self._socket.send(data, **kwargs) or None")]),
 ("recv-eof-clears", "C03", [(S, "            if len(data) == 0:\n                return False\n", "            if len(data) == 0:\n                self._partial = b\"\"\n                return False\n")]),
 ("recv-err-clears-partial", "C03 C05", [(S, "        except (OSError, TimeoutError):\n            return False\n", "        except TimeoutError:\n            return False\n        except OSError:\n            self._partial = b\"\"\n            return False\n")]),
 ("recv-eof-retry", "C03", [(S, "            if len(data) == 0:\n                return False\n", "            if len(data) == 0:\n                data = self._socket.recv(self._bufsize)\n")]),
 ("dechunk-lenlimit", "C03", [(S, "                if not 0 <= chunk_length <= maxsize:", "                if not 0 <= chunk_length <= 0x7FFF:")]),
 ("dechunk-zero-pad", "C03", [(S, "            if chunk_length == 0:\n                # final chunk\n                break", "            if chunk_length == 0 or length_bytes[0:1] == b\"0\":\n                # final chunk\n                break")]),
 ("dechunk-zlib-drop", "C03", [(S, "                    # parser will discard data\n", "                    # parser will discard data\n                    partial = instream.read()\n                    break\n")]),
 ("dechunk-multi-member", "C03", [(S, "                        chunk = decompress(chunk, wbits=MAX_WBITS | 16)\n", "                        chunk = decompress(chunk, wbits=MAX_WBITS | 16)[:65536]\n")]),
 ("dechunk-upper-hex", "C03", [(S, "chunk_length = int(length_bytes.split(b\";\")[0].strip(), 16)", "chunk_length = int(length_bytes.split(b\";\")[0].strip().lower().lstrip(b\"0x\") or b\"0\", 16)")]),
 ("hdr-cache", "C01", [(R, "        self._lock = RLock()  # one reading thread at a time\n", "        self._lock = RLock()  # one reading thread at a time\n        self._seen = {}\n"), (R, "                    parsed_data = self.parse(\n", "                    parsed_data = self._seen.get(raw_data) or self.parse(\n"), (R, "                    parsing = False\n                else:", "                    self._seen = {raw_data: parsed_data}\n                    parsing = False\n                else:")]),
 ("log-dedupe", "C06", [(R, "        if self._quitonerror == ERR_LOG:\n", "        if self._quitonerror == ERR_LOG and str(err) != getattr(self, \"_last\", None):\n            self._last = str(err)\n")]),
 ("log-after-raise", "C06", [(R, "        if self._quitonerror == ERR_RAISE:\n            raise err from err\n", "        if self._quitonerror == ERR_RAISE:\n            self._quitonerror = ERR_LOG\n            try:\n                raise err from err\n            finally:\n                if self._errorhandler is None:\n                    self._quitonerror = ERR_RAISE\n")]),
 ("err-typeerror-swallow", "C06", [(R, "                if self._quitonerror:\n                    self._do_error(err)\n", "                if self._quitonerror and not (isinstance(err, nme.NMEATypeError) and self._nmea_only):\n                    self._do_error(err)\n")]),
 ("ck-nonascii", "C04", [(R, "                if checksum.upper() != ccksum:", "                if content.isascii() and checksum.upper() != ccksum:")]),
 ("ck-empty", "C04", [(R, "                if checksum.upper() != ccksum:", "                if checksum and checksum.upper() != ccksum:")]),
 ("ck-poll", "C04", [(R, "            if validate & VALCKSUM:", "            if validate & VALCKSUM and not (msgmode == 2 and validate & VALMSGID):")]),
 ("ck-payloadless", "C04", [(R, "                if checksum.upper() != ccksum:", "                if payload and checksum.upper() != ccksum:")]),
 ("peek-ahead", "C08", [(R, "                if byte1 != b\"\\x24\":  # not NMEA, discard and continue\n                    continue", "                if byte1 == b\"\\r\":\n                    self._read_bytes(1)\n                    continue\n                if byte1 != b\"\\x24\":  # not NMEA, discard and continue\n                    continue")]),
 ("lazy-logger", "C09", [(M, "        self._logger = getLogger(__name__)\n        self._validate", "        getLogger(__name__).setLevel(30)\n        self._logger = getLogger(__name__)\n        self._validate")]),
 ("ud-normalise", "C09 C01", [(M, "                dic = self._userdefined[key]\n", "                dic = self._userdefined[key]\n                if list(dic)[-1:] == [\"EW\"] and \"NS\" in dic:\n                    dic[\"EW\"] = dic.pop(\"EW\")\n")]),
 ("str-adds", "C11", [(M, "        stg = f\"<NMEA({self.identity}\"\n", "        self.__dict__[\"_str\"] = stg = f\"<NMEA({self.identity}\"\n")]),
 ("ser-cache-shared", "C12 C09 C11", [(M, "        output = f\"${self._talker}{self._msgID}\"\n        for att in self._payload:", "        output = f\"${self._talker}{self._msgID}\"\n        NMEAMessage.last = self._payload\n        for att in NMEAMessage.last:")]),
 ("repr-quotes", "C12", [(M, "            f\"{self._mode}, payload={self._payload})\"\n", "            f\"{self._mode}, payload=['\" + \"', '\".join(self._payload) + \"'])\"\n")]),
 ("ser-latin", "C12", [(M, "        return output.encode(\"utf-8\")  # convert str to bytes", "        return output.encode(\"utf-8\", \"replace\").replace(b\"\\x7f\", b\" \")")]),
 ("ser-strip-bom", "C12", [(H, 'hdr, *payload = content.split(",")', 'hdr, *payload = [f.replace("\\ufeff", "") for f in content.split(",")]')]),
 ("tm-naive", "C15", [(H, '        return tim.strftime("%H%M%S.%f")[0:9]\n', '        if isinstance(tim, datetime) and tim.tzinfo is None:\n            tim = tim.astimezone(__import__(\"datetime\").timezone.utc)\n        return tim.strftime("%H%M%S.%f")[0:9]\n')]),
 ("tm-datetime-empty", "C15", [(H, '        return tim.strftime("%H%M%S.%f")[0:9]\n', '        return tim.replace(fold=0).isoformat("milliseconds").replace(":", "")[0:9]\n')]),
 ("tm-trim", "C15", [(H, '        return tim.strftime("%H%M%S.%f")[0:9]\n', '        return tim.isoformat().replace(":", "")[0:9]\n')]),
 ("dec-round", "C15", [(M, "            vals = str(val)\n            if isinstance(val, float)", "            vals = str(round(val, 6)) if isinstance(val, float) and abs(val) > 1e7 else str(val)\n            if isinstance(val, float)")]),
 ("int-float", "C15", [(M, "        elif att == nmt.IN:\n            vals = str(val)\n", "        elif att == nmt.IN:\n            vals = f\"{val:.0f}\" if abs(val or 0) > 2**53 else str(val)\n")]),
 ("hx-int", "C15", [(M, "        elif att == nmt.HX:\n            vals = str(val)\n", "        elif att == nmt.HX:\n            vals = str(val).lstrip(\"0\") or \"0\"\n")]),
 ("lon-180", "C01 C15", [(M, "                    self.lon = -abs(self.lon) if val == \"W\" else abs(self.lon)", "                    self.lon = -abs(self.lon) if val == \"W\" and self.lon != 180 else abs(self.lon)")]),
 ("lat-before-ns", "C01", [(M, "                    self.lat = -abs(self.lat) if val == \"S\" else abs(self.lat)", "                    self.lat = -self.lat if val == \"S\" else self.lat")]),
 ("group-count-cap", "C01", [(M, "                rng = min(rng, len(self._payload) - pindex)", "                rng = min(rng, len(self._payload) - pindex, 64)")]),
 ("group-min", "C01", [(M, "                rng = min(rng, len(self._payload) - pindex)", "                rng = min(rng, (len(self._payload) - pindex) // len(attd))")]),
 ("now-per-reader", "C13", [(M, "        self._now = datetime.now(timezone.utc)\n", "        self._now = NMEAMessage._t0 = getattr(NMEAMessage, \"_t0\", None) if getattr(NMEAMessage, \"_t0\", None) and abs((datetime.now(timezone.utc) - NMEAMessage._t0).total_seconds()) < 0.005 else datetime.now(timezone.utc)\n")]),
 ("lock-pool", "C10", [(R, "        with self._lock:\n            return self._read_message()\n", "        if not self._lock.acquire(timeout=1):\n            return self._read_message()\n        try:\n            return self._read_message()\n        finally:\n            self._lock.release()\n")]),
 ("lock-noblock", "C10", [(R, "        with self._lock:\n            return self._read_message()\n", "        if not self._lock.acquire(blocking=False):\n            return (None, None)\n        try:\n            return self._read_message()\n        finally:\n            self._lock.release()\n")]),
]
