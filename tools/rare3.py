H, M, R, S = "nmeahelpers.py", "nmeamessage.py", "nmeareader.py", "socketwrapper.py"
LOCKED = "        with self._lock:\n            return self._read_message()\n"
SEND = "        return self._socket.send(data, **kwargs)"
READ = "        data = self._buffer[:num]\n        self._buffer = self._buffer[num:]\n        return bytes(data)\n"
SPECS = [
 ("line-limit", "C01 C18", [(R, "            data = self._stream.readline()  # NMEA protocol is CRLF-terminated\n", "            data = self._stream.readline(8192) if not hasattr(self._stream, \"in_waiting\") else self._stream.readline()\n")]),
 ("busy-flag", "C06", [(R, LOCKED, "        with self._lock:\n            if getattr(self, \"_busy\", False):\n                return (None, None)\n            self._busy = True\n            res = self._read_message()\n            self._busy = False\n            return res\n")]),
 ("busy-flag-c5", "C05", [(R, LOCKED, "        with self._lock:\n            if getattr(self, \"_busy\", False):\n                self._busy = False\n                return (None, None)\n            self._busy = True\n            res = self._read_message()\n            self._busy = False\n            return res\n")]),
 ("delayed-error", "C06", [(R, "                if self._quitonerror:\n                    self._do_error(err)\n", "                if self._quitonerror == 2 or self._errorhandler is None:\n                    if self._quitonerror:\n                        self._do_error(err)\n                else:\n                    self._pending = getattr(self, \"_pending\", []) + [err]\n                    if len(self._pending) > 1 and self._quitonerror:\n                        self._do_error(self._pending.pop(0))\n")]),
 ("handler-guard", "C06", [(R, "                self._errorhandler(err)\n", "                try:\n                    self._errorhandler(err)\n                except Exception:\n                    self._errorhandler = None\n                    raise\n")]),
 ("lock-lock", "C06 C10", [(R, "RLock()  # one", "Lock()  # one"), (R, "from threading import RLock", "from threading import Lock")]),
 ("lock-split", "C10", [(R, LOCKED, "        return self._read_message()\n"), (R, "        data = self._stream.read(size)\n", "        with self._lock:\n            data = self._stream.read(size)\n"), (R, "        if hasattr(self._stream, \"readline\"):\n            data = ", "        if hasattr(self._stream, \"readline\"):\n          with self._lock:\n            data = ")]),
 ("parse-unlocked-order", "C10", [(R, "                    parsed_data = self.parse(\n", "                    self._lock.release()\n                    self._lock.acquire()\n                    parsed_data = self.parse(\n")]),
 ("next-peek", "C10", [(R, "        raw_data, parsed_data = self.read()\n", "        self._item = self.read()\n        raw_data, parsed_data = self._item\n")]),
 ("pivot-70", "C01", [(H, "        utc = datetime.strptime(dates, dform)\n        return utc.date()\n", "        utc = datetime.strptime(dates, dform)\n        if form != \"DTL\" and utc.year == 1969:\n            utc = utc.replace(year=2069)\n        return utc.date()\n")]),
 ("leap60", "C01", [(H, "        utc = datetime.strptime(times, \"%H%M%S.%f\")\n", "        if times[4:6] == \"60\":\n            times = times[:4] + \"59\" + times[6:]\n        utc = datetime.strptime(times, \"%H%M%S.%f\")\n")]),
 ("tm-no-dot", "C01", [(H, "        if len(times) == 6:  # decimal", "        if \".\" not in times:  # decimal")]),
 ("parts-strip", "C04 C12", [(H, "hdr, *payload = content.split(\",\")", "hdr, *payload = (f.strip() for f in content.split(\",\"))")]),
 ("leap-2012", "C14", [(H, "    (3550089600, 35),  # 1 Jul 2012\n", "    (3550003200, 35),  # 1 Jul 2012\n")]),
 ("leap-1997", "C14", [(H, "    (3076704000, 31),  # 1 Jul 1997\n", "    (3076704001, 31),  # 1 Jul 1997\n")]),
 ("irn-rollover", "C14", [(H, "    elif gnss == IRN:\n        ep0 = EPOCH0_IRN\n        rollover = 1024\n    else:\n        ep0 = EPOCH0_GPS\n        rollover = 1024\n    wno = wno % rollover", "    elif gnss == IRN:\n        ep0 = EPOCH0_IRN\n        rollover = 2048\n    else:\n        ep0 = EPOCH0_GPS\n        rollover = 1024\n    wno = wno % rollover")]),
 ("auto-ge", "C14", [(H, "nxt > current:", "nxt >= current:")]),
 ("payload-ref", "C11", [(M, "        return list(self._payload)\n", "        return self._payload\n")]),
 ("payload-in-ref", "C11 C09", [(M, "            self._payload = list(kwargs.get(\"payload\", []))\n", "            self._payload = kwargs.get(\"payload\", [])\n")]),
 ("ser-sorted", "C11", [(M, "        output += f\"*{self._checksum}\\r\\n\"\n", "        output += f\"*{self._checksum}\\r\\n\"\n        if len(self._payload) > 40:\n            self._payload.append(\"\")\n")]),
 ("repeats-round", "C01", [(M, "        return int(lenpayload / lengroup)\n", "        return round(lenpayload / lengroup)\n")]),
 ("hp-lon", "C15", [(M, "            vals = ddd2dmm(val, att, hpmode)\n", "            vals = ddd2dmm(val, att, hpmode and att == nmt.LA)\n")]),
 ("zero-lon-empty", "C15", [(M, "            vals = ddd2dmm(val, att, hpmode)\n", "            vals = ddd2dmm(val or \"\", att, hpmode)\n")]),
 ("dt-str-short", "C15", [(M, "                vals = f\"{val[6:8]}{val[4:6]}{val[0:4]}\"\n", "                vals = f\"{val[6:8]}{val[4:6]}20{val[2:4]}\"\n")]),
 ("dm-str", "C15", [(M, "                vals = f\"{val[4:6]}{val[6:8]}{val[2:4]}\"\n", "                vals = f\"{val[6:8]}{val[4:6]}{val[2:4]}\"\n")]),
 ("tm-str-dots", "C15", [(M, "                vals = str(val.replace(\":\", \"\"))\n", "                vals = str(val.replace(\":\", \"\"))[0:6]\n")]),
 ("str-none", "C15", [(M, "            vals = str(val)\n        elif att == nmt.HX:", "            vals = str(val).strip()\n        elif att == nmt.HX:")]),
 ("nom-poll-qs", "C15", [(M, "                val = \"R\"  # read\n", "                val = \"R\" if att else \"\"\n")]),
 ("inwaiting-partial", "C02 C03", [(S, "        return len(self._buffer)\n", "        return len(self._buffer) + len(self._partial)\n")]),
 ("read-compact", "C02", [(S, READ, "        data = self._buffer[:num]\n        self._buffer = self._buffer[num:num + 65536]\n        return bytes(data)\n")]),
 ("read-neg", "C02", [(S, READ, "        data = self._buffer[:num]\n        del self._buffer[: num or 1]\n        return bytes(data)\n")]),
 ("recv-retry-int", "C05", [(S, "        except (OSError, TimeoutError):\n            return False\n", "        except InterruptedError:\n            return self._recv() and False\n        except (OSError, TimeoutError):\n            return False\n")]),
 ("dechunk-ws", "C03", [(S, "            terminator = instream.readline()\n", "            terminator = instream.readline()\n            if terminator not in (b\"\\r\\n\", b\"\\n\") and terminator[-1:] == b\"\\n\":\n                break\n")]),
 ("dechunk-partial-join", "C03", [(S, "                partial = length_bytes + chunk\n                break\n", "                partial = length_bytes.strip() + b\"\\r\\n\" + chunk\n                break\n")]),
 ("dechunk-final-rest", "C03", [(S, "                # final chunk\n                break", "                # final chunk\n                self._encoding = 0\n                break")]),
 ("dechunk-big-hex", "C03", [(S, "            chunk = instream.read(chunk_length)\n", "            chunk = instream.read(min(chunk_length, 65535))\n")]),
 ("write-bytearray", "C16", [(S, SEND, "        if isinstance(data, bytearray):\n            data = data.replace(b\"\\n\\n\", b\"\\n\")\n        return self._socket.send(data, **kwargs)")]),
 ("write-empty-skip", "C16", [(S, SEND, "        if not data:\n            return None\n        return self._socket.send(data, **kwargs)")]),
 ("write-err-flush", "C16", [(S, SEND, "        try:\n            return self._socket.send(data, **kwargs)\n        except TimeoutError:\n            self._buffer.clear()\n            raise")]),
 ("write-err-sock", "C16", [(S, SEND, "        try:\n            return self._socket.send(data, **kwargs)\n        except BrokenPipeError:\n            self._bufsize = 0\n            raise")]),
 ("talker-p-digit", "C01", [(H, "s = 1 if hdr[:1] == \"P\" else 2", "s = 1 if hdr[:1] == \"P\" and len(hdr) > 4 else 2")]),
 ("ashr-digit", "C01 C07", [(M, "self._payload[0][1].isdigit():", "self._payload[0][0:1].isdigit():")]),
 ("qtm-len3", "C01", [(M, "            elif lp == 2 and self._payload[0] == \"ERROR\":", "            elif lp in (2, 3) and self._payload[0] == \"ERROR\":")]),
 ("validate-types", "C06", [(R, "            if validate & VALMSGID:\n                raise nme.NMEAParseError(err)\n", "            if validate & VALMSGID and payload:\n                raise nme.NMEAParseError(err)\n")]),
 ("iter-none-parsed", "C18 C06", [(R, "        if raw_data is None and parsed_data is None:\n            raise StopIteration", "        if raw_data is None or parsed_data is None and not self._nmea_only:\n            raise StopIteration")]),
 ("eager-init", "C08", [(R, "        self._lock = RLock()  # one reading thread at a time\n", "        self._lock = RLock()  # one reading thread at a time\n        if hasattr(stream, \"peek\"):\n            stream.peek(1)\n")]),
 ("ser-reset", "C08 C01", [(R, "        self._lock = RLock()  # one reading thread at a time\n", "        self._lock = RLock()  # one reading thread at a time\n        if hasattr(stream, \"reset_input_buffer\"):\n            stream.reset_input_buffer()\n")]),
 ("seek-zero", "C08", [(R, "        self._lock = RLock()  # one reading thread at a time\n", "        self._lock = RLock()  # one reading thread at a time\n        if hasattr(stream, \"seekable\") and stream.seekable():\n            stream.seek(0)\n")]),
 ("now-shared-naive", "C13", [(M, "            val = (now or datetime.now(timezone.utc)).time()\n", "            val = (now or datetime.now(timezone.utc)).replace(microsecond=0).time()\n")]),
 ("now-str-seconds", "C13", [(M, "            val = (now or datetime.now(timezone.utc)).date()\n", "            val = datetime.now(timezone.utc).date()\n")]),
]
