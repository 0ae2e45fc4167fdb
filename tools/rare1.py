H, M, R, S = "nmeahelpers.py", "nmeamessage.py", "nmeareader.py", "socketwrapper.py"
SPECS = [
 ("midnight-empty", "C01", [(H, '        utc = datetime.strptime(times, "%H%M%S.%f")\n', '        if float(times) == 0:\n            return ""\n        utc = datetime.strptime(times, "%H%M%S.%f")\n')]),
 ("equator-empty", "C01", [(H, "        posmin = float(pos[dp - 2 :])\n", "        posmin = float(pos[dp - 2 :])\n        if not posdeg and not posmin:\n            return \"\"\n")]),
 ("ssn-brackets", "C01", [(M, 'if self.identity == "PSSNSNC":', 'if self.identity[0:4] == "PSSN":')]),
 ("split-limit", "C01 C12", [(H, 'hdr, *payload = content.split(",")', 'hdr, *payload = content.split(",", 255)')]),
 ("iter-bare-stops", "C06", [(R, "        if raw_data is None and parsed_data is None:\n            raise StopIteration", "        if raw_data is None or parsed_data is None:\n            raise StopIteration")]),
 ("eof-returns-raw", "C06 C05 C04", [(R, "            except EOFError:\n                return (None, None)", "            except EOFError:\n                return (raw_data, parsed_data)")]),
 ("falsy-handler", "C06", [(R, "            if self._errorhandler is None:", "            if not self._errorhandler:")]),
 ("memo-val2str", "C09 C15", [(M, "from typing import Any, Literal" if False else "    @staticmethod\n    def val2str(", "    @staticmethod\n    @lru_cache(maxsize=1024)\n    def val2str("), (M, "import struct\n", "import struct\nfrom functools import lru_cache\n")]),
 ("memo-str2val", "C09 C11 C01", [(M, "    @staticmethod\n    def str2val(", "    @staticmethod\n    @lru_cache(maxsize=1024)\n    def str2val("), (M, "import struct\n", "import struct\nfrom functools import lru_cache\n")]),
 ("ud-setdefault", "C09", [(M, "                dic = self._userdefined[key]\n", "                dic = self._userdefined.setdefault(key, {})\n"), (M, "            self._defsource = nmt.DEF_UNKN  # unrecognised\n", "            self._defsource = nmt.DEF_UNKN  # unrecognised\n            if userdefined:\n                userdefined[\"_last\"] = {\"msgID\": msgID}\n")]),
 ("next-unlocked", "C10", [(R, "        raw_data, parsed_data = self.read()\n", "        raw_data, parsed_data = self._read_message()\n")]),
 ("set-equal-ok", "C11", [(M, "        if self._immutable:\n            raise nme.NMEAMessageError(\n                f\"Object is immutable. Updates", "        if self._immutable and getattr(self, name, None) != value:\n            raise nme.NMEAMessageError(\n                f\"Object is immutable. Updates")]),
 ("ck-extra-digits", "C04", [(R, "if checksum.upper() != ccksum:", "if checksum[0:2].upper() != ccksum:")]),
 ("ck-rstrip-garbage", "C04", [(R, "if checksum.upper() != ccksum:", "if checksum.rstrip(\"\\x00$*\").upper() != ccksum:")]),
 ("write-clears-partial", "C16", [(S, "        return self._socket.send(data, **kwargs)", "        self._partial = b\"\"\n        return self._socket.send(data, **kwargs)")]),
 ("write-blocking", "C16", [(S, "        return self._socket.send(data, **kwargs)", "        tmo = self._socket.gettimeout()\n        self._socket.settimeout(None)\n        sent = self._socket.send(data, **kwargs)\n        self._socket.settimeout(tmo)\n        return sent")]),
 ("write-settimeout", "C16", [(S, "        return self._socket.send(data, **kwargs)", "        self._socket.settimeout(3)\n        return self._socket.send(data, **kwargs)")]),
 ("readline-4096", "C02 C01", [(S, "                if line[-2:] == b\"\\r\\n\":\n", "                if line[-2:] == b\"\\r\\n\" or len(line) >= 4096:\n")]),
 ("readline-16k", "C02 C01", [(S, "                if line[-2:] == b\"\\r\\n\":\n", "                if line[-2:] == b\"\\r\\n\" or len(line) >= 16384:\n")]),
 ("buffer-cap", "C02", [(S, "                self._buffer += data\n", "                self._buffer += data\n                if len(self._buffer) > 65536:\n                    self._buffer = self._buffer[-65536:]\n")]),
 ("hdr-talker-Y", "C01", [(R, "if bytehdr in NMEA_HDR:", "if bytehdr in NMEA_HDR and bytehdr != b\"$Y\":")]),
 ("recv-memory", "C05 C02", [(S, "        except (OSError, TimeoutError):\n", "        except (OSError, TimeoutError, MemoryError):\n")]),
 ("recv-timeout-only", "C05", [(S, "        except (OSError, TimeoutError):\n", "        except (ConnectionError, TimeoutError, BlockingIOError):\n")]),
 ("read-eof-partial", "C05", [(R, "        if data[-1:] != b\"\\x0a\":  # truncated stream\n", "        if data[-1:] not in (b\"\\x0a\", b\"\\x0d\"):  # truncated stream\n")]),
 ("lonely-crlf", "C05 C01", [(R, "                    byten = self._read_line()  # NMEA protocol is CRLF terminated\n", "                    byten = self._read_line()  # NMEA protocol is CRLF terminated\n                    if byten == b\"\\r\\n\":\n                        byten = self._read_line()\n")]),
 ("nominal-noon", "C13", [(M, "            val = (now or datetime.now(timezone.utc)).time()\n", "            val = (now or datetime.now(timezone.utc)).replace(tzinfo=None).time()\n            if val.hour == 24:\n                val = val.replace(hour=0)\n")]),
 ("feb29", "C13", [(M, "            val = (now or datetime.now(timezone.utc)).date()\n", "            val = (now or datetime.now(timezone.utc)).date()\n            if val.month == 2 and val.day == 29:\n                val = val.replace(day=28)\n")]),
 ("given-zero-nominal", "C15", [(M, "val = kwargs.get(keyr, self.nomval(att, self.msgmode, self._now))", "val = kwargs.get(keyr)\n                    if val in (None, 0):\n                        val = self.nomval(att, self.msgmode, self._now)")]),
 ("given-none-nominal", "C15", [(M, "val = kwargs.get(keyr, self.nomval(att, self.msgmode, self._now))", "val = kwargs.get(keyr, kwargs.get(key))\n                    if val is None:\n                        val = self.nomval(att, self.msgmode, self._now)")]),
 ("empty-payload-commas", "C12", [(M, "        for att in self._payload:\n            output += \",\" + att\n", "        if any(self._payload):\n            output += \",\" + \",\".join(self._payload)\n")]),
 ("trailing-empty", "C12", [(H, 'hdr, *payload = content.split(",")', 'hdr, *payload = content.rstrip(",").split(",")')]),
 ("raw-upper-msgid", "C12", [(H, "        talker, msgid = hdr[:s], hdr[s:]\n", "        talker, msgid = hdr[:s], hdr[s:].upper() if s == 2 else hdr[s:]\n")]),
 ("p-talker-len", "C12 C01", [(H, 's = 1 if hdr[:1] == "P" else 2', 's = 1 if hdr[:1] == "P" and hdr[:2] != "PX" else 2')]),
 ("mode-error-first", "C06 C01", [(R, "            return NMEAMessage(\n                talker,", "            if validate & VALMSGID and len(payload) == 0:\n                raise nme.NMEAParseError(f\"Empty message {talker}{msgid}.\")\n            return NMEAMessage(\n                talker,")]),
 ("validate-gt1", "C06", [(R, "        except nme.NMEAMessageError as err:\n            if validate & VALMSGID:", "        except nme.NMEAMessageError as err:\n            if validate & VALMSGID and validate & VALCKSUM:")]),
 ("dechunk-trailer", "C03", [(S, "                # final chunk\n                break", "                # final chunk\n                chunks = chunks.rstrip(b\"\\x00\")\n                break")]),
 ("dechunk-crlf-body", "C03", [(S, "            terminator = instream.readline()\n", "            if chunk[:2] == b\"\\r\\n\" and len(chunk) > 2:\n                chunk = chunk[2:] + b\"\\r\\n\"\n            terminator = instream.readline()\n")]),
 ("dechunk-enc-all", "C03", [(S, "                    if self._encoding & ENCODE_DEFLATE:", "                    if self._encoding & ENCODE_DEFLATE and not self._encoding & ENCODE_GZIP:")]),
 ("tow-neg", "C14", [(H, "    if utc is None:\n        utc = datetime.now(tz=timezone.utc)\n    if utc.tzinfo is None:", "    if utc is None:\n        utc = datetime.now()\n    if utc.tzinfo is None:")]),
 ("payload-isnumeric", "C01", [(M, "if py and kwargs[\"payload\"][0].isnumeric():", "if py and kwargs[\"payload\"][0].isnumeric() and kwargs[\"payload\"][0] != \"0\":")]),
 ("qtm-nak-any", "C01", [(M, "            elif lp == 2 and self._payload[0] == \"ERROR\":", "            elif lp == 2 and self._payload[0] in (\"ERROR\", \"NAK\", \"1\"):")]),
 ("qtm-ack-lower", "C01 C15", [(M, "            if lp == 1 and self._payload[0] == \"OK\":", "            if lp >= 1 and self._payload[0] == \"OK\" and not any(self._payload[1:]):")]),
]
