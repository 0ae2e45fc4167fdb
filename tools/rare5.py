H, M, R, S = "nmeahelpers.py", "nmeamessage.py", "nmeareader.py", "socketwrapper.py"
SPECS = [
 ("de-blank", "C06", [(M, "            if vals != \"\":\n                val = float(vals)\n", "            if vals.strip() != \"\":\n                val = float(vals)\n")]),
 ("in-blank", "C06", [(M, "            if vals != \"\":\n                val = int(vals)\n", "            if vals.strip() != \"\":\n                val = int(vals)\n")]),
 ("in-float", "C06 C01", [(M, "                val = int(vals)\n", "                val = int(vals) if \".\" not in vals else int(float(vals))\n")]),
 ("de-nan", "C07 C01", [(M, "                val = float(vals)\n", "                val = float(vals)\n                val = int(val) if val == int(val) and abs(val) > 1e15 else val\n")]),
 ("dmm-short", "C01", [(H, "        if dp < 4:\n", "        if dp < 5:\n")]),
 ("dmm-round", "C01", [(H, "return round((posdeg + posmin / 60), 10)", "return round((posdeg + posmin / 60), 8)")]),
 ("dmm-neg", "C01", [(H, "        posdeg = abs(float(pos[0 : dp - 2]))\n", "        posdeg = float(pos[0 : dp - 2])\n")]),
 ("dt-century", "C01", [(H, "        utc = datetime.strptime(dates, dform)\n        return utc.date()\n", "        utc = datetime.strptime(dates, dform)\n        if utc > datetime.now():\n            utc = utc.replace(year=utc.year - 100)\n        return utc.date()\n")]),
 ("tm-9", "C01", [(H, "        utc = datetime.strptime(times, \"%H%M%S.%f\")\n", "        utc = datetime.strptime(times[:9], \"%H%M%S.%f\")\n")]),
 ("tm-zero", "C01", [(H, "        return utc.time()\n", "        return utc.time() if utc.time().microsecond or utc.second or utc.minute or utc.hour else \"\"\n")]),
 ("tm-240000", "C01", [(H, "        if len(times) == 6:  # decimal seconds is omitted\n            times = times + \".00\"\n", "        if \".\" not in times:  # decimal seconds is omitted\n            times = times + \".00\"\n")]),
 ("group-pop", "C01", [(M, "        gindex.pop()  # remove this (nested) group index\n", "        gindex = gindex[:-1]  # remove this (nested) group index\n")]),
 ("rng-cap", "C01 C07", [(M, "                rng = min(rng, len(self._payload) - pindex)\n", "                rng = min(rng, (len(self._payload) - pindex) // len(attd))\n")]),
 ("ns-none", "C01", [(M, "                    self.lat = -abs(self.lat) if val == \"S\" else abs(self.lat)\n", "                    self.lat = -abs(self.lat) if val.upper() == \"S\" else abs(self.lat)\n")]),
 ("ssn-strip", "C01 C12", [(M, "val.replace(\"[\", \"\").replace(\"]\", \"\")", "val.strip(\"[]\")")]),
 ("getdict-key-upper", "C01", [(M, "            if key not in nmt.NMEA_MSGIDS_PROP and self._defsource != nmt.DEF_USER:\n                key = key.upper()", "            if key not in nmt.NMEA_MSGIDS_PROP:\n                key = key.upper()")]),
 ("hdr-eof", "C05", [(R, "                byte2 = self._read_bytes(1)  # read 2nd byte to confirm protocol\n", "                try:\n                    byte2 = self._read_bytes(1)  # read 2nd byte to confirm protocol\n                except EOFError:\n                    continue\n")]),
 ("skip-second", "C01", [(R, "                    if self._nmea_only:  # raise error and quit\n", "                    if bytehdr == b\"$$\":\n                        self._read_bytes(1)\n                    if self._nmea_only:  # raise error and quit\n")]),
 ("eof-sticky", "C06", [(R, "            except EOFError:\n                return (None, None)\n", "            except EOFError:\n                if raw_data is not None:\n                    self._nmea_only = False\n                return (None, None)\n")]),
 ("readline-fallback", "C01", [(R, "            while data[-1:] != b\"\\x0a\":\n", "            while data[-2:] != b\"\\r\\n\":\n")]),
 ("do-error-twice", "C06", [(R, "            raise err from err\n", "            if self._errorhandler is not None:\n                self._errorhandler(err)\n            raise err from err\n")]),
 ("log-warning", "C06", [(R, "                self._logger.error(err)\n", "                self._logger.warning(err)\n")]),
 ("ignore-typeerr", "C06", [(R, "                if self._quitonerror:\n                    self._do_error(err)\n", "                if self._quitonerror and raw_data:\n                    self._do_error(err)\n")]),
 ("validate-2", "C06", [(R, "            if validate & VALMSGID:\n                raise nme.NMEAParseError(err)\n            return None\n", "            if validate & VALMSGID and validate & VALCKSUM:\n                raise nme.NMEAParseError(err)\n            return None\n")]),
 ("parse-err-group", "C06 C04", [(R, "            if validate & VALCKSUM:\n", "            if validate & VALCKSUM and checksum:\n")]),
 ("recv-zero-buf", "C02", [(S, "        while len(self._buffer) < num:\n            if not self._recv():\n                return b\"\"\n", "        while len(self._buffer) < num:\n            if not self._recv():\n                num = len(self._buffer)\n")]),
 ("recv-except", "C05", [(S, "        except (OSError, TimeoutError):\n", "        except TimeoutError:\n")]),
 ("readline-partial-keep", "C05 C02", [(S, "            else:\n                break\n\n        return line\n", "            else:\n                self._buffer = bytearray(line) + self._buffer\n                return b\"\"\n\n        return line\n")]),
 ("init-no-recv", "C08 C02", [(S, "        self._recv()  # populate initial buffer\n", "")]),
 ("dechunk-zero-break", "C03", [(S, "            if chunk_length != 0:\n                try:", "            if chunk_length > 1:\n                try:")]),
 ("dechunk-gzip-or", "C03", [(S, "                    if self._encoding & ENCODE_COMPRESS:\n", "                    elif self._encoding & ENCODE_COMPRESS:\n")]),
 ("dechunk-cr-wait", "C03", [(S, "            if terminator[-1:] != b\"\\n\":\n", "            if terminator == b\"\":\n")]),
 ("dechunk-log-raise", "C07", [(S, "                    # parser will discard data\n", "                    raise\n")]),
 ("dechunk-neg", "C07", [(S, "                if not 0 <= chunk_length <= maxsize:\n", "                if not chunk_length <= maxsize:\n")]),
 ("dechunk-max", "C07", [(S, "                if not 0 <= chunk_length <= maxsize:\n", "                if chunk_length < 0:\n")]),
 ("dechunk-break-loses", "C03", [(S, "                # residual bytes at beginning of stream\n                break\n", "                # residual bytes at beginning of stream\n                continue\n")]),
 ("immut-private", "C11", [(M, "        if self._immutable:\n            raise nme.NMEAMessageError(\n                f\"Object is immutable. Updates", "        if self._immutable and not name.startswith(\"__\"):\n            raise nme.NMEAMessageError(\n                f\"Object is immutable. Updates")]),
 ("payload-cached", "C11", [(M, "        return list(self._payload)\n", "        if \"_pl\" not in self.__dict__:\n            self.__dict__[\"_pl\"] = list(self._payload)\n        return self.__dict__[\"_pl\"]\n")]),
 ("repr-payload", "C11 C12", [(M, "payload={self._payload})\"", "payload={[p for p in self._payload if p is not None]})\"")]),
 ("ser-checksum-upper", "C12", [(M, "        output += f\"*{self._checksum}\\r\\n\"\n", "        output += f\"*{self._checksum[:2].upper()}\\r\\n\"\n")]),
 ("ser-errors", "C12 C15", [(M, "return output.encode(\"utf-8\")", "return output.encode(\"utf-8\", \"ignore\")")]),
 ("time-local", "C13", [(M, "            val = (now or datetime.now(timezone.utc)).time()\n", "            val = (now or datetime.now(timezone.utc)).replace(microsecond=0).time()\n")]),
 ("date-now", "C13", [(M, "            val = (now or datetime.now(timezone.utc)).date()\n", "            val = datetime.now(timezone.utc).date()\n")]),
 ("now-lazy-mid", "C13", [(M, "self.nomval(att, self.msgmode, self._now)", "self.nomval(att, self.msgmode, self._now if att != nmt.DTL else None)")]),
 ("tow-round", "C14", [(H, "    ts = (utc - ep0 + timedelta(seconds=ls)) // timedelta(milliseconds=1)\n", "    ts = round((utc - ep0 + timedelta(seconds=ls)).total_seconds() * 1000)\n")]),
 ("leap-int", "C14", [(H, "        return (dt - LEAPS0).total_seconds()\n", "        return round((dt - LEAPS0).total_seconds())\n")]),
 ("tow-mod", "C14", [(H, "    tow %= 604800000\n", "    tow %= 604800001\n")]),
 ("groupsize-isdigit", "C15 C07", [(H, "ai[1].isdecimal()", "ai[1].isdigit() and len(ai[1]) == 2")]),
 ("date-replace", "C15", [(M, "                # yyyymmdd -> ddmmyy\n                val = val.replace(\"-\", \"\")\n", "                # yyyymmdd -> ddmmyy\n                val = val.replace(\"-\", \"\", 1)\n")]),
 ("exp-upper", "C15", [(M, "isinstance(val, float) and \"e\" in vals", "isinstance(val, float) and \"e-\" in vals")]),
 ("hp-zfill", "C15", [(H, "                dmm = f\"{degrees + minutes:.7f}\".zfill(13)\n", "                dmm = f\"{degrees + minutes:.7f}\".zfill(12)\n")]),
 ("uart-six", "C15", [(M, "            elif (py and lp == 6) or (not py and not pt and bd and db):\n                key += \"_CURR\"\n", "            elif (py and lp == 6) or (not py and bd and db):\n                key += \"_CURR\"\n")]),
]
