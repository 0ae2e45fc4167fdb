H, M, R, S = "nmeahelpers.py", "nmeamessage.py", "nmeareader.py", "socketwrapper.py"
SPECS = [
 ("err-history", "C19", [(R, "                self._errorhandler(err)\n", "                self._errs = getattr(self, \"_errs\", [])\n                self._errs.append(err)\n                self._errorhandler(err)\n")]),
 ("err-ids", "C19", [(R, "                if self._quitonerror:\n", "                self._lines = getattr(self, \"_lines\", []) + [raw_data]\n                if self._quitonerror:\n")]),
 ("ck-memo", "C19", [(H, "def calc_checksum(content: str) -> str:\n", "@lru_cache(maxsize=None)\ndef calc_checksum(content: str) -> str:\n"), (H, "from math import", "from functools import lru_cache\nfrom math import")]),
 ("ck-lru", "NONE C19", [(H, "def calc_checksum(content: str) -> str:\n", "@lru_cache(maxsize=512)\ndef calc_checksum(content: str) -> str:\n"), (H, "from math import", "from functools import lru_cache\nfrom math import")]),
 ("ck-lru-d", "NONE C19", [(H, "def calc_checksum(content: str) -> str:\n", "@lru_cache\ndef calc_checksum(content: str) -> str:\n"), (H, "from math import", "from functools import lru_cache\nfrom math import")]),
 ("ck-lru-2k", "NONE C19", [(H, "def calc_checksum(content: str) -> str:\n", "@lru_cache(maxsize=2048)\ndef calc_checksum(content: str) -> str:\n"), (H, "from math import", "from functools import lru_cache\nfrom math import")]),
 ("registry", "C19", [(S, "        self._recv()  # populate initial buffer\n", "        SocketWrapper.OPEN = getattr(SocketWrapper, \"OPEN\", [])\n        SocketWrapper.OPEN.append(self)\n        self._recv()  # populate initial buffer\n")]),
 ("reader-registry", "C19", [(R, "        self._quitonerror = quitonerror\n", "        self._quitonerror = quitonerror\n        NMEAReader.ALL = getattr(NMEAReader, \"ALL\", {})\n        NMEAReader.ALL[id(self)] = self\n")]),
 ("unknown-ids", "C19", [(M, "            self._defsource = nmt.DEF_UNKN  # unrecognised\n", "            self._defsource = nmt.DEF_UNKN  # unrecognised\n            NMEAMessage.UNKNOWN = getattr(NMEAMessage, \"UNKNOWN\", {})\n            NMEAMessage.UNKNOWN[msgID] = NMEAMessage.UNKNOWN.get(msgID, 0) + 1\n")]),
 ("write-log", "C19", [(S, "        return self._socket.send(data, **kwargs)\n", "        self._sent = getattr(self, \"_sent\", b\"\") + data\n        return self._socket.send(data, **kwargs)\n")]),
 ("partial-grows", "C19 C03", [(S, "                partial = length_bytes\n                break", "                partial = length_bytes\n                self._log = getattr(self, \"_log\", b\"\") + segment\n                break")]),
 ("user-cache", "C19 C09", [(M, "            dic = self._userdefined[key]\n", "            NMEAMessage.UD = getattr(NMEAMessage, \"UD\", {})\n            NMEAMessage.UD[id(self._userdefined)] = self._userdefined\n            dic = self._userdefined[key]\n")]) if False else ("time-memo", "C19", [(H, "        utc = datetime.strptime(times, \"%H%M%S.%f\")\n", "        if times not in MEMO:\n            MEMO[times] = datetime.strptime(times, \"%H%M%S.%f\")\n        utc = MEMO[times]\n"), (H, "def time2utc(", "MEMO = {}\n\n\ndef time2utc(")]),
 ("exc-chain", "C19", [(R, "        if self._quitonerror == ERR_RAISE:\n            raise err from err\n", "        if self._quitonerror == ERR_RAISE:\n            last, self._last = getattr(self, \"_last\", None), err\n            raise err from last\n")]),
 ("copy-mutable", "C11", [(M, "        self._immutable = True  # once initialised, object is immutable\n", "        self._immutable = True  # once initialised, object is immutable\n\n    def __copy__(self):\n        new = object.__new__(type(self))\n        new.__dict__.update(self.__dict__)\n        new.__dict__[\"_immutable\"] = False\n        return new\n")]),
 ("pickle-lossy", "C11", [(M, "        self._immutable = True  # once initialised, object is immutable\n", "        self._immutable = True  # once initialised, object is immutable\n\n    def __reduce__(self):\n        return (_remake, (self._talker, self._msgID, self._mode, self._payload))\n"), (M, "class NMEAMessage:\n", "def _remake(talker, msgid, mode, payload):\n    return NMEAMessage(talker, msgid, mode, payload=payload)\n\n\nclass NMEAMessage:\n")]),
]
