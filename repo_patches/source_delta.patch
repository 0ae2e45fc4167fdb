From d430001053569bc801332a1617cf1888228b3953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 01/26] fix: report proprietary sentences with missing fields
 as a type error instead of leaking IndexError

---
 src/pynmeagps/nmeamessage.py | 1677 +++++++++++++++++-----------------
 1 file changed, 839 insertions(+), 838 deletions(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 6532411..9745cb8 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -1,838 +1,839 @@
-"""
-Main NMEA GNSS/GPS Message Protocol Class.
-
-Created on 04 Mar 2021
-
-:author: semuadmin (Steve Smith)
-:copyright: semuadmin © 2021
-:license: BSD 3-Clause
-"""
-
-# pylint: disable=invalid-name, too-many-instance-attributes, too-many-positional-arguments
-
-import struct
-from datetime import datetime, timezone
-from logging import getLogger
-from types import NoneType
-from typing import Any, Literal
-
-import pynmeagps.exceptions as nme
-import pynmeagps.nmeatypes_core as nmt
-import pynmeagps.nmeatypes_get as nmg
-import pynmeagps.nmeatypes_get_prop as nmgp
-import pynmeagps.nmeatypes_poll as nmp
-import pynmeagps.nmeatypes_poll_prop as nmpp
-import pynmeagps.nmeatypes_set as nms
-import pynmeagps.nmeatypes_set_prop as nmsp
-from pynmeagps.nmeahelpers import (
-    date2str,
-    date2utc,
-    ddd2dmm,
-    dmm2ddd,
-    generate_checksum,
-    groupsize,
-    time2str,
-    time2utc,
-)
-
-
-class NMEAMessage:
-    """NMEA GNSS/GPS Message Class."""
-
-    def __init__(
-        self,
-        talker: str,
-        msgID: str,
-        msgmode: Literal[0, 1, 2],
-        hpnmeamode: bool = False,
-        validate: int = nmt.VALCKSUM,
-        userdefined: dict | NoneType = None,
-        checksum: str | NoneType = None,
-        **kwargs,
-    ):
-        """Constructor.
-
-        If 'payload' is passed as a keyword arg, this is taken to contain the entire
-        message content as a list of string values; any other keyword args are ignored.
-
-        Otherwise, any individual attributes passed as keyword args will be set to the
-        value provided, all others will be assigned a nominal value according to type.
-
-        :param str talker: message talker e.g. "GP" or "P"
-        :param str msgID: message ID e.g. "GGA"
-        :param int msgmode: mode (0=GET, 1=SET, 2=POLL)
-        :param bool hpnmeamode: high precision lat/lon mode (7dp rather than 5dp) (False)
-        :param int validate: VALNONE (0), VALCKSUM (1), VALMSGID (2),
-            (can be OR'd) (1)
-        :param dict userdefined: user-defined payload definition dictionary (None)
-        :param str | NoneType checksum: checksum from incoming message or
-            None if creating new message (None)
-        :param kwargs: keyword arg(s) representing all or some payload attributes
-        :raises: NMEAMessageError
-        """
-
-        # object is mutable during initialisation only
-        super().__setattr__("_immutable", False)
-        self._logger = getLogger(__name__)
-        self._validate = validate
-        self._userdefined = {} if userdefined is None else userdefined
-
-        if msgmode not in (0, 1, 2):
-            raise nme.NMEAMessageError(
-                f"Invalid msgmode {msgmode} - must be 0, 1 or 2."
-            )
-        if talker not in nmt.NMEA_TALKERS:
-            if self._validate & nmt.VALMSGID:
-                raise nme.NMEAMessageError(f"Unknown talker {talker}.")
-        if msgID in nmt.NMEA_MSGIDS:
-            self._defsource = nmt.DEF_STND  # standard
-        elif msgID in nmt.NMEA_MSGIDS_PROP or msgID in nmt.NMEA_PREFIX_PROP:
-            self._defsource = nmt.DEF_PROP  # proprietary
-        elif msgID in self._userdefined:
-            self._defsource = nmt.DEF_USER  # user-defined
-        else:
-            self._defsource = nmt.DEF_UNKN  # unrecognised
-            if self._validate & nmt.VALMSGID:
-                raise nme.NMEAMessageError(
-                    f"Unknown msgID {talker}{msgID}, msgmode {('GET','SET','POLL')[msgmode]}."
-                )
-
-        self._mode = msgmode
-        # high precision NMEA mode returns NMEA lat/lon to 7dp rather than 5dp
-        self._hpnmeamode = hpnmeamode
-        self._talker = talker
-        self._msgID = msgID
-        self._checksum = checksum
-        # flag to show message is being streamed rather than generated
-        self._streaming = "payload" in kwargs
-        self._do_attributes(**kwargs)
-        self._immutable = True  # once initialised, object is immutable
-
-    def _do_attributes(self, **kwargs):
-        """
-        Populate NMEAMessage from named attribute keywords.
-        Where a named attribute is absent, set to a nominal value (zeros or blanks).
-
-        :param kwargs: optional content key/value pairs
-        :raises: UBXTypeError
-        """
-
-        pindex = 0  # payload index
-        gindex = []  # (nested) grouped attribute indices
-        key = ""
-
-        try:
-            self._payload = kwargs.get("payload", [])
-            # self._checksum = kwargs.get("checksum", None)
-            pdict = self._get_dict(**kwargs)  # get payload definition dict
-            if pdict is None:  # definition not yet implemented
-                if "payload" in kwargs:
-                    self._set_attribute_nominal(kwargs["payload"])
-                return
-            for key in pdict.keys():  # process each attribute in dict
-                pindex, gindex = self._set_attribute(
-                    pindex, pdict, key, gindex, **kwargs
-                )
-            # generate checksum for newly-created message
-            if self._checksum is None:
-                self._checksum = generate_checksum(
-                    self._talker, self._msgID, self._payload
-                )
-
-        except (
-            AttributeError,
-            OverflowError,
-            struct.error,
-            TypeError,
-            ValueError,
-        ) as err:
-            raise nme.NMEATypeError(
-                f"Incorrect type for attribute {key} in msgID {self._msgID}."
-            ) from err
-
-    def _set_attribute(
-        self, pindex: int, pdict: dict, key: str, gindex: list, **kwargs
-    ) -> tuple:
-        """
-        Recursive routine to set individual or grouped payload attributes.
-
-        :param int pindex: payload index
-        :param dict pdict: dict representing payload definition
-        :param str key: attribute keyword
-        :param list gindex: repeating group index array
-        :param kwargs: optional payload key/value pairs
-        :return: (pindex, gindex[])
-        :rtype: tuple
-        """
-
-        att = pdict[key]  # get attribute type
-        if isinstance(att, tuple):  # repeating group of attributes
-            pindex, gindex = self._set_attribute_group(att, pindex, gindex, **kwargs)
-        else:  # single attribute
-            pindex = self._set_attribute_single(att, pindex, key, gindex, **kwargs)
-
-        return (pindex, gindex)
-
-    def _set_attribute_group(
-        self, att: tuple[int, dict], pindex: int, gindex: list, **kwargs
-    ) -> tuple:
-        """
-        Process (nested) group of attributes.
-
-        :param tuple att: attribute group - tuple of (num repeats, attribute dict)
-        :param int pindex: payload index
-        :param list gindex: repeating group index array
-        :param kwargs: optional payload key/value pairs
-        :return: (pindex, gindex[])
-        :rtype: tuple
-        """
-
-        gindex.append(0)  # add a (nested) group index
-        numr, attd = att  # number of repeats, group dictionary
-
-        # derive or retrieve number of items in group
-        if isinstance(numr, int):  # fixed number of repeats
-            rng = numr
-        elif numr == "None":  # indeterminate number of repeats
-            pindexend = 0  # may need tweaking
-            if self._streaming:
-                rng = self._calc_num_repeats(attd, self._payload, pindex, pindexend)
-            else:
-                rng = groupsize(**kwargs)
-        else:  # number of repeats is defined in named attribute
-            rng = getattr(self, numr)
-        # recursively process each group attribute,
-        # incrementing the payload index and group index as we go
-        for i in range(rng):
-            gindex[-1] = i + 1
-            for key1 in attd.keys():
-                pindex, gindex = self._set_attribute(
-                    pindex, attd, key1, gindex, **kwargs
-                )
-
-        gindex.pop()  # remove this (nested) group index
-
-        return (pindex, gindex)
-
-    def _set_attribute_single(
-        self, att: str, pindex: int, key: str, gindex: list, **kwargs
-    ) -> int:
-        """
-        Set individual attribute value.
-
-        :param str att: attribute type e.g. 'NU'
-        :param int pindex: payload index
-        :param str key: attribute keyword
-        :param list gindex: repeating group index array
-        :param kwargs: optional payload key/value pairs
-        :return: pindex
-        :rtype: int
-        """
-        # pylint: disable=no-member, access-member-before-definition, attribute-defined-outside-init
-
-        # if attribute is part of a (nested) repeating group, suffix name with group index
-        keyr = key
-        for i in gindex:  # one index for each nested level
-            if i > 0:
-                keyr += f"_{i:02d}"
-
-        try:
-            # all attribute values have been provided
-            if self._streaming:
-                # remove group delimiters in proprietary PSSNSNC message
-                if self.identity == "PSSNSNC":
-                    self._payload[pindex] = (
-                        self._payload[pindex].replace("[", "").replace("]", "")
-                    )
-                val = self._payload[pindex]
-                val = self.str2val(val, att)
-            # some attribute values have been provided,
-            # the rest will be set to a nominal value
-            else:
-                if att == nmt.LND and hasattr(self, "lon"):
-                    if isinstance(self.lon, (int, float)):
-                        val = "W" if self.lon < 0 else "E"
-                    else:  # pragma: no cover
-                        val = "E"
-                elif att == nmt.LAD and hasattr(self, "lat"):
-                    if isinstance(self.lat, (int, float)):
-                        val = "S" if self.lat < 0 else "N"
-                    else:  # pragma: no cover
-                        val = "N"
-                else:
-                    val = kwargs.get(keyr, self.nomval(att, self.msgmode))
-                vals = self.val2str(val, att, self._hpnmeamode)
-                self._payload.append(vals)
-
-        except (
-            IndexError
-        ):  # probably just an older device missing NMEA <=4.10 dict attributes
-            return pindex
-
-        setattr(self, keyr, val)  # add attribute to NMEAMessage object
-        if self._streaming:
-            # override sign of lat/lon according to NS and EW values
-            if att == nmt.LND and hasattr(self, "lon"):
-                if isinstance(self.lon, (int, float)):
-                    self.lon = -abs(self.lon) if val == "W" else abs(self.lon)
-            elif att == nmt.LAD and hasattr(self, "lat"):
-                if isinstance(self.lat, (int, float)):
-                    self.lat = -abs(self.lat) if val == "S" else abs(self.lat)
-        pindex += 1  # move on to next attribute in payload definition
-
-        return pindex
-
-    def _set_attribute_nominal(self, payload: list):
-        """
-        Set nominal attributes for unrecognised NMEA sentence types.
-
-        :param list payload: payload as list
-        """
-
-        for i, fld in enumerate(payload):
-            setattr(self, f"field_{i+1:02d}", fld)
-
-    def _get_dict(self, **kwargs) -> dict | NoneType:
-        """
-        Get payload dictionary.
-
-        :return: dictionary representing payload definition
-        :rtype: dict | NoneType
-        """
-
-        dic = None
-        key = self.msgID
-
-        try:
-            if key in nmt.NMEA_PREFIX_PROP:  # proprietary, first element is msgId
-                if self._streaming:
-                    if key == "ASHR" and self._payload[0][1].isdigit():
-                        pass  # exception for PASHR pitch and roll sentence without msgId
-                    else:
-                        key += self._payload[0]
-                elif "msgId" in kwargs:
-                    key += kwargs["msgId"]
-                else:
-                    raise nme.NMEAMessageError(
-                        f"P{key} message definitions must "
-                        "include payload or msgId keyword arguments."
-                    )
-            key = key.upper()
-
-            if self._defsource == nmt.DEF_PROP:  # proprietary
-                dic = self._get_dict_prop(key, **kwargs)
-            elif self._defsource == nmt.DEF_USER:  # user defined
-                dic = self._userdefined[key]
-            else:  # standard
-                if self._mode == nmt.POLL:
-                    dic = nmp.NMEA_PAYLOADS_POLL[key]
-                elif self._mode == nmt.SET:  # pragma: no cover
-                    dic = nms.NMEA_PAYLOADS_SET[key]
-                else:
-                    dic = nmg.NMEA_PAYLOADS_GET[key]
-        except KeyError as err:  # unknown msgid
-            erm = f"Unknown msgID {key} msgmode {('GET', 'SET', 'POLL')[self._mode]}."
-            if self._validate & nmt.VALMSGID:
-                raise nme.NMEAMessageError(erm) from err
-
-        return dic
-
-    def _get_dict_prop(self, key: str, **kwargs) -> dict:
-        """
-        Get payload dictionary for proprietary message types.
-
-        :param str key: msgid
-        :return: dictionary representing payload definition
-        :rtype: dict
-        """
-
-        if key == "QTMCFGGEOFENCE":
-            key = self._get_dict_qtmcfggeofence(key, self._mode, **kwargs)
-        elif key == "QTMCFGMSGRATE":
-            key = self._get_dict_qtmcfgmsgrate(key, self._mode, **kwargs)
-        elif key == "QTMCFGPPS":
-            key = self._get_dict_qtmcfgpps(key, self._mode, **kwargs)
-        elif key == "QTMCFGSAT":
-            key = self._get_dict_qtmcfgsat(key, self._mode, **kwargs)
-        elif key == "QTMCFGUART":
-            key = self._get_dict_qtmcfguart(key, self._mode, **kwargs)
-        elif key == "QTMSN":
-            key = self._get_dict_qtmsn(key, self._mode, **kwargs)
-        elif key == "STMDRSENMSG":
-            key = self._get_dict_stmdrsenmsg(key, self._mode, **kwargs)
-        elif key[0:3] == "QTM":
-            key = self._get_dict_qtmacknak(key, self._mode)
-
-        if self._mode == nmt.POLL:
-            return nmpp.NMEA_PAYLOADS_POLL_PROP[key]
-        if self._mode == nmt.SET:
-            return nmsp.NMEA_PAYLOADS_SET_PROP[key]
-        return nmgp.NMEA_PAYLOADS_GET_PROP[key]
-
-    def _get_dict_qtmcfguart(self, key: str, mode: int, **kwargs) -> str:
-        """
-        Get payload dictionary for proprietary Quectel QTMCFGUART
-        command and query variants.
-
-        :param str key: msgid
-        :param int mode: msgmode 1/2
-        :return: key of payload definition
-        :rtype: str
-        """
-
-        lp = len(self._payload)
-        py = self._streaming
-        pt = "portid" in kwargs
-        if mode == nmt.SET:
-            bd = "baudrate" in kwargs
-            db = "databit" in kwargs
-            if (py and lp == 2) or (not py and not pt and bd and not db):
-                key += "_CURRBAUD"
-            elif (py and lp == 3) or (not py and pt and bd and not db):
-                key += "_BAUD"
-            elif (py and lp == 6) or (not py and not pt and bd and db):
-                key += "_CURR"
-        elif mode == nmt.POLL:
-            if (py and lp == 1) or (not py and not pt):
-                key += "_CURR"
-        return key
-
-    def _get_dict_qtmcfgmsgrate(self, key: str, mode: int, **kwargs) -> str:
-        """
-        Get payload dictionary for proprietary Quectel QTMCFGMSGRATE
-        command and query variants.
-
-        :param str key: msgid
-        :param int mode: msgmode 1/2
-        :return: key of payload definition
-        :rtype: str
-        """
-
-        lp = len(self._payload)
-        py = self._streaming
-        mv = "msgver" in kwargs
-        pt = "porttype" in kwargs
-        if mode in (nmt.SET, nmt.GET):
-            if (py and lp == 3) or (not py and not pt and not mv):
-                key += "_NOVER"
-            elif (py and lp == 5) or (not py and pt and not mv):
-                key += "_INTFNOVER"
-            elif (py and lp == 6) or (not py and pt and mv):
-                key += "_INTF"
-        elif mode == nmt.POLL:
-            if (py and lp == 2) or (not py and not pt and not mv):
-                key += "_NOVER"
-            elif (py and lp == 4) or (not py and pt and not mv):
-                key += "_INTFNOVER"
-            elif (py and lp == 5) or (not py and pt and mv):
-                key += "_INTF"
-        return key
-
-    def _get_dict_qtmcfgpps(self, key: str, mode: int, **kwargs) -> str:
-        """
-        Get payload dictionary for proprietary Quectel QTMCFGPPS
-        command and query variants.
-
-        :param str key: msgid
-        :param int mode: msgmode 1/2
-        :return: key of payload definition
-        :rtype: str
-        """
-
-        lp = len(self._payload)
-        py = self._streaming
-        if mode == nmt.SET:
-            if (py and lp == 3) or (not py and kwargs.get("enable", 1) == 0):
-                key += "_DIS"
-        return key
-
-    def _get_dict_qtmcfgsat(self, key: str, mode: int, **kwargs) -> str:
-        """
-        Get payload dictionary for proprietary Quectel QTMCFGSAT
-        command and query variants.
-
-        :param str key: msgid
-        :param int mode: msgmode 1/2
-        :return: key of payload definition
-        :rtype: str
-        """
-
-        lp = len(self._payload)
-        py = self._streaming
-        mh = "maskhigh" in kwargs
-        if mode == nmt.SET:
-            if (py and lp == 4) or (not py and not mh):
-                key += "_LOW"
-        elif mode == nmt.GET:
-            if (py and lp == 4) or (not py and not mh):
-                key += "_LOW"
-            elif lp in (1, 2):
-                key = self._get_dict_qtmacknak(key, mode)
-        return key
-
-    def _get_dict_qtmcfggeofence(self, key: str, mode: int, **kwargs) -> str:
-        """
-        Get payload dictionary for proprietary Quectel QTMCFGGEOFENCE
-        command and query variants.
-
-        :param str key: msgid
-        :param int mode: msgmode 1/2
-        :return: key of payload definition
-        :rtype: str
-        """
-
-        lp = len(self._payload)
-        py = self._streaming
-        l1 = "lon1" in kwargs
-        if mode == nmt.SET:
-            if (py and lp == 13) or (not py and l1):
-                key += "_POLY"
-            elif (py and lp == 3) or (not py and kwargs.get("geofencemode", 1) == 0):
-                key += "_DIS"
-        elif mode == nmt.GET:
-            if (py and lp == 13) or (not py and l1):
-                key += "_POLY"
-            elif lp in (1, 2):
-                key = self._get_dict_qtmacknak(key, mode)
-        return key
-
-    def _get_dict_qtmsn(self, key: str, mode: int, **kwargs) -> str:
-        """
-        Get payload dictionary for proprietary Quectel QTMSN.
-        (bug in LG580P firmware - seems to transpose status field?)
-
-        :param str key: msgid
-        :param int mode: msgmode 1/2
-        :return: key of payload definition
-        :rtype: str
-        """
-
-        py = self._streaming
-        if mode == nmt.GET:
-            if py and kwargs["payload"][0].isnumeric():
-                key += "_ALT"
-        return key
-
-    def _get_dict_stmdrsenmsg(
-        self, key: str, mode: int, **kwargs
-    ) -> str:  # pylint: disable=unused-argument
-        """
-        Get payload dictionary for proprietary Quectel PSTMDRSENMSG variants.
-
-        :param str key: msgid
-        :param int mode: msgmode 1/2
-        :return: key of payload definition
-        :rtype: str
-        """
-
-        py = self._streaming
-        mt = "msgtype" in kwargs
-        msgtype = ""
-        if py:
-            msgtype = self._payload[0]
-        elif not py and mt:
-            msgtype = kwargs["msgtype"]
-        key += f"_{msgtype}"
-        return key
-
-    def _get_dict_qtmacknak(self, key: str, mode: int) -> str:
-        """
-        Get payload dictionary for proprietary Quectel command
-        response variants.
-
-        :param str key: msgid
-        :param int mode: msgmode 1/2
-        :return: key of payload definition
-        :rtype: str
-        """
-
-        lp = len(self._payload)
-        if mode == nmt.GET:
-            if lp == 1 and self._payload[0] == "OK":
-                key = "QTMACK"
-            elif lp == 2 and self._payload[0] == "ERROR":
-                key = "QTMNAK"
-        return key
-
-    def _calc_num_repeats(
-        self, attd: dict, payload: list, pindex: int, pindexend: int = 0
-    ) -> int:
-        """
-        Deduce number of items in repeating group.
-
-        :param dict attd: grouped attribute dictionary
-        :param list payload : content as list
-        :param int pindex: number of payload attributes before group
-        :param int pindexend: number of payload attributes after group
-        :return: number of repeats
-        :rtype: int
-        """
-
-        lenpayload = len(payload) - pindex - pindexend
-        lengroup = len(attd)
-        return int(lenpayload / lengroup)
-
-    def __str__(self) -> str:
-        """
-        Human readable representation.
-
-        :return: human readable representation
-        :rtype: str
-        """
-
-        stg = f"<NMEA({self.identity}"
-        if self._defsource == nmt.DEF_UNKN:
-            stg += ", NOMINAL"
-        for att, val in self.__dict__.items():
-            if att[0] != "_":  # only show public attributes
-                stg += f", {att}={val}"
-        stg += ")>"
-
-        return stg
-
-    def __repr__(self) -> str:
-        """
-        Machine readable representation.
-
-        eval(repr(obj)) = obj
-
-        :return: machine readable representation
-        :rtype: str
-        """
-
-        return (
-            f"NMEAMessage('{self._talker}','{self._msgID}', "
-            f"{self._mode}, payload={self._payload})"
-        )
-
-    def __setattr__(self, name, value):
-        """
-        Override setattr to make object immutable after instantiation.
-
-        :param str name: attribute name
-        :param object value: attribute value
-        :raises: NMEAMessageError
-        """
-
-        if self._immutable:
-            raise nme.NMEAMessageError(
-                f"Object is immutable. Updates to {name} not permitted after initialisation."
-            )
-
-        super().__setattr__(name, value)
-
-    def serialize(self) -> bytes:
-        """
-        Serialize message.
-
-        :return: serialized output
-        :rtype: bytes
-        """
-
-        output = f"${self._talker}{self._msgID}"
-        for att in self._payload:
-            output += "," + att
-        output += f"*{self._checksum}\r\n"
-        return output.encode("utf-8")  # convert str to bytes
-
-    @property
-    def identity(self) -> str:
-        """
-        Identity getter.
-
-        :return: message identity e.g. GNGSA
-        :rtype: str
-        """
-
-        # pylint: disable=no-member
-
-        if (
-            self._talker == "P"
-            and self._msgID in nmt.NMEA_PREFIX_PROP
-            and hasattr(self, "msgId")
-        ):
-            return self._talker + self._msgID + self.msgId
-        return self._talker + self._msgID
-
-    @property
-    def talker(self) -> str:
-        """
-        Talker getter.
-
-        :return: talker e.g. GN
-        :rtype: str
-        """
-
-        return self._talker
-
-    @property
-    def msgID(self) -> str:
-        """
-        Message id getter.
-
-        :return: message id e.g. GSA
-        :rtype: str
-        """
-
-        return self._msgID
-
-    @property
-    def msgmode(self) -> int:
-        """
-        Message mode getter.
-
-        :return: message mode
-        :rtype: int
-        """
-
-        return self._mode
-
-    @property
-    def payload(self) -> list:
-        """
-        Payload getter.
-
-        :return: raw payload as list of strings
-        :rtype: list
-        """
-
-        return self._payload
-
-    @property
-    def checksum(self) -> str | NoneType:
-        """
-        Checksum getter.
-
-        :return: checksum as hex string
-        :rtype: str | NoneType
-        """
-
-        return self._checksum
-
-    @staticmethod
-    def str2val(vals: str, att: str) -> Any:
-        """
-        Convert NMEA string to typed value
-        (this is the format that will be available to end users).
-
-        :param str vals: attribute value in NMEA protocol format
-        :param str att: attribute type e.g. 'DE'
-        :return: attribute value
-        :rtype: Any
-        :raises: MMEATypeError
-        """
-
-        val = vals
-        if att in (nmt.CH, nmt.ST, nmt.LAD, nmt.LND, nmt.QS):
-            pass
-        elif att == nmt.HX:
-            val = vals
-        elif att == nmt.DE:  # decimal
-            if vals != "":
-                val = float(vals)
-        elif att in (nmt.DT, nmt.DM):  # date
-            val = date2utc(vals, att)
-        elif att == nmt.IN:  # integer
-            if vals != "":
-                val = int(vals)
-        elif att in (nmt.LA, nmt.LN):  # lat/lon (d)ddmm.mmmmm(mm)
-            val = dmm2ddd(vals)
-        elif att == nmt.TM:  # time hhmmss.ss
-            val = time2utc(vals)
-        else:
-            raise nme.NMEATypeError(f"Unknown attribute type {att}.")
-        return val
-
-    @staticmethod
-    def val2str(val, att: str, hpmode: bool = False) -> str:
-        """
-        Convert typed value to NMEA string
-        (this is the format used internally by the NMEA protocol).
-
-        :param object val: typed attribute value
-        :param str att: attribute type e.g. 'IN'
-        :param bool hpmode: high precision lat/lon mode (7dp rather than 5dp)
-        :return: attribute value in NMEA protocol format
-        :rtype: str
-        :raises: NMEATypeError
-
-        """
-
-        if att in (nmt.CH, nmt.ST, nmt.LAD, nmt.LND, nmt.QS):
-            vals = str(val)
-        elif att == nmt.HX:
-            vals = str(val)
-        elif att == nmt.DE:
-            vals = str(val)
-        elif att == nmt.IN:
-            vals = str(val)
-        elif att in (nmt.LA, nmt.LN):
-            vals = ddd2dmm(val, att, hpmode)
-        elif att == nmt.TM:
-            if isinstance(val, str):
-                vals = str(val.replace(":", ""))
-            else:  # time
-                vals = time2str(val)
-        elif att == nmt.DT:
-            if isinstance(val, str):
-                # yyyymmdd -> ddmmyy
-                val = val.replace("-", "")
-                vals = f"{val[6:8]}{val[4:6]}{val[2:4]}"
-            else:  # datetime
-                vals = date2str(val, att)
-        elif att == nmt.DTL:
-            # yyyymmdd -> ddmmyyyy
-            if isinstance(val, str):
-                val = val.replace("-", "")
-                vals = f"{val[6:8]}{val[4:6]}{val[0:4]}"
-            else:  # datetime
-                vals = date2str(val, att)
-        elif att == nmt.DM:
-            # yyyymmdd -> mmddyy
-            if isinstance(val, str):
-                val = val.replace("-", "")
-                vals = f"{val[4:6]}{val[6:8]}{val[2:4]}"
-            else:  # datetime
-                vals = date2str(val, att)
-        else:
-            raise nme.NMEATypeError(f"Unknown attribute type {att}.")
-        return vals
-
-    @staticmethod
-    def nomval(att: str, msgmode: int = nmt.GET) -> Any:
-        """
-        Return nominal value for specified attribute type
-
-        :param str att: attribute type e.g. 'DE'
-        :param int msgmode: message mode GET/SET/POLL
-        :return: nominal value for type
-        :rtype: Any
-        :raises: NMEATypeError
-        """
-
-        if att in (nmt.CH, nmt.ST, nmt.LA, nmt.LN):
-            val = ""
-        elif att == nmt.LAD:  # pragma: no cover
-            val = "N"
-        elif att == nmt.LND:  # pragma: no cover
-            val = "E"
-        elif att == nmt.HX:
-            val = "0"
-        elif att == nmt.DE:
-            val = 0.0
-        elif att == nmt.IN:
-            val = 0
-        elif att == nmt.TM:
-            val = datetime.now(timezone.utc).time()
-        elif att in (nmt.DT, nmt.DTL, nmt.DM):
-            val = datetime.now(timezone.utc).date()
-        elif att == nmt.QS:  # Quectel status attribute
-            if msgmode == nmt.POLL:
-                val = "R"  # read
-            elif msgmode == nmt.SET:
-                val = "W"  # write
-            else:
-                val = "OK"  # acknowledgement
-        else:
-            raise nme.NMEATypeError(f"Unknown attribute type {att}.")
-        return val
+"""
+Main NMEA GNSS/GPS Message Protocol Class.
+
+Created on 04 Mar 2021
+
+:author: semuadmin (Steve Smith)
+:copyright: semuadmin © 2021
+:license: BSD 3-Clause
+"""
+
+# pylint: disable=invalid-name, too-many-instance-attributes, too-many-positional-arguments
+
+import struct
+from datetime import datetime, timezone
+from logging import getLogger
+from types import NoneType
+from typing import Any, Literal
+
+import pynmeagps.exceptions as nme
+import pynmeagps.nmeatypes_core as nmt
+import pynmeagps.nmeatypes_get as nmg
+import pynmeagps.nmeatypes_get_prop as nmgp
+import pynmeagps.nmeatypes_poll as nmp
+import pynmeagps.nmeatypes_poll_prop as nmpp
+import pynmeagps.nmeatypes_set as nms
+import pynmeagps.nmeatypes_set_prop as nmsp
+from pynmeagps.nmeahelpers import (
+    date2str,
+    date2utc,
+    ddd2dmm,
+    dmm2ddd,
+    generate_checksum,
+    groupsize,
+    time2str,
+    time2utc,
+)
+
+
+class NMEAMessage:
+    """NMEA GNSS/GPS Message Class."""
+
+    def __init__(
+        self,
+        talker: str,
+        msgID: str,
+        msgmode: Literal[0, 1, 2],
+        hpnmeamode: bool = False,
+        validate: int = nmt.VALCKSUM,
+        userdefined: dict | NoneType = None,
+        checksum: str | NoneType = None,
+        **kwargs,
+    ):
+        """Constructor.
+
+        If 'payload' is passed as a keyword arg, this is taken to contain the entire
+        message content as a list of string values; any other keyword args are ignored.
+
+        Otherwise, any individual attributes passed as keyword args will be set to the
+        value provided, all others will be assigned a nominal value according to type.
+
+        :param str talker: message talker e.g. "GP" or "P"
+        :param str msgID: message ID e.g. "GGA"
+        :param int msgmode: mode (0=GET, 1=SET, 2=POLL)
+        :param bool hpnmeamode: high precision lat/lon mode (7dp rather than 5dp) (False)
+        :param int validate: VALNONE (0), VALCKSUM (1), VALMSGID (2),
+            (can be OR'd) (1)
+        :param dict userdefined: user-defined payload definition dictionary (None)
+        :param str | NoneType checksum: checksum from incoming message or
+            None if creating new message (None)
+        :param kwargs: keyword arg(s) representing all or some payload attributes
+        :raises: NMEAMessageError
+        """
+
+        # object is mutable during initialisation only
+        super().__setattr__("_immutable", False)
+        self._logger = getLogger(__name__)
+        self._validate = validate
+        self._userdefined = {} if userdefined is None else userdefined
+
+        if msgmode not in (0, 1, 2):
+            raise nme.NMEAMessageError(
+                f"Invalid msgmode {msgmode} - must be 0, 1 or 2."
+            )
+        if talker not in nmt.NMEA_TALKERS:
+            if self._validate & nmt.VALMSGID:
+                raise nme.NMEAMessageError(f"Unknown talker {talker}.")
+        if msgID in nmt.NMEA_MSGIDS:
+            self._defsource = nmt.DEF_STND  # standard
+        elif msgID in nmt.NMEA_MSGIDS_PROP or msgID in nmt.NMEA_PREFIX_PROP:
+            self._defsource = nmt.DEF_PROP  # proprietary
+        elif msgID in self._userdefined:
+            self._defsource = nmt.DEF_USER  # user-defined
+        else:
+            self._defsource = nmt.DEF_UNKN  # unrecognised
+            if self._validate & nmt.VALMSGID:
+                raise nme.NMEAMessageError(
+                    f"Unknown msgID {talker}{msgID}, msgmode {('GET','SET','POLL')[msgmode]}."
+                )
+
+        self._mode = msgmode
+        # high precision NMEA mode returns NMEA lat/lon to 7dp rather than 5dp
+        self._hpnmeamode = hpnmeamode
+        self._talker = talker
+        self._msgID = msgID
+        self._checksum = checksum
+        # flag to show message is being streamed rather than generated
+        self._streaming = "payload" in kwargs
+        self._do_attributes(**kwargs)
+        self._immutable = True  # once initialised, object is immutable
+
+    def _do_attributes(self, **kwargs):
+        """
+        Populate NMEAMessage from named attribute keywords.
+        Where a named attribute is absent, set to a nominal value (zeros or blanks).
+
+        :param kwargs: optional content key/value pairs
+        :raises: UBXTypeError
+        """
+
+        pindex = 0  # payload index
+        gindex = []  # (nested) grouped attribute indices
+        key = ""
+
+        try:
+            self._payload = kwargs.get("payload", [])
+            # self._checksum = kwargs.get("checksum", None)
+            pdict = self._get_dict(**kwargs)  # get payload definition dict
+            if pdict is None:  # definition not yet implemented
+                if "payload" in kwargs:
+                    self._set_attribute_nominal(kwargs["payload"])
+                return
+            for key in pdict.keys():  # process each attribute in dict
+                pindex, gindex = self._set_attribute(
+                    pindex, pdict, key, gindex, **kwargs
+                )
+            # generate checksum for newly-created message
+            if self._checksum is None:
+                self._checksum = generate_checksum(
+                    self._talker, self._msgID, self._payload
+                )
+
+        except (
+            AttributeError,
+            IndexError,
+            OverflowError,
+            struct.error,
+            TypeError,
+            ValueError,
+        ) as err:
+            raise nme.NMEATypeError(
+                f"Incorrect type for attribute {key} in msgID {self._msgID}."
+            ) from err
+
+    def _set_attribute(
+        self, pindex: int, pdict: dict, key: str, gindex: list, **kwargs
+    ) -> tuple:
+        """
+        Recursive routine to set individual or grouped payload attributes.
+
+        :param int pindex: payload index
+        :param dict pdict: dict representing payload definition
+        :param str key: attribute keyword
+        :param list gindex: repeating group index array
+        :param kwargs: optional payload key/value pairs
+        :return: (pindex, gindex[])
+        :rtype: tuple
+        """
+
+        att = pdict[key]  # get attribute type
+        if isinstance(att, tuple):  # repeating group of attributes
+            pindex, gindex = self._set_attribute_group(att, pindex, gindex, **kwargs)
+        else:  # single attribute
+            pindex = self._set_attribute_single(att, pindex, key, gindex, **kwargs)
+
+        return (pindex, gindex)
+
+    def _set_attribute_group(
+        self, att: tuple[int, dict], pindex: int, gindex: list, **kwargs
+    ) -> tuple:
+        """
+        Process (nested) group of attributes.
+
+        :param tuple att: attribute group - tuple of (num repeats, attribute dict)
+        :param int pindex: payload index
+        :param list gindex: repeating group index array
+        :param kwargs: optional payload key/value pairs
+        :return: (pindex, gindex[])
+        :rtype: tuple
+        """
+
+        gindex.append(0)  # add a (nested) group index
+        numr, attd = att  # number of repeats, group dictionary
+
+        # derive or retrieve number of items in group
+        if isinstance(numr, int):  # fixed number of repeats
+            rng = numr
+        elif numr == "None":  # indeterminate number of repeats
+            pindexend = 0  # may need tweaking
+            if self._streaming:
+                rng = self._calc_num_repeats(attd, self._payload, pindex, pindexend)
+            else:
+                rng = groupsize(**kwargs)
+        else:  # number of repeats is defined in named attribute
+            rng = getattr(self, numr)
+        # recursively process each group attribute,
+        # incrementing the payload index and group index as we go
+        for i in range(rng):
+            gindex[-1] = i + 1
+            for key1 in attd.keys():
+                pindex, gindex = self._set_attribute(
+                    pindex, attd, key1, gindex, **kwargs
+                )
+
+        gindex.pop()  # remove this (nested) group index
+
+        return (pindex, gindex)
+
+    def _set_attribute_single(
+        self, att: str, pindex: int, key: str, gindex: list, **kwargs
+    ) -> int:
+        """
+        Set individual attribute value.
+
+        :param str att: attribute type e.g. 'NU'
+        :param int pindex: payload index
+        :param str key: attribute keyword
+        :param list gindex: repeating group index array
+        :param kwargs: optional payload key/value pairs
+        :return: pindex
+        :rtype: int
+        """
+        # pylint: disable=no-member, access-member-before-definition, attribute-defined-outside-init
+
+        # if attribute is part of a (nested) repeating group, suffix name with group index
+        keyr = key
+        for i in gindex:  # one index for each nested level
+            if i > 0:
+                keyr += f"_{i:02d}"
+
+        try:
+            # all attribute values have been provided
+            if self._streaming:
+                # remove group delimiters in proprietary PSSNSNC message
+                if self.identity == "PSSNSNC":
+                    self._payload[pindex] = (
+                        self._payload[pindex].replace("[", "").replace("]", "")
+                    )
+                val = self._payload[pindex]
+                val = self.str2val(val, att)
+            # some attribute values have been provided,
+            # the rest will be set to a nominal value
+            else:
+                if att == nmt.LND and hasattr(self, "lon"):
+                    if isinstance(self.lon, (int, float)):
+                        val = "W" if self.lon < 0 else "E"
+                    else:  # pragma: no cover
+                        val = "E"
+                elif att == nmt.LAD and hasattr(self, "lat"):
+                    if isinstance(self.lat, (int, float)):
+                        val = "S" if self.lat < 0 else "N"
+                    else:  # pragma: no cover
+                        val = "N"
+                else:
+                    val = kwargs.get(keyr, self.nomval(att, self.msgmode))
+                vals = self.val2str(val, att, self._hpnmeamode)
+                self._payload.append(vals)
+
+        except (
+            IndexError
+        ):  # probably just an older device missing NMEA <=4.10 dict attributes
+            return pindex
+
+        setattr(self, keyr, val)  # add attribute to NMEAMessage object
+        if self._streaming:
+            # override sign of lat/lon according to NS and EW values
+            if att == nmt.LND and hasattr(self, "lon"):
+                if isinstance(self.lon, (int, float)):
+                    self.lon = -abs(self.lon) if val == "W" else abs(self.lon)
+            elif att == nmt.LAD and hasattr(self, "lat"):
+                if isinstance(self.lat, (int, float)):
+                    self.lat = -abs(self.lat) if val == "S" else abs(self.lat)
+        pindex += 1  # move on to next attribute in payload definition
+
+        return pindex
+
+    def _set_attribute_nominal(self, payload: list):
+        """
+        Set nominal attributes for unrecognised NMEA sentence types.
+
+        :param list payload: payload as list
+        """
+
+        for i, fld in enumerate(payload):
+            setattr(self, f"field_{i+1:02d}", fld)
+
+    def _get_dict(self, **kwargs) -> dict | NoneType:
+        """
+        Get payload dictionary.
+
+        :return: dictionary representing payload definition
+        :rtype: dict | NoneType
+        """
+
+        dic = None
+        key = self.msgID
+
+        try:
+            if key in nmt.NMEA_PREFIX_PROP:  # proprietary, first element is msgId
+                if self._streaming:
+                    if key == "ASHR" and self._payload[0][1].isdigit():
+                        pass  # exception for PASHR pitch and roll sentence without msgId
+                    else:
+                        key += self._payload[0]
+                elif "msgId" in kwargs:
+                    key += kwargs["msgId"]
+                else:
+                    raise nme.NMEAMessageError(
+                        f"P{key} message definitions must "
+                        "include payload or msgId keyword arguments."
+                    )
+            key = key.upper()
+
+            if self._defsource == nmt.DEF_PROP:  # proprietary
+                dic = self._get_dict_prop(key, **kwargs)
+            elif self._defsource == nmt.DEF_USER:  # user defined
+                dic = self._userdefined[key]
+            else:  # standard
+                if self._mode == nmt.POLL:
+                    dic = nmp.NMEA_PAYLOADS_POLL[key]
+                elif self._mode == nmt.SET:  # pragma: no cover
+                    dic = nms.NMEA_PAYLOADS_SET[key]
+                else:
+                    dic = nmg.NMEA_PAYLOADS_GET[key]
+        except KeyError as err:  # unknown msgid
+            erm = f"Unknown msgID {key} msgmode {('GET', 'SET', 'POLL')[self._mode]}."
+            if self._validate & nmt.VALMSGID:
+                raise nme.NMEAMessageError(erm) from err
+
+        return dic
+
+    def _get_dict_prop(self, key: str, **kwargs) -> dict:
+        """
+        Get payload dictionary for proprietary message types.
+
+        :param str key: msgid
+        :return: dictionary representing payload definition
+        :rtype: dict
+        """
+
+        if key == "QTMCFGGEOFENCE":
+            key = self._get_dict_qtmcfggeofence(key, self._mode, **kwargs)
+        elif key == "QTMCFGMSGRATE":
+            key = self._get_dict_qtmcfgmsgrate(key, self._mode, **kwargs)
+        elif key == "QTMCFGPPS":
+            key = self._get_dict_qtmcfgpps(key, self._mode, **kwargs)
+        elif key == "QTMCFGSAT":
+            key = self._get_dict_qtmcfgsat(key, self._mode, **kwargs)
+        elif key == "QTMCFGUART":
+            key = self._get_dict_qtmcfguart(key, self._mode, **kwargs)
+        elif key == "QTMSN":
+            key = self._get_dict_qtmsn(key, self._mode, **kwargs)
+        elif key == "STMDRSENMSG":
+            key = self._get_dict_stmdrsenmsg(key, self._mode, **kwargs)
+        elif key[0:3] == "QTM":
+            key = self._get_dict_qtmacknak(key, self._mode)
+
+        if self._mode == nmt.POLL:
+            return nmpp.NMEA_PAYLOADS_POLL_PROP[key]
+        if self._mode == nmt.SET:
+            return nmsp.NMEA_PAYLOADS_SET_PROP[key]
+        return nmgp.NMEA_PAYLOADS_GET_PROP[key]
+
+    def _get_dict_qtmcfguart(self, key: str, mode: int, **kwargs) -> str:
+        """
+        Get payload dictionary for proprietary Quectel QTMCFGUART
+        command and query variants.
+
+        :param str key: msgid
+        :param int mode: msgmode 1/2
+        :return: key of payload definition
+        :rtype: str
+        """
+
+        lp = len(self._payload)
+        py = self._streaming
+        pt = "portid" in kwargs
+        if mode == nmt.SET:
+            bd = "baudrate" in kwargs
+            db = "databit" in kwargs
+            if (py and lp == 2) or (not py and not pt and bd and not db):
+                key += "_CURRBAUD"
+            elif (py and lp == 3) or (not py and pt and bd and not db):
+                key += "_BAUD"
+            elif (py and lp == 6) or (not py and not pt and bd and db):
+                key += "_CURR"
+        elif mode == nmt.POLL:
+            if (py and lp == 1) or (not py and not pt):
+                key += "_CURR"
+        return key
+
+    def _get_dict_qtmcfgmsgrate(self, key: str, mode: int, **kwargs) -> str:
+        """
+        Get payload dictionary for proprietary Quectel QTMCFGMSGRATE
+        command and query variants.
+
+        :param str key: msgid
+        :param int mode: msgmode 1/2
+        :return: key of payload definition
+        :rtype: str
+        """
+
+        lp = len(self._payload)
+        py = self._streaming
+        mv = "msgver" in kwargs
+        pt = "porttype" in kwargs
+        if mode in (nmt.SET, nmt.GET):
+            if (py and lp == 3) or (not py and not pt and not mv):
+                key += "_NOVER"
+            elif (py and lp == 5) or (not py and pt and not mv):
+                key += "_INTFNOVER"
+            elif (py and lp == 6) or (not py and pt and mv):
+                key += "_INTF"
+        elif mode == nmt.POLL:
+            if (py and lp == 2) or (not py and not pt and not mv):
+                key += "_NOVER"
+            elif (py and lp == 4) or (not py and pt and not mv):
+                key += "_INTFNOVER"
+            elif (py and lp == 5) or (not py and pt and mv):
+                key += "_INTF"
+        return key
+
+    def _get_dict_qtmcfgpps(self, key: str, mode: int, **kwargs) -> str:
+        """
+        Get payload dictionary for proprietary Quectel QTMCFGPPS
+        command and query variants.
+
+        :param str key: msgid
+        :param int mode: msgmode 1/2
+        :return: key of payload definition
+        :rtype: str
+        """
+
+        lp = len(self._payload)
+        py = self._streaming
+        if mode == nmt.SET:
+            if (py and lp == 3) or (not py and kwargs.get("enable", 1) == 0):
+                key += "_DIS"
+        return key
+
+    def _get_dict_qtmcfgsat(self, key: str, mode: int, **kwargs) -> str:
+        """
+        Get payload dictionary for proprietary Quectel QTMCFGSAT
+        command and query variants.
+
+        :param str key: msgid
+        :param int mode: msgmode 1/2
+        :return: key of payload definition
+        :rtype: str
+        """
+
+        lp = len(self._payload)
+        py = self._streaming
+        mh = "maskhigh" in kwargs
+        if mode == nmt.SET:
+            if (py and lp == 4) or (not py and not mh):
+                key += "_LOW"
+        elif mode == nmt.GET:
+            if (py and lp == 4) or (not py and not mh):
+                key += "_LOW"
+            elif lp in (1, 2):
+                key = self._get_dict_qtmacknak(key, mode)
+        return key
+
+    def _get_dict_qtmcfggeofence(self, key: str, mode: int, **kwargs) -> str:
+        """
+        Get payload dictionary for proprietary Quectel QTMCFGGEOFENCE
+        command and query variants.
+
+        :param str key: msgid
+        :param int mode: msgmode 1/2
+        :return: key of payload definition
+        :rtype: str
+        """
+
+        lp = len(self._payload)
+        py = self._streaming
+        l1 = "lon1" in kwargs
+        if mode == nmt.SET:
+            if (py and lp == 13) or (not py and l1):
+                key += "_POLY"
+            elif (py and lp == 3) or (not py and kwargs.get("geofencemode", 1) == 0):
+                key += "_DIS"
+        elif mode == nmt.GET:
+            if (py and lp == 13) or (not py and l1):
+                key += "_POLY"
+            elif lp in (1, 2):
+                key = self._get_dict_qtmacknak(key, mode)
+        return key
+
+    def _get_dict_qtmsn(self, key: str, mode: int, **kwargs) -> str:
+        """
+        Get payload dictionary for proprietary Quectel QTMSN.
+        (bug in LG580P firmware - seems to transpose status field?)
+
+        :param str key: msgid
+        :param int mode: msgmode 1/2
+        :return: key of payload definition
+        :rtype: str
+        """
+
+        py = self._streaming
+        if mode == nmt.GET:
+            if py and kwargs["payload"][0].isnumeric():
+                key += "_ALT"
+        return key
+
+    def _get_dict_stmdrsenmsg(
+        self, key: str, mode: int, **kwargs
+    ) -> str:  # pylint: disable=unused-argument
+        """
+        Get payload dictionary for proprietary Quectel PSTMDRSENMSG variants.
+
+        :param str key: msgid
+        :param int mode: msgmode 1/2
+        :return: key of payload definition
+        :rtype: str
+        """
+
+        py = self._streaming
+        mt = "msgtype" in kwargs
+        msgtype = ""
+        if py:
+            msgtype = self._payload[0]
+        elif not py and mt:
+            msgtype = kwargs["msgtype"]
+        key += f"_{msgtype}"
+        return key
+
+    def _get_dict_qtmacknak(self, key: str, mode: int) -> str:
+        """
+        Get payload dictionary for proprietary Quectel command
+        response variants.
+
+        :param str key: msgid
+        :param int mode: msgmode 1/2
+        :return: key of payload definition
+        :rtype: str
+        """
+
+        lp = len(self._payload)
+        if mode == nmt.GET:
+            if lp == 1 and self._payload[0] == "OK":
+                key = "QTMACK"
+            elif lp == 2 and self._payload[0] == "ERROR":
+                key = "QTMNAK"
+        return key
+
+    def _calc_num_repeats(
+        self, attd: dict, payload: list, pindex: int, pindexend: int = 0
+    ) -> int:
+        """
+        Deduce number of items in repeating group.
+
+        :param dict attd: grouped attribute dictionary
+        :param list payload : content as list
+        :param int pindex: number of payload attributes before group
+        :param int pindexend: number of payload attributes after group
+        :return: number of repeats
+        :rtype: int
+        """
+
+        lenpayload = len(payload) - pindex - pindexend
+        lengroup = len(attd)
+        return int(lenpayload / lengroup)
+
+    def __str__(self) -> str:
+        """
+        Human readable representation.
+
+        :return: human readable representation
+        :rtype: str
+        """
+
+        stg = f"<NMEA({self.identity}"
+        if self._defsource == nmt.DEF_UNKN:
+            stg += ", NOMINAL"
+        for att, val in self.__dict__.items():
+            if att[0] != "_":  # only show public attributes
+                stg += f", {att}={val}"
+        stg += ")>"
+
+        return stg
+
+    def __repr__(self) -> str:
+        """
+        Machine readable representation.
+
+        eval(repr(obj)) = obj
+
+        :return: machine readable representation
+        :rtype: str
+        """
+
+        return (
+            f"NMEAMessage('{self._talker}','{self._msgID}', "
+            f"{self._mode}, payload={self._payload})"
+        )
+
+    def __setattr__(self, name, value):
+        """
+        Override setattr to make object immutable after instantiation.
+
+        :param str name: attribute name
+        :param object value: attribute value
+        :raises: NMEAMessageError
+        """
+
+        if self._immutable:
+            raise nme.NMEAMessageError(
+                f"Object is immutable. Updates to {name} not permitted after initialisation."
+            )
+
+        super().__setattr__(name, value)
+
+    def serialize(self) -> bytes:
+        """
+        Serialize message.
+
+        :return: serialized output
+        :rtype: bytes
+        """
+
+        output = f"${self._talker}{self._msgID}"
+        for att in self._payload:
+            output += "," + att
+        output += f"*{self._checksum}\r\n"
+        return output.encode("utf-8")  # convert str to bytes
+
+    @property
+    def identity(self) -> str:
+        """
+        Identity getter.
+
+        :return: message identity e.g. GNGSA
+        :rtype: str
+        """
+
+        # pylint: disable=no-member
+
+        if (
+            self._talker == "P"
+            and self._msgID in nmt.NMEA_PREFIX_PROP
+            and hasattr(self, "msgId")
+        ):
+            return self._talker + self._msgID + self.msgId
+        return self._talker + self._msgID
+
+    @property
+    def talker(self) -> str:
+        """
+        Talker getter.
+
+        :return: talker e.g. GN
+        :rtype: str
+        """
+
+        return self._talker
+
+    @property
+    def msgID(self) -> str:
+        """
+        Message id getter.
+
+        :return: message id e.g. GSA
+        :rtype: str
+        """
+
+        return self._msgID
+
+    @property
+    def msgmode(self) -> int:
+        """
+        Message mode getter.
+
+        :return: message mode
+        :rtype: int
+        """
+
+        return self._mode
+
+    @property
+    def payload(self) -> list:
+        """
+        Payload getter.
+
+        :return: raw payload as list of strings
+        :rtype: list
+        """
+
+        return self._payload
+
+    @property
+    def checksum(self) -> str | NoneType:
+        """
+        Checksum getter.
+
+        :return: checksum as hex string
+        :rtype: str | NoneType
+        """
+
+        return self._checksum
+
+    @staticmethod
+    def str2val(vals: str, att: str) -> Any:
+        """
+        Convert NMEA string to typed value
+        (this is the format that will be available to end users).
+
+        :param str vals: attribute value in NMEA protocol format
+        :param str att: attribute type e.g. 'DE'
+        :return: attribute value
+        :rtype: Any
+        :raises: MMEATypeError
+        """
+
+        val = vals
+        if att in (nmt.CH, nmt.ST, nmt.LAD, nmt.LND, nmt.QS):
+            pass
+        elif att == nmt.HX:
+            val = vals
+        elif att == nmt.DE:  # decimal
+            if vals != "":
+                val = float(vals)
+        elif att in (nmt.DT, nmt.DM):  # date
+            val = date2utc(vals, att)
+        elif att == nmt.IN:  # integer
+            if vals != "":
+                val = int(vals)
+        elif att in (nmt.LA, nmt.LN):  # lat/lon (d)ddmm.mmmmm(mm)
+            val = dmm2ddd(vals)
+        elif att == nmt.TM:  # time hhmmss.ss
+            val = time2utc(vals)
+        else:
+            raise nme.NMEATypeError(f"Unknown attribute type {att}.")
+        return val
+
+    @staticmethod
+    def val2str(val, att: str, hpmode: bool = False) -> str:
+        """
+        Convert typed value to NMEA string
+        (this is the format used internally by the NMEA protocol).
+
+        :param object val: typed attribute value
+        :param str att: attribute type e.g. 'IN'
+        :param bool hpmode: high precision lat/lon mode (7dp rather than 5dp)
+        :return: attribute value in NMEA protocol format
+        :rtype: str
+        :raises: NMEATypeError
+
+        """
+
+        if att in (nmt.CH, nmt.ST, nmt.LAD, nmt.LND, nmt.QS):
+            vals = str(val)
+        elif att == nmt.HX:
+            vals = str(val)
+        elif att == nmt.DE:
+            vals = str(val)
+        elif att == nmt.IN:
+            vals = str(val)
+        elif att in (nmt.LA, nmt.LN):
+            vals = ddd2dmm(val, att, hpmode)
+        elif att == nmt.TM:
+            if isinstance(val, str):
+                vals = str(val.replace(":", ""))
+            else:  # time
+                vals = time2str(val)
+        elif att == nmt.DT:
+            if isinstance(val, str):
+                # yyyymmdd -> ddmmyy
+                val = val.replace("-", "")
+                vals = f"{val[6:8]}{val[4:6]}{val[2:4]}"
+            else:  # datetime
+                vals = date2str(val, att)
+        elif att == nmt.DTL:
+            # yyyymmdd -> ddmmyyyy
+            if isinstance(val, str):
+                val = val.replace("-", "")
+                vals = f"{val[6:8]}{val[4:6]}{val[0:4]}"
+            else:  # datetime
+                vals = date2str(val, att)
+        elif att == nmt.DM:
+            # yyyymmdd -> mmddyy
+            if isinstance(val, str):
+                val = val.replace("-", "")
+                vals = f"{val[4:6]}{val[6:8]}{val[2:4]}"
+            else:  # datetime
+                vals = date2str(val, att)
+        else:
+            raise nme.NMEATypeError(f"Unknown attribute type {att}.")
+        return vals
+
+    @staticmethod
+    def nomval(att: str, msgmode: int = nmt.GET) -> Any:
+        """
+        Return nominal value for specified attribute type
+
+        :param str att: attribute type e.g. 'DE'
+        :param int msgmode: message mode GET/SET/POLL
+        :return: nominal value for type
+        :rtype: Any
+        :raises: NMEATypeError
+        """
+
+        if att in (nmt.CH, nmt.ST, nmt.LA, nmt.LN):
+            val = ""
+        elif att == nmt.LAD:  # pragma: no cover
+            val = "N"
+        elif att == nmt.LND:  # pragma: no cover
+            val = "E"
+        elif att == nmt.HX:
+            val = "0"
+        elif att == nmt.DE:
+            val = 0.0
+        elif att == nmt.IN:
+            val = 0
+        elif att == nmt.TM:
+            val = datetime.now(timezone.utc).time()
+        elif att in (nmt.DT, nmt.DTL, nmt.DM):
+            val = datetime.now(timezone.utc).date()
+        elif att == nmt.QS:  # Quectel status attribute
+            if msgmode == nmt.POLL:
+                val = "R"  # read
+            elif msgmode == nmt.SET:
+                val = "W"  # write
+            else:
+                val = "OK"  # acknowledgement
+        else:
+            raise nme.NMEATypeError(f"Unknown attribute type {att}.")
+        return val
-- 
2.43.0


From 0024fbf2167852f2256e0be374487ff4ada70a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:34 +0000
Subject: [PATCH 02/26] fix: parse long-format (DTL) date fields, e.g. PTNL,GGK
 and LR2

---
 src/pynmeagps/nmeamessage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 9745cb8..cb9e776 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -731,7 +731,7 @@ class NMEAMessage:
         elif att == nmt.DE:  # decimal
             if vals != "":
                 val = float(vals)
-        elif att in (nmt.DT, nmt.DM):  # date
+        elif att in (nmt.DT, nmt.DTL, nmt.DM):  # date
             val = date2utc(vals, att)
         elif att == nmt.IN:  # integer
             if vals != "":
-- 
2.43.0


From 9e7ef6c9e730aea64326eba852db0441b951c806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 03/26] fix: bound repeating groups by the fields actually
 present in a received sentence

---
 src/pynmeagps/nmeamessage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index cb9e776..6fff47e 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -202,6 +202,8 @@ class NMEAMessage:
                 rng = groupsize(**kwargs)
         else:  # number of repeats is defined in named attribute
             rng = getattr(self, numr)
+            if self._streaming:  # can't be more items than fields left in payload
+                rng = min(rng, len(self._payload) - pindex)
         # recursively process each group attribute,
         # incrementing the payload index and group index as we go
         for i in range(rng):
-- 
2.43.0


From 4aa0ef8876ab8b47dd0814eb7e31e54a9ea65c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 04/26] fix: derive GNSS week and time of week from the same
 leapsecond-adjusted epoch in utc2wnotow

---
 src/pynmeagps/nmeahelpers.py | 1705 +++++++++++++++++-----------------
 1 file changed, 852 insertions(+), 853 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 8abfaf5..dd8af33 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -1,853 +1,852 @@
-"""
-Collection of NMEA helper methods which can be used
-outside the NMEAMessage or NMEAReader classes
-
-Created on 04 Mar 2021
-
-:author: semuadmin (Steve Smith)
-:copyright: semuadmin © 2021
-:license: BSD 3-Clause
-"""
-
-# pylint: disable=invalid-name
-
-import re
-from datetime import datetime, timedelta, timezone
-from math import acos, asin, atan2, cos, floor, pi, sin, sqrt
-from types import NoneType
-from typing import Literal
-
-import pynmeagps.exceptions as nme
-from pynmeagps.nmeatypes_core import (
-    BDS,
-    DM,
-    DT,
-    DTL,
-    EPOCH0_BEIDOU,
-    EPOCH0_GAL,
-    EPOCH0_GPS,
-    EPOCH0_IRN,
-    GAL,
-    GLO,
-    GPS,
-    IRN,
-    LA,
-    LN,
-    NMEA_MSGIDS,
-    NMEA_MSGIDS_PROP,
-    WGS84,
-    WGS84_FLATTENING,
-    WGS84_SMAJ_AXIS,
-)
-
-KNOTSCONV = {"MS": 0.5144447324, "FS": 1.68781084, "MPH": 1.15078, "KMPH": 1.852001}
-LEAPS0 = datetime(1900, 1, 1, 0, 0, 0, tzinfo=timezone.utc)
-LEAPSECONDS = [
-    (2272060800, 10),  # 1 Jan 1972
-    (2287785600, 11),  # 1 Jul 1972
-    (2303683200, 12),  # 1 Jan 1973
-    (2335219200, 13),  # 1 Jan 1974
-    (2366755200, 14),  # 1 Jan 1975
-    (2398291200, 15),  # 1 Jan 1976
-    (2429913600, 16),  # 1 Jan 1977
-    (2461449600, 17),  # 1 Jan 1978
-    (2492985600, 18),  # 1 Jan 1979
-    (2524521600, 19),  # 1 Jan 1980
-    (2571782400, 20),  # 1 Jul 1981
-    (2603318400, 21),  # 1 Jul 1982
-    (2634854400, 22),  # 1 Jul 1983
-    (2698012800, 23),  # 1 Jul 1985
-    (2776982400, 24),  # 1 Jan 1988
-    (2840140800, 25),  # 1 Jan 1990
-    (2871676800, 26),  # 1 Jan 1991
-    (2918937600, 27),  # 1 Jul 1992
-    (2950473600, 28),  # 1 Jul 1993
-    (2982009600, 29),  # 1 Jul 1994
-    (3029443200, 30),  # 1 Jan 1996
-    (3076704000, 31),  # 1 Jul 1997
-    (3124137600, 32),  # 1 Jan 1999
-    (3345062400, 33),  # 1 Jan 2006
-    (3439756800, 34),  # 1 Jan 2009
-    (3550089600, 35),  # 1 Jul 2012
-    (3644697600, 36),  # 1 Jul 2015
-    (3692217600, 37),  # 1 Jan 2017
-]
-"""
-Leapsecond reference table from NTC - Updated through IERS Bulletin C69
-https://hpiers.obspm.fr/iers/bul/bulc/ntp/leap-seconds.list
-File expires on: 28 December 2026
-"""
-
-
-def area(
-    lat1: float,
-    lon1: float,
-    lat2: float,
-    lon2: float,
-    radius: float = WGS84_SMAJ_AXIS / 1000,
-) -> float:
-    """
-    Calculate spherical area bounded by two coordinates.
-
-    :param float lat1: lat1
-    :param float lon1: lon1
-    :param float lat2: lat2
-    :param float lon2: lon2
-    :param float radius: radius in km (Earth = 6378.137 km)
-    :return: area in km²
-    :rtype: float
-    """
-
-    phi1, phi2 = [c * pi / 180 for c in (lat1, lat2)]
-    return pow(radius, 2) * pi * abs(sin(phi1) - sin(phi2)) * abs(lon1 - lon2) / 180
-
-
-def bearing(lat1: float, lon1: float, lat2: float, lon2: float) -> float:
-    """
-    Calculate bearing between two coordinates.
-
-    :param float lat1: lat1
-    :param float lon1: lon1
-    :param float lat2: lat2
-    :param float lon2: lon2
-    :return: bearing in degrees
-    :rtype: float
-    """
-
-    phi1, lambda1, phi2, lambda2 = [c * pi / 180 for c in (lat1, lon1, lat2, lon2)]
-    y = sin(lambda2 - lambda1) * cos(phi2)
-    x = cos(phi1) * sin(phi2) - sin(phi1) * cos(phi2) * cos(lambda2 - lambda1)
-    theta = atan2(y, x)
-    brng = (theta * 180 / pi + 360) % 360
-
-    return brng
-
-
-def calc_checksum(content: str) -> str:
-    """
-    Calculate checksum for raw NMEA message.
-
-    :param str content: NMEA message content (everything except checksum)
-    :return: checksum as hex string
-    :rtype: str
-    """
-
-    cksum = 0
-    for sub in content:
-        cksum ^= ord(sub)
-    return f"{cksum:02X}"
-
-
-def date2str(dat: datetime.date, form: Literal["DT", "DTL", "DM"] = DT) -> str:
-    """
-    Convert datetime.date to NMEA formatted string.
-
-    :param datetime.date dat: date
-    :param Literal["DT","DTL","DM"] form: date format DT = ddmmyy, DTL = ddmmyyyy,
-        DM = mmddyy (DT)
-    :return: NMEA formatted date string
-    :rtype: str
-    """
-
-    try:
-        if form == DM:
-            dform = "%m%d%y"
-        elif form == DTL:
-            dform = "%d%m%Y"
-        else:
-            dform = "%d%m%y"
-        return dat.strftime(dform)
-    except (AttributeError, TypeError, ValueError):
-        return ""
-
-
-def date2utc(dates: str, form: Literal["DT", "DTL", "DM"] = DT) -> datetime.date:
-    """
-    Convert NMEA Date to UTC datetime.
-
-    :param str dates: NMEA date
-    :param Literal["DT","DTL","DM"] form: date format DT = ddmmyy, DTL = ddmmyyyy,
-        DM = mmddyy (DT)
-    :return: UTC date YYyy:mm:dd
-    :rtype: datetime.date
-    """
-
-    try:
-        if form == "DM":
-            dform = "%m%d%y"
-        elif form == "DTL":
-            dform = "%d%m%Y"
-        else:
-            dform = "%d%m%y"
-        utc = datetime.strptime(dates, dform)
-        return utc.date()
-    except (TypeError, ValueError):
-        return ""
-
-
-def ddd2dmm(degrees: float, att: Literal["LA", "LN"], hpmode: bool = False) -> str:
-    """
-    Convert decimal degrees to native NMEA degrees decimal
-    minutes string (NB: standard NMEA only supports 5dp
-    minutes precision - a high precision mode offers 7dp
-    precision but this may not be accepted by all NMEA parsers).
-
-    :param float degrees: degrees
-    :param Literal["LA","LN"] att: 'LA' (lat) or 'LN' (lon)
-    :param bool hpmode: high precision mode (7dp rather than 5dp)
-    :return: degrees as (d)ddmm.mmmmm(mm) formatted string
-    :rtype: str
-
-    """
-
-    try:
-        degrees = abs(degrees)
-        degrees, minutes = divmod(degrees * 60, 60)
-        degrees = int(degrees * 100)
-        if hpmode:
-            if att == LA:
-                dmm = f"{degrees + minutes:.7f}".zfill(12)
-            else:  # LN
-                dmm = f"{degrees + minutes:.7f}".zfill(13)
-        else:
-            if att == LA:
-                dmm = f"{degrees + minutes:.5f}".zfill(10)
-            else:  # LN
-                dmm = f"{degrees + minutes:.5f}".zfill(11)
-        return dmm
-    except (TypeError, ValueError):
-        return ""
-
-
-def deg2dmm(degrees: float, att: Literal["LA", "LN"]) -> str:
-    """
-    Convert decimal degrees to degrees decimal minutes string
-    e.g. '51°20.76′S'.
-
-    :param float degrees: degrees
-    :param Literal["LA","LN"] att: 'LA' (lat) or 'LN' (lon)
-    :return: degrees as dm.m formatted string
-    :rtype: str
-
-    """
-
-    try:
-        negative = degrees < 0
-        degrees = abs(degrees)
-        degrees, minutes = divmod(degrees * 60, 60)
-        if negative:
-            sfx = "S" if att == LA else "W"
-        else:
-            sfx = "N" if att == LA else "E"
-        return f"{int(degrees)}\u00b0{round(minutes,7)}\u2032{sfx}"
-    except (TypeError, ValueError):
-        return ""
-
-
-def deg2dms(degrees: float, att: Literal["LA", "LN"]) -> str:
-    """
-    Convert decimal degrees to degrees minutes seconds string
-    e.g. '51°20′45.6″N'
-
-    :param float degrees: degrees
-    :param Literal["LA","LN"] att: 'LA' (lat) or 'LN' (lon)
-    :return: degrees as d.m.s formatted string
-    :rtype: str
-
-    """
-
-    try:
-        negative = degrees < 0
-        degrees = abs(degrees)
-        minutes, seconds = divmod(degrees * 3600, 60)
-        degrees, minutes = divmod(minutes, 60)
-        if negative:
-            sfx = "S" if att == LA else "W"
-        else:
-            sfx = "N" if att == LA else "E"
-        return f"{int(degrees)}\u00b0{int(minutes)}\u2032{round(seconds,5)}\u2033{sfx}"
-    except (TypeError, ValueError):
-        return ""
-
-
-def dmm2ddd(pos: str) -> float | str:
-    """
-    Convert NMEA lat/lon string to (unsigned) decimal degrees.
-
-    :param str pos: (d)ddmm.mmmmm
-    :return: pos as decimal degrees, or "" if invalid
-    :rtype: float | str
-
-    """
-
-    try:
-        dp = pos.find(".")
-        if dp < 4:
-            raise ValueError()
-        posdeg = abs(float(pos[0 : dp - 2]))
-        posmin = float(pos[dp - 2 :])
-        return round((posdeg + posmin / 60), 10)
-    except (TypeError, ValueError):
-        return ""
-
-
-def dms2deg(
-    dmsstr: str,
-    rnd: int = 7,
-) -> float:
-    """
-    Convert degrees, minutes, seconds string to decimal degrees.
-
-    Expects degrees and (optional) minutes and seconds to be delimited by
-    non-numeric char, e.g.
-
-    '51°20′45.6″N' -> 51.346
-
-    '51°30.0′' -> 51.5
-
-    :param str dmsstr: d,m,s string
-    :param int rnd: decimal places (7)
-    :return: degrees as d.dd
-    :rtype: float
-    :raises: ValueError if invalid dms string format
-    """
-
-    dmsstr = dmsstr.replace(" ", "")
-    if (
-        re.match(
-            r"^([\d.]+[^\d.]{1}){1}([\d.]+[^\d.]{1})?([\d.]+[^\d.]{1})?[NSEW]?$", dmsstr
-        )
-        is None
-    ):
-        raise ValueError(f"Invalid dms string format {dmsstr}")
-
-    sign = -1 if dmsstr.find("S") >= 0 or dmsstr.find("W") >= 0 else 1
-    dms = re.split(r"[^\d.]", dmsstr, maxsplit=3)
-    ddd = 0.0
-    for x in range(len(dms) - 1):
-        ddd += 0.0 if dms[x] == "" else float(dms[x]) / pow(60, x)
-    return round(ddd * sign, rnd)
-
-
-def ecef2llh(
-    x: float,
-    y: float,
-    z: float,
-    a: float = WGS84_SMAJ_AXIS,
-    f: float = WGS84_FLATTENING,
-) -> tuple:
-    """
-    Convert ECEF coordinates to geodetic (LLH) using Olson algorithm.
-
-    Olson, D. K. (1996). Converting Earth-Centered, Earth-Fixed Coordinates to
-    Geodetic Coordinates. IEEE Transactions on Aerospace and Electronic Systems,
-    32(1), 473-476. https://doi.org/10.1109/7.481290
-
-    :param float x: X coordinate
-    :param float y: Y coordinate
-    :param float z: Z coordinate
-    :param float a: semi-major axis (6378137.0 for WGS84)
-    :param float f: flattening (298.257223563 for WGS84)
-    :return: tuple of (lat, lon, ellipsoidal height in m) as floats
-    :rtype: tuple
-    """
-    # pylint: disable=too-many-locals
-
-    # commented default values are for WGS84 spheroid
-    f = 1 / f
-    e2 = f * (2 - f)  # 6.6943799901377997e-3
-    a1 = a * e2  # 4.2697672707157535e4
-    a2 = a1 * a1  # 1.8230912546075455e9
-    a3 = a1 * e2 / 2  # 1.8230912546075455e9
-    a4 = 2.5 * a2  # 4.5577281365188637e9
-    a5 = a1 + a3  # 4.2840589930055659e4
-    a6 = 1 - e2  # 9.9330562000986220e-1
-    zp = abs(z)
-    w2 = x * x + y * y
-    w = sqrt(w2)
-    z2 = z * z
-    r2 = w2 + z2
-    r = sqrt(r2)
-
-    # algorithm inaccurate near Earth's core
-    # so nominal value returned
-    if r < 100000.0:
-        return 0.0, 0.0, -1.0e7
-
-    lon = atan2(y, x)
-    s2 = z2 / r2
-    c2 = w2 / r2
-    u = a2 / r
-    v = a3 - a4 / r
-    if c2 > 0.3:
-        s = (zp / r) * (1.0 + c2 * (a1 + u + s2 * v) / r)
-        lat = asin(s)
-        ss = s * s
-        c = sqrt(1.0 - ss)
-    else:
-        c = (w / r) * (1.0 - s2 * (a5 - u - c2 * v) / r)
-        lat = acos(c)
-        ss = 1.0 - c * c
-        s = sqrt(ss)
-    g = 1.0 - e2 * ss
-    rg = a / sqrt(g)
-    rf = a6 * rg
-    u = w - rg * c
-    v = zp - rf * s
-    f = c * u + s * v
-    m = c * v - s * u
-    p = m / (rf / g + f)
-    lat = lat + p
-    height = f + m * p / 2.0
-    if z < 0.0:
-        lat = -lat
-
-    lat, lon = [c * 180 / pi for c in (lat, lon)]
-    return lat, lon, height
-
-
-def generate_checksum(talker: str, msgID: str, payload: list) -> str:
-    """
-    Generate checksum for new NMEA message.
-
-    :param str talker: talker e.g. "GN"
-    :param str msgID: msgID e.g. "GLL"
-    :param list payload: payload as list
-    :return: checksum as hex string
-    :rtype: str
-    """
-
-    content = talker + msgID
-    for field in payload:
-        content += f",{field}"
-    return calc_checksum(content)
-
-
-def get_parts(message: object) -> tuple:
-    """
-    Get content, talker, msgid, payload and checksum of raw NMEA message.
-
-    :param object message: entire message as bytes or string
-    :return: tuple of (content, talker, msgID, payload as list, checksum)
-    :rtype: tuple
-    :raises: NMEAMessageError (if message is badly formed)
-    """
-
-    try:
-        if isinstance(message, bytes):
-            message = message.decode("utf-8")
-        content, cksum = message.strip("$\r\n").split("*", 1)
-        hdr, *payload = content.split(",")
-        s = 1 if hdr[:1] == "P" else 2
-        talker, msgid = hdr[:s], hdr[s:]
-        return content, talker, msgid, payload, cksum
-    except Exception as err:
-        raise nme.NMEAMessageError(f"Badly formed message {message}") from err
-
-
-def groupsize(**kwargs) -> int:
-    """
-    Get number of grouped items in generated payload arguments.
-    e.g. {svid_01=7, svid_02=8, svid_03=24} -> 3
-
-    :param dict kwargs: payload arguments
-    :return: group size
-    :rtype: int
-    """
-
-    idx = 0
-    for a in kwargs:
-        ai = a.split("_", 1)
-        if len(ai) > 1:
-            idx = max(idx, int(ai[1]))
-    return idx
-
-
-def haversine(
-    lat1: float,
-    lon1: float,
-    lat2: float,
-    lon2: float,
-    radius: float = WGS84_SMAJ_AXIS / 1000,
-) -> float:
-    """
-    Calculate spherical distance in km between two coordinates using haversine formula.
-
-    NB suitable for coordinates greater than around 50m apart. For
-    smaller separations, use the planar approximation formula.
-
-    :param float lat1: lat1
-    :param float lon1: lon1
-    :param float lat2: lat2
-    :param float lon2: lon2
-    :param float radius: radius in km (Earth = 6378.137 km)
-    :return: spherical distance in km
-    :rtype: float
-    """
-
-    phi1, lambda1, phi2, lambda2 = [c * pi / 180 for c in (lat1, lon1, lat2, lon2)]
-    dist = radius * acos(
-        cos(phi2 - phi1) - cos(phi1) * cos(phi2) * (1 - cos(lambda2 - lambda1))
-    )
-
-    return dist
-
-
-def hex2str(num: int, padding: int = 0) -> str:
-    """
-    Convert hex integer to padded or unpadded string format,
-    as used by some proprietary NMEA message types.
-
-    :param int num: hexadecimal integer
-    :param padding: no of padded digits (0)
-    :return: integer as string
-    :rtype: str
-    """
-
-    pad = f"{padding:02d}" if padding else ""
-    return f"{num:{pad}x}".upper()
-
-
-def knots2spd(knots: float, unit: str = "MS") -> float:
-    """
-    Convert speed in knots to speed in specified units.
-
-    :param float knots: knots
-    :param unit str: 'MS' (default), 'FS', MPH', 'KMPH'
-    :return: speed in m/s, feet/s, mph or kmph
-    :rtype: float
-
-    """
-
-    try:
-        return knots * KNOTSCONV[unit.upper()]
-    except KeyError as err:
-        raise KeyError(
-            f"Invalid conversion unit {unit.upper()} - must be in {list(KNOTSCONV.keys())}."
-        ) from err
-    except TypeError as err:
-        raise TypeError(
-            f"Invalid knots value {knots} - must be float or integer."
-        ) from err
-
-
-def latlon2dmm(lat: float, lon: float) -> tuple[str, str]:
-    """
-    Converts decimal lat/lon tuple to degrees decimal minutes.
-
-    :param float lat: lat
-    :param float lon: lon
-    :return: (lat,lon) in d.mm.m format
-    :rtype: tuple[str, str]
-    """
-
-    latd = deg2dmm(lat, LA)
-    lond = deg2dmm(lon, LN)
-    return latd, lond
-
-
-def latlon2dms(lat: float, lon: float) -> tuple[str, str]:
-    """
-    Converts decimal lat/lon tuple to degrees minutes seconds.
-
-    :param float lat: lat
-    :param float lon: lon
-    :return: (lat,lon) in d.m.s. format
-    :rtype: tuple[str, str]
-    """
-
-    latd = deg2dms(lat, LA)
-    lond = deg2dms(lon, LN)
-    return latd, lond
-
-
-def leapsecond(dat: datetime, gnss: Literal["G", "E", "C", "J", "I"] = GPS) -> int:
-    """
-    Get leapsecond offset effective at given GNSS epoch and
-    time system. If supplied datetime is timezone naive,
-    UTC will be inferred.
-
-    G = GPS, E = Galileo, C = Beidou, J = QZSS, I = IRNSS (NavIC)
-
-    Note: GLONASS is a non-continuous time system which already
-    takes into account UTC leapseconds.
-
-    Refer to LEAPSECONDS reference table.
-
-    :param datetime.datetime dat: effective date
-    :param Literal["G","E","C","J","I"] gnss: GNSS time system e.g. "G"
-    :return: leapsecond offset
-    :rtype: int
-    """
-
-    def totsec(dt) -> int:
-        return (dt - LEAPS0).total_seconds()
-
-    if dat.tzinfo is None:
-        dat = dat.replace(tzinfo=timezone.utc)
-
-    ep0 = EPOCH0_BEIDOU if gnss == BDS else EPOCH0_GPS
-
-    if totsec(dat) < LEAPSECONDS[0][0]:
-        return 0
-
-    dts = []
-    for dt in (dat, ep0):
-        dts.append(max((val for key, val in LEAPSECONDS if key <= totsec(dt))))
-    return dts[0] - dts[1]
-
-
-def llh2ecef(
-    lat: float,
-    lon: float,
-    height: float,
-    a: float = WGS84_SMAJ_AXIS,
-    f: float = WGS84_FLATTENING,
-) -> tuple:
-    """
-    Convert geodetic coordinates (LLH) to ECEF.
-
-    :param float lat: lat in degrees
-    :param float lon: lon on degrees
-    :param float height: ellipsoidal height in metres
-    :param float a: semi-major axis (6378137.0 for WGS84)
-    :param float f: flattening (298.257223563 for WGS84)
-    :return: tuple of ECEF (X, Y, Z) as floats
-    :rtype: tuple
-    """
-
-    lat, lon = [c * pi / 180 for c in (lat, lon)]
-
-    f = 1 / f
-    e2 = f * (2 - f)
-    a2 = a**2
-    b2 = a2 * (1 - e2)
-
-    N = a / sqrt(1 - e2 * sin(lat) ** 2)
-    x = (N + height) * cos(lat) * cos(lon)
-    y = (N + height) * cos(lat) * sin(lon)
-    z = ((b2 / a2) * N + height) * sin(lat)
-
-    return x, y, z
-
-
-def llh2iso6709(lat: float, lon: float, alt: float, crs: str = WGS84) -> str:
-    """
-    Convert decimal degrees and alt to ISO6709 format
-    e.g. "+27.5916+086.5640+8850CRSWGS_84/".
-
-    :param float lat: latitude
-    :param float lon: longitude
-    :param float alt: altitude (hMSL)
-    :param float crs: coordinate reference system (default = WGS_84)
-    :return: position in ISO6709 format
-    :rtype: str
-
-    """
-
-    lati, loni, alti = ["-" if c < 0 else "+" for c in (lat, lon, alt)]
-    return f"{lati}{abs(lat)}{loni}{abs(lon)}{alti}{alt}CRS{crs}/"
-
-
-def msgdesc(msgID: str) -> str:
-    """
-    Return descriptive string for NMEA msgId.
-
-    :param msgID str: message ID e.g. 'GGA'
-    :return: description of message
-    :rtype: str
-
-    """
-    # pylint: disable=invalid-name
-
-    if msgID in NMEA_MSGIDS:
-        return NMEA_MSGIDS[msgID]
-    if msgID in NMEA_MSGIDS_PROP:
-        return NMEA_MSGIDS_PROP[msgID]
-    return f"Unknown msgID {msgID}"
-
-
-def planar(
-    lat1: float,
-    lon1: float,
-    lat2: float,
-    lon2: float,
-    radius: float = WGS84_SMAJ_AXIS,
-) -> float:
-    """
-    Calculate planar distance between two coordinates using planar
-    approximation formula.
-
-    NB suitable for coordinates less than around 50m apart. For
-    larger separations, use the haversine great circle formula.
-
-    :param float lat1: lat1
-    :param float lon1: lon1
-    :param float lat2: lat2
-    :param float lon2: lon2
-    :param float radius: radius in m (Earth = 6378137 m)
-    :return: planar distance in m
-    :rtype: float
-    """
-
-    phi1, lambda1, phi2, lambda2 = [c * pi / 180 for c in (lat1, lon1, lat2, lon2)]
-    dlambda = (lambda2 - lambda1) * cos(phi1)
-    dphi = phi2 - phi1
-    dist = radius * sqrt(dlambda * dlambda + dphi * dphi)
-
-    return dist
-
-
-def time2str(tim: datetime) -> str:
-    """
-    Convert datetime.time to NMEA formatted string.
-
-    :param datetime.time tim: time
-    :return: NMEA formatted time string hhmmss.ss or "" if invalid
-    :rtype: str
-    """
-
-    try:
-        return tim.strftime("%H%M%S.%f")[0:9]
-    except (AttributeError, TypeError, ValueError):
-        return ""
-
-
-def time2utc(times: str) -> datetime | str:
-    """
-    Convert NMEA Time to UTC datetime.
-
-    :param str times: NMEA time hhmmss.ss
-    :return: UTC time hh:mm:ss.ss or "" if invalid
-    :rtype: datetime.time | str
-    """
-
-    try:
-        if len(times) == 6:  # decimal seconds is omitted
-            times = times + ".00"
-        utc = datetime.strptime(times, "%H%M%S.%f")
-        return utc.time()
-    except (TypeError, ValueError):
-        return ""
-
-
-def utc2wnotow(
-    utc: datetime | NoneType = None,
-    gnss: Literal["G", "E", "C", "J", "I"] = GPS,
-    modwno: bool = True,
-) -> tuple[int, int, int]:
-    """
-    Get Week number (wno), Time of Week (tow) in milliseconds
-    and leapsecond offset for given GNSS UTC epoch and time system.
-
-    G = GPS, E = Galileo, C = Beidou, J = QZSS, I = IRNSS (NavIC)
-    
-    Note: GLONASS does not use GPS-style wno or tow.
-
-    If `utc` is None, will default to current UTC datetime.
-
-    :param datetime | NoneType utc: UTC epoch
-    :param Literal["G","E","C","J","I"] = GPS) gnss: \
-        GNSS time system (GPS)
-    :param bool modwno: True = modular wno, False = continuous wno
-    :return: wno, tow, leapsecond
-    :rtype: tuple[int, int, int]
-    """
-
-    if utc is None:
-        utc = datetime.now(tz=timezone.utc)
-    if utc.tzinfo is None:
-        utc = utc.replace(tzinfo=timezone.utc)
-
-    if gnss == BDS:
-        ep0 = EPOCH0_BEIDOU
-        rollover = 8192
-    elif gnss == GAL:
-        ep0 = EPOCH0_GAL
-        rollover = 4096
-    elif gnss == IRN:
-        ep0 = EPOCH0_IRN
-        rollover = 1024
-    else:
-        ep0 = EPOCH0_GPS
-        rollover = 1024
-
-    ls = 0 if gnss == GLO else leapsecond(utc, gnss)
-    ts = ((utc - ep0).total_seconds() + ls) * 1000
-    wno = floor((utc - ep0).days / 7)
-    wnom = wno % rollover
-    tow = int(ts - wno * 604800000)
-    return wnom if modwno else wno, tow, ls
-
-
-def wnotow2utc(
-    wno: int,
-    tow: int,
-    ls: int | NoneType = None,
-    gnss: Literal["G", "E", "C", "J", "I"] = GPS,
-    autoroll: bool = False,
-    modwno: bool = True,
-) -> datetime:
-    """
-    Convert week number and seconds of week (expressed as
-    milliseconds) for given GNSS epoch to UTC time.
-
-    G = GPS, E = Galileo, C = Beidou, J = QZSS, I = IRNSS (NavIC)
-
-    Note: GLONASS does not use GPS-style wno or tow.
-
-    If `ls` is None (the default), leapsecond offset will be
-    automatically derived from NTC reference table.
-
-    If `autoroll` is True, rolls over modular wno to LATEST
-    date less than current date.
-
-    e.g. if current date is 2026-04-17:
-
-    wno=366, tow=381600000, gnss=GPS gives...
-
-    - autoroll on:  2026-04-16 09:59:42+00:00
-    - autoroll off: 1987-01-15 09:59:56+00:00
-
-    wno=368, tow=610000000, gnss=GPS gives...
-
-    - autoroll on:  2006-09-17 01:26:26+00:00
-    - autoroll off: 1987-02-01 01:26:36+00:00
-
-    :param int wno: week number (modular or mon-modular)
-    :param int tow: time of week in milliseconds (mod 604,800,000)
-    :param int | NoneType ls: leapsecond offset (will be derived if None) (None)
-    :param Literal["G","E","C","J","I"] = GPS) gnss: GNSS time system (GPS)
-    :param bool autoroll: automatic rollover (False)
-    :param bool modwno: True = modular wno, False = continuous wno
-    :return: GNSS epoch as UTC datetime
-    :rtype: datetime
-    """
-
-    if gnss == BDS:
-        ep0 = EPOCH0_BEIDOU
-        rollover = 8192
-    elif gnss == GAL:
-        ep0 = EPOCH0_GAL
-        rollover = 4096
-    elif gnss == IRN:
-        ep0 = EPOCH0_IRN
-        rollover = 1024
-    else:
-        ep0 = EPOCH0_GPS
-        rollover = 1024
-    wno = wno % rollover if modwno else wno
-    tow %= 604800000
-    current = datetime.now(timezone.utc)
-    i = 0
-    while True:
-        utc = ep0 + timedelta(days=(wno + (i * rollover)) * 7, milliseconds=tow)
-        if gnss != GLO:  # apply leapsecond offset
-            lps = leapsecond(utc, gnss) if ls is None else ls
-            utc -= timedelta(seconds=lps)
-        if not autoroll:
-            break
-        if utc + timedelta(days=rollover * 7) > current:
-            break
-        i += 1
-    return utc
+"""
+Collection of NMEA helper methods which can be used
+outside the NMEAMessage or NMEAReader classes
+
+Created on 04 Mar 2021
+
+:author: semuadmin (Steve Smith)
+:copyright: semuadmin © 2021
+:license: BSD 3-Clause
+"""
+
+# pylint: disable=invalid-name
+
+import re
+from datetime import datetime, timedelta, timezone
+from math import acos, asin, atan2, cos, pi, sin, sqrt
+from types import NoneType
+from typing import Literal
+
+import pynmeagps.exceptions as nme
+from pynmeagps.nmeatypes_core import (
+    BDS,
+    DM,
+    DT,
+    DTL,
+    EPOCH0_BEIDOU,
+    EPOCH0_GAL,
+    EPOCH0_GPS,
+    EPOCH0_IRN,
+    GAL,
+    GLO,
+    GPS,
+    IRN,
+    LA,
+    LN,
+    NMEA_MSGIDS,
+    NMEA_MSGIDS_PROP,
+    WGS84,
+    WGS84_FLATTENING,
+    WGS84_SMAJ_AXIS,
+)
+
+KNOTSCONV = {"MS": 0.5144447324, "FS": 1.68781084, "MPH": 1.15078, "KMPH": 1.852001}
+LEAPS0 = datetime(1900, 1, 1, 0, 0, 0, tzinfo=timezone.utc)
+LEAPSECONDS = [
+    (2272060800, 10),  # 1 Jan 1972
+    (2287785600, 11),  # 1 Jul 1972
+    (2303683200, 12),  # 1 Jan 1973
+    (2335219200, 13),  # 1 Jan 1974
+    (2366755200, 14),  # 1 Jan 1975
+    (2398291200, 15),  # 1 Jan 1976
+    (2429913600, 16),  # 1 Jan 1977
+    (2461449600, 17),  # 1 Jan 1978
+    (2492985600, 18),  # 1 Jan 1979
+    (2524521600, 19),  # 1 Jan 1980
+    (2571782400, 20),  # 1 Jul 1981
+    (2603318400, 21),  # 1 Jul 1982
+    (2634854400, 22),  # 1 Jul 1983
+    (2698012800, 23),  # 1 Jul 1985
+    (2776982400, 24),  # 1 Jan 1988
+    (2840140800, 25),  # 1 Jan 1990
+    (2871676800, 26),  # 1 Jan 1991
+    (2918937600, 27),  # 1 Jul 1992
+    (2950473600, 28),  # 1 Jul 1993
+    (2982009600, 29),  # 1 Jul 1994
+    (3029443200, 30),  # 1 Jan 1996
+    (3076704000, 31),  # 1 Jul 1997
+    (3124137600, 32),  # 1 Jan 1999
+    (3345062400, 33),  # 1 Jan 2006
+    (3439756800, 34),  # 1 Jan 2009
+    (3550089600, 35),  # 1 Jul 2012
+    (3644697600, 36),  # 1 Jul 2015
+    (3692217600, 37),  # 1 Jan 2017
+]
+"""
+Leapsecond reference table from NTC - Updated through IERS Bulletin C69
+https://hpiers.obspm.fr/iers/bul/bulc/ntp/leap-seconds.list
+File expires on: 28 December 2026
+"""
+
+
+def area(
+    lat1: float,
+    lon1: float,
+    lat2: float,
+    lon2: float,
+    radius: float = WGS84_SMAJ_AXIS / 1000,
+) -> float:
+    """
+    Calculate spherical area bounded by two coordinates.
+
+    :param float lat1: lat1
+    :param float lon1: lon1
+    :param float lat2: lat2
+    :param float lon2: lon2
+    :param float radius: radius in km (Earth = 6378.137 km)
+    :return: area in km²
+    :rtype: float
+    """
+
+    phi1, phi2 = [c * pi / 180 for c in (lat1, lat2)]
+    return pow(radius, 2) * pi * abs(sin(phi1) - sin(phi2)) * abs(lon1 - lon2) / 180
+
+
+def bearing(lat1: float, lon1: float, lat2: float, lon2: float) -> float:
+    """
+    Calculate bearing between two coordinates.
+
+    :param float lat1: lat1
+    :param float lon1: lon1
+    :param float lat2: lat2
+    :param float lon2: lon2
+    :return: bearing in degrees
+    :rtype: float
+    """
+
+    phi1, lambda1, phi2, lambda2 = [c * pi / 180 for c in (lat1, lon1, lat2, lon2)]
+    y = sin(lambda2 - lambda1) * cos(phi2)
+    x = cos(phi1) * sin(phi2) - sin(phi1) * cos(phi2) * cos(lambda2 - lambda1)
+    theta = atan2(y, x)
+    brng = (theta * 180 / pi + 360) % 360
+
+    return brng
+
+
+def calc_checksum(content: str) -> str:
+    """
+    Calculate checksum for raw NMEA message.
+
+    :param str content: NMEA message content (everything except checksum)
+    :return: checksum as hex string
+    :rtype: str
+    """
+
+    cksum = 0
+    for sub in content:
+        cksum ^= ord(sub)
+    return f"{cksum:02X}"
+
+
+def date2str(dat: datetime.date, form: Literal["DT", "DTL", "DM"] = DT) -> str:
+    """
+    Convert datetime.date to NMEA formatted string.
+
+    :param datetime.date dat: date
+    :param Literal["DT","DTL","DM"] form: date format DT = ddmmyy, DTL = ddmmyyyy,
+        DM = mmddyy (DT)
+    :return: NMEA formatted date string
+    :rtype: str
+    """
+
+    try:
+        if form == DM:
+            dform = "%m%d%y"
+        elif form == DTL:
+            dform = "%d%m%Y"
+        else:
+            dform = "%d%m%y"
+        return dat.strftime(dform)
+    except (AttributeError, TypeError, ValueError):
+        return ""
+
+
+def date2utc(dates: str, form: Literal["DT", "DTL", "DM"] = DT) -> datetime.date:
+    """
+    Convert NMEA Date to UTC datetime.
+
+    :param str dates: NMEA date
+    :param Literal["DT","DTL","DM"] form: date format DT = ddmmyy, DTL = ddmmyyyy,
+        DM = mmddyy (DT)
+    :return: UTC date YYyy:mm:dd
+    :rtype: datetime.date
+    """
+
+    try:
+        if form == "DM":
+            dform = "%m%d%y"
+        elif form == "DTL":
+            dform = "%d%m%Y"
+        else:
+            dform = "%d%m%y"
+        utc = datetime.strptime(dates, dform)
+        return utc.date()
+    except (TypeError, ValueError):
+        return ""
+
+
+def ddd2dmm(degrees: float, att: Literal["LA", "LN"], hpmode: bool = False) -> str:
+    """
+    Convert decimal degrees to native NMEA degrees decimal
+    minutes string (NB: standard NMEA only supports 5dp
+    minutes precision - a high precision mode offers 7dp
+    precision but this may not be accepted by all NMEA parsers).
+
+    :param float degrees: degrees
+    :param Literal["LA","LN"] att: 'LA' (lat) or 'LN' (lon)
+    :param bool hpmode: high precision mode (7dp rather than 5dp)
+    :return: degrees as (d)ddmm.mmmmm(mm) formatted string
+    :rtype: str
+
+    """
+
+    try:
+        degrees = abs(degrees)
+        degrees, minutes = divmod(degrees * 60, 60)
+        degrees = int(degrees * 100)
+        if hpmode:
+            if att == LA:
+                dmm = f"{degrees + minutes:.7f}".zfill(12)
+            else:  # LN
+                dmm = f"{degrees + minutes:.7f}".zfill(13)
+        else:
+            if att == LA:
+                dmm = f"{degrees + minutes:.5f}".zfill(10)
+            else:  # LN
+                dmm = f"{degrees + minutes:.5f}".zfill(11)
+        return dmm
+    except (TypeError, ValueError):
+        return ""
+
+
+def deg2dmm(degrees: float, att: Literal["LA", "LN"]) -> str:
+    """
+    Convert decimal degrees to degrees decimal minutes string
+    e.g. '51°20.76′S'.
+
+    :param float degrees: degrees
+    :param Literal["LA","LN"] att: 'LA' (lat) or 'LN' (lon)
+    :return: degrees as dm.m formatted string
+    :rtype: str
+
+    """
+
+    try:
+        negative = degrees < 0
+        degrees = abs(degrees)
+        degrees, minutes = divmod(degrees * 60, 60)
+        if negative:
+            sfx = "S" if att == LA else "W"
+        else:
+            sfx = "N" if att == LA else "E"
+        return f"{int(degrees)}\u00b0{round(minutes,7)}\u2032{sfx}"
+    except (TypeError, ValueError):
+        return ""
+
+
+def deg2dms(degrees: float, att: Literal["LA", "LN"]) -> str:
+    """
+    Convert decimal degrees to degrees minutes seconds string
+    e.g. '51°20′45.6″N'
+
+    :param float degrees: degrees
+    :param Literal["LA","LN"] att: 'LA' (lat) or 'LN' (lon)
+    :return: degrees as d.m.s formatted string
+    :rtype: str
+
+    """
+
+    try:
+        negative = degrees < 0
+        degrees = abs(degrees)
+        minutes, seconds = divmod(degrees * 3600, 60)
+        degrees, minutes = divmod(minutes, 60)
+        if negative:
+            sfx = "S" if att == LA else "W"
+        else:
+            sfx = "N" if att == LA else "E"
+        return f"{int(degrees)}\u00b0{int(minutes)}\u2032{round(seconds,5)}\u2033{sfx}"
+    except (TypeError, ValueError):
+        return ""
+
+
+def dmm2ddd(pos: str) -> float | str:
+    """
+    Convert NMEA lat/lon string to (unsigned) decimal degrees.
+
+    :param str pos: (d)ddmm.mmmmm
+    :return: pos as decimal degrees, or "" if invalid
+    :rtype: float | str
+
+    """
+
+    try:
+        dp = pos.find(".")
+        if dp < 4:
+            raise ValueError()
+        posdeg = abs(float(pos[0 : dp - 2]))
+        posmin = float(pos[dp - 2 :])
+        return round((posdeg + posmin / 60), 10)
+    except (TypeError, ValueError):
+        return ""
+
+
+def dms2deg(
+    dmsstr: str,
+    rnd: int = 7,
+) -> float:
+    """
+    Convert degrees, minutes, seconds string to decimal degrees.
+
+    Expects degrees and (optional) minutes and seconds to be delimited by
+    non-numeric char, e.g.
+
+    '51°20′45.6″N' -> 51.346
+
+    '51°30.0′' -> 51.5
+
+    :param str dmsstr: d,m,s string
+    :param int rnd: decimal places (7)
+    :return: degrees as d.dd
+    :rtype: float
+    :raises: ValueError if invalid dms string format
+    """
+
+    dmsstr = dmsstr.replace(" ", "")
+    if (
+        re.match(
+            r"^([\d.]+[^\d.]{1}){1}([\d.]+[^\d.]{1})?([\d.]+[^\d.]{1})?[NSEW]?$", dmsstr
+        )
+        is None
+    ):
+        raise ValueError(f"Invalid dms string format {dmsstr}")
+
+    sign = -1 if dmsstr.find("S") >= 0 or dmsstr.find("W") >= 0 else 1
+    dms = re.split(r"[^\d.]", dmsstr, maxsplit=3)
+    ddd = 0.0
+    for x in range(len(dms) - 1):
+        ddd += 0.0 if dms[x] == "" else float(dms[x]) / pow(60, x)
+    return round(ddd * sign, rnd)
+
+
+def ecef2llh(
+    x: float,
+    y: float,
+    z: float,
+    a: float = WGS84_SMAJ_AXIS,
+    f: float = WGS84_FLATTENING,
+) -> tuple:
+    """
+    Convert ECEF coordinates to geodetic (LLH) using Olson algorithm.
+
+    Olson, D. K. (1996). Converting Earth-Centered, Earth-Fixed Coordinates to
+    Geodetic Coordinates. IEEE Transactions on Aerospace and Electronic Systems,
+    32(1), 473-476. https://doi.org/10.1109/7.481290
+
+    :param float x: X coordinate
+    :param float y: Y coordinate
+    :param float z: Z coordinate
+    :param float a: semi-major axis (6378137.0 for WGS84)
+    :param float f: flattening (298.257223563 for WGS84)
+    :return: tuple of (lat, lon, ellipsoidal height in m) as floats
+    :rtype: tuple
+    """
+    # pylint: disable=too-many-locals
+
+    # commented default values are for WGS84 spheroid
+    f = 1 / f
+    e2 = f * (2 - f)  # 6.6943799901377997e-3
+    a1 = a * e2  # 4.2697672707157535e4
+    a2 = a1 * a1  # 1.8230912546075455e9
+    a3 = a1 * e2 / 2  # 1.8230912546075455e9
+    a4 = 2.5 * a2  # 4.5577281365188637e9
+    a5 = a1 + a3  # 4.2840589930055659e4
+    a6 = 1 - e2  # 9.9330562000986220e-1
+    zp = abs(z)
+    w2 = x * x + y * y
+    w = sqrt(w2)
+    z2 = z * z
+    r2 = w2 + z2
+    r = sqrt(r2)
+
+    # algorithm inaccurate near Earth's core
+    # so nominal value returned
+    if r < 100000.0:
+        return 0.0, 0.0, -1.0e7
+
+    lon = atan2(y, x)
+    s2 = z2 / r2
+    c2 = w2 / r2
+    u = a2 / r
+    v = a3 - a4 / r
+    if c2 > 0.3:
+        s = (zp / r) * (1.0 + c2 * (a1 + u + s2 * v) / r)
+        lat = asin(s)
+        ss = s * s
+        c = sqrt(1.0 - ss)
+    else:
+        c = (w / r) * (1.0 - s2 * (a5 - u - c2 * v) / r)
+        lat = acos(c)
+        ss = 1.0 - c * c
+        s = sqrt(ss)
+    g = 1.0 - e2 * ss
+    rg = a / sqrt(g)
+    rf = a6 * rg
+    u = w - rg * c
+    v = zp - rf * s
+    f = c * u + s * v
+    m = c * v - s * u
+    p = m / (rf / g + f)
+    lat = lat + p
+    height = f + m * p / 2.0
+    if z < 0.0:
+        lat = -lat
+
+    lat, lon = [c * 180 / pi for c in (lat, lon)]
+    return lat, lon, height
+
+
+def generate_checksum(talker: str, msgID: str, payload: list) -> str:
+    """
+    Generate checksum for new NMEA message.
+
+    :param str talker: talker e.g. "GN"
+    :param str msgID: msgID e.g. "GLL"
+    :param list payload: payload as list
+    :return: checksum as hex string
+    :rtype: str
+    """
+
+    content = talker + msgID
+    for field in payload:
+        content += f",{field}"
+    return calc_checksum(content)
+
+
+def get_parts(message: object) -> tuple:
+    """
+    Get content, talker, msgid, payload and checksum of raw NMEA message.
+
+    :param object message: entire message as bytes or string
+    :return: tuple of (content, talker, msgID, payload as list, checksum)
+    :rtype: tuple
+    :raises: NMEAMessageError (if message is badly formed)
+    """
+
+    try:
+        if isinstance(message, bytes):
+            message = message.decode("utf-8")
+        content, cksum = message.strip("$\r\n").split("*", 1)
+        hdr, *payload = content.split(",")
+        s = 1 if hdr[:1] == "P" else 2
+        talker, msgid = hdr[:s], hdr[s:]
+        return content, talker, msgid, payload, cksum
+    except Exception as err:
+        raise nme.NMEAMessageError(f"Badly formed message {message}") from err
+
+
+def groupsize(**kwargs) -> int:
+    """
+    Get number of grouped items in generated payload arguments.
+    e.g. {svid_01=7, svid_02=8, svid_03=24} -> 3
+
+    :param dict kwargs: payload arguments
+    :return: group size
+    :rtype: int
+    """
+
+    idx = 0
+    for a in kwargs:
+        ai = a.split("_", 1)
+        if len(ai) > 1:
+            idx = max(idx, int(ai[1]))
+    return idx
+
+
+def haversine(
+    lat1: float,
+    lon1: float,
+    lat2: float,
+    lon2: float,
+    radius: float = WGS84_SMAJ_AXIS / 1000,
+) -> float:
+    """
+    Calculate spherical distance in km between two coordinates using haversine formula.
+
+    NB suitable for coordinates greater than around 50m apart. For
+    smaller separations, use the planar approximation formula.
+
+    :param float lat1: lat1
+    :param float lon1: lon1
+    :param float lat2: lat2
+    :param float lon2: lon2
+    :param float radius: radius in km (Earth = 6378.137 km)
+    :return: spherical distance in km
+    :rtype: float
+    """
+
+    phi1, lambda1, phi2, lambda2 = [c * pi / 180 for c in (lat1, lon1, lat2, lon2)]
+    dist = radius * acos(
+        cos(phi2 - phi1) - cos(phi1) * cos(phi2) * (1 - cos(lambda2 - lambda1))
+    )
+
+    return dist
+
+
+def hex2str(num: int, padding: int = 0) -> str:
+    """
+    Convert hex integer to padded or unpadded string format,
+    as used by some proprietary NMEA message types.
+
+    :param int num: hexadecimal integer
+    :param padding: no of padded digits (0)
+    :return: integer as string
+    :rtype: str
+    """
+
+    pad = f"{padding:02d}" if padding else ""
+    return f"{num:{pad}x}".upper()
+
+
+def knots2spd(knots: float, unit: str = "MS") -> float:
+    """
+    Convert speed in knots to speed in specified units.
+
+    :param float knots: knots
+    :param unit str: 'MS' (default), 'FS', MPH', 'KMPH'
+    :return: speed in m/s, feet/s, mph or kmph
+    :rtype: float
+
+    """
+
+    try:
+        return knots * KNOTSCONV[unit.upper()]
+    except KeyError as err:
+        raise KeyError(
+            f"Invalid conversion unit {unit.upper()} - must be in {list(KNOTSCONV.keys())}."
+        ) from err
+    except TypeError as err:
+        raise TypeError(
+            f"Invalid knots value {knots} - must be float or integer."
+        ) from err
+
+
+def latlon2dmm(lat: float, lon: float) -> tuple[str, str]:
+    """
+    Converts decimal lat/lon tuple to degrees decimal minutes.
+
+    :param float lat: lat
+    :param float lon: lon
+    :return: (lat,lon) in d.mm.m format
+    :rtype: tuple[str, str]
+    """
+
+    latd = deg2dmm(lat, LA)
+    lond = deg2dmm(lon, LN)
+    return latd, lond
+
+
+def latlon2dms(lat: float, lon: float) -> tuple[str, str]:
+    """
+    Converts decimal lat/lon tuple to degrees minutes seconds.
+
+    :param float lat: lat
+    :param float lon: lon
+    :return: (lat,lon) in d.m.s. format
+    :rtype: tuple[str, str]
+    """
+
+    latd = deg2dms(lat, LA)
+    lond = deg2dms(lon, LN)
+    return latd, lond
+
+
+def leapsecond(dat: datetime, gnss: Literal["G", "E", "C", "J", "I"] = GPS) -> int:
+    """
+    Get leapsecond offset effective at given GNSS epoch and
+    time system. If supplied datetime is timezone naive,
+    UTC will be inferred.
+
+    G = GPS, E = Galileo, C = Beidou, J = QZSS, I = IRNSS (NavIC)
+
+    Note: GLONASS is a non-continuous time system which already
+    takes into account UTC leapseconds.
+
+    Refer to LEAPSECONDS reference table.
+
+    :param datetime.datetime dat: effective date
+    :param Literal["G","E","C","J","I"] gnss: GNSS time system e.g. "G"
+    :return: leapsecond offset
+    :rtype: int
+    """
+
+    def totsec(dt) -> int:
+        return (dt - LEAPS0).total_seconds()
+
+    if dat.tzinfo is None:
+        dat = dat.replace(tzinfo=timezone.utc)
+
+    ep0 = EPOCH0_BEIDOU if gnss == BDS else EPOCH0_GPS
+
+    if totsec(dat) < LEAPSECONDS[0][0]:
+        return 0
+
+    dts = []
+    for dt in (dat, ep0):
+        dts.append(max((val for key, val in LEAPSECONDS if key <= totsec(dt))))
+    return dts[0] - dts[1]
+
+
+def llh2ecef(
+    lat: float,
+    lon: float,
+    height: float,
+    a: float = WGS84_SMAJ_AXIS,
+    f: float = WGS84_FLATTENING,
+) -> tuple:
+    """
+    Convert geodetic coordinates (LLH) to ECEF.
+
+    :param float lat: lat in degrees
+    :param float lon: lon on degrees
+    :param float height: ellipsoidal height in metres
+    :param float a: semi-major axis (6378137.0 for WGS84)
+    :param float f: flattening (298.257223563 for WGS84)
+    :return: tuple of ECEF (X, Y, Z) as floats
+    :rtype: tuple
+    """
+
+    lat, lon = [c * pi / 180 for c in (lat, lon)]
+
+    f = 1 / f
+    e2 = f * (2 - f)
+    a2 = a**2
+    b2 = a2 * (1 - e2)
+
+    N = a / sqrt(1 - e2 * sin(lat) ** 2)
+    x = (N + height) * cos(lat) * cos(lon)
+    y = (N + height) * cos(lat) * sin(lon)
+    z = ((b2 / a2) * N + height) * sin(lat)
+
+    return x, y, z
+
+
+def llh2iso6709(lat: float, lon: float, alt: float, crs: str = WGS84) -> str:
+    """
+    Convert decimal degrees and alt to ISO6709 format
+    e.g. "+27.5916+086.5640+8850CRSWGS_84/".
+
+    :param float lat: latitude
+    :param float lon: longitude
+    :param float alt: altitude (hMSL)
+    :param float crs: coordinate reference system (default = WGS_84)
+    :return: position in ISO6709 format
+    :rtype: str
+
+    """
+
+    lati, loni, alti = ["-" if c < 0 else "+" for c in (lat, lon, alt)]
+    return f"{lati}{abs(lat)}{loni}{abs(lon)}{alti}{alt}CRS{crs}/"
+
+
+def msgdesc(msgID: str) -> str:
+    """
+    Return descriptive string for NMEA msgId.
+
+    :param msgID str: message ID e.g. 'GGA'
+    :return: description of message
+    :rtype: str
+
+    """
+    # pylint: disable=invalid-name
+
+    if msgID in NMEA_MSGIDS:
+        return NMEA_MSGIDS[msgID]
+    if msgID in NMEA_MSGIDS_PROP:
+        return NMEA_MSGIDS_PROP[msgID]
+    return f"Unknown msgID {msgID}"
+
+
+def planar(
+    lat1: float,
+    lon1: float,
+    lat2: float,
+    lon2: float,
+    radius: float = WGS84_SMAJ_AXIS,
+) -> float:
+    """
+    Calculate planar distance between two coordinates using planar
+    approximation formula.
+
+    NB suitable for coordinates less than around 50m apart. For
+    larger separations, use the haversine great circle formula.
+
+    :param float lat1: lat1
+    :param float lon1: lon1
+    :param float lat2: lat2
+    :param float lon2: lon2
+    :param float radius: radius in m (Earth = 6378137 m)
+    :return: planar distance in m
+    :rtype: float
+    """
+
+    phi1, lambda1, phi2, lambda2 = [c * pi / 180 for c in (lat1, lon1, lat2, lon2)]
+    dlambda = (lambda2 - lambda1) * cos(phi1)
+    dphi = phi2 - phi1
+    dist = radius * sqrt(dlambda * dlambda + dphi * dphi)
+
+    return dist
+
+
+def time2str(tim: datetime) -> str:
+    """
+    Convert datetime.time to NMEA formatted string.
+
+    :param datetime.time tim: time
+    :return: NMEA formatted time string hhmmss.ss or "" if invalid
+    :rtype: str
+    """
+
+    try:
+        return tim.strftime("%H%M%S.%f")[0:9]
+    except (AttributeError, TypeError, ValueError):
+        return ""
+
+
+def time2utc(times: str) -> datetime | str:
+    """
+    Convert NMEA Time to UTC datetime.
+
+    :param str times: NMEA time hhmmss.ss
+    :return: UTC time hh:mm:ss.ss or "" if invalid
+    :rtype: datetime.time | str
+    """
+
+    try:
+        if len(times) == 6:  # decimal seconds is omitted
+            times = times + ".00"
+        utc = datetime.strptime(times, "%H%M%S.%f")
+        return utc.time()
+    except (TypeError, ValueError):
+        return ""
+
+
+def utc2wnotow(
+    utc: datetime | NoneType = None,
+    gnss: Literal["G", "E", "C", "J", "I"] = GPS,
+    modwno: bool = True,
+) -> tuple[int, int, int]:
+    """
+    Get Week number (wno), Time of Week (tow) in milliseconds
+    and leapsecond offset for given GNSS UTC epoch and time system.
+
+    G = GPS, E = Galileo, C = Beidou, J = QZSS, I = IRNSS (NavIC)
+    
+    Note: GLONASS does not use GPS-style wno or tow.
+
+    If `utc` is None, will default to current UTC datetime.
+
+    :param datetime | NoneType utc: UTC epoch
+    :param Literal["G","E","C","J","I"] = GPS) gnss: \
+        GNSS time system (GPS)
+    :param bool modwno: True = modular wno, False = continuous wno
+    :return: wno, tow, leapsecond
+    :rtype: tuple[int, int, int]
+    """
+
+    if utc is None:
+        utc = datetime.now(tz=timezone.utc)
+    if utc.tzinfo is None:
+        utc = utc.replace(tzinfo=timezone.utc)
+
+    if gnss == BDS:
+        ep0 = EPOCH0_BEIDOU
+        rollover = 8192
+    elif gnss == GAL:
+        ep0 = EPOCH0_GAL
+        rollover = 4096
+    elif gnss == IRN:
+        ep0 = EPOCH0_IRN
+        rollover = 1024
+    else:
+        ep0 = EPOCH0_GPS
+        rollover = 1024
+
+    ls = 0 if gnss == GLO else leapsecond(utc, gnss)
+    ts = (utc - ep0 + timedelta(seconds=ls)) // timedelta(milliseconds=1)
+    wno, tow = divmod(ts, 604800000)
+    wnom = wno % rollover
+    return wnom if modwno else wno, tow, ls
+
+
+def wnotow2utc(
+    wno: int,
+    tow: int,
+    ls: int | NoneType = None,
+    gnss: Literal["G", "E", "C", "J", "I"] = GPS,
+    autoroll: bool = False,
+    modwno: bool = True,
+) -> datetime:
+    """
+    Convert week number and seconds of week (expressed as
+    milliseconds) for given GNSS epoch to UTC time.
+
+    G = GPS, E = Galileo, C = Beidou, J = QZSS, I = IRNSS (NavIC)
+
+    Note: GLONASS does not use GPS-style wno or tow.
+
+    If `ls` is None (the default), leapsecond offset will be
+    automatically derived from NTC reference table.
+
+    If `autoroll` is True, rolls over modular wno to LATEST
+    date less than current date.
+
+    e.g. if current date is 2026-04-17:
+
+    wno=366, tow=381600000, gnss=GPS gives...
+
+    - autoroll on:  2026-04-16 09:59:42+00:00
+    - autoroll off: 1987-01-15 09:59:56+00:00
+
+    wno=368, tow=610000000, gnss=GPS gives...
+
+    - autoroll on:  2006-09-17 01:26:26+00:00
+    - autoroll off: 1987-02-01 01:26:36+00:00
+
+    :param int wno: week number (modular or mon-modular)
+    :param int tow: time of week in milliseconds (mod 604,800,000)
+    :param int | NoneType ls: leapsecond offset (will be derived if None) (None)
+    :param Literal["G","E","C","J","I"] = GPS) gnss: GNSS time system (GPS)
+    :param bool autoroll: automatic rollover (False)
+    :param bool modwno: True = modular wno, False = continuous wno
+    :return: GNSS epoch as UTC datetime
+    :rtype: datetime
+    """
+
+    if gnss == BDS:
+        ep0 = EPOCH0_BEIDOU
+        rollover = 8192
+    elif gnss == GAL:
+        ep0 = EPOCH0_GAL
+        rollover = 4096
+    elif gnss == IRN:
+        ep0 = EPOCH0_IRN
+        rollover = 1024
+    else:
+        ep0 = EPOCH0_GPS
+        rollover = 1024
+    wno = wno % rollover if modwno else wno
+    tow %= 604800000
+    current = datetime.now(timezone.utc)
+    i = 0
+    while True:
+        utc = ep0 + timedelta(days=(wno + (i * rollover)) * 7, milliseconds=tow)
+        if gnss != GLO:  # apply leapsecond offset
+            lps = leapsecond(utc, gnss) if ls is None else ls
+            utc -= timedelta(seconds=lps)
+        if not autoroll:
+            break
+        if utc + timedelta(days=rollover * 7) > current:
+            break
+        i += 1
+    return utc
-- 
2.43.0


From a21d041145379304f0d2e4885abc0d59393fa72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:37 +0000
Subject: [PATCH 05/26] fix: wnotow2utc must autoroll a current week/tow to the
 current date and apply the leapsecond effective at UTC

---
 src/pynmeagps/nmeahelpers.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index dd8af33..351d5ca 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -839,14 +839,18 @@ def wnotow2utc(
     tow %= 604800000
     current = datetime.now(timezone.utc)
     i = 0
+    utc = None
     while True:
-        utc = ep0 + timedelta(days=(wno + (i * rollover)) * 7, milliseconds=tow)
+        nxt = ep0 + timedelta(days=(wno + (i * rollover)) * 7, milliseconds=tow)
         if gnss != GLO:  # apply leapsecond offset
-            lps = leapsecond(utc, gnss) if ls is None else ls
-            utc -= timedelta(seconds=lps)
-        if not autoroll:
+            lps = ls
+            if lps is None:  # offset effective at UTC rather than GNSS epoch
+                lps = leapsecond(nxt - timedelta(seconds=leapsecond(nxt, gnss)), gnss)
+            nxt -= timedelta(seconds=lps)
+        if utc is not None and nxt > current:
             break
-        if utc + timedelta(days=rollover * 7) > current:
+        utc = nxt
+        if not autoroll:
             break
         i += 1
     return utc
-- 
2.43.0


From 3964c01de264ddbfae455dfbf14b76a5faf66535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 06/26] fix: keep PSSN,SNC group delimiters in the payload so
 that the message reserializes as received

---
 src/pynmeagps/nmeamessage.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 6fff47e..1631039 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -242,12 +242,10 @@ class NMEAMessage:
         try:
             # all attribute values have been provided
             if self._streaming:
+                val = self._payload[pindex]
                 # remove group delimiters in proprietary PSSNSNC message
                 if self.identity == "PSSNSNC":
-                    self._payload[pindex] = (
-                        self._payload[pindex].replace("[", "").replace("]", "")
-                    )
-                val = self._payload[pindex]
+                    val = val.replace("[", "").replace("]", "")
                 val = self.str2val(val, att)
             # some attribute values have been provided,
             # the rest will be set to a nominal value
-- 
2.43.0


From 740b84f9f5171f0cad4c88857fc6d4eda8a41e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 07/26] fix: stop attribute deletion and shared payload lists
 from altering an immutable message

---
 src/pynmeagps/nmeamessage.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 1631039..50c3883 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -122,7 +122,7 @@ class NMEAMessage:
         key = ""
 
         try:
-            self._payload = kwargs.get("payload", [])
+            self._payload = list(kwargs.get("payload", []))
             # self._checksum = kwargs.get("checksum", None)
             pdict = self._get_dict(**kwargs)  # get payload definition dict
             if pdict is None:  # definition not yet implemented
@@ -622,6 +622,21 @@ class NMEAMessage:
 
         super().__setattr__(name, value)
 
+    def __delattr__(self, name):
+        """
+        Override delattr to make object immutable after instantiation.
+
+        :param str name: attribute name
+        :raises: NMEAMessageError
+        """
+
+        if self._immutable:
+            raise nme.NMEAMessageError(
+                f"Object is immutable. Deletion of {name} not permitted after initialisation."
+            )
+
+        super().__delattr__(name)
+
     def serialize(self) -> bytes:
         """
         Serialize message.
@@ -697,7 +712,7 @@ class NMEAMessage:
         :rtype: list
         """
 
-        return self._payload
+        return list(self._payload)
 
     @property
     def checksum(self) -> str | NoneType:
-- 
2.43.0


From 7ae4d43236d25156f1b584fb7a2f17301062a3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 08/26] fix: calculate checksum over the transmitted (UTF-8)
 bytes rather than code points

---
 src/pynmeagps/nmeahelpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 351d5ca..a2912fb 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -133,8 +133,8 @@ def calc_checksum(content: str) -> str:
     """
 
     cksum = 0
-    for sub in content:
-        cksum ^= ord(sub)
+    for sub in content.encode("utf-8", "surrogatepass"):
+        cksum ^= sub
     return f"{cksum:02X}"
 
 
-- 
2.43.0


From 48ef73cf12020f218b87b35fad6f74a21dda9aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 09/26] fix: keep a chunk whose terminator is still in transit
 for the next segment

---
 src/pynmeagps/socketwrapper.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/pynmeagps/socketwrapper.py b/src/pynmeagps/socketwrapper.py
index 18358ed..1bbee81 100644
--- a/src/pynmeagps/socketwrapper.py
+++ b/src/pynmeagps/socketwrapper.py
@@ -166,12 +166,17 @@ class SocketWrapper:
             except ValueError:
                 # residual bytes at beginning of stream
                 break
+            chunk = instream.read(chunk_length)
+            if len(chunk) != chunk_length:
+                # premature end of chunk bytes
+                partial = length_bytes + chunk
+                break
+            terminator = instream.readline()
+            if terminator[-1:] != b"\n":
+                # premature end of chunk terminator
+                partial = length_bytes + chunk + terminator
+                break
             if chunk_length != 0:
-                chunk = instream.read(chunk_length)
-                if len(chunk) != chunk_length:
-                    # premature end of chunk bytes
-                    partial = length_bytes + chunk
-                    break
                 try:  # pragma: no cover
                     if self._encoding & ENCODE_GZIP:
                         chunk = decompress(chunk, wbits=MAX_WBITS | 16)
@@ -184,7 +189,6 @@ class SocketWrapper:
                     # parser will discard data
                 chunks += chunk
 
-            instream.readline()
             if chunk_length == 0:
                 # final chunk
                 break
-- 
2.43.0


From b706f4834babf1689745353022ff9e6370fab38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 10/26] fix: take nominal time and date of a new message from a
 single instant

---
 src/pynmeagps/nmeamessage.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 50c3883..2afa2b1 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -105,6 +105,8 @@ class NMEAMessage:
         self._checksum = checksum
         # flag to show message is being streamed rather than generated
         self._streaming = "payload" in kwargs
+        # all nominal date and time attributes are taken from the same instant
+        self._now = datetime.now(timezone.utc)
         self._do_attributes(**kwargs)
         self._immutable = True  # once initialised, object is immutable
 
@@ -261,7 +263,7 @@ class NMEAMessage:
                     else:  # pragma: no cover
                         val = "N"
                 else:
-                    val = kwargs.get(keyr, self.nomval(att, self.msgmode))
+                    val = kwargs.get(keyr, self.nomval(att, self.msgmode, self._now))
                 vals = self.val2str(val, att, self._hpnmeamode)
                 self._payload.append(vals)
 
@@ -815,12 +817,16 @@ class NMEAMessage:
         return vals
 
     @staticmethod
-    def nomval(att: str, msgmode: int = nmt.GET) -> Any:
+    def nomval(
+        att: str, msgmode: int = nmt.GET, now: datetime | NoneType = None
+    ) -> Any:
         """
         Return nominal value for specified attribute type
 
         :param str att: attribute type e.g. 'DE'
         :param int msgmode: message mode GET/SET/POLL
+        :param datetime | NoneType now: UTC datetime for nominal date and time
+            values (defaults to current UTC datetime)
         :return: nominal value for type
         :rtype: Any
         :raises: NMEATypeError
@@ -839,9 +845,9 @@ class NMEAMessage:
         elif att == nmt.IN:
             val = 0
         elif att == nmt.TM:
-            val = datetime.now(timezone.utc).time()
+            val = (now or datetime.now(timezone.utc)).time()
         elif att in (nmt.DT, nmt.DTL, nmt.DM):
-            val = datetime.now(timezone.utc).date()
+            val = (now or datetime.now(timezone.utc)).date()
         elif att == nmt.QS:  # Quectel status attribute
             if msgmode == nmt.POLL:
                 val = "R"  # read
-- 
2.43.0


From 357910e4894c50d38d2d760b669676e587b84c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:26 +0000
Subject: [PATCH 11/26] fix: support streams which only provide a read(n)
 method, as documented

---
 src/pynmeagps/nmeareader.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeareader.py b/src/pynmeagps/nmeareader.py
index 8721277..64bf182 100644
--- a/src/pynmeagps/nmeareader.py
+++ b/src/pynmeagps/nmeareader.py
@@ -195,7 +195,15 @@ class NMEAReader:
         :raises: EOFError if stream ends prematurely
         """
 
-        data = self._stream.readline()  # NMEA protocol is CRLF-terminated
+        if hasattr(self._stream, "readline"):
+            data = self._stream.readline()  # NMEA protocol is CRLF-terminated
+        else:  # stream only supports read(n)
+            data = b""
+            while data[-1:] != b"\x0a":
+                byte = self._stream.read(1)
+                if len(byte) == 0:
+                    break
+                data += byte
         if len(data) == 0:  # EOF
             raise EOFError()  # pragma: no cover
         if data[-1:] != b"\x0a":  # truncated stream
-- 
2.43.0


From a8bcc99368d3d8b7445b390eb8d3066d205b7200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 12/26] fix: make NMEAReader.read() thread-safe, as documented

---
 src/pynmeagps/nmeareader.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/pynmeagps/nmeareader.py b/src/pynmeagps/nmeareader.py
index 64bf182..64563e1 100644
--- a/src/pynmeagps/nmeareader.py
+++ b/src/pynmeagps/nmeareader.py
@@ -27,6 +27,7 @@ Created on 4 Mar 2021
 
 from logging import getLogger
 from socket import socket
+from threading import RLock
 from types import FunctionType, NoneType
 from typing import Literal
 
@@ -96,6 +97,7 @@ class NMEAReader:
         self._mode = msgmode
         self._userdefined = userdefined
         self._logger = getLogger(__name__)
+        self._lock = RLock()  # one reading thread at a time
 
     def __iter__(self):
         """Iterator."""
@@ -127,6 +129,17 @@ class NMEAReader:
 
         """
 
+        with self._lock:
+            return self._read_message()
+
+    def _read_message(self) -> tuple[bytes | NoneType, NMEAMessage | NoneType]:
+        """
+        Read next message from the stream buffer.
+
+        :return: tuple of (raw_data as bytes, parsed_data as NMEAMessage)
+        :rtype: tuple[bytes | NoneType, NMEAMessage | NoneType]
+        """
+
         parsing = True
         raw_data = None
         parsed_data = None
-- 
2.43.0


From f4f2e9cd12ae502c3d50ef6b81b28e71a8bd7ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 13/26] fix: look up u-blox, Garmin, Ashtech, Fugro and Trimble
 poll definitions

---
 src/pynmeagps/nmeamessage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 2afa2b1..e622b36 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -367,6 +367,8 @@ class NMEAMessage:
             key = self._get_dict_qtmacknak(key, self._mode)
 
         if self._mode == nmt.POLL:
+            if key in nmp.NMEA_PAYLOADS_POLL:
+                return nmp.NMEA_PAYLOADS_POLL[key]
             return nmpp.NMEA_PAYLOADS_POLL_PROP[key]
         if self._mode == nmt.SET:
             return nmsp.NMEA_PAYLOADS_SET_PROP[key]
-- 
2.43.0


From 2f9548eb130b2313d4ea4e5507cbdd2f7db4db2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 14/26] fix: generate a checksum for new messages which have no
 payload definition

---
 src/pynmeagps/nmeamessage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index e622b36..94e2a69 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -130,7 +130,7 @@ class NMEAMessage:
             if pdict is None:  # definition not yet implemented
                 if "payload" in kwargs:
                     self._set_attribute_nominal(kwargs["payload"])
-                return
+                pdict = {}
             for key in pdict.keys():  # process each attribute in dict
                 pindex, gindex = self._set_attribute(
                     pindex, pdict, key, gindex, **kwargs
-- 
2.43.0


From 4f7c830515b79c877126d0f60ccfad1dc764ab29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 15/26] fix: find mixed case message definitions, e.g.
 PTNL,GGKx

---
 src/pynmeagps/nmeamessage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 94e2a69..5379257 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -320,7 +320,8 @@ class NMEAMessage:
                         f"P{key} message definitions must "
                         "include payload or msgId keyword arguments."
                     )
-            key = key.upper()
+            if key not in nmt.NMEA_MSGIDS_PROP:  # some ids are mixed case
+                key = key.upper()
 
             if self._defsource == nmt.DEF_PROP:  # proprietary
                 dic = self._get_dict_prop(key, **kwargs)
-- 
2.43.0


From 4c8894b95c50e52b7e6d372dd39febc1984ac1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 16/26] fix: count repeating group items whose attribute names
 include underscores

---
 src/pynmeagps/nmeahelpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index a2912fb..9bf9c68 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -457,8 +457,8 @@ def groupsize(**kwargs) -> int:
 
     idx = 0
     for a in kwargs:
-        ai = a.split("_", 1)
-        if len(ai) > 1:
+        ai = a.rsplit("_", 1)  # attribute names may also include underscores
+        if len(ai) > 1 and ai[1].isdecimal():
             idx = max(idx, int(ai[1]))
     return idx
 
-- 
2.43.0


From 5015d60e836c6814e44e912bd5022c80bb668f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:44 +0000
Subject: [PATCH 17/26] fix: recognise refusals of PQTMCFGMSGRATE, PQTMCFGPPS,
 PQTMCFGUART and PQTMSN commands (ERROR,n) as such

---
 src/pynmeagps/nmeamessage.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 5379257..3aef145 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -350,7 +350,10 @@ class NMEAMessage:
         :rtype: dict
         """
 
-        if key == "QTMCFGGEOFENCE":
+        acknak = self._get_dict_qtmacknak(key, self._mode)
+        if key[0:3] == "QTM" and acknak != key:  # command response
+            key = acknak
+        elif key == "QTMCFGGEOFENCE":
             key = self._get_dict_qtmcfggeofence(key, self._mode, **kwargs)
         elif key == "QTMCFGMSGRATE":
             key = self._get_dict_qtmcfgmsgrate(key, self._mode, **kwargs)
@@ -364,8 +367,6 @@ class NMEAMessage:
             key = self._get_dict_qtmsn(key, self._mode, **kwargs)
         elif key == "STMDRSENMSG":
             key = self._get_dict_stmdrsenmsg(key, self._mode, **kwargs)
-        elif key[0:3] == "QTM":
-            key = self._get_dict_qtmacknak(key, self._mode)
 
         if self._mode == nmt.POLL:
             if key in nmp.NMEA_PAYLOADS_POLL:
-- 
2.43.0


From 3d4b6323e786a1b693e945967ff72513fc95fb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:41 +0000
Subject: [PATCH 18/26] fix: restore the CRLF line endings of nmeahelpers.py
 and nmeamessage.py

---
 src/pynmeagps/nmeahelpers.py | 1712 ++++++++++++++++-----------------
 src/pynmeagps/nmeamessage.py | 1728 +++++++++++++++++-----------------
 2 files changed, 1720 insertions(+), 1720 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 9bf9c68..99f1f5a 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -1,856 +1,856 @@
-"""
-Collection of NMEA helper methods which can be used
-outside the NMEAMessage or NMEAReader classes
-
-Created on 04 Mar 2021
-
-:author: semuadmin (Steve Smith)
-:copyright: semuadmin © 2021
-:license: BSD 3-Clause
-"""
-
-# pylint: disable=invalid-name
-
-import re
-from datetime import datetime, timedelta, timezone
-from math import acos, asin, atan2, cos, pi, sin, sqrt
-from types import NoneType
-from typing import Literal
-
-import pynmeagps.exceptions as nme
-from pynmeagps.nmeatypes_core import (
-    BDS,
-    DM,
-    DT,
-    DTL,
-    EPOCH0_BEIDOU,
-    EPOCH0_GAL,
-    EPOCH0_GPS,
-    EPOCH0_IRN,
-    GAL,
-    GLO,
-    GPS,
-    IRN,
-    LA,
-    LN,
-    NMEA_MSGIDS,
-    NMEA_MSGIDS_PROP,
-    WGS84,
-    WGS84_FLATTENING,
-    WGS84_SMAJ_AXIS,
-)
-
-KNOTSCONV = {"MS": 0.5144447324, "FS": 1.68781084, "MPH": 1.15078, "KMPH": 1.852001}
-LEAPS0 = datetime(1900, 1, 1, 0, 0, 0, tzinfo=timezone.utc)
-LEAPSECONDS = [
-    (2272060800, 10),  # 1 Jan 1972
-    (2287785600, 11),  # 1 Jul 1972
-    (2303683200, 12),  # 1 Jan 1973
-    (2335219200, 13),  # 1 Jan 1974
-    (2366755200, 14),  # 1 Jan 1975
-    (2398291200, 15),  # 1 Jan 1976
-    (2429913600, 16),  # 1 Jan 1977
-    (2461449600, 17),  # 1 Jan 1978
-    (2492985600, 18),  # 1 Jan 1979
-    (2524521600, 19),  # 1 Jan 1980
-    (2571782400, 20),  # 1 Jul 1981
-    (2603318400, 21),  # 1 Jul 1982
-    (2634854400, 22),  # 1 Jul 1983
-    (2698012800, 23),  # 1 Jul 1985
-    (2776982400, 24),  # 1 Jan 1988
-    (2840140800, 25),  # 1 Jan 1990
-    (2871676800, 26),  # 1 Jan 1991
-    (2918937600, 27),  # 1 Jul 1992
-    (2950473600, 28),  # 1 Jul 1993
-    (2982009600, 29),  # 1 Jul 1994
-    (3029443200, 30),  # 1 Jan 1996
-    (3076704000, 31),  # 1 Jul 1997
-    (3124137600, 32),  # 1 Jan 1999
-    (3345062400, 33),  # 1 Jan 2006
-    (3439756800, 34),  # 1 Jan 2009
-    (3550089600, 35),  # 1 Jul 2012
-    (3644697600, 36),  # 1 Jul 2015
-    (3692217600, 37),  # 1 Jan 2017
-]
-"""
-Leapsecond reference table from NTC - Updated through IERS Bulletin C69
-https://hpiers.obspm.fr/iers/bul/bulc/ntp/leap-seconds.list
-File expires on: 28 December 2026
-"""
-
-
-def area(
-    lat1: float,
-    lon1: float,
-    lat2: float,
-    lon2: float,
-    radius: float = WGS84_SMAJ_AXIS / 1000,
-) -> float:
-    """
-    Calculate spherical area bounded by two coordinates.
-
-    :param float lat1: lat1
-    :param float lon1: lon1
-    :param float lat2: lat2
-    :param float lon2: lon2
-    :param float radius: radius in km (Earth = 6378.137 km)
-    :return: area in km²
-    :rtype: float
-    """
-
-    phi1, phi2 = [c * pi / 180 for c in (lat1, lat2)]
-    return pow(radius, 2) * pi * abs(sin(phi1) - sin(phi2)) * abs(lon1 - lon2) / 180
-
-
-def bearing(lat1: float, lon1: float, lat2: float, lon2: float) -> float:
-    """
-    Calculate bearing between two coordinates.
-
-    :param float lat1: lat1
-    :param float lon1: lon1
-    :param float lat2: lat2
-    :param float lon2: lon2
-    :return: bearing in degrees
-    :rtype: float
-    """
-
-    phi1, lambda1, phi2, lambda2 = [c * pi / 180 for c in (lat1, lon1, lat2, lon2)]
-    y = sin(lambda2 - lambda1) * cos(phi2)
-    x = cos(phi1) * sin(phi2) - sin(phi1) * cos(phi2) * cos(lambda2 - lambda1)
-    theta = atan2(y, x)
-    brng = (theta * 180 / pi + 360) % 360
-
-    return brng
-
-
-def calc_checksum(content: str) -> str:
-    """
-    Calculate checksum for raw NMEA message.
-
-    :param str content: NMEA message content (everything except checksum)
-    :return: checksum as hex string
-    :rtype: str
-    """
-
-    cksum = 0
-    for sub in content.encode("utf-8", "surrogatepass"):
-        cksum ^= sub
-    return f"{cksum:02X}"
-
-
-def date2str(dat: datetime.date, form: Literal["DT", "DTL", "DM"] = DT) -> str:
-    """
-    Convert datetime.date to NMEA formatted string.
-
-    :param datetime.date dat: date
-    :param Literal["DT","DTL","DM"] form: date format DT = ddmmyy, DTL = ddmmyyyy,
-        DM = mmddyy (DT)
-    :return: NMEA formatted date string
-    :rtype: str
-    """
-
-    try:
-        if form == DM:
-            dform = "%m%d%y"
-        elif form == DTL:
-            dform = "%d%m%Y"
-        else:
-            dform = "%d%m%y"
-        return dat.strftime(dform)
-    except (AttributeError, TypeError, ValueError):
-        return ""
-
-
-def date2utc(dates: str, form: Literal["DT", "DTL", "DM"] = DT) -> datetime.date:
-    """
-    Convert NMEA Date to UTC datetime.
-
-    :param str dates: NMEA date
-    :param Literal["DT","DTL","DM"] form: date format DT = ddmmyy, DTL = ddmmyyyy,
-        DM = mmddyy (DT)
-    :return: UTC date YYyy:mm:dd
-    :rtype: datetime.date
-    """
-
-    try:
-        if form == "DM":
-            dform = "%m%d%y"
-        elif form == "DTL":
-            dform = "%d%m%Y"
-        else:
-            dform = "%d%m%y"
-        utc = datetime.strptime(dates, dform)
-        return utc.date()
-    except (TypeError, ValueError):
-        return ""
-
-
-def ddd2dmm(degrees: float, att: Literal["LA", "LN"], hpmode: bool = False) -> str:
-    """
-    Convert decimal degrees to native NMEA degrees decimal
-    minutes string (NB: standard NMEA only supports 5dp
-    minutes precision - a high precision mode offers 7dp
-    precision but this may not be accepted by all NMEA parsers).
-
-    :param float degrees: degrees
-    :param Literal["LA","LN"] att: 'LA' (lat) or 'LN' (lon)
-    :param bool hpmode: high precision mode (7dp rather than 5dp)
-    :return: degrees as (d)ddmm.mmmmm(mm) formatted string
-    :rtype: str
-
-    """
-
-    try:
-        degrees = abs(degrees)
-        degrees, minutes = divmod(degrees * 60, 60)
-        degrees = int(degrees * 100)
-        if hpmode:
-            if att == LA:
-                dmm = f"{degrees + minutes:.7f}".zfill(12)
-            else:  # LN
-                dmm = f"{degrees + minutes:.7f}".zfill(13)
-        else:
-            if att == LA:
-                dmm = f"{degrees + minutes:.5f}".zfill(10)
-            else:  # LN
-                dmm = f"{degrees + minutes:.5f}".zfill(11)
-        return dmm
-    except (TypeError, ValueError):
-        return ""
-
-
-def deg2dmm(degrees: float, att: Literal["LA", "LN"]) -> str:
-    """
-    Convert decimal degrees to degrees decimal minutes string
-    e.g. '51°20.76′S'.
-
-    :param float degrees: degrees
-    :param Literal["LA","LN"] att: 'LA' (lat) or 'LN' (lon)
-    :return: degrees as dm.m formatted string
-    :rtype: str
-
-    """
-
-    try:
-        negative = degrees < 0
-        degrees = abs(degrees)
-        degrees, minutes = divmod(degrees * 60, 60)
-        if negative:
-            sfx = "S" if att == LA else "W"
-        else:
-            sfx = "N" if att == LA else "E"
-        return f"{int(degrees)}\u00b0{round(minutes,7)}\u2032{sfx}"
-    except (TypeError, ValueError):
-        return ""
-
-
-def deg2dms(degrees: float, att: Literal["LA", "LN"]) -> str:
-    """
-    Convert decimal degrees to degrees minutes seconds string
-    e.g. '51°20′45.6″N'
-
-    :param float degrees: degrees
-    :param Literal["LA","LN"] att: 'LA' (lat) or 'LN' (lon)
-    :return: degrees as d.m.s formatted string
-    :rtype: str
-
-    """
-
-    try:
-        negative = degrees < 0
-        degrees = abs(degrees)
-        minutes, seconds = divmod(degrees * 3600, 60)
-        degrees, minutes = divmod(minutes, 60)
-        if negative:
-            sfx = "S" if att == LA else "W"
-        else:
-            sfx = "N" if att == LA else "E"
-        return f"{int(degrees)}\u00b0{int(minutes)}\u2032{round(seconds,5)}\u2033{sfx}"
-    except (TypeError, ValueError):
-        return ""
-
-
-def dmm2ddd(pos: str) -> float | str:
-    """
-    Convert NMEA lat/lon string to (unsigned) decimal degrees.
-
-    :param str pos: (d)ddmm.mmmmm
-    :return: pos as decimal degrees, or "" if invalid
-    :rtype: float | str
-
-    """
-
-    try:
-        dp = pos.find(".")
-        if dp < 4:
-            raise ValueError()
-        posdeg = abs(float(pos[0 : dp - 2]))
-        posmin = float(pos[dp - 2 :])
-        return round((posdeg + posmin / 60), 10)
-    except (TypeError, ValueError):
-        return ""
-
-
-def dms2deg(
-    dmsstr: str,
-    rnd: int = 7,
-) -> float:
-    """
-    Convert degrees, minutes, seconds string to decimal degrees.
-
-    Expects degrees and (optional) minutes and seconds to be delimited by
-    non-numeric char, e.g.
-
-    '51°20′45.6″N' -> 51.346
-
-    '51°30.0′' -> 51.5
-
-    :param str dmsstr: d,m,s string
-    :param int rnd: decimal places (7)
-    :return: degrees as d.dd
-    :rtype: float
-    :raises: ValueError if invalid dms string format
-    """
-
-    dmsstr = dmsstr.replace(" ", "")
-    if (
-        re.match(
-            r"^([\d.]+[^\d.]{1}){1}([\d.]+[^\d.]{1})?([\d.]+[^\d.]{1})?[NSEW]?$", dmsstr
-        )
-        is None
-    ):
-        raise ValueError(f"Invalid dms string format {dmsstr}")
-
-    sign = -1 if dmsstr.find("S") >= 0 or dmsstr.find("W") >= 0 else 1
-    dms = re.split(r"[^\d.]", dmsstr, maxsplit=3)
-    ddd = 0.0
-    for x in range(len(dms) - 1):
-        ddd += 0.0 if dms[x] == "" else float(dms[x]) / pow(60, x)
-    return round(ddd * sign, rnd)
-
-
-def ecef2llh(
-    x: float,
-    y: float,
-    z: float,
-    a: float = WGS84_SMAJ_AXIS,
-    f: float = WGS84_FLATTENING,
-) -> tuple:
-    """
-    Convert ECEF coordinates to geodetic (LLH) using Olson algorithm.
-
-    Olson, D. K. (1996). Converting Earth-Centered, Earth-Fixed Coordinates to
-    Geodetic Coordinates. IEEE Transactions on Aerospace and Electronic Systems,
-    32(1), 473-476. https://doi.org/10.1109/7.481290
-
-    :param float x: X coordinate
-    :param float y: Y coordinate
-    :param float z: Z coordinate
-    :param float a: semi-major axis (6378137.0 for WGS84)
-    :param float f: flattening (298.257223563 for WGS84)
-    :return: tuple of (lat, lon, ellipsoidal height in m) as floats
-    :rtype: tuple
-    """
-    # pylint: disable=too-many-locals
-
-    # commented default values are for WGS84 spheroid
-    f = 1 / f
-    e2 = f * (2 - f)  # 6.6943799901377997e-3
-    a1 = a * e2  # 4.2697672707157535e4
-    a2 = a1 * a1  # 1.8230912546075455e9
-    a3 = a1 * e2 / 2  # 1.8230912546075455e9
-    a4 = 2.5 * a2  # 4.5577281365188637e9
-    a5 = a1 + a3  # 4.2840589930055659e4
-    a6 = 1 - e2  # 9.9330562000986220e-1
-    zp = abs(z)
-    w2 = x * x + y * y
-    w = sqrt(w2)
-    z2 = z * z
-    r2 = w2 + z2
-    r = sqrt(r2)
-
-    # algorithm inaccurate near Earth's core
-    # so nominal value returned
-    if r < 100000.0:
-        return 0.0, 0.0, -1.0e7
-
-    lon = atan2(y, x)
-    s2 = z2 / r2
-    c2 = w2 / r2
-    u = a2 / r
-    v = a3 - a4 / r
-    if c2 > 0.3:
-        s = (zp / r) * (1.0 + c2 * (a1 + u + s2 * v) / r)
-        lat = asin(s)
-        ss = s * s
-        c = sqrt(1.0 - ss)
-    else:
-        c = (w / r) * (1.0 - s2 * (a5 - u - c2 * v) / r)
-        lat = acos(c)
-        ss = 1.0 - c * c
-        s = sqrt(ss)
-    g = 1.0 - e2 * ss
-    rg = a / sqrt(g)
-    rf = a6 * rg
-    u = w - rg * c
-    v = zp - rf * s
-    f = c * u + s * v
-    m = c * v - s * u
-    p = m / (rf / g + f)
-    lat = lat + p
-    height = f + m * p / 2.0
-    if z < 0.0:
-        lat = -lat
-
-    lat, lon = [c * 180 / pi for c in (lat, lon)]
-    return lat, lon, height
-
-
-def generate_checksum(talker: str, msgID: str, payload: list) -> str:
-    """
-    Generate checksum for new NMEA message.
-
-    :param str talker: talker e.g. "GN"
-    :param str msgID: msgID e.g. "GLL"
-    :param list payload: payload as list
-    :return: checksum as hex string
-    :rtype: str
-    """
-
-    content = talker + msgID
-    for field in payload:
-        content += f",{field}"
-    return calc_checksum(content)
-
-
-def get_parts(message: object) -> tuple:
-    """
-    Get content, talker, msgid, payload and checksum of raw NMEA message.
-
-    :param object message: entire message as bytes or string
-    :return: tuple of (content, talker, msgID, payload as list, checksum)
-    :rtype: tuple
-    :raises: NMEAMessageError (if message is badly formed)
-    """
-
-    try:
-        if isinstance(message, bytes):
-            message = message.decode("utf-8")
-        content, cksum = message.strip("$\r\n").split("*", 1)
-        hdr, *payload = content.split(",")
-        s = 1 if hdr[:1] == "P" else 2
-        talker, msgid = hdr[:s], hdr[s:]
-        return content, talker, msgid, payload, cksum
-    except Exception as err:
-        raise nme.NMEAMessageError(f"Badly formed message {message}") from err
-
-
-def groupsize(**kwargs) -> int:
-    """
-    Get number of grouped items in generated payload arguments.
-    e.g. {svid_01=7, svid_02=8, svid_03=24} -> 3
-
-    :param dict kwargs: payload arguments
-    :return: group size
-    :rtype: int
-    """
-
-    idx = 0
-    for a in kwargs:
-        ai = a.rsplit("_", 1)  # attribute names may also include underscores
-        if len(ai) > 1 and ai[1].isdecimal():
-            idx = max(idx, int(ai[1]))
-    return idx
-
-
-def haversine(
-    lat1: float,
-    lon1: float,
-    lat2: float,
-    lon2: float,
-    radius: float = WGS84_SMAJ_AXIS / 1000,
-) -> float:
-    """
-    Calculate spherical distance in km between two coordinates using haversine formula.
-
-    NB suitable for coordinates greater than around 50m apart. For
-    smaller separations, use the planar approximation formula.
-
-    :param float lat1: lat1
-    :param float lon1: lon1
-    :param float lat2: lat2
-    :param float lon2: lon2
-    :param float radius: radius in km (Earth = 6378.137 km)
-    :return: spherical distance in km
-    :rtype: float
-    """
-
-    phi1, lambda1, phi2, lambda2 = [c * pi / 180 for c in (lat1, lon1, lat2, lon2)]
-    dist = radius * acos(
-        cos(phi2 - phi1) - cos(phi1) * cos(phi2) * (1 - cos(lambda2 - lambda1))
-    )
-
-    return dist
-
-
-def hex2str(num: int, padding: int = 0) -> str:
-    """
-    Convert hex integer to padded or unpadded string format,
-    as used by some proprietary NMEA message types.
-
-    :param int num: hexadecimal integer
-    :param padding: no of padded digits (0)
-    :return: integer as string
-    :rtype: str
-    """
-
-    pad = f"{padding:02d}" if padding else ""
-    return f"{num:{pad}x}".upper()
-
-
-def knots2spd(knots: float, unit: str = "MS") -> float:
-    """
-    Convert speed in knots to speed in specified units.
-
-    :param float knots: knots
-    :param unit str: 'MS' (default), 'FS', MPH', 'KMPH'
-    :return: speed in m/s, feet/s, mph or kmph
-    :rtype: float
-
-    """
-
-    try:
-        return knots * KNOTSCONV[unit.upper()]
-    except KeyError as err:
-        raise KeyError(
-            f"Invalid conversion unit {unit.upper()} - must be in {list(KNOTSCONV.keys())}."
-        ) from err
-    except TypeError as err:
-        raise TypeError(
-            f"Invalid knots value {knots} - must be float or integer."
-        ) from err
-
-
-def latlon2dmm(lat: float, lon: float) -> tuple[str, str]:
-    """
-    Converts decimal lat/lon tuple to degrees decimal minutes.
-
-    :param float lat: lat
-    :param float lon: lon
-    :return: (lat,lon) in d.mm.m format
-    :rtype: tuple[str, str]
-    """
-
-    latd = deg2dmm(lat, LA)
-    lond = deg2dmm(lon, LN)
-    return latd, lond
-
-
-def latlon2dms(lat: float, lon: float) -> tuple[str, str]:
-    """
-    Converts decimal lat/lon tuple to degrees minutes seconds.
-
-    :param float lat: lat
-    :param float lon: lon
-    :return: (lat,lon) in d.m.s. format
-    :rtype: tuple[str, str]
-    """
-
-    latd = deg2dms(lat, LA)
-    lond = deg2dms(lon, LN)
-    return latd, lond
-
-
-def leapsecond(dat: datetime, gnss: Literal["G", "E", "C", "J", "I"] = GPS) -> int:
-    """
-    Get leapsecond offset effective at given GNSS epoch and
-    time system. If supplied datetime is timezone naive,
-    UTC will be inferred.
-
-    G = GPS, E = Galileo, C = Beidou, J = QZSS, I = IRNSS (NavIC)
-
-    Note: GLONASS is a non-continuous time system which already
-    takes into account UTC leapseconds.
-
-    Refer to LEAPSECONDS reference table.
-
-    :param datetime.datetime dat: effective date
-    :param Literal["G","E","C","J","I"] gnss: GNSS time system e.g. "G"
-    :return: leapsecond offset
-    :rtype: int
-    """
-
-    def totsec(dt) -> int:
-        return (dt - LEAPS0).total_seconds()
-
-    if dat.tzinfo is None:
-        dat = dat.replace(tzinfo=timezone.utc)
-
-    ep0 = EPOCH0_BEIDOU if gnss == BDS else EPOCH0_GPS
-
-    if totsec(dat) < LEAPSECONDS[0][0]:
-        return 0
-
-    dts = []
-    for dt in (dat, ep0):
-        dts.append(max((val for key, val in LEAPSECONDS if key <= totsec(dt))))
-    return dts[0] - dts[1]
-
-
-def llh2ecef(
-    lat: float,
-    lon: float,
-    height: float,
-    a: float = WGS84_SMAJ_AXIS,
-    f: float = WGS84_FLATTENING,
-) -> tuple:
-    """
-    Convert geodetic coordinates (LLH) to ECEF.
-
-    :param float lat: lat in degrees
-    :param float lon: lon on degrees
-    :param float height: ellipsoidal height in metres
-    :param float a: semi-major axis (6378137.0 for WGS84)
-    :param float f: flattening (298.257223563 for WGS84)
-    :return: tuple of ECEF (X, Y, Z) as floats
-    :rtype: tuple
-    """
-
-    lat, lon = [c * pi / 180 for c in (lat, lon)]
-
-    f = 1 / f
-    e2 = f * (2 - f)
-    a2 = a**2
-    b2 = a2 * (1 - e2)
-
-    N = a / sqrt(1 - e2 * sin(lat) ** 2)
-    x = (N + height) * cos(lat) * cos(lon)
-    y = (N + height) * cos(lat) * sin(lon)
-    z = ((b2 / a2) * N + height) * sin(lat)
-
-    return x, y, z
-
-
-def llh2iso6709(lat: float, lon: float, alt: float, crs: str = WGS84) -> str:
-    """
-    Convert decimal degrees and alt to ISO6709 format
-    e.g. "+27.5916+086.5640+8850CRSWGS_84/".
-
-    :param float lat: latitude
-    :param float lon: longitude
-    :param float alt: altitude (hMSL)
-    :param float crs: coordinate reference system (default = WGS_84)
-    :return: position in ISO6709 format
-    :rtype: str
-
-    """
-
-    lati, loni, alti = ["-" if c < 0 else "+" for c in (lat, lon, alt)]
-    return f"{lati}{abs(lat)}{loni}{abs(lon)}{alti}{alt}CRS{crs}/"
-
-
-def msgdesc(msgID: str) -> str:
-    """
-    Return descriptive string for NMEA msgId.
-
-    :param msgID str: message ID e.g. 'GGA'
-    :return: description of message
-    :rtype: str
-
-    """
-    # pylint: disable=invalid-name
-
-    if msgID in NMEA_MSGIDS:
-        return NMEA_MSGIDS[msgID]
-    if msgID in NMEA_MSGIDS_PROP:
-        return NMEA_MSGIDS_PROP[msgID]
-    return f"Unknown msgID {msgID}"
-
-
-def planar(
-    lat1: float,
-    lon1: float,
-    lat2: float,
-    lon2: float,
-    radius: float = WGS84_SMAJ_AXIS,
-) -> float:
-    """
-    Calculate planar distance between two coordinates using planar
-    approximation formula.
-
-    NB suitable for coordinates less than around 50m apart. For
-    larger separations, use the haversine great circle formula.
-
-    :param float lat1: lat1
-    :param float lon1: lon1
-    :param float lat2: lat2
-    :param float lon2: lon2
-    :param float radius: radius in m (Earth = 6378137 m)
-    :return: planar distance in m
-    :rtype: float
-    """
-
-    phi1, lambda1, phi2, lambda2 = [c * pi / 180 for c in (lat1, lon1, lat2, lon2)]
-    dlambda = (lambda2 - lambda1) * cos(phi1)
-    dphi = phi2 - phi1
-    dist = radius * sqrt(dlambda * dlambda + dphi * dphi)
-
-    return dist
-
-
-def time2str(tim: datetime) -> str:
-    """
-    Convert datetime.time to NMEA formatted string.
-
-    :param datetime.time tim: time
-    :return: NMEA formatted time string hhmmss.ss or "" if invalid
-    :rtype: str
-    """
-
-    try:
-        return tim.strftime("%H%M%S.%f")[0:9]
-    except (AttributeError, TypeError, ValueError):
-        return ""
-
-
-def time2utc(times: str) -> datetime | str:
-    """
-    Convert NMEA Time to UTC datetime.
-
-    :param str times: NMEA time hhmmss.ss
-    :return: UTC time hh:mm:ss.ss or "" if invalid
-    :rtype: datetime.time | str
-    """
-
-    try:
-        if len(times) == 6:  # decimal seconds is omitted
-            times = times + ".00"
-        utc = datetime.strptime(times, "%H%M%S.%f")
-        return utc.time()
-    except (TypeError, ValueError):
-        return ""
-
-
-def utc2wnotow(
-    utc: datetime | NoneType = None,
-    gnss: Literal["G", "E", "C", "J", "I"] = GPS,
-    modwno: bool = True,
-) -> tuple[int, int, int]:
-    """
-    Get Week number (wno), Time of Week (tow) in milliseconds
-    and leapsecond offset for given GNSS UTC epoch and time system.
-
-    G = GPS, E = Galileo, C = Beidou, J = QZSS, I = IRNSS (NavIC)
-    
-    Note: GLONASS does not use GPS-style wno or tow.
-
-    If `utc` is None, will default to current UTC datetime.
-
-    :param datetime | NoneType utc: UTC epoch
-    :param Literal["G","E","C","J","I"] = GPS) gnss: \
-        GNSS time system (GPS)
-    :param bool modwno: True = modular wno, False = continuous wno
-    :return: wno, tow, leapsecond
-    :rtype: tuple[int, int, int]
-    """
-
-    if utc is None:
-        utc = datetime.now(tz=timezone.utc)
-    if utc.tzinfo is None:
-        utc = utc.replace(tzinfo=timezone.utc)
-
-    if gnss == BDS:
-        ep0 = EPOCH0_BEIDOU
-        rollover = 8192
-    elif gnss == GAL:
-        ep0 = EPOCH0_GAL
-        rollover = 4096
-    elif gnss == IRN:
-        ep0 = EPOCH0_IRN
-        rollover = 1024
-    else:
-        ep0 = EPOCH0_GPS
-        rollover = 1024
-
-    ls = 0 if gnss == GLO else leapsecond(utc, gnss)
-    ts = (utc - ep0 + timedelta(seconds=ls)) // timedelta(milliseconds=1)
-    wno, tow = divmod(ts, 604800000)
-    wnom = wno % rollover
-    return wnom if modwno else wno, tow, ls
-
-
-def wnotow2utc(
-    wno: int,
-    tow: int,
-    ls: int | NoneType = None,
-    gnss: Literal["G", "E", "C", "J", "I"] = GPS,
-    autoroll: bool = False,
-    modwno: bool = True,
-) -> datetime:
-    """
-    Convert week number and seconds of week (expressed as
-    milliseconds) for given GNSS epoch to UTC time.
-
-    G = GPS, E = Galileo, C = Beidou, J = QZSS, I = IRNSS (NavIC)
-
-    Note: GLONASS does not use GPS-style wno or tow.
-
-    If `ls` is None (the default), leapsecond offset will be
-    automatically derived from NTC reference table.
-
-    If `autoroll` is True, rolls over modular wno to LATEST
-    date less than current date.
-
-    e.g. if current date is 2026-04-17:
-
-    wno=366, tow=381600000, gnss=GPS gives...
-
-    - autoroll on:  2026-04-16 09:59:42+00:00
-    - autoroll off: 1987-01-15 09:59:56+00:00
-
-    wno=368, tow=610000000, gnss=GPS gives...
-
-    - autoroll on:  2006-09-17 01:26:26+00:00
-    - autoroll off: 1987-02-01 01:26:36+00:00
-
-    :param int wno: week number (modular or mon-modular)
-    :param int tow: time of week in milliseconds (mod 604,800,000)
-    :param int | NoneType ls: leapsecond offset (will be derived if None) (None)
-    :param Literal["G","E","C","J","I"] = GPS) gnss: GNSS time system (GPS)
-    :param bool autoroll: automatic rollover (False)
-    :param bool modwno: True = modular wno, False = continuous wno
-    :return: GNSS epoch as UTC datetime
-    :rtype: datetime
-    """
-
-    if gnss == BDS:
-        ep0 = EPOCH0_BEIDOU
-        rollover = 8192
-    elif gnss == GAL:
-        ep0 = EPOCH0_GAL
-        rollover = 4096
-    elif gnss == IRN:
-        ep0 = EPOCH0_IRN
-        rollover = 1024
-    else:
-        ep0 = EPOCH0_GPS
-        rollover = 1024
-    wno = wno % rollover if modwno else wno
-    tow %= 604800000
-    current = datetime.now(timezone.utc)
-    i = 0
-    utc = None
-    while True:
-        nxt = ep0 + timedelta(days=(wno + (i * rollover)) * 7, milliseconds=tow)
-        if gnss != GLO:  # apply leapsecond offset
-            lps = ls
-            if lps is None:  # offset effective at UTC rather than GNSS epoch
-                lps = leapsecond(nxt - timedelta(seconds=leapsecond(nxt, gnss)), gnss)
-            nxt -= timedelta(seconds=lps)
-        if utc is not None and nxt > current:
-            break
-        utc = nxt
-        if not autoroll:
-            break
-        i += 1
-    return utc
+"""
+Collection of NMEA helper methods which can be used
+outside the NMEAMessage or NMEAReader classes
+
+Created on 04 Mar 2021
+
+:author: semuadmin (Steve Smith)
+:copyright: semuadmin © 2021
+:license: BSD 3-Clause
+"""
+
+# pylint: disable=invalid-name
+
+import re
+from datetime import datetime, timedelta, timezone
+from math import acos, asin, atan2, cos, pi, sin, sqrt
+from types import NoneType
+from typing import Literal
+
+import pynmeagps.exceptions as nme
+from pynmeagps.nmeatypes_core import (
+    BDS,
+    DM,
+    DT,
+    DTL,
+    EPOCH0_BEIDOU,
+    EPOCH0_GAL,
+    EPOCH0_GPS,
+    EPOCH0_IRN,
+    GAL,
+    GLO,
+    GPS,
+    IRN,
+    LA,
+    LN,
+    NMEA_MSGIDS,
+    NMEA_MSGIDS_PROP,
+    WGS84,
+    WGS84_FLATTENING,
+    WGS84_SMAJ_AXIS,
+)
+
+KNOTSCONV = {"MS": 0.5144447324, "FS": 1.68781084, "MPH": 1.15078, "KMPH": 1.852001}
+LEAPS0 = datetime(1900, 1, 1, 0, 0, 0, tzinfo=timezone.utc)
+LEAPSECONDS = [
+    (2272060800, 10),  # 1 Jan 1972
+    (2287785600, 11),  # 1 Jul 1972
+    (2303683200, 12),  # 1 Jan 1973
+    (2335219200, 13),  # 1 Jan 1974
+    (2366755200, 14),  # 1 Jan 1975
+    (2398291200, 15),  # 1 Jan 1976
+    (2429913600, 16),  # 1 Jan 1977
+    (2461449600, 17),  # 1 Jan 1978
+    (2492985600, 18),  # 1 Jan 1979
+    (2524521600, 19),  # 1 Jan 1980
+    (2571782400, 20),  # 1 Jul 1981
+    (2603318400, 21),  # 1 Jul 1982
+    (2634854400, 22),  # 1 Jul 1983
+    (2698012800, 23),  # 1 Jul 1985
+    (2776982400, 24),  # 1 Jan 1988
+    (2840140800, 25),  # 1 Jan 1990
+    (2871676800, 26),  # 1 Jan 1991
+    (2918937600, 27),  # 1 Jul 1992
+    (2950473600, 28),  # 1 Jul 1993
+    (2982009600, 29),  # 1 Jul 1994
+    (3029443200, 30),  # 1 Jan 1996
+    (3076704000, 31),  # 1 Jul 1997
+    (3124137600, 32),  # 1 Jan 1999
+    (3345062400, 33),  # 1 Jan 2006
+    (3439756800, 34),  # 1 Jan 2009
+    (3550089600, 35),  # 1 Jul 2012
+    (3644697600, 36),  # 1 Jul 2015
+    (3692217600, 37),  # 1 Jan 2017
+]
+"""
+Leapsecond reference table from NTC - Updated through IERS Bulletin C69
+https://hpiers.obspm.fr/iers/bul/bulc/ntp/leap-seconds.list
+File expires on: 28 December 2026
+"""
+
+
+def area(
+    lat1: float,
+    lon1: float,
+    lat2: float,
+    lon2: float,
+    radius: float = WGS84_SMAJ_AXIS / 1000,
+) -> float:
+    """
+    Calculate spherical area bounded by two coordinates.
+
+    :param float lat1: lat1
+    :param float lon1: lon1
+    :param float lat2: lat2
+    :param float lon2: lon2
+    :param float radius: radius in km (Earth = 6378.137 km)
+    :return: area in km²
+    :rtype: float
+    """
+
+    phi1, phi2 = [c * pi / 180 for c in (lat1, lat2)]
+    return pow(radius, 2) * pi * abs(sin(phi1) - sin(phi2)) * abs(lon1 - lon2) / 180
+
+
+def bearing(lat1: float, lon1: float, lat2: float, lon2: float) -> float:
+    """
+    Calculate bearing between two coordinates.
+
+    :param float lat1: lat1
+    :param float lon1: lon1
+    :param float lat2: lat2
+    :param float lon2: lon2
+    :return: bearing in degrees
+    :rtype: float
+    """
+
+    phi1, lambda1, phi2, lambda2 = [c * pi / 180 for c in (lat1, lon1, lat2, lon2)]
+    y = sin(lambda2 - lambda1) * cos(phi2)
+    x = cos(phi1) * sin(phi2) - sin(phi1) * cos(phi2) * cos(lambda2 - lambda1)
+    theta = atan2(y, x)
+    brng = (theta * 180 / pi + 360) % 360
+
+    return brng
+
+
+def calc_checksum(content: str) -> str:
+    """
+    Calculate checksum for raw NMEA message.
+
+    :param str content: NMEA message content (everything except checksum)
+    :return: checksum as hex string
+    :rtype: str
+    """
+
+    cksum = 0
+    for sub in content.encode("utf-8", "surrogatepass"):
+        cksum ^= sub
+    return f"{cksum:02X}"
+
+
+def date2str(dat: datetime.date, form: Literal["DT", "DTL", "DM"] = DT) -> str:
+    """
+    Convert datetime.date to NMEA formatted string.
+
+    :param datetime.date dat: date
+    :param Literal["DT","DTL","DM"] form: date format DT = ddmmyy, DTL = ddmmyyyy,
+        DM = mmddyy (DT)
+    :return: NMEA formatted date string
+    :rtype: str
+    """
+
+    try:
+        if form == DM:
+            dform = "%m%d%y"
+        elif form == DTL:
+            dform = "%d%m%Y"
+        else:
+            dform = "%d%m%y"
+        return dat.strftime(dform)
+    except (AttributeError, TypeError, ValueError):
+        return ""
+
+
+def date2utc(dates: str, form: Literal["DT", "DTL", "DM"] = DT) -> datetime.date:
+    """
+    Convert NMEA Date to UTC datetime.
+
+    :param str dates: NMEA date
+    :param Literal["DT","DTL","DM"] form: date format DT = ddmmyy, DTL = ddmmyyyy,
+        DM = mmddyy (DT)
+    :return: UTC date YYyy:mm:dd
+    :rtype: datetime.date
+    """
+
+    try:
+        if form == "DM":
+            dform = "%m%d%y"
+        elif form == "DTL":
+            dform = "%d%m%Y"
+        else:
+            dform = "%d%m%y"
+        utc = datetime.strptime(dates, dform)
+        return utc.date()
+    except (TypeError, ValueError):
+        return ""
+
+
+def ddd2dmm(degrees: float, att: Literal["LA", "LN"], hpmode: bool = False) -> str:
+    """
+    Convert decimal degrees to native NMEA degrees decimal
+    minutes string (NB: standard NMEA only supports 5dp
+    minutes precision - a high precision mode offers 7dp
+    precision but this may not be accepted by all NMEA parsers).
+
+    :param float degrees: degrees
+    :param Literal["LA","LN"] att: 'LA' (lat) or 'LN' (lon)
+    :param bool hpmode: high precision mode (7dp rather than 5dp)
+    :return: degrees as (d)ddmm.mmmmm(mm) formatted string
+    :rtype: str
+
+    """
+
+    try:
+        degrees = abs(degrees)
+        degrees, minutes = divmod(degrees * 60, 60)
+        degrees = int(degrees * 100)
+        if hpmode:
+            if att == LA:
+                dmm = f"{degrees + minutes:.7f}".zfill(12)
+            else:  # LN
+                dmm = f"{degrees + minutes:.7f}".zfill(13)
+        else:
+            if att == LA:
+                dmm = f"{degrees + minutes:.5f}".zfill(10)
+            else:  # LN
+                dmm = f"{degrees + minutes:.5f}".zfill(11)
+        return dmm
+    except (TypeError, ValueError):
+        return ""
+
+
+def deg2dmm(degrees: float, att: Literal["LA", "LN"]) -> str:
+    """
+    Convert decimal degrees to degrees decimal minutes string
+    e.g. '51°20.76′S'.
+
+    :param float degrees: degrees
+    :param Literal["LA","LN"] att: 'LA' (lat) or 'LN' (lon)
+    :return: degrees as dm.m formatted string
+    :rtype: str
+
+    """
+
+    try:
+        negative = degrees < 0
+        degrees = abs(degrees)
+        degrees, minutes = divmod(degrees * 60, 60)
+        if negative:
+            sfx = "S" if att == LA else "W"
+        else:
+            sfx = "N" if att == LA else "E"
+        return f"{int(degrees)}\u00b0{round(minutes,7)}\u2032{sfx}"
+    except (TypeError, ValueError):
+        return ""
+
+
+def deg2dms(degrees: float, att: Literal["LA", "LN"]) -> str:
+    """
+    Convert decimal degrees to degrees minutes seconds string
+    e.g. '51°20′45.6″N'
+
+    :param float degrees: degrees
+    :param Literal["LA","LN"] att: 'LA' (lat) or 'LN' (lon)
+    :return: degrees as d.m.s formatted string
+    :rtype: str
+
+    """
+
+    try:
+        negative = degrees < 0
+        degrees = abs(degrees)
+        minutes, seconds = divmod(degrees * 3600, 60)
+        degrees, minutes = divmod(minutes, 60)
+        if negative:
+            sfx = "S" if att == LA else "W"
+        else:
+            sfx = "N" if att == LA else "E"
+        return f"{int(degrees)}\u00b0{int(minutes)}\u2032{round(seconds,5)}\u2033{sfx}"
+    except (TypeError, ValueError):
+        return ""
+
+
+def dmm2ddd(pos: str) -> float | str:
+    """
+    Convert NMEA lat/lon string to (unsigned) decimal degrees.
+
+    :param str pos: (d)ddmm.mmmmm
+    :return: pos as decimal degrees, or "" if invalid
+    :rtype: float | str
+
+    """
+
+    try:
+        dp = pos.find(".")
+        if dp < 4:
+            raise ValueError()
+        posdeg = abs(float(pos[0 : dp - 2]))
+        posmin = float(pos[dp - 2 :])
+        return round((posdeg + posmin / 60), 10)
+    except (TypeError, ValueError):
+        return ""
+
+
+def dms2deg(
+    dmsstr: str,
+    rnd: int = 7,
+) -> float:
+    """
+    Convert degrees, minutes, seconds string to decimal degrees.
+
+    Expects degrees and (optional) minutes and seconds to be delimited by
+    non-numeric char, e.g.
+
+    '51°20′45.6″N' -> 51.346
+
+    '51°30.0′' -> 51.5
+
+    :param str dmsstr: d,m,s string
+    :param int rnd: decimal places (7)
+    :return: degrees as d.dd
+    :rtype: float
+    :raises: ValueError if invalid dms string format
+    """
+
+    dmsstr = dmsstr.replace(" ", "")
+    if (
+        re.match(
+            r"^([\d.]+[^\d.]{1}){1}([\d.]+[^\d.]{1})?([\d.]+[^\d.]{1})?[NSEW]?$", dmsstr
+        )
+        is None
+    ):
+        raise ValueError(f"Invalid dms string format {dmsstr}")
+
+    sign = -1 if dmsstr.find("S") >= 0 or dmsstr.find("W") >= 0 else 1
+    dms = re.split(r"[^\d.]", dmsstr, maxsplit=3)
+    ddd = 0.0
+    for x in range(len(dms) - 1):
+        ddd += 0.0 if dms[x] == "" else float(dms[x]) / pow(60, x)
+    return round(ddd * sign, rnd)
+
+
+def ecef2llh(
+    x: float,
+    y: float,
+    z: float,
+    a: float = WGS84_SMAJ_AXIS,
+    f: float = WGS84_FLATTENING,
+) -> tuple:
+    """
+    Convert ECEF coordinates to geodetic (LLH) using Olson algorithm.
+
+    Olson, D. K. (1996). Converting Earth-Centered, Earth-Fixed Coordinates to
+    Geodetic Coordinates. IEEE Transactions on Aerospace and Electronic Systems,
+    32(1), 473-476. https://doi.org/10.1109/7.481290
+
+    :param float x: X coordinate
+    :param float y: Y coordinate
+    :param float z: Z coordinate
+    :param float a: semi-major axis (6378137.0 for WGS84)
+    :param float f: flattening (298.257223563 for WGS84)
+    :return: tuple of (lat, lon, ellipsoidal height in m) as floats
+    :rtype: tuple
+    """
+    # pylint: disable=too-many-locals
+
+    # commented default values are for WGS84 spheroid
+    f = 1 / f
+    e2 = f * (2 - f)  # 6.6943799901377997e-3
+    a1 = a * e2  # 4.2697672707157535e4
+    a2 = a1 * a1  # 1.8230912546075455e9
+    a3 = a1 * e2 / 2  # 1.8230912546075455e9
+    a4 = 2.5 * a2  # 4.5577281365188637e9
+    a5 = a1 + a3  # 4.2840589930055659e4
+    a6 = 1 - e2  # 9.9330562000986220e-1
+    zp = abs(z)
+    w2 = x * x + y * y
+    w = sqrt(w2)
+    z2 = z * z
+    r2 = w2 + z2
+    r = sqrt(r2)
+
+    # algorithm inaccurate near Earth's core
+    # so nominal value returned
+    if r < 100000.0:
+        return 0.0, 0.0, -1.0e7
+
+    lon = atan2(y, x)
+    s2 = z2 / r2
+    c2 = w2 / r2
+    u = a2 / r
+    v = a3 - a4 / r
+    if c2 > 0.3:
+        s = (zp / r) * (1.0 + c2 * (a1 + u + s2 * v) / r)
+        lat = asin(s)
+        ss = s * s
+        c = sqrt(1.0 - ss)
+    else:
+        c = (w / r) * (1.0 - s2 * (a5 - u - c2 * v) / r)
+        lat = acos(c)
+        ss = 1.0 - c * c
+        s = sqrt(ss)
+    g = 1.0 - e2 * ss
+    rg = a / sqrt(g)
+    rf = a6 * rg
+    u = w - rg * c
+    v = zp - rf * s
+    f = c * u + s * v
+    m = c * v - s * u
+    p = m / (rf / g + f)
+    lat = lat + p
+    height = f + m * p / 2.0
+    if z < 0.0:
+        lat = -lat
+
+    lat, lon = [c * 180 / pi for c in (lat, lon)]
+    return lat, lon, height
+
+
+def generate_checksum(talker: str, msgID: str, payload: list) -> str:
+    """
+    Generate checksum for new NMEA message.
+
+    :param str talker: talker e.g. "GN"
+    :param str msgID: msgID e.g. "GLL"
+    :param list payload: payload as list
+    :return: checksum as hex string
+    :rtype: str
+    """
+
+    content = talker + msgID
+    for field in payload:
+        content += f",{field}"
+    return calc_checksum(content)
+
+
+def get_parts(message: object) -> tuple:
+    """
+    Get content, talker, msgid, payload and checksum of raw NMEA message.
+
+    :param object message: entire message as bytes or string
+    :return: tuple of (content, talker, msgID, payload as list, checksum)
+    :rtype: tuple
+    :raises: NMEAMessageError (if message is badly formed)
+    """
+
+    try:
+        if isinstance(message, bytes):
+            message = message.decode("utf-8")
+        content, cksum = message.strip("$\r\n").split("*", 1)
+        hdr, *payload = content.split(",")
+        s = 1 if hdr[:1] == "P" else 2
+        talker, msgid = hdr[:s], hdr[s:]
+        return content, talker, msgid, payload, cksum
+    except Exception as err:
+        raise nme.NMEAMessageError(f"Badly formed message {message}") from err
+
+
+def groupsize(**kwargs) -> int:
+    """
+    Get number of grouped items in generated payload arguments.
+    e.g. {svid_01=7, svid_02=8, svid_03=24} -> 3
+
+    :param dict kwargs: payload arguments
+    :return: group size
+    :rtype: int
+    """
+
+    idx = 0
+    for a in kwargs:
+        ai = a.rsplit("_", 1)  # attribute names may also include underscores
+        if len(ai) > 1 and ai[1].isdecimal():
+            idx = max(idx, int(ai[1]))
+    return idx
+
+
+def haversine(
+    lat1: float,
+    lon1: float,
+    lat2: float,
+    lon2: float,
+    radius: float = WGS84_SMAJ_AXIS / 1000,
+) -> float:
+    """
+    Calculate spherical distance in km between two coordinates using haversine formula.
+
+    NB suitable for coordinates greater than around 50m apart. For
+    smaller separations, use the planar approximation formula.
+
+    :param float lat1: lat1
+    :param float lon1: lon1
+    :param float lat2: lat2
+    :param float lon2: lon2
+    :param float radius: radius in km (Earth = 6378.137 km)
+    :return: spherical distance in km
+    :rtype: float
+    """
+
+    phi1, lambda1, phi2, lambda2 = [c * pi / 180 for c in (lat1, lon1, lat2, lon2)]
+    dist = radius * acos(
+        cos(phi2 - phi1) - cos(phi1) * cos(phi2) * (1 - cos(lambda2 - lambda1))
+    )
+
+    return dist
+
+
+def hex2str(num: int, padding: int = 0) -> str:
+    """
+    Convert hex integer to padded or unpadded string format,
+    as used by some proprietary NMEA message types.
+
+    :param int num: hexadecimal integer
+    :param padding: no of padded digits (0)
+    :return: integer as string
+    :rtype: str
+    """
+
+    pad = f"{padding:02d}" if padding else ""
+    return f"{num:{pad}x}".upper()
+
+
+def knots2spd(knots: float, unit: str = "MS") -> float:
+    """
+    Convert speed in knots to speed in specified units.
+
+    :param float knots: knots
+    :param unit str: 'MS' (default), 'FS', MPH', 'KMPH'
+    :return: speed in m/s, feet/s, mph or kmph
+    :rtype: float
+
+    """
+
+    try:
+        return knots * KNOTSCONV[unit.upper()]
+    except KeyError as err:
+        raise KeyError(
+            f"Invalid conversion unit {unit.upper()} - must be in {list(KNOTSCONV.keys())}."
+        ) from err
+    except TypeError as err:
+        raise TypeError(
+            f"Invalid knots value {knots} - must be float or integer."
+        ) from err
+
+
+def latlon2dmm(lat: float, lon: float) -> tuple[str, str]:
+    """
+    Converts decimal lat/lon tuple to degrees decimal minutes.
+
+    :param float lat: lat
+    :param float lon: lon
+    :return: (lat,lon) in d.mm.m format
+    :rtype: tuple[str, str]
+    """
+
+    latd = deg2dmm(lat, LA)
+    lond = deg2dmm(lon, LN)
+    return latd, lond
+
+
+def latlon2dms(lat: float, lon: float) -> tuple[str, str]:
+    """
+    Converts decimal lat/lon tuple to degrees minutes seconds.
+
+    :param float lat: lat
+    :param float lon: lon
+    :return: (lat,lon) in d.m.s. format
+    :rtype: tuple[str, str]
+    """
+
+    latd = deg2dms(lat, LA)
+    lond = deg2dms(lon, LN)
+    return latd, lond
+
+
+def leapsecond(dat: datetime, gnss: Literal["G", "E", "C", "J", "I"] = GPS) -> int:
+    """
+    Get leapsecond offset effective at given GNSS epoch and
+    time system. If supplied datetime is timezone naive,
+    UTC will be inferred.
+
+    G = GPS, E = Galileo, C = Beidou, J = QZSS, I = IRNSS (NavIC)
+
+    Note: GLONASS is a non-continuous time system which already
+    takes into account UTC leapseconds.
+
+    Refer to LEAPSECONDS reference table.
+
+    :param datetime.datetime dat: effective date
+    :param Literal["G","E","C","J","I"] gnss: GNSS time system e.g. "G"
+    :return: leapsecond offset
+    :rtype: int
+    """
+
+    def totsec(dt) -> int:
+        return (dt - LEAPS0).total_seconds()
+
+    if dat.tzinfo is None:
+        dat = dat.replace(tzinfo=timezone.utc)
+
+    ep0 = EPOCH0_BEIDOU if gnss == BDS else EPOCH0_GPS
+
+    if totsec(dat) < LEAPSECONDS[0][0]:
+        return 0
+
+    dts = []
+    for dt in (dat, ep0):
+        dts.append(max((val for key, val in LEAPSECONDS if key <= totsec(dt))))
+    return dts[0] - dts[1]
+
+
+def llh2ecef(
+    lat: float,
+    lon: float,
+    height: float,
+    a: float = WGS84_SMAJ_AXIS,
+    f: float = WGS84_FLATTENING,
+) -> tuple:
+    """
+    Convert geodetic coordinates (LLH) to ECEF.
+
+    :param float lat: lat in degrees
+    :param float lon: lon on degrees
+    :param float height: ellipsoidal height in metres
+    :param float a: semi-major axis (6378137.0 for WGS84)
+    :param float f: flattening (298.257223563 for WGS84)
+    :return: tuple of ECEF (X, Y, Z) as floats
+    :rtype: tuple
+    """
+
+    lat, lon = [c * pi / 180 for c in (lat, lon)]
+
+    f = 1 / f
+    e2 = f * (2 - f)
+    a2 = a**2
+    b2 = a2 * (1 - e2)
+
+    N = a / sqrt(1 - e2 * sin(lat) ** 2)
+    x = (N + height) * cos(lat) * cos(lon)
+    y = (N + height) * cos(lat) * sin(lon)
+    z = ((b2 / a2) * N + height) * sin(lat)
+
+    return x, y, z
+
+
+def llh2iso6709(lat: float, lon: float, alt: float, crs: str = WGS84) -> str:
+    """
+    Convert decimal degrees and alt to ISO6709 format
+    e.g. "+27.5916+086.5640+8850CRSWGS_84/".
+
+    :param float lat: latitude
+    :param float lon: longitude
+    :param float alt: altitude (hMSL)
+    :param float crs: coordinate reference system (default = WGS_84)
+    :return: position in ISO6709 format
+    :rtype: str
+
+    """
+
+    lati, loni, alti = ["-" if c < 0 else "+" for c in (lat, lon, alt)]
+    return f"{lati}{abs(lat)}{loni}{abs(lon)}{alti}{alt}CRS{crs}/"
+
+
+def msgdesc(msgID: str) -> str:
+    """
+    Return descriptive string for NMEA msgId.
+
+    :param msgID str: message ID e.g. 'GGA'
+    :return: description of message
+    :rtype: str
+
+    """
+    # pylint: disable=invalid-name
+
+    if msgID in NMEA_MSGIDS:
+        return NMEA_MSGIDS[msgID]
+    if msgID in NMEA_MSGIDS_PROP:
+        return NMEA_MSGIDS_PROP[msgID]
+    return f"Unknown msgID {msgID}"
+
+
+def planar(
+    lat1: float,
+    lon1: float,
+    lat2: float,
+    lon2: float,
+    radius: float = WGS84_SMAJ_AXIS,
+) -> float:
+    """
+    Calculate planar distance between two coordinates using planar
+    approximation formula.
+
+    NB suitable for coordinates less than around 50m apart. For
+    larger separations, use the haversine great circle formula.
+
+    :param float lat1: lat1
+    :param float lon1: lon1
+    :param float lat2: lat2
+    :param float lon2: lon2
+    :param float radius: radius in m (Earth = 6378137 m)
+    :return: planar distance in m
+    :rtype: float
+    """
+
+    phi1, lambda1, phi2, lambda2 = [c * pi / 180 for c in (lat1, lon1, lat2, lon2)]
+    dlambda = (lambda2 - lambda1) * cos(phi1)
+    dphi = phi2 - phi1
+    dist = radius * sqrt(dlambda * dlambda + dphi * dphi)
+
+    return dist
+
+
+def time2str(tim: datetime) -> str:
+    """
+    Convert datetime.time to NMEA formatted string.
+
+    :param datetime.time tim: time
+    :return: NMEA formatted time string hhmmss.ss or "" if invalid
+    :rtype: str
+    """
+
+    try:
+        return tim.strftime("%H%M%S.%f")[0:9]
+    except (AttributeError, TypeError, ValueError):
+        return ""
+
+
+def time2utc(times: str) -> datetime | str:
+    """
+    Convert NMEA Time to UTC datetime.
+
+    :param str times: NMEA time hhmmss.ss
+    :return: UTC time hh:mm:ss.ss or "" if invalid
+    :rtype: datetime.time | str
+    """
+
+    try:
+        if len(times) == 6:  # decimal seconds is omitted
+            times = times + ".00"
+        utc = datetime.strptime(times, "%H%M%S.%f")
+        return utc.time()
+    except (TypeError, ValueError):
+        return ""
+
+
+def utc2wnotow(
+    utc: datetime | NoneType = None,
+    gnss: Literal["G", "E", "C", "J", "I"] = GPS,
+    modwno: bool = True,
+) -> tuple[int, int, int]:
+    """
+    Get Week number (wno), Time of Week (tow) in milliseconds
+    and leapsecond offset for given GNSS UTC epoch and time system.
+
+    G = GPS, E = Galileo, C = Beidou, J = QZSS, I = IRNSS (NavIC)
+    
+    Note: GLONASS does not use GPS-style wno or tow.
+
+    If `utc` is None, will default to current UTC datetime.
+
+    :param datetime | NoneType utc: UTC epoch
+    :param Literal["G","E","C","J","I"] = GPS) gnss: \
+        GNSS time system (GPS)
+    :param bool modwno: True = modular wno, False = continuous wno
+    :return: wno, tow, leapsecond
+    :rtype: tuple[int, int, int]
+    """
+
+    if utc is None:
+        utc = datetime.now(tz=timezone.utc)
+    if utc.tzinfo is None:
+        utc = utc.replace(tzinfo=timezone.utc)
+
+    if gnss == BDS:
+        ep0 = EPOCH0_BEIDOU
+        rollover = 8192
+    elif gnss == GAL:
+        ep0 = EPOCH0_GAL
+        rollover = 4096
+    elif gnss == IRN:
+        ep0 = EPOCH0_IRN
+        rollover = 1024
+    else:
+        ep0 = EPOCH0_GPS
+        rollover = 1024
+
+    ls = 0 if gnss == GLO else leapsecond(utc, gnss)
+    ts = (utc - ep0 + timedelta(seconds=ls)) // timedelta(milliseconds=1)
+    wno, tow = divmod(ts, 604800000)
+    wnom = wno % rollover
+    return wnom if modwno else wno, tow, ls
+
+
+def wnotow2utc(
+    wno: int,
+    tow: int,
+    ls: int | NoneType = None,
+    gnss: Literal["G", "E", "C", "J", "I"] = GPS,
+    autoroll: bool = False,
+    modwno: bool = True,
+) -> datetime:
+    """
+    Convert week number and seconds of week (expressed as
+    milliseconds) for given GNSS epoch to UTC time.
+
+    G = GPS, E = Galileo, C = Beidou, J = QZSS, I = IRNSS (NavIC)
+
+    Note: GLONASS does not use GPS-style wno or tow.
+
+    If `ls` is None (the default), leapsecond offset will be
+    automatically derived from NTC reference table.
+
+    If `autoroll` is True, rolls over modular wno to LATEST
+    date less than current date.
+
+    e.g. if current date is 2026-04-17:
+
+    wno=366, tow=381600000, gnss=GPS gives...
+
+    - autoroll on:  2026-04-16 09:59:42+00:00
+    - autoroll off: 1987-01-15 09:59:56+00:00
+
+    wno=368, tow=610000000, gnss=GPS gives...
+
+    - autoroll on:  2006-09-17 01:26:26+00:00
+    - autoroll off: 1987-02-01 01:26:36+00:00
+
+    :param int wno: week number (modular or mon-modular)
+    :param int tow: time of week in milliseconds (mod 604,800,000)
+    :param int | NoneType ls: leapsecond offset (will be derived if None) (None)
+    :param Literal["G","E","C","J","I"] = GPS) gnss: GNSS time system (GPS)
+    :param bool autoroll: automatic rollover (False)
+    :param bool modwno: True = modular wno, False = continuous wno
+    :return: GNSS epoch as UTC datetime
+    :rtype: datetime
+    """
+
+    if gnss == BDS:
+        ep0 = EPOCH0_BEIDOU
+        rollover = 8192
+    elif gnss == GAL:
+        ep0 = EPOCH0_GAL
+        rollover = 4096
+    elif gnss == IRN:
+        ep0 = EPOCH0_IRN
+        rollover = 1024
+    else:
+        ep0 = EPOCH0_GPS
+        rollover = 1024
+    wno = wno % rollover if modwno else wno
+    tow %= 604800000
+    current = datetime.now(timezone.utc)
+    i = 0
+    utc = None
+    while True:
+        nxt = ep0 + timedelta(days=(wno + (i * rollover)) * 7, milliseconds=tow)
+        if gnss != GLO:  # apply leapsecond offset
+            lps = ls
+            if lps is None:  # offset effective at UTC rather than GNSS epoch
+                lps = leapsecond(nxt - timedelta(seconds=leapsecond(nxt, gnss)), gnss)
+            nxt -= timedelta(seconds=lps)
+        if utc is not None and nxt > current:
+            break
+        utc = nxt
+        if not autoroll:
+            break
+        i += 1
+    return utc
diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 3aef145..99fc880 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -1,864 +1,864 @@
-"""
-Main NMEA GNSS/GPS Message Protocol Class.
-
-Created on 04 Mar 2021
-
-:author: semuadmin (Steve Smith)
-:copyright: semuadmin © 2021
-:license: BSD 3-Clause
-"""
-
-# pylint: disable=invalid-name, too-many-instance-attributes, too-many-positional-arguments
-
-import struct
-from datetime import datetime, timezone
-from logging import getLogger
-from types import NoneType
-from typing import Any, Literal
-
-import pynmeagps.exceptions as nme
-import pynmeagps.nmeatypes_core as nmt
-import pynmeagps.nmeatypes_get as nmg
-import pynmeagps.nmeatypes_get_prop as nmgp
-import pynmeagps.nmeatypes_poll as nmp
-import pynmeagps.nmeatypes_poll_prop as nmpp
-import pynmeagps.nmeatypes_set as nms
-import pynmeagps.nmeatypes_set_prop as nmsp
-from pynmeagps.nmeahelpers import (
-    date2str,
-    date2utc,
-    ddd2dmm,
-    dmm2ddd,
-    generate_checksum,
-    groupsize,
-    time2str,
-    time2utc,
-)
-
-
-class NMEAMessage:
-    """NMEA GNSS/GPS Message Class."""
-
-    def __init__(
-        self,
-        talker: str,
-        msgID: str,
-        msgmode: Literal[0, 1, 2],
-        hpnmeamode: bool = False,
-        validate: int = nmt.VALCKSUM,
-        userdefined: dict | NoneType = None,
-        checksum: str | NoneType = None,
-        **kwargs,
-    ):
-        """Constructor.
-
-        If 'payload' is passed as a keyword arg, this is taken to contain the entire
-        message content as a list of string values; any other keyword args are ignored.
-
-        Otherwise, any individual attributes passed as keyword args will be set to the
-        value provided, all others will be assigned a nominal value according to type.
-
-        :param str talker: message talker e.g. "GP" or "P"
-        :param str msgID: message ID e.g. "GGA"
-        :param int msgmode: mode (0=GET, 1=SET, 2=POLL)
-        :param bool hpnmeamode: high precision lat/lon mode (7dp rather than 5dp) (False)
-        :param int validate: VALNONE (0), VALCKSUM (1), VALMSGID (2),
-            (can be OR'd) (1)
-        :param dict userdefined: user-defined payload definition dictionary (None)
-        :param str | NoneType checksum: checksum from incoming message or
-            None if creating new message (None)
-        :param kwargs: keyword arg(s) representing all or some payload attributes
-        :raises: NMEAMessageError
-        """
-
-        # object is mutable during initialisation only
-        super().__setattr__("_immutable", False)
-        self._logger = getLogger(__name__)
-        self._validate = validate
-        self._userdefined = {} if userdefined is None else userdefined
-
-        if msgmode not in (0, 1, 2):
-            raise nme.NMEAMessageError(
-                f"Invalid msgmode {msgmode} - must be 0, 1 or 2."
-            )
-        if talker not in nmt.NMEA_TALKERS:
-            if self._validate & nmt.VALMSGID:
-                raise nme.NMEAMessageError(f"Unknown talker {talker}.")
-        if msgID in nmt.NMEA_MSGIDS:
-            self._defsource = nmt.DEF_STND  # standard
-        elif msgID in nmt.NMEA_MSGIDS_PROP or msgID in nmt.NMEA_PREFIX_PROP:
-            self._defsource = nmt.DEF_PROP  # proprietary
-        elif msgID in self._userdefined:
-            self._defsource = nmt.DEF_USER  # user-defined
-        else:
-            self._defsource = nmt.DEF_UNKN  # unrecognised
-            if self._validate & nmt.VALMSGID:
-                raise nme.NMEAMessageError(
-                    f"Unknown msgID {talker}{msgID}, msgmode {('GET','SET','POLL')[msgmode]}."
-                )
-
-        self._mode = msgmode
-        # high precision NMEA mode returns NMEA lat/lon to 7dp rather than 5dp
-        self._hpnmeamode = hpnmeamode
-        self._talker = talker
-        self._msgID = msgID
-        self._checksum = checksum
-        # flag to show message is being streamed rather than generated
-        self._streaming = "payload" in kwargs
-        # all nominal date and time attributes are taken from the same instant
-        self._now = datetime.now(timezone.utc)
-        self._do_attributes(**kwargs)
-        self._immutable = True  # once initialised, object is immutable
-
-    def _do_attributes(self, **kwargs):
-        """
-        Populate NMEAMessage from named attribute keywords.
-        Where a named attribute is absent, set to a nominal value (zeros or blanks).
-
-        :param kwargs: optional content key/value pairs
-        :raises: UBXTypeError
-        """
-
-        pindex = 0  # payload index
-        gindex = []  # (nested) grouped attribute indices
-        key = ""
-
-        try:
-            self._payload = list(kwargs.get("payload", []))
-            # self._checksum = kwargs.get("checksum", None)
-            pdict = self._get_dict(**kwargs)  # get payload definition dict
-            if pdict is None:  # definition not yet implemented
-                if "payload" in kwargs:
-                    self._set_attribute_nominal(kwargs["payload"])
-                pdict = {}
-            for key in pdict.keys():  # process each attribute in dict
-                pindex, gindex = self._set_attribute(
-                    pindex, pdict, key, gindex, **kwargs
-                )
-            # generate checksum for newly-created message
-            if self._checksum is None:
-                self._checksum = generate_checksum(
-                    self._talker, self._msgID, self._payload
-                )
-
-        except (
-            AttributeError,
-            IndexError,
-            OverflowError,
-            struct.error,
-            TypeError,
-            ValueError,
-        ) as err:
-            raise nme.NMEATypeError(
-                f"Incorrect type for attribute {key} in msgID {self._msgID}."
-            ) from err
-
-    def _set_attribute(
-        self, pindex: int, pdict: dict, key: str, gindex: list, **kwargs
-    ) -> tuple:
-        """
-        Recursive routine to set individual or grouped payload attributes.
-
-        :param int pindex: payload index
-        :param dict pdict: dict representing payload definition
-        :param str key: attribute keyword
-        :param list gindex: repeating group index array
-        :param kwargs: optional payload key/value pairs
-        :return: (pindex, gindex[])
-        :rtype: tuple
-        """
-
-        att = pdict[key]  # get attribute type
-        if isinstance(att, tuple):  # repeating group of attributes
-            pindex, gindex = self._set_attribute_group(att, pindex, gindex, **kwargs)
-        else:  # single attribute
-            pindex = self._set_attribute_single(att, pindex, key, gindex, **kwargs)
-
-        return (pindex, gindex)
-
-    def _set_attribute_group(
-        self, att: tuple[int, dict], pindex: int, gindex: list, **kwargs
-    ) -> tuple:
-        """
-        Process (nested) group of attributes.
-
-        :param tuple att: attribute group - tuple of (num repeats, attribute dict)
-        :param int pindex: payload index
-        :param list gindex: repeating group index array
-        :param kwargs: optional payload key/value pairs
-        :return: (pindex, gindex[])
-        :rtype: tuple
-        """
-
-        gindex.append(0)  # add a (nested) group index
-        numr, attd = att  # number of repeats, group dictionary
-
-        # derive or retrieve number of items in group
-        if isinstance(numr, int):  # fixed number of repeats
-            rng = numr
-        elif numr == "None":  # indeterminate number of repeats
-            pindexend = 0  # may need tweaking
-            if self._streaming:
-                rng = self._calc_num_repeats(attd, self._payload, pindex, pindexend)
-            else:
-                rng = groupsize(**kwargs)
-        else:  # number of repeats is defined in named attribute
-            rng = getattr(self, numr)
-            if self._streaming:  # can't be more items than fields left in payload
-                rng = min(rng, len(self._payload) - pindex)
-        # recursively process each group attribute,
-        # incrementing the payload index and group index as we go
-        for i in range(rng):
-            gindex[-1] = i + 1
-            for key1 in attd.keys():
-                pindex, gindex = self._set_attribute(
-                    pindex, attd, key1, gindex, **kwargs
-                )
-
-        gindex.pop()  # remove this (nested) group index
-
-        return (pindex, gindex)
-
-    def _set_attribute_single(
-        self, att: str, pindex: int, key: str, gindex: list, **kwargs
-    ) -> int:
-        """
-        Set individual attribute value.
-
-        :param str att: attribute type e.g. 'NU'
-        :param int pindex: payload index
-        :param str key: attribute keyword
-        :param list gindex: repeating group index array
-        :param kwargs: optional payload key/value pairs
-        :return: pindex
-        :rtype: int
-        """
-        # pylint: disable=no-member, access-member-before-definition, attribute-defined-outside-init
-
-        # if attribute is part of a (nested) repeating group, suffix name with group index
-        keyr = key
-        for i in gindex:  # one index for each nested level
-            if i > 0:
-                keyr += f"_{i:02d}"
-
-        try:
-            # all attribute values have been provided
-            if self._streaming:
-                val = self._payload[pindex]
-                # remove group delimiters in proprietary PSSNSNC message
-                if self.identity == "PSSNSNC":
-                    val = val.replace("[", "").replace("]", "")
-                val = self.str2val(val, att)
-            # some attribute values have been provided,
-            # the rest will be set to a nominal value
-            else:
-                if att == nmt.LND and hasattr(self, "lon"):
-                    if isinstance(self.lon, (int, float)):
-                        val = "W" if self.lon < 0 else "E"
-                    else:  # pragma: no cover
-                        val = "E"
-                elif att == nmt.LAD and hasattr(self, "lat"):
-                    if isinstance(self.lat, (int, float)):
-                        val = "S" if self.lat < 0 else "N"
-                    else:  # pragma: no cover
-                        val = "N"
-                else:
-                    val = kwargs.get(keyr, self.nomval(att, self.msgmode, self._now))
-                vals = self.val2str(val, att, self._hpnmeamode)
-                self._payload.append(vals)
-
-        except (
-            IndexError
-        ):  # probably just an older device missing NMEA <=4.10 dict attributes
-            return pindex
-
-        setattr(self, keyr, val)  # add attribute to NMEAMessage object
-        if self._streaming:
-            # override sign of lat/lon according to NS and EW values
-            if att == nmt.LND and hasattr(self, "lon"):
-                if isinstance(self.lon, (int, float)):
-                    self.lon = -abs(self.lon) if val == "W" else abs(self.lon)
-            elif att == nmt.LAD and hasattr(self, "lat"):
-                if isinstance(self.lat, (int, float)):
-                    self.lat = -abs(self.lat) if val == "S" else abs(self.lat)
-        pindex += 1  # move on to next attribute in payload definition
-
-        return pindex
-
-    def _set_attribute_nominal(self, payload: list):
-        """
-        Set nominal attributes for unrecognised NMEA sentence types.
-
-        :param list payload: payload as list
-        """
-
-        for i, fld in enumerate(payload):
-            setattr(self, f"field_{i+1:02d}", fld)
-
-    def _get_dict(self, **kwargs) -> dict | NoneType:
-        """
-        Get payload dictionary.
-
-        :return: dictionary representing payload definition
-        :rtype: dict | NoneType
-        """
-
-        dic = None
-        key = self.msgID
-
-        try:
-            if key in nmt.NMEA_PREFIX_PROP:  # proprietary, first element is msgId
-                if self._streaming:
-                    if key == "ASHR" and self._payload[0][1].isdigit():
-                        pass  # exception for PASHR pitch and roll sentence without msgId
-                    else:
-                        key += self._payload[0]
-                elif "msgId" in kwargs:
-                    key += kwargs["msgId"]
-                else:
-                    raise nme.NMEAMessageError(
-                        f"P{key} message definitions must "
-                        "include payload or msgId keyword arguments."
-                    )
-            if key not in nmt.NMEA_MSGIDS_PROP:  # some ids are mixed case
-                key = key.upper()
-
-            if self._defsource == nmt.DEF_PROP:  # proprietary
-                dic = self._get_dict_prop(key, **kwargs)
-            elif self._defsource == nmt.DEF_USER:  # user defined
-                dic = self._userdefined[key]
-            else:  # standard
-                if self._mode == nmt.POLL:
-                    dic = nmp.NMEA_PAYLOADS_POLL[key]
-                elif self._mode == nmt.SET:  # pragma: no cover
-                    dic = nms.NMEA_PAYLOADS_SET[key]
-                else:
-                    dic = nmg.NMEA_PAYLOADS_GET[key]
-        except KeyError as err:  # unknown msgid
-            erm = f"Unknown msgID {key} msgmode {('GET', 'SET', 'POLL')[self._mode]}."
-            if self._validate & nmt.VALMSGID:
-                raise nme.NMEAMessageError(erm) from err
-
-        return dic
-
-    def _get_dict_prop(self, key: str, **kwargs) -> dict:
-        """
-        Get payload dictionary for proprietary message types.
-
-        :param str key: msgid
-        :return: dictionary representing payload definition
-        :rtype: dict
-        """
-
-        acknak = self._get_dict_qtmacknak(key, self._mode)
-        if key[0:3] == "QTM" and acknak != key:  # command response
-            key = acknak
-        elif key == "QTMCFGGEOFENCE":
-            key = self._get_dict_qtmcfggeofence(key, self._mode, **kwargs)
-        elif key == "QTMCFGMSGRATE":
-            key = self._get_dict_qtmcfgmsgrate(key, self._mode, **kwargs)
-        elif key == "QTMCFGPPS":
-            key = self._get_dict_qtmcfgpps(key, self._mode, **kwargs)
-        elif key == "QTMCFGSAT":
-            key = self._get_dict_qtmcfgsat(key, self._mode, **kwargs)
-        elif key == "QTMCFGUART":
-            key = self._get_dict_qtmcfguart(key, self._mode, **kwargs)
-        elif key == "QTMSN":
-            key = self._get_dict_qtmsn(key, self._mode, **kwargs)
-        elif key == "STMDRSENMSG":
-            key = self._get_dict_stmdrsenmsg(key, self._mode, **kwargs)
-
-        if self._mode == nmt.POLL:
-            if key in nmp.NMEA_PAYLOADS_POLL:
-                return nmp.NMEA_PAYLOADS_POLL[key]
-            return nmpp.NMEA_PAYLOADS_POLL_PROP[key]
-        if self._mode == nmt.SET:
-            return nmsp.NMEA_PAYLOADS_SET_PROP[key]
-        return nmgp.NMEA_PAYLOADS_GET_PROP[key]
-
-    def _get_dict_qtmcfguart(self, key: str, mode: int, **kwargs) -> str:
-        """
-        Get payload dictionary for proprietary Quectel QTMCFGUART
-        command and query variants.
-
-        :param str key: msgid
-        :param int mode: msgmode 1/2
-        :return: key of payload definition
-        :rtype: str
-        """
-
-        lp = len(self._payload)
-        py = self._streaming
-        pt = "portid" in kwargs
-        if mode == nmt.SET:
-            bd = "baudrate" in kwargs
-            db = "databit" in kwargs
-            if (py and lp == 2) or (not py and not pt and bd and not db):
-                key += "_CURRBAUD"
-            elif (py and lp == 3) or (not py and pt and bd and not db):
-                key += "_BAUD"
-            elif (py and lp == 6) or (not py and not pt and bd and db):
-                key += "_CURR"
-        elif mode == nmt.POLL:
-            if (py and lp == 1) or (not py and not pt):
-                key += "_CURR"
-        return key
-
-    def _get_dict_qtmcfgmsgrate(self, key: str, mode: int, **kwargs) -> str:
-        """
-        Get payload dictionary for proprietary Quectel QTMCFGMSGRATE
-        command and query variants.
-
-        :param str key: msgid
-        :param int mode: msgmode 1/2
-        :return: key of payload definition
-        :rtype: str
-        """
-
-        lp = len(self._payload)
-        py = self._streaming
-        mv = "msgver" in kwargs
-        pt = "porttype" in kwargs
-        if mode in (nmt.SET, nmt.GET):
-            if (py and lp == 3) or (not py and not pt and not mv):
-                key += "_NOVER"
-            elif (py and lp == 5) or (not py and pt and not mv):
-                key += "_INTFNOVER"
-            elif (py and lp == 6) or (not py and pt and mv):
-                key += "_INTF"
-        elif mode == nmt.POLL:
-            if (py and lp == 2) or (not py and not pt and not mv):
-                key += "_NOVER"
-            elif (py and lp == 4) or (not py and pt and not mv):
-                key += "_INTFNOVER"
-            elif (py and lp == 5) or (not py and pt and mv):
-                key += "_INTF"
-        return key
-
-    def _get_dict_qtmcfgpps(self, key: str, mode: int, **kwargs) -> str:
-        """
-        Get payload dictionary for proprietary Quectel QTMCFGPPS
-        command and query variants.
-
-        :param str key: msgid
-        :param int mode: msgmode 1/2
-        :return: key of payload definition
-        :rtype: str
-        """
-
-        lp = len(self._payload)
-        py = self._streaming
-        if mode == nmt.SET:
-            if (py and lp == 3) or (not py and kwargs.get("enable", 1) == 0):
-                key += "_DIS"
-        return key
-
-    def _get_dict_qtmcfgsat(self, key: str, mode: int, **kwargs) -> str:
-        """
-        Get payload dictionary for proprietary Quectel QTMCFGSAT
-        command and query variants.
-
-        :param str key: msgid
-        :param int mode: msgmode 1/2
-        :return: key of payload definition
-        :rtype: str
-        """
-
-        lp = len(self._payload)
-        py = self._streaming
-        mh = "maskhigh" in kwargs
-        if mode == nmt.SET:
-            if (py and lp == 4) or (not py and not mh):
-                key += "_LOW"
-        elif mode == nmt.GET:
-            if (py and lp == 4) or (not py and not mh):
-                key += "_LOW"
-            elif lp in (1, 2):
-                key = self._get_dict_qtmacknak(key, mode)
-        return key
-
-    def _get_dict_qtmcfggeofence(self, key: str, mode: int, **kwargs) -> str:
-        """
-        Get payload dictionary for proprietary Quectel QTMCFGGEOFENCE
-        command and query variants.
-
-        :param str key: msgid
-        :param int mode: msgmode 1/2
-        :return: key of payload definition
-        :rtype: str
-        """
-
-        lp = len(self._payload)
-        py = self._streaming
-        l1 = "lon1" in kwargs
-        if mode == nmt.SET:
-            if (py and lp == 13) or (not py and l1):
-                key += "_POLY"
-            elif (py and lp == 3) or (not py and kwargs.get("geofencemode", 1) == 0):
-                key += "_DIS"
-        elif mode == nmt.GET:
-            if (py and lp == 13) or (not py and l1):
-                key += "_POLY"
-            elif lp in (1, 2):
-                key = self._get_dict_qtmacknak(key, mode)
-        return key
-
-    def _get_dict_qtmsn(self, key: str, mode: int, **kwargs) -> str:
-        """
-        Get payload dictionary for proprietary Quectel QTMSN.
-        (bug in LG580P firmware - seems to transpose status field?)
-
-        :param str key: msgid
-        :param int mode: msgmode 1/2
-        :return: key of payload definition
-        :rtype: str
-        """
-
-        py = self._streaming
-        if mode == nmt.GET:
-            if py and kwargs["payload"][0].isnumeric():
-                key += "_ALT"
-        return key
-
-    def _get_dict_stmdrsenmsg(
-        self, key: str, mode: int, **kwargs
-    ) -> str:  # pylint: disable=unused-argument
-        """
-        Get payload dictionary for proprietary Quectel PSTMDRSENMSG variants.
-
-        :param str key: msgid
-        :param int mode: msgmode 1/2
-        :return: key of payload definition
-        :rtype: str
-        """
-
-        py = self._streaming
-        mt = "msgtype" in kwargs
-        msgtype = ""
-        if py:
-            msgtype = self._payload[0]
-        elif not py and mt:
-            msgtype = kwargs["msgtype"]
-        key += f"_{msgtype}"
-        return key
-
-    def _get_dict_qtmacknak(self, key: str, mode: int) -> str:
-        """
-        Get payload dictionary for proprietary Quectel command
-        response variants.
-
-        :param str key: msgid
-        :param int mode: msgmode 1/2
-        :return: key of payload definition
-        :rtype: str
-        """
-
-        lp = len(self._payload)
-        if mode == nmt.GET:
-            if lp == 1 and self._payload[0] == "OK":
-                key = "QTMACK"
-            elif lp == 2 and self._payload[0] == "ERROR":
-                key = "QTMNAK"
-        return key
-
-    def _calc_num_repeats(
-        self, attd: dict, payload: list, pindex: int, pindexend: int = 0
-    ) -> int:
-        """
-        Deduce number of items in repeating group.
-
-        :param dict attd: grouped attribute dictionary
-        :param list payload : content as list
-        :param int pindex: number of payload attributes before group
-        :param int pindexend: number of payload attributes after group
-        :return: number of repeats
-        :rtype: int
-        """
-
-        lenpayload = len(payload) - pindex - pindexend
-        lengroup = len(attd)
-        return int(lenpayload / lengroup)
-
-    def __str__(self) -> str:
-        """
-        Human readable representation.
-
-        :return: human readable representation
-        :rtype: str
-        """
-
-        stg = f"<NMEA({self.identity}"
-        if self._defsource == nmt.DEF_UNKN:
-            stg += ", NOMINAL"
-        for att, val in self.__dict__.items():
-            if att[0] != "_":  # only show public attributes
-                stg += f", {att}={val}"
-        stg += ")>"
-
-        return stg
-
-    def __repr__(self) -> str:
-        """
-        Machine readable representation.
-
-        eval(repr(obj)) = obj
-
-        :return: machine readable representation
-        :rtype: str
-        """
-
-        return (
-            f"NMEAMessage('{self._talker}','{self._msgID}', "
-            f"{self._mode}, payload={self._payload})"
-        )
-
-    def __setattr__(self, name, value):
-        """
-        Override setattr to make object immutable after instantiation.
-
-        :param str name: attribute name
-        :param object value: attribute value
-        :raises: NMEAMessageError
-        """
-
-        if self._immutable:
-            raise nme.NMEAMessageError(
-                f"Object is immutable. Updates to {name} not permitted after initialisation."
-            )
-
-        super().__setattr__(name, value)
-
-    def __delattr__(self, name):
-        """
-        Override delattr to make object immutable after instantiation.
-
-        :param str name: attribute name
-        :raises: NMEAMessageError
-        """
-
-        if self._immutable:
-            raise nme.NMEAMessageError(
-                f"Object is immutable. Deletion of {name} not permitted after initialisation."
-            )
-
-        super().__delattr__(name)
-
-    def serialize(self) -> bytes:
-        """
-        Serialize message.
-
-        :return: serialized output
-        :rtype: bytes
-        """
-
-        output = f"${self._talker}{self._msgID}"
-        for att in self._payload:
-            output += "," + att
-        output += f"*{self._checksum}\r\n"
-        return output.encode("utf-8")  # convert str to bytes
-
-    @property
-    def identity(self) -> str:
-        """
-        Identity getter.
-
-        :return: message identity e.g. GNGSA
-        :rtype: str
-        """
-
-        # pylint: disable=no-member
-
-        if (
-            self._talker == "P"
-            and self._msgID in nmt.NMEA_PREFIX_PROP
-            and hasattr(self, "msgId")
-        ):
-            return self._talker + self._msgID + self.msgId
-        return self._talker + self._msgID
-
-    @property
-    def talker(self) -> str:
-        """
-        Talker getter.
-
-        :return: talker e.g. GN
-        :rtype: str
-        """
-
-        return self._talker
-
-    @property
-    def msgID(self) -> str:
-        """
-        Message id getter.
-
-        :return: message id e.g. GSA
-        :rtype: str
-        """
-
-        return self._msgID
-
-    @property
-    def msgmode(self) -> int:
-        """
-        Message mode getter.
-
-        :return: message mode
-        :rtype: int
-        """
-
-        return self._mode
-
-    @property
-    def payload(self) -> list:
-        """
-        Payload getter.
-
-        :return: raw payload as list of strings
-        :rtype: list
-        """
-
-        return list(self._payload)
-
-    @property
-    def checksum(self) -> str | NoneType:
-        """
-        Checksum getter.
-
-        :return: checksum as hex string
-        :rtype: str | NoneType
-        """
-
-        return self._checksum
-
-    @staticmethod
-    def str2val(vals: str, att: str) -> Any:
-        """
-        Convert NMEA string to typed value
-        (this is the format that will be available to end users).
-
-        :param str vals: attribute value in NMEA protocol format
-        :param str att: attribute type e.g. 'DE'
-        :return: attribute value
-        :rtype: Any
-        :raises: MMEATypeError
-        """
-
-        val = vals
-        if att in (nmt.CH, nmt.ST, nmt.LAD, nmt.LND, nmt.QS):
-            pass
-        elif att == nmt.HX:
-            val = vals
-        elif att == nmt.DE:  # decimal
-            if vals != "":
-                val = float(vals)
-        elif att in (nmt.DT, nmt.DTL, nmt.DM):  # date
-            val = date2utc(vals, att)
-        elif att == nmt.IN:  # integer
-            if vals != "":
-                val = int(vals)
-        elif att in (nmt.LA, nmt.LN):  # lat/lon (d)ddmm.mmmmm(mm)
-            val = dmm2ddd(vals)
-        elif att == nmt.TM:  # time hhmmss.ss
-            val = time2utc(vals)
-        else:
-            raise nme.NMEATypeError(f"Unknown attribute type {att}.")
-        return val
-
-    @staticmethod
-    def val2str(val, att: str, hpmode: bool = False) -> str:
-        """
-        Convert typed value to NMEA string
-        (this is the format used internally by the NMEA protocol).
-
-        :param object val: typed attribute value
-        :param str att: attribute type e.g. 'IN'
-        :param bool hpmode: high precision lat/lon mode (7dp rather than 5dp)
-        :return: attribute value in NMEA protocol format
-        :rtype: str
-        :raises: NMEATypeError
-
-        """
-
-        if att in (nmt.CH, nmt.ST, nmt.LAD, nmt.LND, nmt.QS):
-            vals = str(val)
-        elif att == nmt.HX:
-            vals = str(val)
-        elif att == nmt.DE:
-            vals = str(val)
-        elif att == nmt.IN:
-            vals = str(val)
-        elif att in (nmt.LA, nmt.LN):
-            vals = ddd2dmm(val, att, hpmode)
-        elif att == nmt.TM:
-            if isinstance(val, str):
-                vals = str(val.replace(":", ""))
-            else:  # time
-                vals = time2str(val)
-        elif att == nmt.DT:
-            if isinstance(val, str):
-                # yyyymmdd -> ddmmyy
-                val = val.replace("-", "")
-                vals = f"{val[6:8]}{val[4:6]}{val[2:4]}"
-            else:  # datetime
-                vals = date2str(val, att)
-        elif att == nmt.DTL:
-            # yyyymmdd -> ddmmyyyy
-            if isinstance(val, str):
-                val = val.replace("-", "")
-                vals = f"{val[6:8]}{val[4:6]}{val[0:4]}"
-            else:  # datetime
-                vals = date2str(val, att)
-        elif att == nmt.DM:
-            # yyyymmdd -> mmddyy
-            if isinstance(val, str):
-                val = val.replace("-", "")
-                vals = f"{val[4:6]}{val[6:8]}{val[2:4]}"
-            else:  # datetime
-                vals = date2str(val, att)
-        else:
-            raise nme.NMEATypeError(f"Unknown attribute type {att}.")
-        return vals
-
-    @staticmethod
-    def nomval(
-        att: str, msgmode: int = nmt.GET, now: datetime | NoneType = None
-    ) -> Any:
-        """
-        Return nominal value for specified attribute type
-
-        :param str att: attribute type e.g. 'DE'
-        :param int msgmode: message mode GET/SET/POLL
-        :param datetime | NoneType now: UTC datetime for nominal date and time
-            values (defaults to current UTC datetime)
-        :return: nominal value for type
-        :rtype: Any
-        :raises: NMEATypeError
-        """
-
-        if att in (nmt.CH, nmt.ST, nmt.LA, nmt.LN):
-            val = ""
-        elif att == nmt.LAD:  # pragma: no cover
-            val = "N"
-        elif att == nmt.LND:  # pragma: no cover
-            val = "E"
-        elif att == nmt.HX:
-            val = "0"
-        elif att == nmt.DE:
-            val = 0.0
-        elif att == nmt.IN:
-            val = 0
-        elif att == nmt.TM:
-            val = (now or datetime.now(timezone.utc)).time()
-        elif att in (nmt.DT, nmt.DTL, nmt.DM):
-            val = (now or datetime.now(timezone.utc)).date()
-        elif att == nmt.QS:  # Quectel status attribute
-            if msgmode == nmt.POLL:
-                val = "R"  # read
-            elif msgmode == nmt.SET:
-                val = "W"  # write
-            else:
-                val = "OK"  # acknowledgement
-        else:
-            raise nme.NMEATypeError(f"Unknown attribute type {att}.")
-        return val
+"""
+Main NMEA GNSS/GPS Message Protocol Class.
+
+Created on 04 Mar 2021
+
+:author: semuadmin (Steve Smith)
+:copyright: semuadmin © 2021
+:license: BSD 3-Clause
+"""
+
+# pylint: disable=invalid-name, too-many-instance-attributes, too-many-positional-arguments
+
+import struct
+from datetime import datetime, timezone
+from logging import getLogger
+from types import NoneType
+from typing import Any, Literal
+
+import pynmeagps.exceptions as nme
+import pynmeagps.nmeatypes_core as nmt
+import pynmeagps.nmeatypes_get as nmg
+import pynmeagps.nmeatypes_get_prop as nmgp
+import pynmeagps.nmeatypes_poll as nmp
+import pynmeagps.nmeatypes_poll_prop as nmpp
+import pynmeagps.nmeatypes_set as nms
+import pynmeagps.nmeatypes_set_prop as nmsp
+from pynmeagps.nmeahelpers import (
+    date2str,
+    date2utc,
+    ddd2dmm,
+    dmm2ddd,
+    generate_checksum,
+    groupsize,
+    time2str,
+    time2utc,
+)
+
+
+class NMEAMessage:
+    """NMEA GNSS/GPS Message Class."""
+
+    def __init__(
+        self,
+        talker: str,
+        msgID: str,
+        msgmode: Literal[0, 1, 2],
+        hpnmeamode: bool = False,
+        validate: int = nmt.VALCKSUM,
+        userdefined: dict | NoneType = None,
+        checksum: str | NoneType = None,
+        **kwargs,
+    ):
+        """Constructor.
+
+        If 'payload' is passed as a keyword arg, this is taken to contain the entire
+        message content as a list of string values; any other keyword args are ignored.
+
+        Otherwise, any individual attributes passed as keyword args will be set to the
+        value provided, all others will be assigned a nominal value according to type.
+
+        :param str talker: message talker e.g. "GP" or "P"
+        :param str msgID: message ID e.g. "GGA"
+        :param int msgmode: mode (0=GET, 1=SET, 2=POLL)
+        :param bool hpnmeamode: high precision lat/lon mode (7dp rather than 5dp) (False)
+        :param int validate: VALNONE (0), VALCKSUM (1), VALMSGID (2),
+            (can be OR'd) (1)
+        :param dict userdefined: user-defined payload definition dictionary (None)
+        :param str | NoneType checksum: checksum from incoming message or
+            None if creating new message (None)
+        :param kwargs: keyword arg(s) representing all or some payload attributes
+        :raises: NMEAMessageError
+        """
+
+        # object is mutable during initialisation only
+        super().__setattr__("_immutable", False)
+        self._logger = getLogger(__name__)
+        self._validate = validate
+        self._userdefined = {} if userdefined is None else userdefined
+
+        if msgmode not in (0, 1, 2):
+            raise nme.NMEAMessageError(
+                f"Invalid msgmode {msgmode} - must be 0, 1 or 2."
+            )
+        if talker not in nmt.NMEA_TALKERS:
+            if self._validate & nmt.VALMSGID:
+                raise nme.NMEAMessageError(f"Unknown talker {talker}.")
+        if msgID in nmt.NMEA_MSGIDS:
+            self._defsource = nmt.DEF_STND  # standard
+        elif msgID in nmt.NMEA_MSGIDS_PROP or msgID in nmt.NMEA_PREFIX_PROP:
+            self._defsource = nmt.DEF_PROP  # proprietary
+        elif msgID in self._userdefined:
+            self._defsource = nmt.DEF_USER  # user-defined
+        else:
+            self._defsource = nmt.DEF_UNKN  # unrecognised
+            if self._validate & nmt.VALMSGID:
+                raise nme.NMEAMessageError(
+                    f"Unknown msgID {talker}{msgID}, msgmode {('GET','SET','POLL')[msgmode]}."
+                )
+
+        self._mode = msgmode
+        # high precision NMEA mode returns NMEA lat/lon to 7dp rather than 5dp
+        self._hpnmeamode = hpnmeamode
+        self._talker = talker
+        self._msgID = msgID
+        self._checksum = checksum
+        # flag to show message is being streamed rather than generated
+        self._streaming = "payload" in kwargs
+        # all nominal date and time attributes are taken from the same instant
+        self._now = datetime.now(timezone.utc)
+        self._do_attributes(**kwargs)
+        self._immutable = True  # once initialised, object is immutable
+
+    def _do_attributes(self, **kwargs):
+        """
+        Populate NMEAMessage from named attribute keywords.
+        Where a named attribute is absent, set to a nominal value (zeros or blanks).
+
+        :param kwargs: optional content key/value pairs
+        :raises: UBXTypeError
+        """
+
+        pindex = 0  # payload index
+        gindex = []  # (nested) grouped attribute indices
+        key = ""
+
+        try:
+            self._payload = list(kwargs.get("payload", []))
+            # self._checksum = kwargs.get("checksum", None)
+            pdict = self._get_dict(**kwargs)  # get payload definition dict
+            if pdict is None:  # definition not yet implemented
+                if "payload" in kwargs:
+                    self._set_attribute_nominal(kwargs["payload"])
+                pdict = {}
+            for key in pdict.keys():  # process each attribute in dict
+                pindex, gindex = self._set_attribute(
+                    pindex, pdict, key, gindex, **kwargs
+                )
+            # generate checksum for newly-created message
+            if self._checksum is None:
+                self._checksum = generate_checksum(
+                    self._talker, self._msgID, self._payload
+                )
+
+        except (
+            AttributeError,
+            IndexError,
+            OverflowError,
+            struct.error,
+            TypeError,
+            ValueError,
+        ) as err:
+            raise nme.NMEATypeError(
+                f"Incorrect type for attribute {key} in msgID {self._msgID}."
+            ) from err
+
+    def _set_attribute(
+        self, pindex: int, pdict: dict, key: str, gindex: list, **kwargs
+    ) -> tuple:
+        """
+        Recursive routine to set individual or grouped payload attributes.
+
+        :param int pindex: payload index
+        :param dict pdict: dict representing payload definition
+        :param str key: attribute keyword
+        :param list gindex: repeating group index array
+        :param kwargs: optional payload key/value pairs
+        :return: (pindex, gindex[])
+        :rtype: tuple
+        """
+
+        att = pdict[key]  # get attribute type
+        if isinstance(att, tuple):  # repeating group of attributes
+            pindex, gindex = self._set_attribute_group(att, pindex, gindex, **kwargs)
+        else:  # single attribute
+            pindex = self._set_attribute_single(att, pindex, key, gindex, **kwargs)
+
+        return (pindex, gindex)
+
+    def _set_attribute_group(
+        self, att: tuple[int, dict], pindex: int, gindex: list, **kwargs
+    ) -> tuple:
+        """
+        Process (nested) group of attributes.
+
+        :param tuple att: attribute group - tuple of (num repeats, attribute dict)
+        :param int pindex: payload index
+        :param list gindex: repeating group index array
+        :param kwargs: optional payload key/value pairs
+        :return: (pindex, gindex[])
+        :rtype: tuple
+        """
+
+        gindex.append(0)  # add a (nested) group index
+        numr, attd = att  # number of repeats, group dictionary
+
+        # derive or retrieve number of items in group
+        if isinstance(numr, int):  # fixed number of repeats
+            rng = numr
+        elif numr == "None":  # indeterminate number of repeats
+            pindexend = 0  # may need tweaking
+            if self._streaming:
+                rng = self._calc_num_repeats(attd, self._payload, pindex, pindexend)
+            else:
+                rng = groupsize(**kwargs)
+        else:  # number of repeats is defined in named attribute
+            rng = getattr(self, numr)
+            if self._streaming:  # can't be more items than fields left in payload
+                rng = min(rng, len(self._payload) - pindex)
+        # recursively process each group attribute,
+        # incrementing the payload index and group index as we go
+        for i in range(rng):
+            gindex[-1] = i + 1
+            for key1 in attd.keys():
+                pindex, gindex = self._set_attribute(
+                    pindex, attd, key1, gindex, **kwargs
+                )
+
+        gindex.pop()  # remove this (nested) group index
+
+        return (pindex, gindex)
+
+    def _set_attribute_single(
+        self, att: str, pindex: int, key: str, gindex: list, **kwargs
+    ) -> int:
+        """
+        Set individual attribute value.
+
+        :param str att: attribute type e.g. 'NU'
+        :param int pindex: payload index
+        :param str key: attribute keyword
+        :param list gindex: repeating group index array
+        :param kwargs: optional payload key/value pairs
+        :return: pindex
+        :rtype: int
+        """
+        # pylint: disable=no-member, access-member-before-definition, attribute-defined-outside-init
+
+        # if attribute is part of a (nested) repeating group, suffix name with group index
+        keyr = key
+        for i in gindex:  # one index for each nested level
+            if i > 0:
+                keyr += f"_{i:02d}"
+
+        try:
+            # all attribute values have been provided
+            if self._streaming:
+                val = self._payload[pindex]
+                # remove group delimiters in proprietary PSSNSNC message
+                if self.identity == "PSSNSNC":
+                    val = val.replace("[", "").replace("]", "")
+                val = self.str2val(val, att)
+            # some attribute values have been provided,
+            # the rest will be set to a nominal value
+            else:
+                if att == nmt.LND and hasattr(self, "lon"):
+                    if isinstance(self.lon, (int, float)):
+                        val = "W" if self.lon < 0 else "E"
+                    else:  # pragma: no cover
+                        val = "E"
+                elif att == nmt.LAD and hasattr(self, "lat"):
+                    if isinstance(self.lat, (int, float)):
+                        val = "S" if self.lat < 0 else "N"
+                    else:  # pragma: no cover
+                        val = "N"
+                else:
+                    val = kwargs.get(keyr, self.nomval(att, self.msgmode, self._now))
+                vals = self.val2str(val, att, self._hpnmeamode)
+                self._payload.append(vals)
+
+        except (
+            IndexError
+        ):  # probably just an older device missing NMEA <=4.10 dict attributes
+            return pindex
+
+        setattr(self, keyr, val)  # add attribute to NMEAMessage object
+        if self._streaming:
+            # override sign of lat/lon according to NS and EW values
+            if att == nmt.LND and hasattr(self, "lon"):
+                if isinstance(self.lon, (int, float)):
+                    self.lon = -abs(self.lon) if val == "W" else abs(self.lon)
+            elif att == nmt.LAD and hasattr(self, "lat"):
+                if isinstance(self.lat, (int, float)):
+                    self.lat = -abs(self.lat) if val == "S" else abs(self.lat)
+        pindex += 1  # move on to next attribute in payload definition
+
+        return pindex
+
+    def _set_attribute_nominal(self, payload: list):
+        """
+        Set nominal attributes for unrecognised NMEA sentence types.
+
+        :param list payload: payload as list
+        """
+
+        for i, fld in enumerate(payload):
+            setattr(self, f"field_{i+1:02d}", fld)
+
+    def _get_dict(self, **kwargs) -> dict | NoneType:
+        """
+        Get payload dictionary.
+
+        :return: dictionary representing payload definition
+        :rtype: dict | NoneType
+        """
+
+        dic = None
+        key = self.msgID
+
+        try:
+            if key in nmt.NMEA_PREFIX_PROP:  # proprietary, first element is msgId
+                if self._streaming:
+                    if key == "ASHR" and self._payload[0][1].isdigit():
+                        pass  # exception for PASHR pitch and roll sentence without msgId
+                    else:
+                        key += self._payload[0]
+                elif "msgId" in kwargs:
+                    key += kwargs["msgId"]
+                else:
+                    raise nme.NMEAMessageError(
+                        f"P{key} message definitions must "
+                        "include payload or msgId keyword arguments."
+                    )
+            if key not in nmt.NMEA_MSGIDS_PROP:  # some ids are mixed case
+                key = key.upper()
+
+            if self._defsource == nmt.DEF_PROP:  # proprietary
+                dic = self._get_dict_prop(key, **kwargs)
+            elif self._defsource == nmt.DEF_USER:  # user defined
+                dic = self._userdefined[key]
+            else:  # standard
+                if self._mode == nmt.POLL:
+                    dic = nmp.NMEA_PAYLOADS_POLL[key]
+                elif self._mode == nmt.SET:  # pragma: no cover
+                    dic = nms.NMEA_PAYLOADS_SET[key]
+                else:
+                    dic = nmg.NMEA_PAYLOADS_GET[key]
+        except KeyError as err:  # unknown msgid
+            erm = f"Unknown msgID {key} msgmode {('GET', 'SET', 'POLL')[self._mode]}."
+            if self._validate & nmt.VALMSGID:
+                raise nme.NMEAMessageError(erm) from err
+
+        return dic
+
+    def _get_dict_prop(self, key: str, **kwargs) -> dict:
+        """
+        Get payload dictionary for proprietary message types.
+
+        :param str key: msgid
+        :return: dictionary representing payload definition
+        :rtype: dict
+        """
+
+        acknak = self._get_dict_qtmacknak(key, self._mode)
+        if key[0:3] == "QTM" and acknak != key:  # command response
+            key = acknak
+        elif key == "QTMCFGGEOFENCE":
+            key = self._get_dict_qtmcfggeofence(key, self._mode, **kwargs)
+        elif key == "QTMCFGMSGRATE":
+            key = self._get_dict_qtmcfgmsgrate(key, self._mode, **kwargs)
+        elif key == "QTMCFGPPS":
+            key = self._get_dict_qtmcfgpps(key, self._mode, **kwargs)
+        elif key == "QTMCFGSAT":
+            key = self._get_dict_qtmcfgsat(key, self._mode, **kwargs)
+        elif key == "QTMCFGUART":
+            key = self._get_dict_qtmcfguart(key, self._mode, **kwargs)
+        elif key == "QTMSN":
+            key = self._get_dict_qtmsn(key, self._mode, **kwargs)
+        elif key == "STMDRSENMSG":
+            key = self._get_dict_stmdrsenmsg(key, self._mode, **kwargs)
+
+        if self._mode == nmt.POLL:
+            if key in nmp.NMEA_PAYLOADS_POLL:
+                return nmp.NMEA_PAYLOADS_POLL[key]
+            return nmpp.NMEA_PAYLOADS_POLL_PROP[key]
+        if self._mode == nmt.SET:
+            return nmsp.NMEA_PAYLOADS_SET_PROP[key]
+        return nmgp.NMEA_PAYLOADS_GET_PROP[key]
+
+    def _get_dict_qtmcfguart(self, key: str, mode: int, **kwargs) -> str:
+        """
+        Get payload dictionary for proprietary Quectel QTMCFGUART
+        command and query variants.
+
+        :param str key: msgid
+        :param int mode: msgmode 1/2
+        :return: key of payload definition
+        :rtype: str
+        """
+
+        lp = len(self._payload)
+        py = self._streaming
+        pt = "portid" in kwargs
+        if mode == nmt.SET:
+            bd = "baudrate" in kwargs
+            db = "databit" in kwargs
+            if (py and lp == 2) or (not py and not pt and bd and not db):
+                key += "_CURRBAUD"
+            elif (py and lp == 3) or (not py and pt and bd and not db):
+                key += "_BAUD"
+            elif (py and lp == 6) or (not py and not pt and bd and db):
+                key += "_CURR"
+        elif mode == nmt.POLL:
+            if (py and lp == 1) or (not py and not pt):
+                key += "_CURR"
+        return key
+
+    def _get_dict_qtmcfgmsgrate(self, key: str, mode: int, **kwargs) -> str:
+        """
+        Get payload dictionary for proprietary Quectel QTMCFGMSGRATE
+        command and query variants.
+
+        :param str key: msgid
+        :param int mode: msgmode 1/2
+        :return: key of payload definition
+        :rtype: str
+        """
+
+        lp = len(self._payload)
+        py = self._streaming
+        mv = "msgver" in kwargs
+        pt = "porttype" in kwargs
+        if mode in (nmt.SET, nmt.GET):
+            if (py and lp == 3) or (not py and not pt and not mv):
+                key += "_NOVER"
+            elif (py and lp == 5) or (not py and pt and not mv):
+                key += "_INTFNOVER"
+            elif (py and lp == 6) or (not py and pt and mv):
+                key += "_INTF"
+        elif mode == nmt.POLL:
+            if (py and lp == 2) or (not py and not pt and not mv):
+                key += "_NOVER"
+            elif (py and lp == 4) or (not py and pt and not mv):
+                key += "_INTFNOVER"
+            elif (py and lp == 5) or (not py and pt and mv):
+                key += "_INTF"
+        return key
+
+    def _get_dict_qtmcfgpps(self, key: str, mode: int, **kwargs) -> str:
+        """
+        Get payload dictionary for proprietary Quectel QTMCFGPPS
+        command and query variants.
+
+        :param str key: msgid
+        :param int mode: msgmode 1/2
+        :return: key of payload definition
+        :rtype: str
+        """
+
+        lp = len(self._payload)
+        py = self._streaming
+        if mode == nmt.SET:
+            if (py and lp == 3) or (not py and kwargs.get("enable", 1) == 0):
+                key += "_DIS"
+        return key
+
+    def _get_dict_qtmcfgsat(self, key: str, mode: int, **kwargs) -> str:
+        """
+        Get payload dictionary for proprietary Quectel QTMCFGSAT
+        command and query variants.
+
+        :param str key: msgid
+        :param int mode: msgmode 1/2
+        :return: key of payload definition
+        :rtype: str
+        """
+
+        lp = len(self._payload)
+        py = self._streaming
+        mh = "maskhigh" in kwargs
+        if mode == nmt.SET:
+            if (py and lp == 4) or (not py and not mh):
+                key += "_LOW"
+        elif mode == nmt.GET:
+            if (py and lp == 4) or (not py and not mh):
+                key += "_LOW"
+            elif lp in (1, 2):
+                key = self._get_dict_qtmacknak(key, mode)
+        return key
+
+    def _get_dict_qtmcfggeofence(self, key: str, mode: int, **kwargs) -> str:
+        """
+        Get payload dictionary for proprietary Quectel QTMCFGGEOFENCE
+        command and query variants.
+
+        :param str key: msgid
+        :param int mode: msgmode 1/2
+        :return: key of payload definition
+        :rtype: str
+        """
+
+        lp = len(self._payload)
+        py = self._streaming
+        l1 = "lon1" in kwargs
+        if mode == nmt.SET:
+            if (py and lp == 13) or (not py and l1):
+                key += "_POLY"
+            elif (py and lp == 3) or (not py and kwargs.get("geofencemode", 1) == 0):
+                key += "_DIS"
+        elif mode == nmt.GET:
+            if (py and lp == 13) or (not py and l1):
+                key += "_POLY"
+            elif lp in (1, 2):
+                key = self._get_dict_qtmacknak(key, mode)
+        return key
+
+    def _get_dict_qtmsn(self, key: str, mode: int, **kwargs) -> str:
+        """
+        Get payload dictionary for proprietary Quectel QTMSN.
+        (bug in LG580P firmware - seems to transpose status field?)
+
+        :param str key: msgid
+        :param int mode: msgmode 1/2
+        :return: key of payload definition
+        :rtype: str
+        """
+
+        py = self._streaming
+        if mode == nmt.GET:
+            if py and kwargs["payload"][0].isnumeric():
+                key += "_ALT"
+        return key
+
+    def _get_dict_stmdrsenmsg(
+        self, key: str, mode: int, **kwargs
+    ) -> str:  # pylint: disable=unused-argument
+        """
+        Get payload dictionary for proprietary Quectel PSTMDRSENMSG variants.
+
+        :param str key: msgid
+        :param int mode: msgmode 1/2
+        :return: key of payload definition
+        :rtype: str
+        """
+
+        py = self._streaming
+        mt = "msgtype" in kwargs
+        msgtype = ""
+        if py:
+            msgtype = self._payload[0]
+        elif not py and mt:
+            msgtype = kwargs["msgtype"]
+        key += f"_{msgtype}"
+        return key
+
+    def _get_dict_qtmacknak(self, key: str, mode: int) -> str:
+        """
+        Get payload dictionary for proprietary Quectel command
+        response variants.
+
+        :param str key: msgid
+        :param int mode: msgmode 1/2
+        :return: key of payload definition
+        :rtype: str
+        """
+
+        lp = len(self._payload)
+        if mode == nmt.GET:
+            if lp == 1 and self._payload[0] == "OK":
+                key = "QTMACK"
+            elif lp == 2 and self._payload[0] == "ERROR":
+                key = "QTMNAK"
+        return key
+
+    def _calc_num_repeats(
+        self, attd: dict, payload: list, pindex: int, pindexend: int = 0
+    ) -> int:
+        """
+        Deduce number of items in repeating group.
+
+        :param dict attd: grouped attribute dictionary
+        :param list payload : content as list
+        :param int pindex: number of payload attributes before group
+        :param int pindexend: number of payload attributes after group
+        :return: number of repeats
+        :rtype: int
+        """
+
+        lenpayload = len(payload) - pindex - pindexend
+        lengroup = len(attd)
+        return int(lenpayload / lengroup)
+
+    def __str__(self) -> str:
+        """
+        Human readable representation.
+
+        :return: human readable representation
+        :rtype: str
+        """
+
+        stg = f"<NMEA({self.identity}"
+        if self._defsource == nmt.DEF_UNKN:
+            stg += ", NOMINAL"
+        for att, val in self.__dict__.items():
+            if att[0] != "_":  # only show public attributes
+                stg += f", {att}={val}"
+        stg += ")>"
+
+        return stg
+
+    def __repr__(self) -> str:
+        """
+        Machine readable representation.
+
+        eval(repr(obj)) = obj
+
+        :return: machine readable representation
+        :rtype: str
+        """
+
+        return (
+            f"NMEAMessage('{self._talker}','{self._msgID}', "
+            f"{self._mode}, payload={self._payload})"
+        )
+
+    def __setattr__(self, name, value):
+        """
+        Override setattr to make object immutable after instantiation.
+
+        :param str name: attribute name
+        :param object value: attribute value
+        :raises: NMEAMessageError
+        """
+
+        if self._immutable:
+            raise nme.NMEAMessageError(
+                f"Object is immutable. Updates to {name} not permitted after initialisation."
+            )
+
+        super().__setattr__(name, value)
+
+    def __delattr__(self, name):
+        """
+        Override delattr to make object immutable after instantiation.
+
+        :param str name: attribute name
+        :raises: NMEAMessageError
+        """
+
+        if self._immutable:
+            raise nme.NMEAMessageError(
+                f"Object is immutable. Deletion of {name} not permitted after initialisation."
+            )
+
+        super().__delattr__(name)
+
+    def serialize(self) -> bytes:
+        """
+        Serialize message.
+
+        :return: serialized output
+        :rtype: bytes
+        """
+
+        output = f"${self._talker}{self._msgID}"
+        for att in self._payload:
+            output += "," + att
+        output += f"*{self._checksum}\r\n"
+        return output.encode("utf-8")  # convert str to bytes
+
+    @property
+    def identity(self) -> str:
+        """
+        Identity getter.
+
+        :return: message identity e.g. GNGSA
+        :rtype: str
+        """
+
+        # pylint: disable=no-member
+
+        if (
+            self._talker == "P"
+            and self._msgID in nmt.NMEA_PREFIX_PROP
+            and hasattr(self, "msgId")
+        ):
+            return self._talker + self._msgID + self.msgId
+        return self._talker + self._msgID
+
+    @property
+    def talker(self) -> str:
+        """
+        Talker getter.
+
+        :return: talker e.g. GN
+        :rtype: str
+        """
+
+        return self._talker
+
+    @property
+    def msgID(self) -> str:
+        """
+        Message id getter.
+
+        :return: message id e.g. GSA
+        :rtype: str
+        """
+
+        return self._msgID
+
+    @property
+    def msgmode(self) -> int:
+        """
+        Message mode getter.
+
+        :return: message mode
+        :rtype: int
+        """
+
+        return self._mode
+
+    @property
+    def payload(self) -> list:
+        """
+        Payload getter.
+
+        :return: raw payload as list of strings
+        :rtype: list
+        """
+
+        return list(self._payload)
+
+    @property
+    def checksum(self) -> str | NoneType:
+        """
+        Checksum getter.
+
+        :return: checksum as hex string
+        :rtype: str | NoneType
+        """
+
+        return self._checksum
+
+    @staticmethod
+    def str2val(vals: str, att: str) -> Any:
+        """
+        Convert NMEA string to typed value
+        (this is the format that will be available to end users).
+
+        :param str vals: attribute value in NMEA protocol format
+        :param str att: attribute type e.g. 'DE'
+        :return: attribute value
+        :rtype: Any
+        :raises: MMEATypeError
+        """
+
+        val = vals
+        if att in (nmt.CH, nmt.ST, nmt.LAD, nmt.LND, nmt.QS):
+            pass
+        elif att == nmt.HX:
+            val = vals
+        elif att == nmt.DE:  # decimal
+            if vals != "":
+                val = float(vals)
+        elif att in (nmt.DT, nmt.DTL, nmt.DM):  # date
+            val = date2utc(vals, att)
+        elif att == nmt.IN:  # integer
+            if vals != "":
+                val = int(vals)
+        elif att in (nmt.LA, nmt.LN):  # lat/lon (d)ddmm.mmmmm(mm)
+            val = dmm2ddd(vals)
+        elif att == nmt.TM:  # time hhmmss.ss
+            val = time2utc(vals)
+        else:
+            raise nme.NMEATypeError(f"Unknown attribute type {att}.")
+        return val
+
+    @staticmethod
+    def val2str(val, att: str, hpmode: bool = False) -> str:
+        """
+        Convert typed value to NMEA string
+        (this is the format used internally by the NMEA protocol).
+
+        :param object val: typed attribute value
+        :param str att: attribute type e.g. 'IN'
+        :param bool hpmode: high precision lat/lon mode (7dp rather than 5dp)
+        :return: attribute value in NMEA protocol format
+        :rtype: str
+        :raises: NMEATypeError
+
+        """
+
+        if att in (nmt.CH, nmt.ST, nmt.LAD, nmt.LND, nmt.QS):
+            vals = str(val)
+        elif att == nmt.HX:
+            vals = str(val)
+        elif att == nmt.DE:
+            vals = str(val)
+        elif att == nmt.IN:
+            vals = str(val)
+        elif att in (nmt.LA, nmt.LN):
+            vals = ddd2dmm(val, att, hpmode)
+        elif att == nmt.TM:
+            if isinstance(val, str):
+                vals = str(val.replace(":", ""))
+            else:  # time
+                vals = time2str(val)
+        elif att == nmt.DT:
+            if isinstance(val, str):
+                # yyyymmdd -> ddmmyy
+                val = val.replace("-", "")
+                vals = f"{val[6:8]}{val[4:6]}{val[2:4]}"
+            else:  # datetime
+                vals = date2str(val, att)
+        elif att == nmt.DTL:
+            # yyyymmdd -> ddmmyyyy
+            if isinstance(val, str):
+                val = val.replace("-", "")
+                vals = f"{val[6:8]}{val[4:6]}{val[0:4]}"
+            else:  # datetime
+                vals = date2str(val, att)
+        elif att == nmt.DM:
+            # yyyymmdd -> mmddyy
+            if isinstance(val, str):
+                val = val.replace("-", "")
+                vals = f"{val[4:6]}{val[6:8]}{val[2:4]}"
+            else:  # datetime
+                vals = date2str(val, att)
+        else:
+            raise nme.NMEATypeError(f"Unknown attribute type {att}.")
+        return vals
+
+    @staticmethod
+    def nomval(
+        att: str, msgmode: int = nmt.GET, now: datetime | NoneType = None
+    ) -> Any:
+        """
+        Return nominal value for specified attribute type
+
+        :param str att: attribute type e.g. 'DE'
+        :param int msgmode: message mode GET/SET/POLL
+        :param datetime | NoneType now: UTC datetime for nominal date and time
+            values (defaults to current UTC datetime)
+        :return: nominal value for type
+        :rtype: Any
+        :raises: NMEATypeError
+        """
+
+        if att in (nmt.CH, nmt.ST, nmt.LA, nmt.LN):
+            val = ""
+        elif att == nmt.LAD:  # pragma: no cover
+            val = "N"
+        elif att == nmt.LND:  # pragma: no cover
+            val = "E"
+        elif att == nmt.HX:
+            val = "0"
+        elif att == nmt.DE:
+            val = 0.0
+        elif att == nmt.IN:
+            val = 0
+        elif att == nmt.TM:
+            val = (now or datetime.now(timezone.utc)).time()
+        elif att in (nmt.DT, nmt.DTL, nmt.DM):
+            val = (now or datetime.now(timezone.utc)).date()
+        elif att == nmt.QS:  # Quectel status attribute
+            if msgmode == nmt.POLL:
+                val = "R"  # read
+            elif msgmode == nmt.SET:
+                val = "W"  # write
+            else:
+                val = "OK"  # acknowledgement
+        else:
+            raise nme.NMEATypeError(f"Unknown attribute type {att}.")
+        return val
-- 
2.43.0


From 22a0fcbd09fc55eaae1386470414cbabb602c10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:22 +0000
Subject: [PATCH 19/26] fix: write decimal values without an exponent

Very small and very large values were serialized as, e.g., 1e-05, which is
no NMEA number.
---
 src/pynmeagps/nmeamessage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 99fc880..56ffaeb 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -12,6 +12,7 @@ Created on 04 Mar 2021
 
 import struct
 from datetime import datetime, timezone
+from decimal import Decimal
 from logging import getLogger
 from types import NoneType
 from typing import Any, Literal
@@ -786,6 +787,8 @@ class NMEAMessage:
             vals = str(val)
         elif att == nmt.DE:
             vals = str(val)
+            if isinstance(val, float) and "e" in vals:  # NMEA fields have no exponent
+                vals = f"{Decimal(vals):f}"
         elif att == nmt.IN:
             vals = str(val)
         elif att in (nmt.LA, nmt.LN):
-- 
2.43.0


From b1eb55721a3142dee3e55c4663154c9ec4d22e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:14 +0000
Subject: [PATCH 20/26] fix: find user-defined definitions with mixed-case ids

Such ids were folded to upper case before the lookup, so that the
definition was never found.
---
 src/pynmeagps/nmeamessage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index 56ffaeb..a312cd2 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -321,8 +321,8 @@ class NMEAMessage:
                         f"P{key} message definitions must "
                         "include payload or msgId keyword arguments."
                     )
-            if key not in nmt.NMEA_MSGIDS_PROP:  # some ids are mixed case
-                key = key.upper()
+            if key not in nmt.NMEA_MSGIDS_PROP and self._defsource != nmt.DEF_USER:
+                key = key.upper()  # (other ids may be mixed case)
 
             if self._defsource == nmt.DEF_PROP:  # proprietary
                 dic = self._get_dict_prop(key, **kwargs)
-- 
2.43.0


From 91c77966c2d52dd5c2c56489c3f5c344edeca370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:14 +0000
Subject: [PATCH 21/26] fix: count only the items of the indeterminate group
 itself

Values given for other groups of the same message were counted as well,
adding nominal items to a built message.
---
 src/pynmeagps/nmeamessage.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/nmeamessage.py b/src/pynmeagps/nmeamessage.py
index a312cd2..bcb2ae1 100644
--- a/src/pynmeagps/nmeamessage.py
+++ b/src/pynmeagps/nmeamessage.py
@@ -202,7 +202,10 @@ class NMEAMessage:
             if self._streaming:
                 rng = self._calc_num_repeats(attd, self._payload, pindex, pindexend)
             else:
-                rng = groupsize(**kwargs)
+                # (other groups of this message have their own number of items)
+                rng = groupsize(
+                    **{a: v for a, v in kwargs.items() if a.rsplit("_", 1)[0] in attd}
+                )
         else:  # number of repeats is defined in named attribute
             rng = getattr(self, numr)
             if self._streaming:  # can't be more items than fields left in payload
-- 
2.43.0


From 175555ba5e332506fc65185794941f5071ade4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:15 +0000
Subject: [PATCH 22/26] fix: ignore chunk extensions

A chunk size line with an extension (1f;name=value) was taken for residual
bytes, and the rest of the segment was discarded.
---
 src/pynmeagps/socketwrapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pynmeagps/socketwrapper.py b/src/pynmeagps/socketwrapper.py
index 1bbee81..bb23e83 100644
--- a/src/pynmeagps/socketwrapper.py
+++ b/src/pynmeagps/socketwrapper.py
@@ -162,7 +162,8 @@ class SocketWrapper:
                 partial = length_bytes
                 break
             try:
-                chunk_length = int(length_bytes.strip(), 16)
+                # ignore any chunk extensions e.g. b"1f;name=value\r\n"
+                chunk_length = int(length_bytes.split(b";")[0].strip(), 16)
             except ValueError:
                 # residual bytes at beginning of stream
                 break
-- 
2.43.0


From 4a46c80f6d6c64fe6253edaf15f6768ec0ad1551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:23 +0000
Subject: [PATCH 23/26] fix: never write 60 minutes in a latitude or longitude

---
 src/pynmeagps/nmeahelpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pynmeagps/nmeahelpers.py b/src/pynmeagps/nmeahelpers.py
index 99f1f5a..9c33478 100644
--- a/src/pynmeagps/nmeahelpers.py
+++ b/src/pynmeagps/nmeahelpers.py
@@ -201,8 +201,9 @@ def ddd2dmm(degrees: float, att: Literal["LA", "LN"], hpmode: bool = False) -> s
     """
 
     try:
-        degrees = abs(degrees)
-        degrees, minutes = divmod(degrees * 60, 60)
+        # round before splitting, so minutes can never round up to 60
+        minutes = round(abs(degrees) * 60, 7 if hpmode else 5)
+        degrees, minutes = divmod(minutes, 60)
         degrees = int(degrees * 100)
         if hpmode:
             if att == LA:
-- 
2.43.0


From 8214e02e10f919d23502566a26e59c48e5576ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:46 +0000
Subject: [PATCH 24/26] fix: discard chunks whose length is negative or too
 large

---
 src/pynmeagps/socketwrapper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pynmeagps/socketwrapper.py b/src/pynmeagps/socketwrapper.py
index bb23e83..d4c50ee 100644
--- a/src/pynmeagps/socketwrapper.py
+++ b/src/pynmeagps/socketwrapper.py
@@ -15,6 +15,7 @@ Created on 12 Feb 2023
 import socket
 from io import BytesIO
 from logging import getLogger
+from sys import maxsize
 from zlib import MAX_WBITS, decompress
 from zlib import error as zlibError
 
@@ -164,6 +165,8 @@ class SocketWrapper:
             try:
                 # ignore any chunk extensions e.g. b"1f;name=value\r\n"
                 chunk_length = int(length_bytes.split(b";")[0].strip(), 16)
+                if not 0 <= chunk_length <= maxsize:
+                    raise ValueError("Invalid chunk length")
             except ValueError:
                 # residual bytes at beginning of stream
                 break
-- 
2.43.0


From 966288208a98528a873b190cc95d34d52886f3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:42 +0000
Subject: [PATCH 25/26] fix: send the commands the Quectel demo makes up

---
 examples/quecteldemo.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/examples/quecteldemo.py b/examples/quecteldemo.py
index 340ec89..78eec0d 100644
--- a/examples/quecteldemo.py
+++ b/examples/quecteldemo.py
@@ -204,15 +204,15 @@ def main(**kwargs):
             # *************************************************
 
             # set baud rate on current UART, leaving other parameters unchanged
-            NMEAMessage("P", "QTMCFGUART", SET, baudrate=460800)
+            msg = NMEAMessage("P", "QTMCFGUART", SET, baudrate=460800)
             send(send_queue, msg)
 
             # set baud rate on UART2 interface (portid=2), leaving other parameters unchanged
-            NMEAMessage("P", "QTMCFGUART", SET, portid=2, baudrate=115200)
+            msg = NMEAMessage("P", "QTMCFGUART", SET, portid=2, baudrate=115200)
             send(send_queue, msg)
 
             # configure all parameters on current UART
-            NMEAMessage(
+            msg = NMEAMessage(
                 "P",
                 "QTMCFGUART",
                 SET,
@@ -225,7 +225,7 @@ def main(**kwargs):
             send(send_queue, msg)
 
             # configure all parameters on UART2 interface (portid=2)
-            NMEAMessage(
+            msg = NMEAMessage(
                 "P",
                 "QTMCFGUART",
                 SET,
@@ -262,7 +262,7 @@ def main(**kwargs):
             # send(send_queue, msg)
 
             # set satellite mask (see also PQTMCFGCNST)
-            NMEAMessage(
+            msg = NMEAMessage(
                 "P",
                 "QTMCFGSAT",
                 SET,
@@ -273,7 +273,7 @@ def main(**kwargs):
             send(send_queue, msg)
 
             # set signal masks
-            NMEAMessage(
+            msg = NMEAMessage(
                 "P",
                 "QTMCFGSIGNAL",
                 SET,
-- 
2.43.0


From 47e49c4b72c6c87a5ebb5af52b61aad75cb87786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:45 +0000
Subject: [PATCH 26/26] Revert "fix: send the commands the Quectel demo makes
 up"

This reverts commit 966288208a98528a873b190cc95d34d52886f3db.
---
 examples/quecteldemo.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/examples/quecteldemo.py b/examples/quecteldemo.py
index 78eec0d..340ec89 100644
--- a/examples/quecteldemo.py
+++ b/examples/quecteldemo.py
@@ -204,15 +204,15 @@ def main(**kwargs):
             # *************************************************
 
             # set baud rate on current UART, leaving other parameters unchanged
-            msg = NMEAMessage("P", "QTMCFGUART", SET, baudrate=460800)
+            NMEAMessage("P", "QTMCFGUART", SET, baudrate=460800)
             send(send_queue, msg)
 
             # set baud rate on UART2 interface (portid=2), leaving other parameters unchanged
-            msg = NMEAMessage("P", "QTMCFGUART", SET, portid=2, baudrate=115200)
+            NMEAMessage("P", "QTMCFGUART", SET, portid=2, baudrate=115200)
             send(send_queue, msg)
 
             # configure all parameters on current UART
-            msg = NMEAMessage(
+            NMEAMessage(
                 "P",
                 "QTMCFGUART",
                 SET,
@@ -225,7 +225,7 @@ def main(**kwargs):
             send(send_queue, msg)
 
             # configure all parameters on UART2 interface (portid=2)
-            msg = NMEAMessage(
+            NMEAMessage(
                 "P",
                 "QTMCFGUART",
                 SET,
@@ -262,7 +262,7 @@ def main(**kwargs):
             # send(send_queue, msg)
 
             # set satellite mask (see also PQTMCFGCNST)
-            msg = NMEAMessage(
+            NMEAMessage(
                 "P",
                 "QTMCFGSAT",
                 SET,
@@ -273,7 +273,7 @@ def main(**kwargs):
             send(send_queue, msg)
 
             # set signal masks
-            msg = NMEAMessage(
+            NMEAMessage(
                 "P",
                 "QTMCFGSIGNAL",
                 SET,
-- 
2.43.0

