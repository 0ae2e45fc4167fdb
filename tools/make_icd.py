"""Snapshot of the message definition tables, taken once from the audited tree.

The simulator's devices and oracles read only /verif/data/icd.json: they never
import the definition tables of the code under test, so a change to a table is
seen as a difference between device and library.
"""
import json, sys
sys.path.insert(0, "/repo/src")
import pynmeagps.nmeatypes_core as c
import pynmeagps.nmeatypes_get as g, pynmeagps.nmeatypes_get_prop as gp
import pynmeagps.nmeatypes_set as s, pynmeagps.nmeatypes_set_prop as sp
import pynmeagps.nmeatypes_poll as p, pynmeagps.nmeatypes_poll_prop as pp

def conv(d):
    out = []
    for k, v in d.items():
        if isinstance(v, tuple):
            out.append([k, [v[0], conv(v[1])]])
        else:
            out.append([k, v])
    return out

def tab(t):
    return {k: conv(v) for k, v in t.items()}

json.dump({
    "talkers": sorted(c.NMEA_TALKERS), "msgids": sorted(c.NMEA_MSGIDS),
    "msgids_prop": sorted(c.NMEA_MSGIDS_PROP), "prefix": sorted(c.NMEA_PREFIX_PROP),
    "hdr": sorted(h.decode() for h in c.NMEA_HDR),
    "GET": {"std": tab(g.NMEA_PAYLOADS_GET), "prop": tab(gp.NMEA_PAYLOADS_GET_PROP)},
    "SET": {"std": tab(s.NMEA_PAYLOADS_SET), "prop": tab(sp.NMEA_PAYLOADS_SET_PROP)},
    "POLL": {"std": tab(p.NMEA_PAYLOADS_POLL), "prop": tab(pp.NMEA_PAYLOADS_POLL_PROP)},
}, open("/verif/data/icd.json", "w"), indent=None, separators=(",", ":"), sort_keys=True)
