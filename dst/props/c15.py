"""C15: a command or query dialogue carries exact values and recovers from faults."""
import heapq
import random

import pynmeagps

from .. import build, drive, userdef, env, icd, kernel, links, workload as W

ID = "C15"

S, G, P = (icd.ICD[m]["prop"] for m in ("SET", "GET", "POLL"))
STATUS1 = lambda d: bool(d) and d[0][0] == "status"  # noqa: E731
CONFIG = sorted(k for k in S if k in G and k in P and STATUS1(S[k]) and STATUS1(G[k]) and STATUS1(P[k]) and k.startswith("QTM"))
QUERY = sorted(k for k in P if k in G and k not in CONFIG and k not in build.PARSE_ONLY and (2, k) in
               {(2, x[1]) for x in build.buildable(2)})
COMMAND = sorted(k for k in S if k.startswith("QTM") and k in G and k not in CONFIG and [x for x, _ in G[k]] == ["status"])
STD = sorted(k for k in icd.ICD["GET"]["std"] if k in icd.MSGIDS and k not in icd.SKIP)


# ------------------------------------------------------------------ plans
def fate(r):
    k = r.random()
    if k < 0.35:
        return ["ok"]
    return r.choice([["drop"], ["drop"], ["dup"], ["dup", r.choice([1000, 700_000, 4_000_000])], ["delay", r.choice([20_000, 900_000, 5_000_000])],
                     ["flip", r.randint(0, 999), r.choice([1, 1, 3, 0x81, 0xFF, 0x20])], ["cut", r.randint(0, 40)],
                     ["split", r.randint(1, 60), r.choice([0, 1000, 300_000, 1_500_000])], ["lose", r.randint(0, 60), r.choice([1, 2, 9])]])


def gen(r, i, tier):
    if r.random() < 0.5:
        keys = [(m, k) for m in (0, 1, 2) for k in build.buildable(m)]
        n = 6 if tier == "quick" else 20
        bs = []
        for j in range(n):
            m, k = keys[(i * n + j) % len(keys)]
            bs.append(build.gen(r, m, k))
        bs.append(build.gen(r, r.choice([0, 1, 2]), "user"))
        return {"kind": "build", "builds": bs, "t0": r.randint(0, 4_000_000_000) * 1_000_000, "tz": r.choice(icd.TZS), "val": r.choice([1, 1, 3, 0])}
    ops, used = [], set()
    for _ in range(r.choice([1, 2, 4, 6] if tier == "quick" else [6, 12, 20])):
        k = r.random()
        if k < 0.55:
            key = r.choice(CONFIG)
            msgid = icd.split_key(key, 1)[1]
            if msgid in used:
                continue
            used.add(msgid)
            b = build.gen(r, 1, ("prop", key), p_given=1.0, hp=False)
            q = build.gen(r, 2, ("prop", key), p_given=1.0, hp=False)
            b["kw"]["status"], q["kw"]["status"] = "W", "R"
            for nm in q["kw"]:
                if nm != "status" and nm in b["kw"]:
                    q["kw"][nm] = b["kw"][nm]
            ops.append(["config", b, q])
        elif k < 0.7:
            key = r.choice(QUERY)
            msgid = icd.split_key(key, 2)[1]
            if msgid in used and msgid not in icd.PREFIX:
                continue
            used.add(msgid)
            b = build.gen(r, 2, ("prop", key), hp=False)
            if "status" in [x for x, _ in P[key]]:
                b["kw"]["status"] = "R"
            ops.append(["query", b])
        elif k < 0.8:
            key = r.choice(COMMAND)
            if key in used:
                continue
            used.add(key)
            ops.append(["command", build.gen(r, 1, ("prop", key), hp=False)])
        elif k < 0.9:
            ops.append(["gnq", r.choice(STD)])
        else:
            key = r.choice(CONFIG)
            msgid = icd.split_key(key, 1)[1]
            if msgid in used:
                continue
            used.add(msgid)
            b = build.gen(r, 1, ("prop", key), hp=False)
            b["kw"]["status"] = "W"
            ops.append(["refused", b, r.randint(1, 5)])
    return {"kind": "dialogue", "ops": ops, "fates": [fate(r) for _ in range(r.choice([0, 4, 12, 40]))], "port": r.choice(["socket", "serial"]),
            "devseed": r.getrandbits(32), "period": r.choice([0, 50_000, 300_000, 1_000_000]), "lag": r.choice([0, 1000, 30_000, 700_000]),
            "opts": {"mode": 0, "validate": r.choice([1, 1, 3]), "quit": r.choice([0, 1, 2]), "bufsize": r.choice([1, 7, 64, 4096])},
            "segn": r.choice([0, 0, 1, 5, 17])}


# ------------------------------------------------------------------ device
class Device:
    """A receiver that implements the documented definitions with the independent codec."""

    def __init__(self, seed, refuse):
        self.r = random.Random(seed)
        self.buf = b""
        self.store = {}
        self.refuse = refuse
        self.sent = set()
        self.understood = []
        self.heard = set()  # what the host transmitted

    def receive(self, data):
        """-> sentences in reply"""
        self.buf += data
        out = []
        while b"\n" in self.buf:
            line, _, self.buf = self.buf.partition(b"\n")
            line = line[max(0, line.rfind(b"$")):] + b"\n"
            if icd.WELL.match(line) and icd.cksum_ok(line) and line in self.heard:  # damage the check digits cannot show: ignored
                out += self.handle(line)
        return out

    def handle(self, line):
        try:
            hdr, *pl = line[1:].partition(b"*")[0].decode("utf-8").split(",")
        except UnicodeDecodeError:
            return []
        self.understood.append(line)
        if hdr[2:] == "GNQ" and pl:
            if pl[0] not in icd.ICD["GET"]["std"]:
                return []
            return [self.say(icd.gen_content(self.r, 0, ("std", pl[0]), 0.1, 0, 0))]
        if hdr[:1] != "P":
            return []
        msgid = hdr[1:]
        if msgid in self.refuse and pl[:1] == ["W"]:
            return [self.say(f"{hdr},ERROR,{self.refuse[msgid]}")]
        if msgid.startswith("QTM") and pl[:1] == ["W"]:
            try:
                ex = icd.decode(line, 1)
            except ValueError:
                return []
            if ex.kind != "msg" or ex.defkey is None:
                return [self.say(f"{hdr},ERROR,1")]
            names = [x for x, _ in S[ex.defkey]]
            self.store[msgid] = (ex.defkey, dict(zip(names, pl)))
            return [self.say(f"{hdr},OK")]
        if msgid in COMMAND and not pl:
            return [self.say(f"{hdr},OK")]
        try:
            ex = icd.decode(line, 2)
        except ValueError:
            return []
        if ex.kind != "msg" or ex.defkey is None or ex.defkey not in P:
            return []
        key = ex.defkey
        if msgid in self.store:
            key, vals = self.store[msgid]
            out = []
            for nm, typ in G[key]:
                out.append("OK" if nm == "status" else vals[nm] if nm in vals else icd.gen_field(self.r, typ, 0))
            return [self.say(",".join([hdr] + out))]
        if key not in G:
            return []
        c = icd.gen_content(self.r, 0, ("prop", key), 0.1, 0, 0)
        if any(x == "status" and t == "QS" for x, t in G[key]):
            h, *f = c.split(",")
            f[0] = "OK"
            c = ",".join([h] + f)
        return [self.say(c)]

    def say(self, content):
        raw = icd.frame(content)
        self.sent.add(raw)
        return raw

    def chatter(self):
        return self.say(icd.gen_content(self.r, 0, ("std", self.r.choice(["GGA", "RMC", "GLL", "VTG", "GSV", "GSA", "TXT"])), 0.2, 0, 0))


class Link:
    """Both directions between host and device; also the feed of the host's port."""

    def __init__(self, plan, dev, R):
        self.q = []
        self.n = 0
        self.fates = list(plan["fates"])
        self.fi = 0
        self.dev, self.R = dev, R
        self.period, self.lag, self.segn = plan["period"], plan["lag"], plan["segn"]
        self.next_chat = self.period
        self.seg = b""
        self.calls = 0
        self.delivered = bytearray()
        self.i = 0
        self.faulty = 0
        self.rough = False
        self.up = True

    def more(self):
        return True

    def put(self, at, side, data, faulty):
        self.n += 1
        self.faulty += faulty
        heapq.heappush(self.q, (at, self.n, side, data, faulty))

    def clean(self):
        return self.fi >= len(self.fates) and not self.faulty

    def transmit(self, side, data, lag=0):
        f = ["ok"]
        if self.fi < len(self.fates):
            f = self.fates[self.fi]
            self.fi += 1
        t = env.CLOCK.mono + 5000 + lag
        k = f[0]
        if k != "ok":
            self.R.fault(k + ":" + side)
        if k == "drop":
            return
        if k == "dup":
            self.put(t, side, data, 0)
            t += f[1] if len(f) > 1 else 1
            self.put(t, side, data, 1)
            self.rough = self.rough or len(f) > 1
            return
        if k == "delay":
            self.put(t + f[1], side, data, 1)
            return
        if k == "flip":
            m = max(1, f[2] & 255)
            pos = f[1] % max(1, len(data) * 8 - m.bit_length() + 1)
            data = (int.from_bytes(data, "big") ^ (m << pos)).to_bytes(len(data), "big")
            self.put(t, side, data, 1)
            return
        if k == "cut":
            self.rough = True
            self.put(t, side, data[:f[1]], 1)
            return
        if k == "lose":
            self.rough = True
            p = f[1] % len(data)
            self.put(t, side, data[:p] + data[p + f[2]:], 1)
            return
        if k == "split":
            self.rough = True
            self.put(t, side, data[:f[1]], 1)
            self.put(t + f[2], side, data[f[1]:], 1)
            return
        self.put(t, side, data, 0)

    def next_event(self):
        """Let simulated time pass until bytes arrive at the host or its read times out."""
        self.i += 1
        limit = env.CLOCK.mono + 1_000_000
        while True:
            now = env.CLOCK.mono
            chat = self.next_chat if self.period and self.up else None
            at = self.q[0][0] if self.q else None
            if chat is not None and (at is None or chat <= at) and chat <= limit:
                env.CLOCK.advance(max(0, chat - now))
                self.next_chat += self.period
                self.transmit("host", self.dev.chatter())
                continue
            if at is None or at > limit:
                env.CLOCK.advance(limit - now)
                return "t"
            env.CLOCK.advance(max(0, at - now))
            _, _, side, data, faulty = heapq.heappop(self.q)
            self.faulty -= faulty
            if side == "device":
                for reply in self.dev.receive(data):
                    self.transmit("host", reply, self.lag)
                continue
            if not data:
                continue
            if self.segn and len(data) > self.segn:
                self.n += 1
                heapq.heappush(self.q, (env.CLOCK.mono, -self.n, side, data[self.segn:], 0))
                data = data[: self.segn]
            self.seg = data
            return "d"

    def discard(self):
        self.take(len(self.seg))

    def take(self, n):
        out, self.seg = self.seg[:n], self.seg[n:]
        self.delivered += out
        return out


class SockPort(links.SimSocket):
    def send(self, data, flags=0):
        self.feed.dev.heard.add(bytes(data))
        self.feed.transmit("device", bytes(data))
        return len(data)


class SerPort(links.SimSerial):
    def write(self, data):
        self.feed.dev.heard.add(bytes(data))
        self.feed.transmit("device", bytes(data))
        return len(data)


# ------------------------------------------------------------------ runs
def message(b, R):
    """Build what the plan says and check the bytes against the definition."""
    try:
        m = build.make(b)
    except drive.DOCUMENTED as e:
        R.fail("build-refused", f"mode {b['mode']} {b['talker']}{b['msgid']} {b['kw']}: {type(e).__name__}: {e}")
    raw = m.serialize()
    bad, fl = build.check_bytes(b, raw)
    if bad:
        R.fail("wrong-content", f"mode {b['mode']} {b['key']} {b['kw']} -> {raw!r}: " + "; ".join(bad[:4]))
    for f in fl:
        have = getattr(m, f.name, None)
        if f.kind == "given" and f.typ not in ("LAD", "LND") and not (have == f.value and type(have) is type(f.value)):
            R.fail("wrong-content", f"mode {b['mode']} {b['key']} {b['kw']}: attribute {f.name} is {have!r}")
    if list(m.payload) != [f.text for f in fl]:
        R.fail("wrong-content", f"mode {b['mode']} {b['key']} {b['kw']}: payload {m.payload} but serialized {raw!r}")
    return m, raw, fl


def run_build(plan, R):
    for b in plan["builds"]:
        if b["src"] != "user" and (b["mode"], b["key"]) not in BUILD_OK:
            raise kernel.PlanInvalid("key")
        m, raw, fl = message(b, R)
        R.ev(raw)
        R.probe(f"built:{icd.MODES[b['mode']]}")
        # the device reads it with the documented definition ...
        ex = icd.decode(raw, b["mode"], 1, b.get("ud"))
        if ex.kind != "msg":
            R.fail("not-readable", f"{b['key']} {b['kw']} -> {raw!r}: a conforming reader refuses it: {ex.why}")
        # ... and so does this library
        try:
            p = pynmeagps.NMEAReader.parse(raw, msgmode=b["mode"], validate=plan["val"], userdefined=userdef.tolib(b.get("ud")))
        except drive.DOCUMENTED as e:
            if plan["val"] & 2 and (ex.defkey is None or ex.talker not in icd.TALKERS):
                continue
            R.fail("not-readable", f"{b['key']} {b['kw']} -> {raw!r}: parse: {type(e).__name__}: {e}")
        bad = icd.check_message(p, ex, b["mode"])
        if bad:
            R.fail("wrong-content", f"{b['key']} {b['kw']} -> {raw!r} reads back: " + "; ".join(bad[:4]))
        if p.serialize() != raw:
            R.fail("wrong-content", f"{raw!r} reads back as {p.serialize()!r}")
        R.delivered += 1
        R.fault("value-given", sum(1 for f in fl if f.kind == "given"))
    R.info["nontrivial"] = len(plan["builds"]) > 0


BUILD_OK = {(m, k[1]) for m in (0, 1, 2) for k in build.buildable(m)}


def shape(op):
    """Is this still an operation gen() could have made?  (The minimiser cuts lists and numbers.)"""

    def is_build(b, mode, keys):
        return isinstance(b, dict) and b["mode"] == mode and b["key"] in keys and icd.split_key(b["key"], mode)[1] == b["msgid"]

    if not isinstance(op, list) or not op:
        return False
    k, n = op[0], len(op)
    if k == "gnq":
        return n == 2 and op[1] in STD
    if k == "config":
        return (n == 3 and is_build(op[1], 1, CONFIG) and is_build(op[2], 2, CONFIG) and op[1]["msgid"] == op[2]["msgid"]
                and op[1]["kw"].get("status") == "W" and op[2]["kw"].get("status") == "R")
    if k == "refused":
        return n == 3 and is_build(op[1], 1, CONFIG) and op[1]["kw"].get("status") == "W" and isinstance(op[2], int) and 1 <= op[2] <= 5
    if k == "query":
        return n == 2 and is_build(op[1], 2, QUERY)
    return k == "command" and n == 2 and is_build(op[1], 1, COMMAND)


def run(plan, R):
    R.state(plan)
    if plan["kind"] == "build":
        return run_build(plan, R)
    if not all(shape(o) for o in plan["ops"]):
        raise kernel.PlanInvalid("operation")
    opts = dict(plan["opts"], validate=plan["opts"]["validate"] | 1)
    refuse = {o[1]["msgid"]: o[2] for o in plan["ops"] if o[0] == "refused"}
    dev = Device(plan["devseed"], refuse)
    link = Link(plan, dev, R)
    port = SockPort(link, R=R) if plan["port"] == "socket" else SerPort(link, R)
    nmr = drive.reader(port, opts, lambda e: None)
    stats = {"repeat": 0}

    def receive():
        try:
            raw, p = nmr.read()
        except drive.DOCUMENTED as e:
            R.ev("raised", type(e).__name__)
            return None, None
        if raw is None and p is None:
            return None, None
        R.delivered += 1
        R.ev(env.CLOCK.mono, raw, None if p is None else str(p))
        if raw not in dev.sent:
            if p is not None and not icd.integrity_ok(raw):
                R.fail("damaged-accepted", f"the host was given {p} from {raw!r}, whose checksum is wrong")
            # (damage may change the case of a check digit, or '\r' to '\n', without changing what was sent)
            if p is not None and not link.rough and raw.partition(b"*")[0] not in {s.partition(b"*")[0] for s in dev.sent}:
                R.fail("invented-bytes", f"the host was given {raw!r}, which the device never sent")
            return raw, None
        ex = icd.decode(raw, 0, opts["validate"])
        if ex.kind == "msg":
            bad = icd.check_message(p, ex, 0)
            if bad:
                R.fail("wrong-content", f"{raw!r}: " + "; ".join(bad[:4]))
        return raw, p

    def request(msg, raw, is_reply, what):
        """Repeat the request until it is answered."""
        clean = 0
        attempts = 0
        while True:
            was_clean = link.clean()
            attempts += 1
            R.ev(env.CLOCK.mono, "request", raw)
            sent = nmr.datastream.write(msg.serialize())
            R.check(sent == len(raw), "write-count", lambda: f"write returned {sent!r} for {len(raw)} bytes")
            end = env.CLOCK.mono + 2_500_000
            while env.CLOCK.mono < end:
                _, p = receive()
                if p is not None and is_reply(p):
                    if attempts > 1:
                        R.probe("request-repeated")
                    if link.fi:
                        R.probe("request-answered-after-fault")
                    return p
            clean += was_clean
            if clean >= 3:
                R.fail("no-answer", f"{what}: {raw!r} unanswered {clean} times after the last fault ({attempts} attempts); "
                                    f"device understood {dev.understood[-2:]!r}")
            stats["repeat"] += 1

    for op in plan["ops"]:
        kind = op[0]
        if kind == "gnq":
            msg = pynmeagps.NMEAMessage("EI", "GNQ", 2, msgId=op[1])
            raw = msg.serialize()
            if raw != icd.frame(f"EIGNQ,{op[1]}"):
                R.fail("wrong-content", f"query for {op[1]} serialized as {raw!r}")
            request(msg, raw, lambda p: p.msgID == op[1], "gnq")
            continue
        b = op[1]
        msg, raw, fl = message(b, R)
        if kind == "refused":
            p = request(msg, raw, lambda p: p.identity == "P" + b["msgid"] and p.payload[:1] == ["ERROR"], kind)
            if (p.status, p.errcode) != ("ERROR", op[2]):
                R.fail("wrong-content", f"refusal {op[2]} read as {p}")
            continue
        if kind == "command":
            p = request(msg, raw, lambda p: p.identity == "P" + b["msgid"] and list(p.payload) == ["OK"], kind)
            R.check(p.status == "OK", "wrong-content", lambda: f"acknowledgement read as {p}")
            continue
        if kind == "query":
            idn = "P" + b["msgid"] + (b["kw"].get("msgId", "") if b["msgid"] in icd.PREFIX else "")
            request(msg, raw, lambda p: p.identity == idn, kind)
            continue
        p = request(msg, raw, lambda p: p.identity == "P" + b["msgid"] and list(p.payload) == ["OK"], kind)
        # the device holds exactly the values given
        key, vals = dev.store[b["msgid"]]
        for f in fl:
            if vals.get(f.name) is None or build.check_text(f, vals[f.name], b["hp"]):
                R.fail("wrong-content", f"{b['key']}: {f.name}={f.value!r} arrived at the device as {vals.get(f.name)!r}")
        q, qraw, _ = message(op[2], R)
        p = request(q, qraw, lambda p: p.identity == "P" + b["msgid"] and p.payload[:1] == ["OK"] and len(p.payload) > 1, kind + " query")
        names = [x for x, _ in G[key]]
        for f in fl:
            if f.name == "status" or f.name not in names:
                continue
            txt = p.payload[names.index(f.name)]
            if build.check_text(f, txt):
                R.fail("wrong-content", f"{b['key']}: {f.name} was set to {f.value!r}, the query returned {txt!r}")
            have = getattr(p, f.name)
            if f.value == "":
                if have != "":
                    R.fail("wrong-content", f"{b['key']}: {f.name} was left empty, the message holds {have!r}")
            elif f.typ == "IN" and have != f.value or f.typ == "DE" and abs(have - f.value) > 1e-9 * abs(f.value) or f.typ in ("ST", "CH", "HX") and have != str(f.value):
                R.fail("wrong-content", f"{b['key']}: {f.name} was set to {f.value!r}, the message holds {have!r}")
        R.probe("value-read-back")
    R.fault("request-repeats", stats["repeat"])
    R.info["nontrivial"] = bool(plan["ops"]) and (link.fi > 0 or len(plan["ops"]) > 1)


def directed():
    out = []
    for m in (0, 1, 2):
        r = random.Random(7 + m)
        ks = build.buildable(m)
        for p in (0, 0.5, 1.0):
            for j in range(0, len(ks), 40):
                out.append({"kind": "build", "builds": [build.gen(r, m, k, p_given=p) for k in ks[j:j + 40]], "val": 1})
    r = random.Random(5)
    for key in CONFIG:
        b = build.gen(r, 1, ("prop", key), p_given=1.0, hp=False)
        q = build.gen(r, 2, ("prop", key), p_given=1.0, hp=False)
        b["kw"]["status"], q["kw"]["status"] = "W", "R"
        out.append({"kind": "dialogue", "ops": [["config", b, q]], "fates": [["drop"], ["ok"], ["drop"]], "port": "serial", "devseed": 1, "period": 300000,
                    "lag": 0, "opts": {"mode": 0, "validate": 1, "quit": 1, "bufsize": 64}, "segn": 0})
    return out
