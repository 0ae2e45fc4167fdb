"""Stream contents: genuine sentences mixed with everything a real port carries."""
from . import icd, userdef


def t(b: bytes) -> str:
    return b.decode("latin-1")


def b(s: str) -> bytes:
    return s.encode("latin-1")


def ok_sentence(r, mode, key=None):
    k = r.random()
    if key is not None:
        return icd.frame(icd.gen_content(r, mode, key), lower=r.random() < 0.08)
    if k < 0.12:
        return r.choice(icd.corpus())
    if k < 0.18:
        return icd.frame(icd.gen_unknown(r))
    return icd.frame(icd.gen_content(r, mode), lower=r.random() < 0.08)


def flip(r, raw):
    """Damage of at most 8 adjacent bits, somewhere in the sentence."""
    pos = r.randrange(len(raw) * 8)
    n = r.choice([1, 1, 1, 2, 3, 8])
    mask = 1 | (r.getrandbits(n) if n > 1 else 0)
    val = int.from_bytes(raw, "big")
    pos = min(pos, len(raw) * 8 - mask.bit_length())
    val ^= mask << pos
    return val.to_bytes(len(raw), "big")


def rand_bytes(r, n, alphabet=None):
    if alphabet:
        return bytes(r.choice(alphabet) for _ in range(n))
    return bytes(r.getrandbits(8) for _ in range(n))


def junk(r, mode):
    k = r.choice(["ubx", "rtcm", "bin", "bin$", "text", "trunc", "trunc", "flip", "badck", "dollar", "blank",
                  "lf", "nul", "ais", "nostar", "multi", "nodollar", "typeerr", "short", "cr"])
    if k == "ubx":
        n = r.randint(0, 60)
        body = bytes([r.randrange(1, 40), r.randrange(0, 60)]) + n.to_bytes(2, "little") + rand_bytes(r, n)
        a = c = 0
        for x in body:
            a = (a + x) & 255
            c = (c + a) & 255
        d = b"\xb5\x62" + body + bytes([a, c])
    elif k == "rtcm":
        n = r.randint(2, 40)
        d = b"\xd3" + n.to_bytes(2, "big") + rand_bytes(r, n + 3)
    elif k == "bin":
        d = rand_bytes(r, r.randint(1, 40)).replace(b"$", b"%")
    elif k == "bin$":
        d = rand_bytes(r, r.randint(1, 30), b"$$GPN\r\n*,\x00\xff\xb5b")
    elif k == "text":
        d = r.choice([b"login: ", b"# comment", b"u-blox AG - www.u-blox.com", b"HTTP/1.1 200 OK", b"ICY 200 OK\r\n"])
    elif k == "trunc":
        s = ok_sentence(r, mode)
        d = s[: r.randint(1, len(s) - 1)]
    elif k == "flip":
        d = flip(r, ok_sentence(r, mode))
    elif k == "badck":
        s = ok_sentence(r, mode)
        d = s[:-4] + f"{(int(s[-4:-2], 16) ^ r.randint(1, 255)):02X}".encode() + s[-2:]
    elif k == "dollar":
        d = r.choice([b"$", b"$$", b"$\n", b"$1", b"$\xb5", b"$$$$", b"$g", b"$\r\n", b"$!"])
    elif k == "blank":
        d = r.choice([b"\r\n", b"\n", b"\r\n\r\n", b"\r", b"   \r\n"])
    elif k == "lf":
        d = ok_sentence(r, mode)[:-2] + b"\n"
    elif k == "cr":
        d = ok_sentence(r, mode)[:-2] + b"\r"
    elif k == "nul":
        d = b"\x00" * r.randint(1, 20)
    elif k == "ais":
        d = b"!AIVDM,1,1,,B,177KQJ5000G?tO`K>RA1wUbN0TKH,0*5C\r\n"
    elif k == "nostar":
        s = ok_sentence(r, mode)
        d = s.replace(b"*", b"") if r.random() < 0.5 else s[:-5] + b"\r\n"
    elif k == "multi":
        s = ok_sentence(r, mode)
        d = s[:-2] + b"*" + s[-4:]
    elif k == "nodollar":
        d = ok_sentence(r, mode)[1:]
    elif k == "typeerr":
        d = icd.frame(r.choice(["GNGLL,5327.04319,S,00214.41396,E,223232.00,A,A", "GNGGA,x,x,x,x,x,x,x,x", "PASHR,",
                                "GPGSV,x,1,1", "PUBX,03,x", "PUBX,03,,", "PASHR", "PUBX", "GNFOO,1,2", "PQTMSN",
                                "PSTMDRSENMSG", "GNGSA,A,3,zz", "PUBX,03,99999", "GPGST,1,abc", "PTNL,", "PFEC"]))
    else:
        d = r.choice([b"$G\r\n", b"$GP\r\n", b"$GPGGA\r\n", b"$P\r\n", b"$GNGGA*\r\n", b"$P*50\r\n", b"$GN*09\r\n", b"$G*47\r\n", b"$PUBX*1F\r\n"])
    return k, d


def scale(r, n, p=0.004):
    """Now and then a stream that is much longer than usual."""
    return r.choice([200, 700, 1500]) if r.random() < p else n


def lengthen(r, its, p=0.008):
    """Now and then one very long sentence, near the sizes buffers tend to have."""
    if r.random() < p:
        n = r.choice([1024, 2048, 4096, 8192, 16384, 65536]) + r.choice([-40, -1, 0, 1, 300])
        txt = (icd.gen_text(r, 20, 60) * (n // 20 + 1)).encode("ascii", "replace").decode()[:n]
        its.insert(r.randint(0, len(its)), ["ok", t(icd.frame(r.choice(["GNTXT,01,01,02,", "GPTXT,03,01,25,"]) + txt))])
    return its


def items(r, mode, n, p_junk=0.35, keys=None, ud=None):
    """A list of [kind, text]; 'ok' items are intact sentences."""
    out = []
    for i in range(n):
        if r.random() < p_junk:
            k, d = junk(r, mode)
            if not d.endswith(b"\n") and r.random() < 0.55:
                d += r.choice([b"\r\n", b"\r\n", b"\n"])
            out.append([k, t(d)])
        else:
            if ud and r.random() < 0.5:
                out.append(["ok", t(icd.frame(userdef.content(r, ud)))])
                continue
            key = keys[i % len(keys)] if keys else None
            out.append(["ok", t(ok_sentence(r, mode, key))])
    return out


def frames(data: bytes, crlf: bool):
    """Reference framer: [(start, end)] of every line the documented framing yields.

    Scan for '$'; if the next byte is a known first letter of a talker the
    sentence extends to the next line end (LF, or CRLF on sockets), otherwise
    both bytes are skipped.  A line cut off by the end of data is not a frame.
    """
    out = []
    i, n = 0, len(data)
    end = b"\r\n" if crlf else b"\n"
    while i < n:
        if data[i] != 0x24:
            i += 1
            continue
        if i + 1 >= n:
            break
        if data[i : i + 2] not in icd.HDR:
            i += 2
            continue
        e = data.find(end, i + 2)
        if e < 0:
            if data.endswith(b"\n"):  # cut off by the end of the stream right after a bare LF
                out.append((i, n))
            break
        e += len(end)
        out.append((i, e))
        i = e
    return out


def guaranteed(data: bytes, start: int, crlf: bool):
    """Does a sentence starting here follow a line end, or only '$'-free bytes since one?"""
    end = b"\r\n" if crlf else b"\n"
    p = data.rfind(end, 0, start)
    p = 0 if p < 0 else p + len(end)
    return b"$" not in data[p:start]


def match(frames_, delivered):
    """Can `delivered` (raw items) be explained by the frames, all 'must' ones present?

    frames_: [(raw, must)].  Returns (ok, index of first frame that cannot be).
    """
    states = {0}
    for fi, (raw, must) in enumerate(frames_):
        nxt = set()
        for j in states:
            if j < len(delivered) and delivered[j] == raw:
                nxt.add(j + 1)
            if not must:
                nxt.add(j)
        if not nxt:
            return False, fi
        states = nxt
    return len(delivered) in states, -1
