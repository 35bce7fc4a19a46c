"""Putting sentences together.  No meaning is computed here: what a sentence means is for the
specification to say.  Field positions come from the specification's own tables (MCLaws)."""
import functools

TABLES = None


def load(tables):
    global TABLES
    TABLES = tables


def armor(sextets):
    return bytes(v + 48 if v < 40 else v + 56 for v in sextets)


def blank(t, length=None, fill=0):
    n = TABLES["chars"][t] if length is None else length
    sx = [fill] * n
    return fix(t, sx)


def fix(t, sx):
    put(sx, (0, 6), TABLES["types"][t])
    if t == "t24a":
        put(sx, (38, 2), 0)
    if t == "t24b":
        put(sx, (38, 2), 1)
    return sx


def put(sx, f, v):
    at, w = f
    for i in range(w):
        b = at + i
        k = b // 6
        if k >= len(sx):
            return sx
        m = 1 << (5 - b % 6)
        if (v >> (w - 1 - i)) & 1:
            sx[k] |= m
        else:
            sx[k] &= ~m
    return sx


def put_text(sx, f, text):
    """text: six-bit codes"""
    for i, c in enumerate(text[:f[1] // 6]):
        put(sx, (f[0] + 6 * i, 6), c)
    return sx


def sixbit(s):
    return [(ord(c) - 64 if ord(c) >= 64 else ord(c)) & 63 for c in s]


def checksum(body):
    x = 0
    for c in body.decode("utf-8")[1:]:
        x ^= ord(c) & 255
    return b"%02X" % x


def seal(body):
    return body + b"*" + checksum(body)


def ais(payload, count=1, num=1, mid="", chan="A", talker="AI", kind="VDM", fill=0, sealed=True):
    body = b"!%s%s,%s,%s,%s,%s,%s,%s" % (talker.encode(), kind.encode(), str(count).encode(), str(num).encode(),
                                         str(mid).encode(), chan.encode(), payload, str(fill).encode())
    return seal(body) if sealed else body


def halves(payload, cut, mid="1", chan="A", talker="AI", kind="VDM", fill=2, fill1=0, talker2=None):
    while cut < len(payload) and 128 <= payload[cut] < 192:      # not inside a character
        cut += 1
    return (ais(payload[:cut], 2, 1, mid, chan, talker, kind, fill1),
            ais(payload[cut:], 2, 2, mid, chan, talker2 or talker, kind, fill))


def gnss(talker, fmt, *fields, sealed=True):
    body = b"$" + talker.encode() + fmt.encode() + b"".join(b"," + (f if isinstance(f, bytes) else str(f).encode())
                                                           for f in fields)
    return seal(body) if sealed else body


def hexcodes(codes):
    return "".join(map(chr, codes)).encode("utf-8", "surrogatepass")
