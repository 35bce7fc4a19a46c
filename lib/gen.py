"""Where the operations that are run on the real code come from: the behaviours of the design models,
and seeded random histories around them.  Every result is judged by the trace specification."""
import json, os, random
from . import codec, engine, walks
from .codec import ais, gnss, seal, halves, put, put_text, blank, armor, sixbit

NOWS = [(2021, 3, 14, 15, 9, 26), (2024, 2, 29, 0, 0, 0), (2023, 12, 31, 23, 59, 59), (2023, 2, 28, 12, 0, 0),
        (2000, 1, 1, 0, 0, 1), (1999, 12, 31, 23, 59, 59), (2099, 12, 31, 12, 30, 0), (2100, 1, 1, 0, 0, 0),
        (1970, 1, 1, 0, 0, 0), (2024, 2, 28, 23, 59, 59), (2038, 1, 19, 3, 14, 8)]
TYPES = ["t1", "t2", "t3", "t4", "t5", "t6", "t9", "t10", "t18", "t21", "t24a", "t24b", "t27"]
DYN = ["t1", "t2", "t3", "t4", "t9", "t18", "t21"]
FILLS = ["", 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, "00", "02", 60, 255, 256, -1, "x", "A", " 2", "2 ", "\u0662", "0,", "0,1", "0,r003669945,1609459200", "6,6,6", "*"]
TALKERS_AIS = ["AI", "AI", "AI", "AB", "AD", "AN", "AR", "AS", "AT", "AX", "BS", "SA", "XX"]
TALKERS_GNSS = ["GP", "GP", "GN", "GL", "GA", "BD", "GI", "QZ", "GB", "XX"]
MMSIS = [211339980, 244750038, 503123456, 970123456, 2320717, 992351030, 111232506, 0, 1073741823, 366999712,
         338123456, 999999999]
TEXTS = ["", " ", "A", "HELLO", "NEW  YORK", "MT.MITCHELL", "THIS-IS-20-CHARS-OK!", " LEADING", "TRAIL   ",
         "A@B", "@@@@@@@@", "?????", "0123456789", "[\\]^_", "\"#$%&'()*+,-./", "X@@@@@@@@@@@@@@@@@@@", "        "]


def text(b):
    """Sentences are text, whatever was done to their bytes."""
    return b if b.isascii() else b.decode("utf-8", "ignore").encode()


class Gen:
    def __init__(self, prop, seed, scale, models):
        self.rng = random.Random("%s/%d" % (prop, seed))
        self.prop, self.seed, self.scale, self.models = prop, seed, scale, models
        self.deep = scale >= 6
        self.episodes = []
        self.sources = {}
        T = codec.TABLES
        self.L, self.chars, self.na = T["layouts"], T["chars"], T["na"]

    # ---- bookkeeping

    def n(self, quick):
        return max(1, int(quick * self.scale))

    def episode(self, ops, source, now=None):
        if not ops:
            return
        head = [("T", now or NOWS[0])]
        ops = [(o[0], o[1], text(o[2])) if o[0] in "PX" else o for o in ops]
        slots = sorted({o[1] for o in ops if o[0] in "PYWN" and o[0] != "X"} - {o[1] for o in ops if o[0] == "N"})
        self.episodes.append(head + [("N", i) for i in slots] + ops)
        self.sources[source] = self.sources.get(source, 0) + sum(1 for o in ops if o[0] in "PXYWECFDQ")

    def many(self, sentences, source, now=None, size=400, slot=0):
        """Sentences with no memory between them, a few hundred on one parser."""
        for i in range(0, len(sentences), size):
            self.episode([("P", slot, s) for s in sentences[i:i + size]], source,
                         now or self.rng.choice(NOWS[:4]))

    # ---- random AIS messages

    def mmsi(self):
        """Station numbers of every kind: ships, coast stations, groups, aircraft, aids, auxiliary craft,
        handhelds, distress beacons; and numbers that begin like them but have other lengths."""
        r = self.rng
        k = r.random()
        if k < 0.25:
            return r.choice(MMSIS)
        if k < 0.45:
            return r.randrange(200, 776) * 1000000 + r.randrange(1000000)
        head = r.choice(["00", "0", "111", "1", "2", "7", "8", "9", "97", "970", "972", "974", "98", "99", "10", "100", "107", "%03d" % r.randrange(1000)]) \
            + r.choice(["", "%03d" % r.randrange(200, 776), "%03d" % r.randrange(1000)])
        n = 9 if k < 0.75 else r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10])
        while len(head) < n:
            head += str(r.randrange(10))
        return int(head[:n]) % (1 << 30)

    def imo(self):
        """Seven digits, the last of them right or wrong, or another number of digits."""
        r = self.rng
        if r.random() < 0.7:
            d = [r.choice([1, 5, 7, 8, 9, r.randrange(10)])] + [r.randrange(10) for _ in range(5)]
            last = sum(x * w for x, w in zip(d, (7, 6, 5, 4, 3, 2))) % 10
            if r.random() < 0.4:
                last = r.randrange(10)
            return int("".join(map(str, d + [last])))
        return r.choice([999999, 1000000, 9999999, 10000000, r.randrange(10 ** r.randrange(1, 10))])

    def value(self, t, f):
        r, w = self.rng, self.L[t][f][1]
        top = (1 << w) - 1
        if f in ("mmsi", "dmmsi", "moth") and r.random() < 0.75:
            return self.mmsi()
        if f == "imo" and r.random() < 0.4:
            return self.imo()
        key = f + "27" if t == "t27" and f + "27" in self.na else f
        k = r.random()
        if key in self.na and k < 0.2:
            return max(0, min(top, self.na[key] + r.choice([0, 0, 0, -1, 1])))
        if k < 0.4 or w > 64:
            return r.choice([0, 1, top, top - 1, 1 << (w - 1), (1 << (w - 1)) - 1, (1 << (w - 1)) + 1])
        if f in ("lat", "lon") and t != "t27" and k < 0.8:
            lim = 54000000 if f == "lat" else 108000000
            v = r.randrange(-lim, lim + 1)
            return v & top
        if f in ("lat", "lon") and t == "t27" and k < 0.8:
            lim = 54000 if f == "lat" else 108000
            return r.randrange(-lim, lim + 1) & top
        return r.randrange(top + 1)

    def text(self, n):
        r = self.rng
        k = r.random()
        if k < 0.35:
            return sixbit(r.choice(TEXTS))[:n]
        if k < 0.7:
            return [r.choice([r.randrange(1, 27), 32, r.randrange(48, 58)]) for _ in range(r.randrange(n + 1))]
        return [r.randrange(64) for _ in range(r.randrange(n + 1))]

    def sextets(self, t, **fixed):
        r = self.rng
        k = r.random()
        n = self.chars[t]
        if t == "t21" and k < 0.5:
            n = r.randrange(45, 61)
        if k < 0.25:
            sx = [r.randrange(64) for _ in range(n)]
        else:
            sx = [0 if k < 0.9 else 63] * n
        codec.fix(t, sx)
        for f, (at, w) in self.L[t].items():
            if f == "part" or (f == "moth" and r.random() < 0.5):
                continue
            if w > 30 or f == "vend":
                if k >= 0.25:
                    put_text(sx, (at, w), self.text(w // 6))
            else:
                put(sx, (at, w), self.value(t, f))
        for f, v in fixed.items():
            put(sx, self.L[t][f], v)
        return sx

    def payload(self, t, **fixed):
        r = self.rng
        sx = self.sextets(t, **fixed)
        k = r.random()
        if k < 0.06:
            sx = sx[:r.randrange(1, len(sx) + 1)]
        elif k < 0.1:
            sx = sx + [r.randrange(64) for _ in range(r.randrange(1, 12))]
        return armor(sx)

    def wrap(self, p):
        """A plain one-part sentence around a payload, in one of its many forms."""
        r = self.rng
        k = r.random()
        if k < 0.4:
            return ais(p, fill=r.choice([0, 2, 4]))
        return ais(p, 1, r.choice([1, 1, 1, 0, 2, "01"]), r.choice(["", "", "0", "7", "x"]), r.choice(["A", "B", "", "1"]),
                   r.choice(TALKERS_AIS), r.choice(["VDM", "VDM", "VDO"]), r.choice([0, 2, 5, r.choice(FILLS[:-1])]), r.random() < 0.7)

    def deliver(self, t, two=0.15, **fixed):
        """A message of this type, in one sentence or in two."""
        r = self.rng
        p = self.payload(t, **fixed)
        if r.random() >= two or len(p) < 2:
            return [self.wrap(p)]
        a, b = halves(p, r.randrange(0, len(p) + 1), r.choice("0123456789"), r.choice("AB"), r.choice(TALKERS_AIS),
                      r.choice(["VDM", "VDO"]), r.choice([0, 1, 2, 3, 4, 5]), r.choice([0, 0, 2, 4]),
                      r.choice(TALKERS_AIS) if r.random() < 0.2 else None)
        return [a, b] if r.random() < 0.7 else [b, a]

    def random_messages(self, types, quick, source="random messages", two=0.15):
        out = []
        for _ in range(self.n(quick)):
            out += self.deliver(self.rng.choice(types), two)
        self.many(out, source)

    # ---- behaviours of the case models

    def fields(self, types, single=True, pairs=True, all_=8, bgs=(1, 2, 3), only=None, cap=None):
        m = self.models.run("MCFields", dict(types=list(types), all=all_, bgs=list(bgs), single=single, pairs=pairs,
                                             print=True))
        out = []
        for line in m.lines("MSG"):
            t, f, js = line.split(" ", 2)
            if only is None or f in only:
                out.append(armor(json.loads(js)))
        if cap and len(out) > cap * self.scale:
            out = self.rng.sample(out, int(cap * self.scale))
        self.rng.shuffle(out)
        sents = []
        for p in out:
            sents.append(self.wrap(p))
        self.many(sents, "MCFields")

    def texts(self, only=None, plans=("char", "end", "space", "ext", "cut"), cap=None):
        m = self.models.run("MCText", dict(plans=list(plans), print=True))
        out = []
        for line in m.lines("MSG"):
            t, js = line.split(" ", 1)
            if only is None or t in only:
                out.append((t, armor(json.loads(js))))
        if cap and len(out) > cap * self.scale:
            out = self.rng.sample(out, int(cap * self.scale))
        self.rng.shuffle(out)
        a, b = ais(armor(blank("t24a"))), ais(armor(blank("t24b")))
        sents = []
        for t, p in out:
            sents.append(self.wrap(p))
            if t == "t24a":
                sents.append(b)
            if t == "t24b":
                sents.append(a)
        self.many(sents, "MCText")

    def gnss_cases(self, kinds, pairs, cap=None):
        m = self.models.run("MCGnss", dict(kinds=list(kinds), pairs=pairs, print=True))
        out = [codec.hexcodes(json.loads(l)) for l in m.lines("SEN")]
        if cap and len(out) > cap * self.scale:
            out = self.rng.sample(out, int(cap * self.scale))
        self.rng.shuffle(out)
        self.many([seal(s) if self.rng.random() < 0.5 else s for s in out], "MCGnss")

    def frames(self, plans, cap=None):
        bases = [ais(b"15RTgt0PAso;90TKcjM8h6g208CQ"), gnss("GP", "GGA", "123519", "4807.038", "N", "01131.000", "E", 1,
                 "08", "0.9", "545.4", "M", "46.9", "M", "", ""), gnss("GP", "VTG", "054.7", "T", "034.4", "M", "005.5",
                 "N", "010.2", "K")]
        m = self.models.run("MCFrame", dict(plans=list(plans), bases=[list(b) for b in bases], print=True))
        out = [codec.hexcodes(json.loads(l)) for l in m.lines("SEN")]
        if cap and len(out) > cap * self.scale:
            out = self.rng.sample(out, int(cap * self.scale))
        self.rng.shuffle(out)
        self.many(out, "MCFrame")

    def clock(self, plans, nows, wide=False, cap=None):
        m = self.models.run("MCClock", dict(plans=list(plans), nows=[list(x) for x in nows], wide=wide, print=True))
        by = {}
        for l in m.lines("CLK"):
            a, b = l.split("] ", 1)
            by.setdefault(tuple(json.loads(a + "]")), []).append(codec.hexcodes(json.loads(b)))
        for now, out in sorted(by.items()):
            if cap and len(out) > cap * self.scale / len(by):
                out = self.rng.sample(out, int(cap * self.scale / len(by)))
            self.rng.shuffle(out)
            self.many(out, "MCClock", now)

    def graph(self, name, alphabet, controls=(), limit=600):
        """Every transition of the parser over a small alphabet of sentences (MCParser)."""
        m = self.models.run("MCParser", name=name, alphabet=alphabet)
        edges, kinds = walks.graph(m)
        # the start is the only memory without an incoming novelty: it is the first one printed
        first = next(iter(m.lines("EDGE"))).split()
        ws = walks.cover(edges, int(first[0]), self.rng, limit)
        for w in ws:
            self.episode([("X", 0, c) for c in controls] + [("P", 0, alphabet[i]) for i in w], "MCParser/" + name)
        return m

    # ---- alphabets

    def pos(self, mmsi, t="t1", **kw):
        sx = blank(t)
        put(sx, self.L[t]["mmsi"], mmsi)
        for f, v in kw.items():
            put(sx, self.L[t][f], v)
        return armor(sx)

    def static5(self, mmsi, name):
        sx = blank("t5")
        put(sx, self.L["t5"]["mmsi"], mmsi)
        put_text(sx, self.L["t5"]["name"], sixbit(name))
        return armor(sx)

    def part_a(self, mmsi, name):
        sx = blank("t24a")
        put(sx, self.L["t24a"]["mmsi"], mmsi)
        put_text(sx, self.L["t24a"]["name"], sixbit(name))
        return armor(sx)

    def part_b(self, mmsi, call, ship=37):
        sx = blank("t24b")
        put(sx, self.L["t24b"]["mmsi"], mmsi)
        put(sx, self.L["t24b"]["shiptype"], ship)
        put_text(sx, self.L["t24b"]["call"], sixbit(call))
        return armor(sx)

    def frag_alphabet(self, keys, variants, cut=40):
        """Halves of distinct static reports under the given (kind, id, channel) keys."""
        out, wholes = [], []
        for k, (kind, mid, chan) in enumerate(keys):
            ps = [self.static5(211000000 + 10 * k + v, "KEY %d VAR %d" % (k, v)) for v in range(variants)]
            for p in ps:
                out += list(halves(p, cut, mid, chan, kind=kind, talker2="AB" if k % 2 else None))
            for a in ps:
                for b in ps:
                    for tk in ("AI", "AB") if k % 2 else ("AI",):
                        wholes.append(ais(a[:cut] + b[cut:], chan=chan, kind=kind, talker=tk))
        return out, wholes

    def gsv(self, talker, count, num, prns, sealed=True, total=None):
        total = count * 4 if total is None else total
        fs = [count, num, "%02d" % total if isinstance(total, int) else total]
        for p in prns:
            fs += ["%02d" % p, "%02d" % (p % 90), "%03d" % (p * 7 % 360), "%02d" % (p % 60)]
        return gnss(talker, "GSV", *fs, sealed=sealed)

    def gsv_group(self, talker, count, base):
        # what is announced as the number of satellites in view has no part in it
        r = self.rng
        odd = [0, "", 1, 4, 4 * (count - 1), 4 * count - 3, 4 * count - 2, 2 * count, 99, 255, 300, "x", -4]
        total = r.choice([None] * 8 + odd)
        return [self.gsv(talker, count, n + 1, [(base + 4 * n + j) % 250 + 1 for j in range(4 if n + 1 < count else 1 + (base + n) % 4)],
                         total=total if r.random() < 0.95 else r.choice(odd)) for n in range(count)]

    JUNK = [b"", b",", b"*", b"$", b"!", b"garbage", b"$GPGGA", b"!AIVDM", b"$GPALM,1,1,15,1159,00", b"!AIXYZ,1,1,,A,x,0",
            b"$GPGSV,3,0,11,10,63,137,17", b"$GPGSV,3,4,11,10,63,137,17", b"$GPGSV,x,1,11,10,63,137,17",
            b"$GPGSV,3,1*00", b"!AIVDM,2,3,1,A,55?MbV02>,0", b"!AIVDM,x,1,1,A,55?MbV02>,0",
            b"!AIVDM,2,1,1,A,55?MbV02>,0*00", b"!AIVDM,1,1,,A,zzzz,0", b"!AIVDM,1,1,,A,00000,0",
            b"$GPRMC,225446,X,4916.45,N,12311.12,W,000.5,054.7,191120,020.3,E*6B",
            b"!AIVDM,1,1,,A,H42O55i18tMET00000000000000,2*00"]

    def foreign(self, p):
        """The payload with a character that carries no six bits."""
        r = self.rng
        at = r.randrange(len(p) + 1)
        c = r.choice([b"X", b"Y", b"Z", b"[", b"^", b"_", b"x", b"z", b"{", b"~", b"/", b" ", b"!", b"-", "\u00e9".encode(), "\U0001f6a2".encode(), b"\x7f"])
        return p[:at] + c + p[at + r.choice([0, 1]):]

    def refused(self):
        """Sentences that are answered with an error, of every kind."""
        r = self.rng
        k = r.randrange(9)
        if k == 0:
            return r.choice(self.JUNK)
        if k == 1:
            s = self.self_contained().split(b"*")[0]
            return s + b"*" + r.choice([b"%02X" % (int(codec.checksum(s), 16) ^ (1 << r.randrange(8))), codec.checksum(s) + b" ", b"0", b"ZZ"])
        if k == 2:
            return ais(self.foreign(self.payload(r.choice(TYPES))), kind=r.choice(["VDM", "VDO"]))
        if k == 3:
            return ais(armor([r.choice([0, 7, 8, 11, 12, 17, 19, 20, 22, 23, 25, 26, 28, 45, 63])] + [r.randrange(64) for _ in range(r.randrange(30))]))
        if k == 4:
            sx = self.sextets("t24a")
            return ais(armor(put(sx, (38, 2), r.choice([2, 3]))))
        if k == 5:
            return gnss(r.choice(TALKERS_GNSS), "GSV", *r.choice([[3, 0, 11, 1, 2, 3, 4], [3, 4, 11, 1, 2, 3, 4], [0, 0], ["", 1, 11], [3, "", 11], ["x", 1], [1, "1.0"],
                                                                 [256, 1], [2, 255, 3], [-1, 1], [0, 1, 11]]))
        if k == 6:
            return gnss("GP", "GGA", "123519", "4807.038", "N", "01131.000", "E", r.choice([1, "x"]), r.choice(["08", "y", 256]), "0.9", r.choice(["545.4", "--"]), "M", "46.9", "M", "", "z")
        if k == 7:
            return b"$%s%s,1,2,3" % (r.choice(TALKERS_GNSS).encode(), r.choice([b"HDT", b"ALM", b"ZDA", b"DTM", b"XXX", b"GG", b"GSVX", b"VDM"]))
        return b"!AI%s,%s,1,1,A,%s,0" % (r.choice([b"VDN", b"VDM", b"VDO", b"ABK", b"VD"]), r.choice([b"x", b"", b"256", b"-2", b"1.0", b" 2"]), self.payload("t5"))

    def moved(self, now):
        """The clock some time later, or put back."""
        import datetime
        r = self.rng
        d = datetime.datetime(*now[:6]) + datetime.timedelta(seconds=r.choice([1, 59, 61, 3600, 3601, 86399, 86400, 86400 * 31, 86400 * 366, -1, -3600, -86400 * 40,
                                                                             r.randrange(1, 600), r.randrange(1, 86400 * 3)]))
        if not 1971 <= d.year < 2200:
            d = datetime.datetime(*r.choice(NOWS[:6]))
        return (d.year, d.month, d.day, d.hour, d.minute, d.second) + r.choice([(), (), (1,), (500000000,), (999999999,)])

    def self_contained(self):
        r = self.rng
        k = r.randrange(8)
        if k < 4:
            return self.wrap(self.payload(r.choice(["t1", "t4", "t5", "t9", "t18", "t21", "t6", "t10"])))
        return [lambda: gnss("GP", "GGA", "123519", "4807.038", "N", "01131.000", "E", 1, "08", "0.9", "545.4", "M", "46.9", "M", "", ""),
                lambda: gnss("GN", "RMC", "225446", "A", "4916.45", "N", "12311.12", "W", "000.5", "054.7", "191120", "020.3", "E"),
                lambda: gnss("GL", "VTG", "054.7", "T", "034.4", "M", "005.5", "N", "010.2", "K"),
                lambda: gnss("GP", "GSV", 1, 1, "02", "%02d" % r.randrange(1, 99), 40, 83, 46, 2, 17, 308, 41)][k - 4]()

    # ---- random histories

    def history(self, n, slots=1, w=None, ids=4, vessels=3, groups=4):
        """Interleaved halves, group members, static parts, plain sentences and rubbish."""
        r = self.rng
        w = dict(dict(frag=4, gsv=3, t24=3, plain=2, junk=1, odd=1, clock=0.3), **(w or {}))
        names = list(w)
        keys = [(r.choice(["VDM", "VDM", "VDO"]), str(r.choice([0, 1, 2, 3, 9, 10, 255, 18446744073709551615, "007"])), r.choice(["A", "B", ""]))
                for _ in range(ids)]
        talkers = [(r.choice(["GP", "GL", "GA", "GN", "BD", "QZ"]), r.choice([1, 2, 2, 3, 3, 4, 5, 9])) for _ in range(groups)]
        ships = [r.choice(MMSIS + [211000001, 211000002, 211000003]) for _ in range(vessels)]
        ops = []
        pool = []
        now = r.choice(NOWS[:6])
        while len(ops) < n:
            slot = r.randrange(slots)
            what = r.choices(names, [w[x] for x in names])[0]
            if what == "frag":
                kind, mid, chan = r.choice(keys)
                p = self.payload(r.choice(["t5", "t5", "t1", "t18", "t21", "t24a", "t24b", "t4"]), mmsi=r.choice(ships)) if r.random() < 0.5 or not pool \
                    else r.choice(pool)
                pool.append(p)
                pool = pool[-6:]
                if r.random() < 0.06:
                    p = self.foreign(p)
                cut = r.choice([0, len(p) // 2, len(p), min(len(p), 56), r.randrange(len(p) + 1)])
                a, b = halves(p, cut, mid, chan, r.choice(TALKERS_AIS), kind, r.randrange(6), r.choice([0, 0, 2]),
                              r.choice(TALKERS_AIS) if r.random() < 0.2 else None)
                if r.random() < 0.1:
                    a, b = [x.split(b"*")[0] + r.choice([b"", b",", b",9,x"]) for x in (a, b)]
                k = r.random()
                seq = [a] if k < 0.3 else [b] if k < 0.6 else [a, b] if k < 0.85 else [b, a]
                for s in seq:
                    ops.append(("P", slot, s))
            elif what == "gsv":
                tk, c = r.choice(talkers)
                g = self.gsv_group(tk, c, r.randrange(200))
                k = r.random()
                if k < 0.35:
                    ops += [("P", slot, s) for s in g]
                elif k < 0.6:
                    g2 = g[:]
                    r.shuffle(g2)
                    ops += [("P", slot, s) for s in g2]
                else:
                    ops.append(("P", slot, r.choice(g)))
            elif what == "t24":
                m = r.choice(ships)
                ops.append(("P", slot, self.wrap(self.payload(r.choice(["t24a", "t24b"]), mmsi=m))))
            elif what == "plain":
                ops.append(("P", slot, self.self_contained()))
            elif what == "junk":
                ops.append(("P", slot, r.choice(self.JUNK) if r.random() < 0.4 else self.refused()))
            elif what == "clock":
                now = self.moved(now)
                ops.append(("T", now))
            else:
                # almost-right relatives of the keys above
                kind, mid, chan = r.choice(keys)
                p = self.static5(r.choice(ships), "ODD")
                s = r.choice([ais(p, 2, 3, mid, chan, kind=kind), ais(p, 3, 1, mid, chan, kind=kind), ais(p, 3, 2, mid, chan, kind=kind),
                              ais(p, 2, 1, "", chan, kind=kind), ais(p, 2, 0, mid, chan, kind=kind), ais(p, 0, 1, mid, chan, kind=kind),
                              ais(p, 2, 2, "x", chan, kind=kind), ais(p, 1, 2, mid, chan, kind=kind), ais(b"", 2, 1, mid, chan, kind=kind),
                              ais(b"", 2, 2, mid, chan, kind=kind), ais(p, 2, 255, mid, chan, kind=kind), ais(p, 4, 2, mid, chan, kind=kind),
                              ais(p, 9, 9, mid, chan, kind=kind), ais(p, 255, 1, mid, chan, kind=kind), ais(p, "02", "1", mid, chan, kind=kind),
                              ais(p, "2", "02", mid, chan, kind=kind), ais(p, 2, 1, mid + ".0", chan, kind=kind), ais(p, 2, 2, "-" + mid, chan, kind=kind),
                              b",".join(ais(p, 2, 1, mid, chan, kind=kind).split(b",")[:r.randrange(1, 6)])])
                ops.append(("P", slot, s))
            while r.random() < 0.06:
                ops.append(ops[-1])
        return ops[:n]

    def histories(self, quick, length=300, slots=1, **kw):
        for _ in range(self.n(quick)):
            sl = slots if isinstance(slots, int) else self.rng.choice(slots)
            self.episode(self.history(length, sl, **kw), "random histories", self.rng.choice(NOWS))
