"""For every property: the models checked, the behaviours replayed and the histories recorded."""
from .gen import *
from .gen import Gen as _Gen

ALLDIG = "0123456789"


class Plans(_Gen):
    # ---- random GNSS sentences

    def number(self):
        r = self.rng
        k = r.random()
        if k < 0.12:
            return ""
        if k < 0.7:
            return "%s%0*d%s" % (r.choice(["", "", "", "-", "+"]), r.choice([1, 1, 2, 3]), r.randrange(1000),
                                 r.choice(["", ".", ".%d" % r.randrange(10), ".%03d" % r.randrange(1000), ".%07d" % r.randrange(10 ** 7)]))
        if k < 0.9:
            return r.choice(["0", "0.0", "-0.0", "00", ".5", "5.", "359.99", "99999999", "100000000", "100000001", "123456789.5",
                             "1e3", "1E-2", "inf", "nan", "-inf", "0.0000005", "0.9999999", "1.0000004"])
        return r.choice(["x", "1x", " 1", "1 ", "--1", "-", ".", "1.2.3", "1e", "e5", "0x1", "१", "1,", "NaN!"])

    def small(self, top):
        r = self.rng
        k = r.random()
        if k < 0.1:
            return ""
        if k < 0.8:
            return "%0*d" % (r.choice([1, 2, 3]), r.randrange(top + 1))
        return str(r.choice([0, top, top + 1, "-1", "+5", "x", "1.0", "00000000000000000001", " 3", 99999999999999999999]))

    def angle(self, deg, lim):
        r = self.rng
        k = r.random()
        if k < 0.08:
            return ""
        if k < 0.85:
            return "%0*d%02d.%s" % (deg, r.randrange(lim + 1), r.randrange(60), "".join(r.choice(ALLDIG) for _ in range(r.choice([1, 2, 3, 4, 4, 5, 6, 8]))))
        return r.choice(["%0*d%02d" % (deg, 1, 2), "%0*d%02d.5" % (deg - 1, 1, 2), "%0*d%02d." % (deg, 1, 2), "%0*d%02d.5x" % (deg, 1, 59),
                         "%0*d%02d.5" % (deg, lim, 60), "-%0*d%02d.5" % (deg, 1, 2), "x", "%0*d%02d,5" % (deg, 1, 2), "%0*d00.0" % (deg, lim),
                         "%0*d99.9" % (deg, 0), "%0*d00.000000" % (deg, 0), "%0*d%02d.٣" % (deg, 1, 2)])

    def side(self, a, b):
        r = self.rng
        return r.choice([a, b]) if r.random() < 0.9 else r.choice(["", a.lower(), b.lower(), "X", a + b])

    def tod(self):
        r = self.rng
        if r.random() < 0.75:
            return "%02d%02d%02d%s" % (r.randrange(24), r.randrange(60), r.randrange(60), r.choice(["", ".0", ".00", ".999", ".5"]))
        return r.choice(["", "240000", "236000", "235960", "1", "12", "123", "1234", "12345", "+1+2+3", "-10000", "abcdef", "12:34:56",
                         "000000", "235959", "99", "1234567", "é12345", "12é345", "१२३"])

    def day(self):
        r = self.rng
        if r.random() < 0.75:
            return "%02d%02d%02d" % (r.randrange(1, 32), r.randrange(1, 13), r.randrange(100))
        return r.choice(["", "000000", "290223", "290224", "290200", "310424", "320124", "011324", "1", "0101", "01012", "abcdef", "010199",
                         "0101-1", "+1+1+1", "01012024", "é10124"])

    def gnss_random(self, fmt=None):
        r = self.rng
        fmt = fmt or r.choice(["GGA", "RMC", "GSA", "GSV", "VTG", "GLL"])
        pos = [self.angle(2, 90), self.side("N", "S"), self.angle(3, 180), self.side("E", "W")]
        if fmt == "GGA":
            f = [self.tod()] + pos + [self.small(8), self.small(255), self.number(), self.number(), "M", self.number(), "M",
                                      self.number(), self.small(65535)]
        elif fmt == "RMC":
            f = [self.tod(), r.choice(["A", "A", "V", "", "X", "a"])] + pos + [self.number(), self.number(), self.day(), self.number(),
                                                                              r.choice(["E", "W", "W", "E", "", "X", "e"])]
            f += r.choice([[], [], ["A"], ["D", "V"]])
        elif fmt == "GSA":
            f = [r.choice(["A", "M", "", "X"] if r.random() < 0.3 else ["A", "M"]), r.choice(["1", "2", "3", "", "4"] if r.random() < 0.3 else ["1", "2", "3"])]
            used = r.choice([12, 12, 11, 9, 6])
            f += [self.small(255) if r.random() < 0.3 else "%02d" % r.randrange(1, 100) if j < used else "" for j in range(12)] if r.random() < 0.5 else \
                [self.small(255) if r.random() < 0.3 else r.choice(["", "%02d" % r.randrange(100)]) for _ in range(12)]
            f += [self.number() if r.random() < 0.3 else "%d.%d" % (r.randrange(30), r.randrange(10)) for _ in range(3)]
        elif fmt == "GSV":
            f = [1, 1, "%02d" % r.randrange(20)]
            for _ in range(r.randrange(5)):
                f += [self.small(255), self.small(90), self.small(360), self.small(99)]
            f += r.choice([[], [], [""], ["1"]])
        elif fmt == "VTG":
            f = [self.number(), "T", self.number(), "M", self.number(), "N", self.number(), "K"]
            f += r.choice([[], ["A"], ["D"], ["E"], ["N"], ["S"], ["X"], [""], ["a"], ["AA"]])
        else:
            f = pos + [self.tod(), r.choice(["A", "V", "", "X", "AV"]), r.choice(["A", "D", "E", "N", "S", "X", ""])]
        if r.random() < 0.15:       # what later standards add
            f += r.choice([["1"], ["A"], ["D", "V"], [""], ["", ""], ["1", "2", "3"], ["x"], ["0"], ["N", "S"], ["5"] * 12])
        # make most sentences acceptable: one odd field at a time is plenty
        if r.random() < 0.1:
            f = f[:r.randrange(len(f) + 1)]
        f = [x if isinstance(x, int) else x.encode() for x in f]
        return gnss(r.choice(TALKERS_GNSS), fmt, *f, sealed=r.random() < 0.6)

    def gnss_good(self, fmt):
        """Mostly well-formed, so that strict sentences are accepted often."""
        save = self.number, self.small, self.angle
        r = self.rng
        try:
            if r.random() < 0.85:
                self.number = lambda: r.choice(["", "0", "%.1f" % (r.random() * 360), "%03d.%d" % (r.randrange(360), r.randrange(10)),
                                                "-%.2f" % (r.random() * 100), "%.3f" % (r.random() * 1000)])
                self.small = lambda top: "%02d" % r.randrange(min(top, 99) + 1) if r.random() < 0.8 else str(r.randrange(top + 1))
                self.angle = lambda d, lim: "%0*d%02d.%s" % (d, r.randrange(lim), r.randrange(60), "".join(r.choice(ALLDIG) for _ in range(r.randrange(1, 7)))) \
                    if r.random() < 0.93 else ""
            return self.gnss_random(fmt)
        finally:
            for k in ("number", "small", "angle"):
                self.__dict__.pop(k, None)

    def gnss_messages(self, kinds, quick):
        self.many([self.gnss_good(self.rng.choice(kinds)) for _ in range(self.n(quick))], "random GNSS sentences")

    # ---- the properties

    def C01(self):
        r = self.rng
        n = self.n
        self.frames(["type", "armor", "cut"], cap=9000)
        self.gnss_cases(["GGA", "RMC", "GSA", "GSV", "VTG", "GLL"], False)
        self.fields(TYPES, pairs=False, bgs=(1, 2), cap=4000)
        self.texts(cap=2000)
        self.clock(["eta", "base", "time", "date"], NOWS[:3], cap=6000)
        good = [self.gnss_random() for _ in range(n(1500))] + [s for t in TYPES * n(40) for s in self.deliver(t)]
        mut = []
        for s in good:
            b = bytearray(s)
            for _ in range(r.choice([1, 1, 2, 5])):
                k = r.randrange(5)
                at = r.randrange(len(b) + 1)
                if k == 0 and b:
                    del b[at:at + r.choice([1, 1, 3, 20])]
                elif k == 1:
                    b[at:at] = r.choice([b",", b",,", b"*", b"$", b"!", b"-", b"+", b"\xc3\xa9", b"\xf0\x9f\x9a\xa2", b"\0", b" ", b"9" * 25, b"e9", b"\xe2\x82\xac"])
                elif k == 2 and b:
                    b[min(at, len(b) - 1)] = r.randrange(128)
                elif k == 3:
                    b = b[:at]
                else:
                    b = b + bytes(b[at:])
            s2 = bytes(b).decode("utf-8", "ignore")
            # keep the checksum out of the way most of the time
            if r.random() < 0.7:
                s2 = s2.split("*")[0]
            mut.append(s2.encode())
        self.many(good, "random sentences", size=300)
        self.many(mut, "mutated sentences", size=300)
        self.awkward()
        soup = []
        alpha = ["$", "!", "*", ",", "GP", "AI", "VDM", "VDO", "GGA", "RMC", "GSV", "GSA", "VTG", "GLL", "1", "2", "0", "A", "B", "é", "€", "🚢", "٣", "\0",
                 "\n", " ", "-", "+", ".", "99999999999", "w", "`", "~", "x", "E", "e", "nan", "255", "256", "00"]
        for _ in range(n(4000)):
            k = r.random()
            s = "".join(r.choice(alpha) for _ in range(r.randrange(1, 30)))
            if k < 0.5:
                s = r.choice(["$GPGGA,", "$GPRMC,", "$GPGSA,", "$GPGSV,", "$GPVTG,", "$GPGLL,", "!AIVDM,", "!AIVDO,1,1,,A,", "!AIVDM,2,1,1,A,", "!AIVDM,2,2,1,A,",
                              "é", "$é", "!AIV€"]) + s
            soup.append(s.encode())
        self.many(soup, "token soup", size=300)
        self.many([b"", b"*", b",", b"$" * 5000, b"," * 20000, b"$GPGSV," + b"9" * 5000, b"!AIVDM,1,1,,A," + b"w" * 20000 + b",0",
                   b"$GPGGA," + b"1" * 20000 + b".5", b"*" * 3000, "é".encode() * 3000, b"!AIVDM,1,1,,A," + b"5" * 100000 + b",0",
                   b"$GPGSA,A,3" + b",12" * 5000], "long sentences")
        # absurd clocks: years whose dates cannot be computed with
        for now in [(1970, 1, 1, 0, 0, 0), (9999, 12, 31, 23, 59, 59), (262142, 12, 31, 23, 59, 59), (2024, 2, 29, 23, 59, 59), (1970, 1, 1, 0, 0, 1)]:
            self.many([s for _ in range(n(60)) for s in self.deliver("t5")] + [self.gnss_random(x) for x in ["RMC", "GGA", "GLL"] * n(20)], "odd clocks", now)
        self.histories(12, 400, slots=2, w=dict(junk=3, odd=3))
        # a long life: more sentences of a kind than sixteen bits can count
        lives = [[gnss("GP", k, *fs)] for k, fs in self.FULL] + [[b"!AIVDM,1,1,,A,zzz,0"], [b"$GPXXX,1", b""], [ais(self.pos(211000000, "t1"))], [ais(self.pos(211000000, "t21"))],
                 list(halves(self.static5(211000001, "X"), 40)), [ais(self.part_a(211000001, "A")), ais(self.part_b(211000001, "B"))],
                 [ais(self.part_a(211000001, "A"))], [halves(self.static5(211000001, "X"), 40)[1]], [ais(b"5" * 10, 3, 1, "1", "A")], [self.gsv("GP", 3, 1, [1, 2, 3, 4])],
                 [b"!AIVDM,1,1,,A,38Id705000rRVJhE7cl9n;160000,0*41"]]
        for c in lives:
            self.episode([("Y", 0, 11000, c) for _ in range(6)] + [("P", 0, s) for s in c], "a long life")
        # a great deal pending
        many = 70000 if self.deep else 1500
        for what in range(4):
            ops = []
            for k in range(many):
                if what == 0:
                    ops.append(("P", 0, halves(self.static5(201000000 + k, "V"), 40, str(k), "AB"[k % 2])[k // 2 % 2]))
                elif what == 1:
                    ops.append(("P", 0, ais(self.part_a(201000000 + k, "V") if k % 2 else self.part_b(201000000 + k, "V"))))
                elif what == 2:
                    ops.append(("P", 0, self.gsv("%s%s" % (chr(65 + k % 26), chr(65 + k // 26 % 26)), 2 + k % 250, 1 + k // 26 % (1 + k % 250), [k % 250])))
                else:
                    ops.append(("P", 0, ais(self.pos(201000000 + k, r.choice(["t1", "t18", "t9", "t21", "t4"])))))
            self.episode(ops + self.history(300), "a great deal pending")

    AWKWARD = ["18446744073709551615", "18446744073709551616", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "1152921504606846976",
               "100000000000000000", "999999999999", "4294967295", "4294967296", "2147483647", "-2147483648", "65535", "65536", "32768", "255", "256", "128", "-1", "-128",
               "-0", "0", "00", "1e308", "1e309", "-1e400", "1e-400", "inf", "-inf", "nan", "NaN", ".", "-", "+", "+0", "0.", ".0", "1_000", "0x10", "1" * 400,
               "0." + "0" * 400 + "1", "\u0661\u0662", "\uff11", "\u00e9", "\U0001f6a2", "\0", " ", "\t", "\r\n", "a" * 300, "\u20ac" * 90, "", "%s", "{}", "\\", "'", '"', ";"]

    def awkward(self):
        """Every field of every kind of sentence, those that are not read included, holding what no receiver
        would put there; the rest of the sentence is sound."""
        r = self.rng
        out = []
        shapes = [("$GP" + k, fs) for k, fs in self.FULL] + [("$GPGSV", ["3", "3", "11", "22", "42", "067", "42"]), ("$GNGSV", ["1", "1"]),
                  ("!AIVDM", ["1", "1", "", "A", "15RTgt0PAso;90TKcjM8h6g208CQ", "0"]), ("!AIVDO", ["2", "1", "3", "B", "55?MbV02>H97ac<H4eEK6wtDkN0TDl622220j", "0"]),
                  ("!AIVDM", ["2", "2", "3", "B", "1p613:=wsb0E3m3f0000000000000000", "2"])]
        for head, fs in shapes:
            for at in range(len(fs) + 2):
                some = self.AWKWARD if self.deep else [self.AWKWARD[0], self.AWKWARD[5], self.AWKWARD[6]] + r.sample(self.AWKWARD, 18)
                for a in some:
                    gs = (fs + ["", ""])[:max(len(fs), at + 1)]
                    gs[at] = a
                    s = ",".join([head] + gs).encode()
                    out.append(seal(s) if r.random() < 0.3 and b"*" not in s else s)
        r.shuffle(out)
        self.many(out, "awkward fields", size=300)

    def letters(self, kinds):
        """Every field of a sound sentence holding each printable character in turn, or one of the words that
        stand for nothing."""
        words = [chr(c) for c in range(32, 127) if chr(c) not in ",*"] + ["--", "---", "-", "??", "NA", "N/A", "nan", "NaN", "null", "none", "None", "0", "00", "000", "0.0", "-0", "+0", "1", "01",
                 "AA", "VV", "AV", "aV", "M ", " M", "\u00c5", "\u0410", "T", "TRUE", "true", "EW", "NS", "  ", "."]
        shapes = dict(self.FULL, VDM=["1", "1", "", "A", "15RTgt0PAso;90TKcjM8h6g208CQ", "0"])
        out = []
        for k in kinds:
            fs = shapes[k]
            head = "!AIVDM" if k == "VDM" else "$GP" + k
            for at in range(len(fs)):
                for a in words:
                    gs = fs[:]
                    gs[at] = a
                    out.append(",".join([head] + gs).encode())
        self.rng.shuffle(out)
        self.many(out, "letters", size=300)

    def edits(self, kinds, only=None, cap=None):
        """Sound sentences one character away: another one in its place, one more, one less."""
        r = self.rng
        extra = ["0", "9", "+", "-", ".", " ", ":", "e", "A", "Z", "x", "n", "_", "\t", "\u0664", "\uff14", "\u00b2", "\u00bd", "\u00e9", "\u0130", "\ufeff", "\0"]
        shapes = dict(self.FULL, VDM=["1", "1", "3", "A", "15RTgt0PAso;90TKcjM8h6g208CQ", "0"])
        out = []
        for k in kinds:
            fs = shapes[k]
            head = "!AIVDM" if k == "VDM" else "$GP" + k
            for at in (only or {}).get(k, range(len(fs))):
                f = fs[at]
                new = {f[:i] + f[i + 1:] for i in range(len(f))} | {f[:i] + f[i + 1] + f[i] + f[i + 2:] for i in range(len(f) - 1)} | {f + f}
                for c in extra:
                    new |= {f[:i] + c + f[i + 1:] for i in range(len(f))} | {f[:i] + c + f[i:] for i in range(len(f) + 1)}
                for x in sorted(new):
                    gs = fs[:]
                    gs[at] = x
                    out.append(",".join([head] + gs).encode())
        r.shuffle(out)
        self.many(out[:cap] if cap and not self.deep else out, "one character away", size=300)

    def wrapped(self):
        """Sound sentences with something before or after them."""
        r = self.rng
        out = []
        good = [ais(b"15RTgt0PAso;90TKcjM8h6g208CQ"), ais(b"15RTgt0PAso;90TKcjM8h6g208CQ", kind="VDO")] + [gnss("GP", k, *fs) for k, fs in self.FULL]
        around = ["\r", "\n", "\r\n", " ", "\t", "\0", "\ufeff", "\\s:rx,c:1609459200*5A\\", "\\", "$", "!", "*", ",", ";", "#", "x", "\u00a0", "\u00e9", "\x1b", "0", "00", "\"", "'"]
        for g in good:
            for s in (g, g.split(b"*")[0]):
                for a in around:
                    a = a.encode()
                    out += [a + s, s + a, a + s + a]
                    b = s.split(b"*")[0]
                    out += [seal(b + a), seal(a + b)]
        self.many(out, "wrapped sentences")

    def again(self, quick):
        """The same sentences again, at other times and after each other."""
        r = self.rng
        for _ in range(self.n(quick)):
            ops = []
            now = r.choice(NOWS)
            first = now
            some = [gnss(r.choice(TALKERS_GNSS), k, *fs) for k, fs in self.FULL if r.random() < 0.6] + [self.self_contained() for _ in range(2)]
            some += [self.wrap(self.payload("t5", etamonth=r.randrange(1, 13), etaday=r.randrange(1, 29))), self.wrap(self.payload("t4"))]
            for _ in range(12):
                s = r.choice(some)
                slot = r.randrange(2)
                for _ in range(r.choice([1, 2, 3])):
                    ops += [("X", 0, s), ("P", slot, s)]
                    if r.random() < 0.7:
                        now = self.moved(now)
                        ops.append(("T", now))
                if r.random() < 0.3:
                    ops.append(("P", slot, r.choice(some)))
            self.episode(ops, "the same sentences again", first)

    def C02(self):
        r = self.rng
        self.wrapped()
        self.frames(["sum", "flip"], cap=6000)
        self.frames(["char"], cap=3000)
        base = [b"!AIVDM,1,1,,A,15RTgt0PAso;90TKcjM8h6g208CQ,0", b"$GPGGA,123519,4807.038,N,01131.000,E,1,08,0.9,545.4,M,46.9,M,,",
                b"$GPALM,1,1,15", b"x", b"", b"$", b"$GPGSV,1,1,01,10,63,137,17", b"!AIVDM,2,1,3,A,55?MbV02>H97ac", b"$GPVTG,1,T,2,M,3,N,4,K"]
        out = []
        for _ in range(self.n(60)):
            base.append(self.gnss_good(r.choice(["GGA", "RMC", "GSA", "VTG", "GLL"])).split(b"*")[0])
            base.append(self.wrap(self.payload(r.choice(TYPES))).split(b"*")[0])
        for b in base:
            good = codec.checksum(b).decode()
            alts = {good, good.lower(), good + " ", good + "\r\n", good + "0", good[0], "0" + good, "0x" + good, "", " " + good, good[::-1],
                    "%02X" % (int(good, 16) ^ 1), "%02X" % (int(good, 16) ^ 128), "%02X" % r.randrange(256), "00", "FF", "+" + good[1], "ZZ", "é",
                    "%X" % int(good, 16), "%03X" % int(good, 16), good + "*", "*" + good, good + ",1", good + "*" + good}
            out += [b + b"*" + a.encode() for a in sorted(alts)]
            out += [b, b + b"*0*" + codec.checksum(b + b"*0"), b + b"**" + codec.checksum(b + b"*")]
            u = b + "é€".encode()
            out += [u + b"*" + codec.checksum(u), u + b"*00"]
        r.shuffle(out)
        self.many(out, "checksum texts")
        # whole sentences damaged in one character, inside histories
        for _ in range(self.n(8)):
            ops = []
            for op in self.history(200, ids=2, vessels=2, groups=2, w=dict(junk=0, odd=0, clock=0)):
                s = op[2]
                if r.random() < 0.4 and b"*" in s:
                    b = bytearray(s)
                    at = r.randrange(1, len(b))
                    b[at] = (b[at] ^ r.choice([1, 2, 4, 8, 16])) & 127
                    ops.append(("P", 0, bytes(b)))
                ops.append(op)
            self.episode(ops, "damaged sentences in histories")

    def headers(self, quick):
        """Sentence types of all shapes in front of sound contents: letters swapped, prefix characters in
        the wrong place, repeated, missing."""
        r = self.rng
        out = []
        rest = {k: "," + ",".join(fs) for k, fs in self.FULL}
        rest["VDM"] = rest["VDO"] = ",1,1,,A,15RTgt0PAso;90TKcjM8h6g208CQ,0"
        for _ in range(self.n(quick)):
            k = r.choice(list(rest))
            h = ("!" if k[0] == "V" and k[1] == "D" else "$") + r.choice(["GP", "AI", "GN", "AB", "XX"]) + k
            for _ in range(r.choice([1, 1, 2, 3])):
                at = r.randrange(len(h) or 1)
                x = r.randrange(6)
                if x == 0 and len(h) > 1:
                    at = r.randrange(len(h) - 1)
                    h = h[:at] + h[at + 1] + h[at] + h[at + 2:]
                elif x == 1:
                    h = h[:at] + r.choice("$!$!GPAIVDMOX") + h[at + 1:]
                elif x == 2:
                    h = h[:at] + r.choice("$!$!GPAIVDMOX \u00e9") + h[at:]
                elif x == 3:
                    h = h[:at] + h[at + 1:]
                elif x == 4:
                    h = {"$": "!", "!": "$"}.get(h[:1], "$") + h[1:]
                else:
                    h = h[:at] + h[at:at + 1].swapcase() + h[at + 1:]
            s = (h + rest[k]).encode()
            out.append(seal(s) if r.random() < 0.3 else s)
        self.many(out, "sentence types of all shapes")

    def C03(self):
        self.wrapped()
        self.letters(["VDM"])
        self.edits(["VDM"], only={"VDM": [0, 1, 2, 3, 5]})
        self.headers(3000)
        self.frames(["type"], cap=7000)
        self.frames(["pair", "format"])
        out = []
        r = self.rng
        p = self.pos(211339980)
        letters = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
        rests = {"GGA": ",123519,4807.038,N,01131.000,E,1,08,0.9,545.4,M,46.9,M,,", "RMC": ",225446,A,4916.45,N,12311.12,W,000.5,054.7,191120,020.3,E",
                 "GSA": ",A,3,04,05,,09,12,,,24,,,,,2.5,1.3,2.1", "GSV": ",1,1,01,10,63,137,17", "VTG": ",1,T,2,M,3,N,4,K,A", "GLL": ",4916.45,N,12311.12,W,225444,A,"}
        pairs = [a + b for a in letters for b in letters]
        if not self.deep:
            known = ["AB", "AD", "AI", "AN", "AR", "AS", "AT", "AX", "GN", "GP", "GL", "GA", "BD", "GI", "QZ"]
            pairs = known * 2 + r.sample(pairs, 120)
        for tk in pairs:
            for f, rest in rests.items():
                out.append(("$" + tk + f + rest).encode())
            for kind in ("VDM", "VDO"):
                out.append(ais(r.choice([p, self.pos(1234567, "t4"), self.pos(211000000, "t18"), self.pos(211000000, "t9")]), talker=tk, kind=kind))
        for t in range(64):
            for n in (1, 28, 71):
                for kind in ("VDM", "VDO"):
                    sx = [t] + [r.randrange(64) for _ in range(n - 1)]
                    out.append(ais(armor(sx), kind=kind))
        for c in range(32, 127):
            out += [b"%sGPGGA%s" % (bytes([c]), rests["GGA"].encode()), b"%sAIVDM,1,1,,A,%s,0" % (bytes([c]), p), b"$GP" + bytes([c]) + b"GA,1", b"!AIVD" + bytes([c]) + b",1,1,,A," + p + b",0"]
        r.shuffle(out)
        self.many(out, "talkers, formatters and message types")
        # what is reported for two-part messages and static reports, and what errors there are
        self.random_messages(TYPES, 1200, two=0.4)
        self.histories(6, 300)

    def mixed_alphabet(self, extra=()):
        keys = [("VDM", "1", "A")]
        fr, wholes = self.frag_alphabet(keys, 2)
        g2 = self.gsv_group("GP", 2, 10)
        st = [ais(self.part_a(211000101, "ALPHA")), ais(self.part_b(211000101, "CALLA")), ais(self.part_a(211000102, "BRAVO")), ais(self.part_b(211000102, "CALLB"))]
        plain = [self.wrap(self.pos(211339980, sog=100)), ais(self.static5(211000055, "PLAIN")), self.gsv("GP", 1, 1, [77, 78]),
                 gnss("GP", "GGA", "123519", "4807.038", "N", "01131.000", "E", 1, "08", "0.9", "545.4", "M", "46.9", "M", "", "")]
        rejected = [b"garbage", fr[0][:-2] + b"00", b"!AIVDM,2,3,1,A,55?MbV02>,0", b"!AIVDM,x,1,1,A,55?MbV02>,0", b"$GPGSV,2,3,08,10,63,137,17",
                    b"$GPGSV,2,0,08,10,63,137,17", b"!AIVDM,1,1,1,A,zzzz,0", ais(b"H42O55i18tMET000000000000000".replace(b"i18", b"k18"))]
        return fr + g2 + st + plain + rejected + list(extra), wholes + [ais(self.static5(211000055, "PLAIN"))]

    def C04(self):
        self.models.start("MCFrag"), self.models.start("MCGsv"), self.models.start("MCStat")
        self.models.prove("ParserProofs")
        a, c = self.mixed_alphabet()
        self.graph("mixed", a, c)
        r = self.rng
        # rejected sentences of every kind between the parts of everything
        for _ in range(self.n(30)):
            ops = []
            for op in self.history(120, w=dict(plain=0.5, junk=0, odd=r.choice([0, 1]), clock=0)):
                while r.random() < 0.45:
                    k = r.randrange(7)
                    s = op[2]
                    if k == 0:
                        s = s.split(b"*")[0] + b"*" + (b"%02X" % r.randrange(256))
                    elif k == 1:
                        s = s.replace(b"VDM", b"VDN").replace(b"GSV", b"GSW").split(b"*")[0]
                    elif k == 2:
                        f = s.split(b"*")[0].split(b",")
                        if len(f) > 2:
                            f[r.choice([1, 2])] = r.choice([b"x", b"-1", b"256", b"", b"1.5", b" 1"])
                        s = b",".join(f)
                    elif k == 3:
                        s = r.choice(self.JUNK)
                    elif k == 4 and b"GSV" in s:
                        f = s.split(b"*")[0].split(b",")
                        f[2] = r.choice([b"0", str(int(f[1]) + 1).encode() if f[1].isdigit() else b"0", b"255"])
                        s = b",".join(f)
                    elif k == 5:
                        s = self.refused()
                    else:
                        s = r.choice([self.gnss_random(), b"!AIVDM,1,1,,A," + armor([r.choice([7, 8, 11, 20, 25, 63])] + [r.randrange(64) for _ in range(20)]) + b",0",
                                      ais(armor(self.sextets("t24a")[:6] + [12 + r.randrange(4)] + [1] * 20))])
                    ops.append(("P", 0, s))
                ops.append(op)
            self.episode(ops, "histories with rejected sentences")
        self.long_gaps(lambda k: halves(self.static5(211000000 + k, "GAP %d" % k), 56, str(k), r.choice("AB")), only={"refused"})
        self.long_gaps(lambda k: self.gsv_group(r.choice(["GP", "GL"]), 3, k % 200), only={"refused"})
        self.long_gaps(lambda k: [ais(self.part_a(211000000 + k, "GAP %d" % k)), ais(self.part_b(211000000 + k, "G%d" % k))], only={"refused"})

    def C05(self):
        self.models.start("MCFrag")
        r = self.rng
        fr, wholes = self.frag_alphabet([("VDM", "1", "A"), ("VDO", "2", "B")], 2)
        self.graph("two keys", fr, wholes)
        # every type cut everywhere, in both orders, against the same message in one sentence
        for t in TYPES:
            n = self.chars[t]
            cuts = sorted(set([0, 1, 2, n // 2, n - 1, n] + [r.randrange(n + 1) for _ in range(self.n(6))])) if not self.deep else range(n + 1)
            for cut in cuts:
                ops = []
                for order in (0, 1):
                    p = armor(self.sextets(t))
                    kind, chan, tk = r.choice(["VDM", "VDO"]), r.choice(["A", "B", "", "1"]), r.choice(TALKERS_AIS)
                    mid = r.choice(["0", "1", "5", "9", "10", "99", "18446744073709551615", "007", "+3"])
                    tk2 = r.choice(TALKERS_AIS) if r.random() < 0.3 else tk
                    a, b = halves(p, cut, mid, chan, tk, kind, r.randrange(6), r.choice([0, 0, 2, 4]), tk2)
                    ops += [("X", 0, ais(p, chan=chan, talker=x, kind=kind)) for x in sorted({tk, tk2})]
                    if t == "t24a":
                        ops.append(("P", 0, ais(self.part_b(211000000, "X"))))
                    seq = [a, b] if order == 0 else [b, a]
                    ops += [("P", 0, s) for s in seq]
                self.episode(ops, "every type cut in two")
        # what is said after the payload has no part in it
        bare = lambda half: seal(half.split(b"*")[0].rpartition(b",")[0])
        for _ in range(self.n(2)):
            for f in FILLS[:-1]:
                ops = []
                for t in r.sample(TYPES, 5) + ["t5", "t21"]:
                    p = self.payload(t)
                    for fill, fill1 in ((f, 0), (0, f), (f, f)):
                        a, b = halves(p, r.randrange(len(p) + 1), str(r.randrange(10)), "A", "AI", "VDM", fill, fill1)
                        if r.random() < 0.1:
                            a, b = r.choice([(bare(a), b), (a, bare(b)), (bare(a), bare(b))])
                        ops += [("X", 0, ais(p)), ("X", 0, b), ("P", 0, ais(p, fill=f))] + [("P", 0, s) for s in r.choice([[a, b], [b, a]])]
                self.episode(ops, "what follows the payload")
        # random two-part messages with other traffic in between, single-sentence equivalents first
        for _ in range(self.n(40)):
            ops, ctl = [], []
            now = r.choice(NOWS)
            first = now
            for _ in range(30):
                p = self.payload(r.choice(TYPES))
                kind, chan, tk, mid = r.choice(["VDM", "VDO"]), r.choice(["A", "B", ""]), r.choice(TALKERS_AIS), str(r.randrange(10))
                tk2 = r.choice(TALKERS_AIS) if r.random() < 0.2 else tk
                a, b = halves(p, r.randrange(len(p) + 1), mid, chan, tk, kind, r.randrange(6), r.choice([0, 0, 2, 4]), tk2)
                ctl += [("X", 0, ais(p, chan=chan, talker=x, kind=kind)) for x in sorted({tk, tk2})]
                seq = [a, b] if r.random() < 0.5 else [b, a]
                between = [("P", 0, self.self_contained() if r.random() < 0.8 else self.refused()) for _ in range(r.choice([0, 0, 1, 3]))]
                ctl += [("X", 0, o[2]) for o in between]
                if r.random() < 0.1:
                    now = self.moved(now)
                    between.append(("T", now))
                    ctl += [("X", 0, o[2]) for o in between if o[0] == "P"]
                ops += [("P", 0, seq[0])] + between + [("P", 0, seq[1])]
            self.episode(ctl + ops, "two-part messages in traffic", first)
        # very long gaps
        for gap in ([1000] if not self.deep else [20000, 200000]):
            p = self.static5(211000001, "AFTER A LONG TIME")
            a, b = halves(p, 56, "4", "A")
            noise = [self.pos(211000002), self.pos(211000003, "t18")]
            self.episode([("X", 0, ais(p)), ("P", 0, a), ("Y", 0, gap // 2, [ais(x) for x in noise]), ("P", 0, b), ("P", 0, b),
                          ("Y", 0, 50, [ais(x) for x in noise]), ("P", 0, a)], "long gaps")
        self.time_gaps(lambda k: halves(self.static5(211000000 + k, "GAP %d" % k), 56, str(k), r.choice("AB")))
        self.long_gaps(lambda k: halves(self.static5(211000000 + k, "GAP %d" % k), 56, str(k), r.choice("AB")))
        self.multitude(lambda k: halves(self.static5(211000000 + k, "GAP %d" % k), 56, str(k), "AB"[k % 2]))
        self.crowd(lambda k: halves(self.static5(211000000 + k, "GAP %d" % k), 56, str(k), r.choice("AB")))

    def long_gaps(self, make, rounds=1200, only=None):
        """A great deal of other traffic between the parts of a message: parsed, combined, refused."""
        r = self.rng
        pair = lambda k: list(halves(self.static5(244000000 + k, "NOISE %d" % k), 40, str(200 + k), "B", kind=r.choice(["VDM", "VDO"])))
        stat = lambda k: [ais(self.part_a(244000000 + k, "N %d" % k)), ais(self.part_b(244000000 + k, "N%d" % k))]
        noise = {"positions": lambda: [ais(self.pos(211000000, "t1")), ais(self.pos(211000001, "t18"))],
                 "two-part messages": lambda: pair(1) + pair(2)[::-1] + pair(3),
                 "satellites": lambda: self.gsv_group("BD", 2, 5) + self.gsv_group("GI", 3, 50)[::-1] + self.gsv_group("QZ", 1, 90),
                 "static reports": lambda: stat(1) + stat(2)[::-1] + [ais(self.static5(244000003, "N"))],
                 "refused": lambda: [self.refused().split(b"*")[0] + b"*1" for _ in range(5)] + [b"$GPXXX,1", b"!AIVDM,1,1,,A,zzz,0", b"", ais(armor([7] + [0] * 30))],
                 "all": lambda: pair(1) + self.gsv_group("BD", 2, 5) + stat(2) + [self.gnss_good("GGA"), self.gnss_good("RMC"), b"!AIVDM,3,1,5,A,55,0", b"!AIVDM,2,1,,A,55,0"]}
        for name, kind in noise.items():
            if only and name not in only:
                continue
            c = kind()
            ops = []
            for k in range(3):
                parts = list(make(10 * k + 1))
                if k % 2:
                    parts.reverse()
                for j, s in enumerate(parts):
                    ops += [("P", 0, s)] if j == 0 else [("Y", 0, (34000 if name == "positions" else rounds if not self.deep else 20 * rounds) // (len(parts) - 1), c), ("P", 0, s)]
                ops += [("P", 0, s) for s in parts]
            self.episode(ops, "long gaps: " + name)

    def crowd(self, make, n=None):
        """A great many other messages are waiting for their other parts at the same time."""
        r = self.rng
        n = n or (1100 if not self.deep else 4200)
        wait = {"halves": lambda k: halves(self.static5(201000000 + k, "V"), 40, str(500 + k), "AB"[k % 2], kind=["VDM", "VDO"][k // 2 % 2])[k // 4 % 2],
                "members": lambda k: self.gsv("%s%s" % (chr(97 + k % 26), chr(65 + k // 26 % 26)), 2 + k // 676, 1, [k % 250]),
                "parts": lambda k: ais((self.part_a if k % 2 else self.part_b)(201000000 + k, "V"))}
        for name, one in wait.items():
            mine = [list(make(10 * j + 1)) for j in range(3)]
            for m in mine[1:]:
                r.shuffle(m)
            ops = [("P", 0, m[0]) for m in mine] + [("P", 0, one(k)) for k in range(n)]
            ops += [("P", 0, x) for m in mine for x in m[1:]] + [("P", 0, x) for m in mine for x in m]
            self.episode(ops, "a crowd of " + name)

    def multitude(self, make):
        """More messages of others are waiting than fit into sixteen bits."""
        n = 70000 if not self.deep else 300000
        stem = {"halves": halves(self.static5(201000000, "M"), 40, "ID", "A")[1].split(b"*")[0].split(b",ID,"),
                "A": self.part_a(201000000, "M"), "B": self.part_b(201000000, "M")}

        def part(k):
            q = stem["AB"[k % 2]]
            w = codec.armor([(200000000 + k >> at) & 63 for at in (26, 20, 14, 8, 2)])       # bits 6 to 37: two and thirty
            low = (q[6] - 48 if q[6] < 88 else q[6] - 56) & 15 | (200000000 + k & 3) << 4
            return ais(q[:1] + w + codec.armor([low]) + q[7:])
        signs = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"

        def member(k):
            return gnss(signs[k % 62] + signs[26 + k // 62 % 36], "GSV", 2 + k // 2232, 1, "05", "%02d" % (1 + k % 90), "40", "083", "46", sealed=False)
        wait = {"halves": lambda k: codec.seal(b"%s,%d,%s" % (stem["halves"][0], 100000 + k, stem["halves"][1])), "parts": part, "members": member}
        for name, one in wait.items():
            for order in (0, 1):
                mine = [list(make(10 * j + 1)) for j in range(2)]
                if order:
                    for m in mine:
                        m.reverse()
                self.episode([("P", 0, m[0]) for m in mine] + [("W", 0, [one(k) for k in range(min(n, 70000) if name == "members" else n)])]
                             + [("P", 0, x) for m in mine for x in m[1:]] + [("P", 0, x) for m in mine for x in m], "a multitude of " + name)

    def time_gaps(self, make):
        """The parts of a message come seconds, minutes, hours, days and years after each other."""
        r = self.rng
        import datetime
        for far in (1, 10, 59, 61, 301, 601, 1801, 3601, 86401, 86400 * 8, 86400 * 400, -60, -86400):
            start = datetime.datetime(2021, 3, 14, 15, 9, 26)
            ops = []
            for order in (0, 1):
                parts = list(make(r.randrange(1000)))
                if order:
                    parts.reverse()
                for k, s in enumerate(parts):
                    t = start + datetime.timedelta(seconds=far * k)
                    ops += [("T", (t.year, t.month, t.day, t.hour, t.minute, t.second)), ("P", 0, s)]
                ops += [("P", 0, s) for s in parts]
            self.episode(ops, "parts far apart in time")

    def sweep(self, types, widest=12, per=1):
        """Every value of every field that is not too wide, the other fields at random."""
        out = []
        for t in types:
            for f, (at, w) in sorted(self.L[t].items()):
                if f == "part" or w > widest or f in ("vend",):
                    continue
                for v in range(1 << w):
                    for _ in range(per if w > 8 else 2 * per):
                        out.append(self.wrap(self.payload_exact(t, **{f: v})))
        self.rng.shuffle(out)
        self.many(out, "every value of every field")

    def C06(self):
        self.models.start("MCFrag")
        r = self.rng
        keys = [("VDM", "1", "A"), ("VDM", "1", "B"), ("VDO", "1", "A"), ("VDM", "2", "A")]
        fr, wholes = self.frag_alphabet(keys, 1)
        self.graph("four keys", fr, wholes)
        fr2, wholes2 = self.frag_alphabet([("VDM", "1", "A"), ("VDM", "10", "")], 3 if self.deep else 2)
        self.graph("variants", fr2, wholes2)
        # many keys at once, close relatives of each other
        for _ in range(self.n(25)):
            mids = [str(x) for x in r.sample([0, 1, 2, 3, 9, 10, 11, 12, 21, 101, 110, 255, 256, 257, 65536, 4294967296, 4294967297, 18446744073709551615], 7)]
            keys = [(k, m, c) for k in ("VDM", "VDO") for m in mids for c in ("A", "B", "", "1", "AB")]
            ops, ctl, ps = [], [], []
            sel = r.sample(keys, 20)
            for k, (kind, mid, chan) in enumerate(sel):
                for v in range(2):
                    p = self.static5(211000000 + 100 * k + v, "K%d V%d" % (k, v))
                    ps.append((p, halves(p, 40, mid, chan, r.choice(TALKERS_AIS), kind, talker2=r.choice(TALKERS_AIS)), k))
                    ctl.append(("X", 0, ais(p, chan=chan, kind=kind)))
            for _ in range(150):
                p, hs, k = r.choice(ps)
                ops.append(("P", 0, r.choice(hs)))
                if r.random() < 0.1:
                    ops.append(("P", 0, r.choice(self.JUNK)))
            self.episode(ctl + ops, "many keys")
        # identities that are close relatives of each other, all pending at once
        top = (1 << 64) - 1
        for base in [1, 9, 12, 99, 256, 65535, (1 << 32) - 1, 1 << 53, 1 << 63, top] + [r.randrange(1 << 64) for _ in range(self.n(2))]:
            t = str(base)
            fam = {base} | {base ^ (1 << b) for b in (range(64) if base > 1000 else range(20))} | {(base + d) % (1 << 64) for d in (1, -1, 10, 16, 100, 128, 1000, 1 << 31)}
            fam |= {base % 10 ** k for k in range(1, len(t))} | {base // 10 ** k for k in range(1, len(t))} | {base % (1 << k) for k in (8, 16, 32)} | {base >> k for k in (8, 16, 32)}
            fam |= {int(t + d) for d in "0129"} | {int(d + t) for d in "129"} | {int(t[::-1])}
            keys = [(str(m), "A", "VDM") for m in sorted(fam) if m <= top]
            chans = ["A", "B", "", "1", "2", "a", "b", "AB", "AA", "A ", " A", "0", "-", "\u00e9", "\u0100", "A" * 40, "A" * 41, "!", "A;"]
            keys += [(t, c, k) for c in chans for k in ("VDM", "VDO")]
            keys = sorted(set(keys))
            if len(keys) > 110:
                keys = r.sample(keys, 110)
            hs = [halves(self.static5(201000000 + k, "V %d" % k), 40, m, c, kind=kind) for k, (m, c, kind) in enumerate(keys)]
            for _ in range(2):
                first = [r.randrange(2) for _ in hs]
                order = list(range(len(hs)))
                r.shuffle(order)
                ops = [("P", 0, hs[i][first[i]]) for i in order]
                r.shuffle(order)
                ops += [("P", 0, hs[i][1 - first[i]]) for i in order]
                self.episode(ops, "related identities")
        self.multitude(lambda k: halves(self.static5(211000000 + k, "GAP %d" % k), 56, str(k), "AB"[k % 2]))
        # hundreds of halves pending, then completed in another order
        for total in ([400] if not self.deep else [400, 2500]):
            ps = []
            for k in range(total):
                kind, chan = r.choice(["VDM", "VDO"]), r.choice(["A", "B"])
                p = self.static5(201000000 + k, "VESSEL %d" % k)
                ps.append((p, halves(p, 40, str(k), chan, kind=kind), chan, kind))
            ops = [("X", 0, ais(p, chan=c, kind=k)) for p, h, c, k in ps[:50]]
            first = [r.randrange(2) for _ in ps]
            ops += [("P", 0, h[f]) for (p, h, c, k), f in zip(ps, first)]
            order = list(range(total))
            r.shuffle(order)
            ops += [("P", 0, ps[i][1][1 - first[i]]) for i in order]
            ops += [("P", 0, ps[i][1][1 - first[i]]) for i in order[:20]]
            self.episode(ops, "many pending halves")
        self.histories(8, 400, w=dict(frag=8, gsv=1, t24=1, plain=1, junk=1, odd=3), ids=8)

    def C07(self):
        self.models.start("MCGsv")
        r = self.rng
        al = self.gsv_group("GP", 2, 10) + self.gsv_group("GP", 3, 50) + self.gsv_group("GL", 2, 90) + self.gsv_group("GL", 3, 130)
        self.graph("groups", al)
        self.time_gaps(lambda k: self.gsv_group(r.choice(["GP", "GL"]), r.choice([2, 3]), k % 200))
        self.long_gaps(lambda k: self.gsv_group(r.choice(["GP", "GL"]), r.choice([2, 3, 4]), k % 200))
        self.multitude(lambda k: self.gsv_group(["GP", "GL", "GA"][k // 10 % 3], 3, k % 200))
        self.crowd(lambda k: self.gsv_group(["GP", "GL", "GA"][k // 10 % 3], r.choice([2, 3, 4]), k % 200))
        al = self.gsv_group("GP", 3, 10) + self.gsv_group("GP", 3, 60) + [b"$GPGSV,3,4,11,1,1,1,1", b"$GPGSV,3,0,11,1,1,1,1", self.gsv("GP", 1, 1, [5])]
        self.graph("generations", al)
        for _ in range(self.n(60)):
            tks = r.sample(["GP", "GL", "GA", "GN", "BD", "GI", "QZ", "XX", "YY", "GB", "HE"], 3)
            counts = r.sample([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 25, 99, 100, 254, 255] if r.random() < 0.2 else [1, 2, 3, 4, 5, 6, 7, 8, 9], 2)
            ops = []
            for _ in range(6):
                gs = [self.gsv_group(tk, c, r.randrange(200)) for tk in tks for c in counts]
                k = r.random()
                if k < 0.4:      # interleaved talkers, in order
                    idx = [0] * len(gs)
                    while any(i < len(g) for i, g in zip(idx, gs)):
                        j = r.choice([j for j in range(len(gs)) if idx[j] < len(gs[j])])
                        ops.append(("P", 0, gs[j][idx[j]]))
                        idx[j] += 1
                else:
                    allm = [s for g in gs for s in g]
                    if k < 0.7:
                        r.shuffle(allm)
                    allm = [s for s in allm if r.random() < 0.95 for _ in range(1 if r.random() < 0.9 else 2)]
                    ops += [("P", 0, s) for s in allm]
            self.episode(ops[:600], "groups of several talkers")
        # groups of many sizes under way at once, of one talker and of two
        for _ in range(self.n(6)):
            sizes = r.choice([list(range(1, 31)), r.sample(range(1, 60), 20), [9, 10, 11, 19, 21, 90, 91, 99, 100, 101, 110, 111], r.sample(range(100, 256), 4),
                              [16, 17, 32, 33, 64, 65, 128, 129], [254, 255, 25, 2, 5]])
            tks = r.sample(["GP", "GL", "GN", "XX", "YY"], r.choice([1, 1, 2]))
            allm = [s for tk in tks for c in sizes for s in self.gsv_group(tk, c, r.randrange(200))]
            r.shuffle(allm)
            allm = allm[:700]
            again = allm[:]
            r.shuffle(again)
            self.episode([("P", 0, s) for s in allm + again], "many sizes at once")
        # groups of many talkers under way at once
        for _ in range(self.n(2)):
            tks = ["%s%s" % (a, b) for a in "GBQHXAPLNI" for b in "PLADNIZXYB"] + ["gp", "G1", "1P"]
            allm = [s for tk in tks for s in self.gsv_group(tk, r.choice([2, 3]), r.randrange(200))]
            r.shuffle(allm)
            self.episode([("P", 0, s) for s in allm], "many talkers at once")
        # last part with zero to four satellites, satellites with missing numbers
        for _ in range(self.n(30)):
            c = r.randrange(1, 5)
            ops = []
            for rep in range(6):
                g = []
                for nn in range(1, c + 1):
                    f = [c, nn, "%02d" % r.randrange(40)]
                    for _ in range(r.choice([4, 4, 4, 3, 2, 1, 0])):
                        f += [r.choice(["", "x", "300", "%02d" % r.randrange(1, 99)] + ["%02d" % r.randrange(1, 99)] * 9), "40", "083", r.choice(["46", ""])]
                    if r.random() < 0.2:
                        f += [r.choice(["1", "", "8"])]
                    g.append(gnss("GP", "GSV", *f, sealed=r.random() < 0.5))
                if r.random() < 0.5:
                    r.shuffle(g)
                ops += [("P", 0, s) for s in g]
            self.episode(ops, "irregular groups")
        self.histories(8, 400, w=dict(frag=1, gsv=8, t24=1, plain=1, junk=2, odd=1), groups=6)

    def C08(self):
        self.models.start("MCStat")
        r = self.rng
        al = []
        for m in (211000101, 211000102):
            for v in range(2):
                al += [ais(self.part_a(m, "NAME %d" % v)), ais(self.part_b(m, "CALL%d" % v, 30 + v))]
        al += [ais(self.part_a(211000103, "THIRD")), ais(self.part_b(211000103, "CTHIRD"))]
        self.graph("static reports", al)
        a24 = [ais(self.part_a(211000101, "VDO"), kind="VDO"), ais(self.part_b(211000101, "VDM")), ais(self.part_a(211000101, "VDM")), ais(self.part_b(211000101, "VDO"), kind="VDO"),
               ais(self.static5(211000101, "CLASS A")), ais(self.pos(211000101, "t18")), ais(armor(put(blank("t24a"), (38, 2), 2))), ais(armor(put(blank("t24a"), (38, 2), 3)))]
        self.graph("own vessel and others", a24)
        for _ in range(self.n(40)):
            ships = [r.choice(MMSIS + [r.randrange(1 << 30)]) for _ in range(r.choice([1, 2, 5, 12]))]
            ops = []
            for _ in range(120):
                m = r.choice(ships)
                p = self.payload(r.choice(["t24a", "t24b"]), mmsi=m) if r.random() < 0.9 else self.payload(r.choice(["t5", "t18", "t1"]), mmsi=m)
                if r.random() < 0.1:
                    a, b = halves(p, 14, str(r.randrange(3)), "A")
                    ops += [("P", 0, a), ("P", 0, b)]
                else:
                    ops.append(("P", 0, self.wrap(p)))
            self.episode(ops, "static reports of several vessels", r.choice(NOWS))
        self.time_gaps(lambda k: [ais(self.part_a(211000000 + k, "GAP")), ais(self.part_b(211000000 + k, "GAP"))])
        self.long_gaps(lambda k: [ais(self.part_a(211000000 + k, "GAP")), ais(self.part_b(211000000 + k, "GAP"))])
        self.multitude(lambda k: [ais(self.part_a(211000000 + k, "GAP")), ais(self.part_b(211000000 + k, "GAP"))])
        self.crowd(lambda k: [ais(self.part_a(211000000 + k, "GAP")), ais(self.part_b(211000000 + k, "GAP"))])
        # vessels whose numbers are close relatives of each other, all pending at once
        for base in [211339980, 982111234, 992110001, 111211001, 2110001, 970123456, 0, (1 << 30) - 1] + [r.randrange(1 << 30) for _ in range(self.n(2))]:
            fam = {base} | {base ^ (1 << b) for b in range(30)} | {base % 10 ** k for k in range(1, 9)} | {base // 10 ** k for k in range(1, 9)}
            fam |= {base % (1 << k) for k in (8, 16, 24)} | {base >> k for k in (8, 16)} | {(base + d) % (1 << 30) for d in (1, -1, 10, 100, 1000, 10 ** 6, 10 ** 8)}
            text = "%09d" % base
            fam |= {int(text[:i] + str((int(text[i]) + d) % 10) + text[i + 1:]) for i in range(9) for d in (1, 3, 5)}
            fam |= {int(text[:i] + text[i + 1] + text[i] + text[i + 2:]) for i in range(8)} | {int(text[::-1])}
            fam = sorted(m for m in fam if m < 1 << 30)
            for _ in range(2):
                r.shuffle(fam)
                first = {m: r.randrange(2) for m in fam}
                parts = {m: (self.part_a(m, "V%d" % m), self.part_b(m, "C%d" % (m % 1000000))) for m in fam}
                ops = [("P", 0, ais(parts[m][first[m]])) for m in fam]
                r.shuffle(fam)
                ops += [("P", 0, ais(parts[m][1 - first[m]])) for m in fam]
                self.episode(ops, "related vessels")
        n = 300 if not self.deep else 2500
        parts = [(self.part_a(201000000 + k, "V %d" % k), self.part_b(201000000 + k, "C%d" % k)) for k in range(n)]
        first = [r.randrange(2) for _ in parts]
        order = list(range(n))
        r.shuffle(order)
        self.episode([("P", 0, ais(p[f])) for p, f in zip(parts, first)] + [("P", 0, ais(parts[i][1 - first[i]])) for i in order], "many vessels")
        self.episode([("P", 0, ais(self.part_a(211000101, "LONG AGO"))), ("Y", 0, 5000, [ais(self.pos(211000101, "t18")), ais(self.static5(211000101, "X"))]),
                      ("P", 0, ais(self.part_b(211000101, "NOW")))], "long gaps")

    def C09(self):
        self.models.start("MCFrag"), self.models.start("MCGsv"), self.models.start("MCStat")
        self.models.prove("ParserProofs")
        r = self.rng
        a, c = self.mixed_alphabet()
        self.graph("mixed", a, c)
        # several parsers at once, fed from one stream of operations
        for _ in range(self.n(20)):
            ops = self.history(350, slots=r.choice([2, 3, 5]))
            self.episode(ops, "several parsers", r.choice(NOWS))
        # the same sentences on an old parser and on a new one
        for _ in range(self.n(12)):
            ops = self.history(150)
            probes = [self.self_contained() for _ in range(25)]
            ctl = [("X", 0, s) for s in probes]
            mix = []
            for o in ops:
                mix.append(o)
                if r.random() < 0.4:
                    mix.append(("P", 0, r.choice(probes)))
            mix += [("N", 1)] + [("P", 1, s) for s in probes] + [("P", 0, s) for s in probes]
            self.episode(ctl + mix, "self-contained sentences after any history")
        for _ in range(self.n(60)):
            self.fading()
        self.again(25)
        # repeated sentences
        for _ in range(self.n(6)):
            probes = [self.self_contained() for _ in range(4)]
            self.episode([("Y", 0, 300, probes)] + [("P", 0, p) for p in probes], "repetition")

    FULL = [("GGA", ["123519", "4807.038", "N", "01131.000", "E", "4", "08", "0.9", "545.4", "M", "46.9", "M", "3.5", "0120"]),
            ("RMC", ["225446", "A", "4916.45", "N", "12311.12", "W", "000.5", "054.7", "191120", "020.3", "E"]),
            ("GSA", ["A", "3", "19", "28", "14", "18", "27", "22", "31", "39", "40", "41", "42", "43", "1.7", "1.0", "1.3"]),
            ("GSV", ["1", "1", "04", "01", "40", "083", "46", "02", "17", "308", "41", "12", "07", "344", "39", "14", "22", "228", "45"]),
            ("VTG", ["054.7", "T", "034.4", "M", "005.5", "N", "010.2", "K", "A"]),
            ("GLL", ["4916.45", "N", "12311.12", "W", "225444", "A", "D"])]

    def fading(self):
        """Sentences that say everything, then sentences of the same kind that leave something out, on the
        same parser and on another: what is left out must not be filled in with what was said before."""
        r = self.rng
        full, faded = [], []
        for k, fs in self.FULL:
            if r.random() < 0.5:
                tk = r.choice(TALKERS_GNSS)
                full.append(gnss(tk, k, *fs))
                gs = fs[:]
                for i in (range(len(gs)) if r.random() < 0.2 else r.sample(range(len(gs)), r.choice([1, 1, 2, 3]))):
                    gs[i] = gs[i] if k == "GSV" and i < 2 else ""
                faded.append(gnss(tk if r.random() < 0.7 else r.choice(TALKERS_GNSS), k, *(gs if r.random() < 0.8 else gs[:r.randrange(2, len(gs))])))
        for t in TYPES:
            if r.random() < 0.4:
                m = self.mmsi()
                sx = self.sextets(t, mmsi=m)
                full.append(self.wrap(armor(sx)))
                fx = sx[:]
                for f, (at, w) in self.L[t].items():
                    if f in ("type", "mmsi", "part") or r.random() < 0.4:
                        continue
                    if w > 30:
                        put_text(fx, (at, w), [])
                    else:
                        key = f + "27" if t == "t27" and f + "27" in self.na else f
                        put(fx, (at, w), max(0, min((1 << w) - 1, self.na.get(key, 0))))
                put(fx, self.L[t]["mmsi"], m if r.random() < 0.6 else r.choice(MMSIS))
                faded.append(self.wrap(armor(fx if r.random() < 0.8 else fx[:r.randrange(7, len(fx))])))
        r.shuffle(full)
        r.shuffle(faded)
        ops = [("X", 0, s) for s in faded + full] + [("P", 0, s) for s in full] + [("P", 1, s) for s in faded] \
            + [("P", 0, s) for s in faded] + [("P", 1, s) for s in full + faded[::-1]]
        self.episode(ops, "full, then with less", r.choice(NOWS))

    def C10(self):
        self.frames(["armor", "cut"])
        r = self.rng
        out = []
        for t in TYPES:
            for _ in range(self.n(25)):
                p = self.payload(t)
                at = r.randrange(len(p))
                bad = bytes([r.choice([c for c in range(33, 127) if not (48 <= c <= 87 or 96 <= c <= 119) and c not in (42, 44)])])
                out += [ais(p), ais(p[:r.randrange(len(p) + 1)]), ais(p[:at] + bad + p[at + 1:]), ais(p + bad), ais(bad + p),
                        ais(p + armor([r.randrange(64) for _ in range(r.randrange(1, 80))])), ais(p[:at] + "é".encode() + p[at + 1:], sealed=False)]
        for v in range(64):
            out += [ais(armor([1] + [v] * 27)), ais(armor([v])), ais(armor([5] + [v] * 70))]
        for c in range(33, 127):
            if c not in (42, 44):
                out += [ais(bytes([c])), ais(b"15RTgt0PAso;90TKcjM8h6g208C" + bytes([c])), ais(b"15RTgt0PAso;90TKcjM8h6g208CQ" + bytes([c]))]
        # characters whose lowest byte is an armor character
        for c in range(48, 120):
            for high in (0x100, 0x200, 0xff00, 0x10000, 0x1f600):
                out.append(ais(b"15RTgt0PAso;90TKcjM8h6g208C" + chr(high + c).encode(), sealed=False))
        self.edits(["VDM"], only={"VDM": [4]})
        # sound up to some length, then not
        for length in sorted({1, 2, 10, 27, 28, 29, 36, 52, 53, 56, 59, 60, 61, 70, 71, 72, 100, 127, 128, 129, 167, 168, 169, 174, 175, 176, 177, 200, 255, 256, 257, 300, 340, 341, 342,
                              511, 512, 1000, 1024, 4096} | {r.randrange(1, 400) for _ in range(self.n(10))}):
            for t in ("t1", r.choice(TYPES)):
                p = self.payload(t)[:length]
                p += armor([r.choice([0, r.randrange(64)]) for _ in range(length - len(p))])
                out += [ais(p), ais(self.foreign(p[-1:]) if r.random() < 0.5 else p + r.choice([b"X", b"~", b" ", "\u00e9".encode()])),
                        ais(p + r.choice([b"X", b"_", b"~", b"x", b" ", "\u00e9".encode(), "\U0001f630".encode()])), ais(p[:-1] + b"Z")]
        r.shuffle(out)
        self.many(out, "payload characters and lengths")
        # two-part messages with a foreign character in either half
        for _ in range(self.n(60)):
            p = self.payload(r.choice(["t5", "t1", "t18"]))
            at = r.randrange(len(p))
            odd = r.choice(b"XYZ[]^_xyz{|}~/  \t\r\0\x1a")
            q = p[:at] + bytes([odd]) + p[at + 1:]
            ends = []
            for cut in (0, 1, len(p) // 2, len(p)):
                for e in (bytes([odd]), b" ", bytes([odd]) * 3):
                    # at the ends of the halves
                    for u, v in ((p[:cut] + e, p[cut:]), (p[:cut], e + p[cut:]), (e + p[:cut], p[cut:]), (p[:cut], p[cut:] + e), (p[:cut] + e, e + p[cut:])):
                        if r.random() < 0.15:
                            ends += [ais(u, 2, 1, 3, "B"), ais(v, 2, 2, 3, "B")] if r.random() < 0.7 else [ais(v, 2, 2, 3, "B"), ais(u, 2, 1, 3, "B")]
            a, b = halves(q, r.randrange(len(q) + 1))
            self.episode([("P", 0, s) for s in ends] + [("P", 0, a), ("P", 0, b), ("P", 0, ais(p))] + [("P", 0, s) for s in halves(p, len(p) // 2)], "foreign characters in halves")

    def decode(self, types, quick=2500, pairs_cap=None, single=True, text=False):
        self.fields(types, single=single, pairs=True, cap=pairs_cap)
        if text:
            self.texts(only=types)
        self.sweep([types[0]] if types == ["t1", "t2", "t3"] and not self.deep else types)
        self.random_messages(types, quick)

    def position_probe(self, t):
        """Positions at every interesting place on the globe, positive and negative."""
        r = self.rng
        out = []
        unit = 1000 if t == "t27" else 1
        la = [0, 1, -1, 600000, -600000, 54000000, -54000000, 53999999, 54600000, 54599999, 54600001, -54600000, (1 << 26) - 1, -(1 << 26)]
        lo = [0, 1, -1, 600000, -600000, 108000000, -108000000, 107999999, 108600000, 108599999, 108600001, -108600000, (1 << 27) - 1, -(1 << 27)]
        wl, wo = self.L[t]["lat"][1], self.L[t]["lon"][1]
        for a in la:
            for o in lo:
                x, y = (a // unit, o // unit) if t == "t27" else (a, o)
                out.append(self.wrap(self.payload_exact(t, lat=x & ((1 << wl) - 1), lon=y & ((1 << wo) - 1))))
        return out

    def payload_exact(self, t, **kw):
        return armor(self.sextets(t, **kw))

    def C11(self):
        for t in DYN:
            self.many(self.position_probe(t), "positions")
        self.fields(DYN, only={"lat", "lon"}, all_=4, bgs=(1, 2, 3, 4))
        self.random_messages(DYN, 4000)

    def C12(self):
        self.decode(["t1", "t2", "t3"], 6000, pairs_cap=9000)

    def C13(self):
        self.decode(["t18", "t9"], 3500)

    def C14(self):
        self.many(self.position_probe("t27"), "positions")
        self.decode(["t27"], 4000)

    def C15(self):
        self.decode(["t5"], 3000, pairs_cap=6000, text=False)
        self.texts(only=["t5"], cap=2500)

    def C16(self):
        self.clock(["eta"], NOWS if self.deep else NOWS[:5], wide=self.deep, cap=12000)
        r = self.rng
        for _ in range(self.n(40)):
            now = (r.choice([1999, 2000, 2019, 2020, 2023, 2024, 2025, 2099]), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60),
                   r.choice([0, 0, 1, 59, r.randrange(60)])) + r.choice([(), (), (1,), (r.randrange(10 ** 9),), (999999999,)])
            out = []
            for _ in range(100):
                k = r.random()
                if k < 0.5:      # around now
                    f = dict(etamonth=now[1], etaday=max(0, now[2] + r.choice([-1, 0, 0, 0, 1])), etahour=max(0, min(31, now[3] + r.choice([-1, 0, 0, 1]))),
                             etaminute=max(0, min(63, now[4] + r.choice([-1, 0, 0, 1]))))
                elif k < 0.8:
                    f = dict(etamonth=r.randrange(1, 13), etaday=r.randrange(1, 32), etahour=r.randrange(24), etaminute=r.randrange(60))
                else:
                    f = dict(etamonth=r.choice([0, 2, 12, 13]), etaday=r.choice([0, 29, 30, 31]), etahour=r.choice([23, 24, 25]), etaminute=r.choice([59, 60, 61]))
                if r.random() < 0.6:
                    f["draught"] = r.randrange(4)
                out += self.deliver("t5", 0.3, **f)
            self.many(out, "random arrivals", now)
        self.again(10)

    def C17(self):
        self.decode(["t24a", "t24b"], 1, pairs_cap=2500)
        r = self.rng
        # a field matters only once both parts are there: complete every vessel
        sents = []
        for _ in range(self.n(2500)):
            m = self.mmsi()
            a, b = self.wrap(self.payload("t24a", mmsi=m)), self.wrap(self.payload("t24b", mmsi=m))
            sents += [a, b] if r.random() < 0.5 else [b, a]
        self.many(sents, "pairs of static reports")
        self.complete_fields()
        self.texts(only=["t24a", "t24b"])

    def complete_fields(self):
        """Every type 24 message of the field model, completed by its other part."""
        m = self.models.run("MCFields", dict(types=["t24a", "t24b"], all=8, bgs=[1, 2, 3, 4], single=True, pairs=self.deep, print=True))
        sents = []
        for line in m.lines("MSG"):
            t, f, js = line.split(" ", 2)
            sx = json.loads(js)
            mmsi = int("".join("{:06b}".format(x) for x in sx)[8:38], 2)
            other = self.part_b(mmsi, "OTHER") if t == "t24a" else self.part_a(mmsi, "OTHER")
            pair = [self.wrap(armor(sx)), ais(other)]
            if self.rng.random() < 0.5:
                pair.reverse()
            sents += pair
        self.many(sents, "MCFields completed")

    def C18(self):
        self.decode(["t4"], 2500)
        self.clock(["base"], NOWS[:1], wide=self.deep, cap=8000)

    def C19(self):
        self.decode(["t6", "t10"], 3500)

    def C20(self):
        self.decode(["t21"], 3000, pairs_cap=7000)
        self.texts(only=["t21"], cap=1500)

    def C21(self):
        self.texts()
        r = self.rng
        sents = []
        for _ in range(self.n(2500)):
            t = r.choice(["t5", "t21", "t24"])
            if t == "t24":
                m = self.mmsi()
                sents += [self.wrap(self.payload("t24a", mmsi=m)), self.wrap(self.payload("t24b", mmsi=m))]
            else:
                sents += self.deliver(t)
        self.many(sents, "random texts")

    def C22(self):
        r = self.rng
        ops = [("E", t, v) for t in ("ship", "cargo", "fix", "nav", "quality") for v in range(256)]
        ops += [("F", s) for s in [b"", b"a", b"AA", b" A", b"A ", "Å".encode(), b"NN", b"SS"] + [bytes([c]) for c in range(32, 127)]]
        self.episode(ops, "code tables")
        self.fields(["t1", "t2", "t3", "t4", "t5", "t21", "t24b", "t27"], single=True, pairs=False, only={"nav", "shiptype", "fix", "aid", "ts", "man", "mmsi"},
                    bgs=(1, 2, 3, 4), all_=8)
        self.complete_fields()
        out = []
        for q in list(range(0, 12)) + [254, 255, 256, "", "x", "00", "08", "-1", "1.0"]:
            out.append(gnss("GP", "GGA", "123519", "4807.038", "N", "01131.000", "E", q, "08", "0.9", "545.4", "M", "46.9", "M", "", ""))
        for m in [chr(c) for c in range(48, 123) if chr(c) not in "*,"] + ["", "AM", "11", "33"]:
            for m2 in ["1", "3"] if m != "A" else [chr(c) for c in range(48, 123)] + ["", "33", "12"]:
                out.append(gnss("GP", "GSA", m, m2, *["04", "05"] + [""] * 10 + ["2.5", "1.3", "2.1"]))
            out.append(gnss("GP", "VTG", "1", "T", "2", "M", "3", "N", "4", "K", m))
            out.append(gnss("GP", "GLL", "4916.45", "N", "12311.12", "W", "225444", m, "A"))
            out.append(gnss("GP", "GLL", "4916.45", "N", "12311.12", "W", "225444", "A", m))
            out.append(gnss("GP", "RMC", "225446", m, "4916.45", "N", "12311.12", "W", "000.5", "054.7", "191120", "020.3", "E"))
        self.many(out, "coded GNSS fields")
        self.random_messages(["t1", "t5", "t24a", "t24b", "t21", "t4", "t27"], 1500)
        self.gnss_messages(["GGA", "GSA", "VTG", "GLL", "RMC"], 1000)

    def C23(self):
        r = self.rng
        ops = []
        for mid in range(0, 1074):
            for rest in {0, 999999, r.randrange(1000000)}:
                m = mid * 1000000 + rest
                if m < 1 << 32:
                    ops.append(("C", m))
        ops += [("C", m) for m in MMSIS + [99999999, 100000000, 199999999, 200999999, 201000000, 775999999, 776000000, 1999999999, 4294967295,
                                           20100000, 2010000, 21133998, 2113399800]]
        ops += [("C", r.randrange(1 << 30)) for _ in range(self.n(500))]
        for i in range(0, len(ops), 400):
            self.episode(ops[i:i + 400], "every country code")
        out = []
        for mid in range(195, 780) if not self.deep else range(0, 1074):
            m = mid * 1000000 + r.randrange(1000000)
            out.append(self.wrap(self.payload_exact("t5", mmsi=min(m, (1 << 30) - 1))))
            if mid % 4 == 0:
                pair = [self.wrap(self.payload_exact("t24a", mmsi=min(m, (1 << 30) - 1))), self.wrap(self.payload_exact("t24b", mmsi=min(m, (1 << 30) - 1)))]
                out += pair
        # auxiliary craft, which name their mothership, coast stations, aircraft, group numbers
        for _ in range(self.n(60)):
            mid, mid2 = r.randrange(200, 776), r.randrange(200, 776)
            for m in (980000000 + mid * 10000 + r.randrange(10000), 990000000 + mid * 10000 + r.randrange(10000), mid * 10000 + r.randrange(10000),
                      111000000 + mid * 1000 + r.randrange(1000), mid * 100000 + r.randrange(100000), 970000000 + mid * 10000, 972000000 + mid * 1000,
                      800000000 + mid * 100000 + r.randrange(100000), mid * 1000000 + r.randrange(1000000)):
                out.append(self.wrap(self.payload_exact("t5", mmsi=m)))
                pair = [self.wrap(self.payload_exact("t24a", mmsi=m)), self.wrap(self.payload_exact("t24b", mmsi=m, moth=mid2 * 1000000 + r.randrange(1000000)))]
                r.shuffle(pair)
                out += pair
        self.many(out, "static reports of every country")
        self.random_messages(["t5", "t24a", "t24b"], 800)

    def angles(self, quick):
        r = self.rng
        out = []
        for _ in range(self.n(quick)):
            dlat, dlon = r.choice([0, 1, 9, 10, 45, 89, 90, r.randrange(91)]), r.choice([0, 1, 9, 10, 99, 100, 179, 180, r.randrange(181)])
            frac = r.choice(["0", "5", "00", "999999", "0000", "000001", "000000001", "".join(r.choice(ALLDIG) for _ in range(r.randrange(1, 13)))])
            mi = r.choice([0, 1, 9, 10, 59, r.randrange(60)])
            la, lo = "%02d%02d.%s" % (dlat, mi, frac), "%03d%02d.%s" % (dlon, r.choice([0, 59, r.randrange(60)]), frac[::-1])
            ns, ew = r.choice("NS"), r.choice("EW")
            k = r.randrange(3)
            tk = r.choice(TALKERS_GNSS)
            if k == 0:
                out.append(gnss(tk, "GGA", "123519", la, ns, lo, ew, 1, "08", "0.9", "545.4", "M", "46.9", "M", "", ""))
            elif k == 1:
                out.append(gnss(tk, "RMC", "225446", "A", la, ns, lo, ew, "000.5", "054.7", "191120", "020.3", "E"))
            else:
                out.append(gnss(tk, "GLL", la, ns, lo, ew, "225444", "A", "A"))
        self.many(out, "angles")

    def C24(self):
        self.gnss_cases(["GGA", "RMC", "GLL"], True, cap=9000)
        self.angles(4000)
        self.edits(["GGA", "RMC", "GLL"], only={"GGA": range(1, 5), "RMC": range(2, 6), "GLL": range(4)})
        self.gnss_messages(["GGA", "RMC", "GLL"], 2500)

    def C25(self):
        self.gnss_cases(["GGA", "RMC"], True, cap=9000)
        self.gnss_messages(["GGA", "RMC"], 5000)

    def C26(self):
        self.gnss_cases(["GSA", "GSV", "VTG", "GLL"], True, cap=10000)
        self.gnss_messages(["GSA", "GSV", "VTG", "GLL"], 5000)
        for _ in range(self.n(10)):
            self.episode([("P", 0, s) for c in (1, 2, 3, 4) for s in self.gsv_group(self.rng.choice(TALKERS_GNSS), c, self.rng.randrange(200))], "groups")

    def C27(self):
        self.clock(["date"], NOWS, wide=True)
        self.clock(["time"], NOWS[:1], cap=6000)
        self.edits(["GGA", "RMC", "GLL"], only={"GGA": [0], "RMC": [0, 8], "GLL": [4]})
        r = self.rng
        for now in NOWS + [(r.randrange(1971, 2200), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), 2, 3, r.randrange(10 ** 9)) for _ in range(self.n(6))]:
            out = []
            for _ in range(self.n(120)):
                t, d = self.tod(), self.day()
                out += [gnss("GP", "RMC", t.encode(), "A", "4916.45", "N", "12311.12", "W", "000.5", "054.7", d.encode(), "020.3", "E"),
                        gnss("GP", "GLL", "4916.45", "N", "12311.12", "W", t.encode(), "A", "A"),
                        gnss("GP", "GGA", t.encode(), "4807.038", "N", "01131.000", "E", 1, "08", "0.9", "545.4", "M", "46.9", "M", "", "")]
            self.many(out, "random dates and times", now)
        self.again(15)
        # the clock moves while a parser lives
        ops = []
        for now in NOWS:
            ops += [("T", now), ("P", 0, gnss("GP", "GGA", "000001", "4807.038", "N", "01131.000", "E", 1, "08", "0.9", "545.4", "M", "46.9", "M", "", "")),
                    ("P", 0, gnss("GP", "GLL", "4916.45", "N", "12311.12", "W", "235959", "A", "A")),
                    ("P", 0, gnss("GP", "RMC", "225446", "A", "4916.45", "N", "12311.12", "W", "000.5", "054.7", "191120", "020.3", "E"))]
        self.episode(ops, "a moving clock")

    def C28(self):
        self.gnss_cases(["GGA", "RMC", "GSA", "GSV", "VTG", "GLL"], True, cap=14000)
        self.awkward()
        self.wrapped()
        self.letters(["GGA", "RMC", "GSA", "GSV", "VTG", "GLL"])
        self.edits(["GGA", "RMC", "GSA", "GSV", "VTG", "GLL"], cap=9000)
        self.many([self.gnss_random() for _ in range(self.n(4000))], "random GNSS sentences")

    def C29(self):
        r = self.rng
        self.models.start("MCFrag"), self.models.start("MCGsv"), self.models.start("MCStat")
        self.models.prove("ParserProofs")

        def drained(k):
            """A cycle of sentences after which nothing new is pending."""
            out = []
            for _ in range(k):
                c = r.randrange(4)
                if c == 0:
                    out += list(halves(self.static5(r.choice(MMSIS[:4]), "CYCLE"), 40, str(r.randrange(5)), r.choice("AB")))
                elif c == 1:
                    out += self.gsv_group(r.choice(["GP", "GL"]), r.randrange(1, 4), r.randrange(200))
                elif c == 2:
                    m = r.choice(MMSIS[:4])
                    out += [ais(self.part_a(m, "A")), ais(self.part_b(m, "B"))]
                else:
                    out += [self.self_contained(), r.choice(self.JUNK)]
            return out
        kinds = {
            "plain": lambda: [self.self_contained() for _ in range(6)],
            "two-part": lambda: list(halves(self.static5(211000001, "X"), 40)) + list(halves(self.static5(211000002, "Y"), 40, "2", "B"))[::-1],
            "groups": lambda: self.gsv_group("GP", 3, 5) + self.gsv_group("GL", 2, 50)[::-1],
            "static": lambda: [ais(self.part_a(211000001, "A")), ais(self.part_b(211000001, "B")), ais(self.part_b(211000002, "B")), ais(self.part_a(211000002, "A"))],
            "rejected": lambda: list(self.JUNK) + [b"$GPGSV,3,1,11,10,63,137,17*00", b"!AIVDM,2,1,5,A,55?MbV02,0*00"],
            "repeated halves": lambda: [halves(self.static5(211000001, "X"), 40)[0]] * 3 + [halves(self.static5(211000003, "Z"), 40, "7")[1]] * 2,
            "repeated members": lambda: [self.gsv_group("GP", 3, 5)[0]] * 3 + [self.gsv_group("GP", 3, 5)[2]],
            "repeated parts": lambda: [ais(self.part_a(211000001, "A"))] * 3 + [ais(self.part_b(211000002, "B"))] * 2,
            "undecodable": lambda: list(halves(b"z" * 50, 20, "3")) + list(halves(armor([7] + [0] * 40), 20, "4")),
            "many parts": lambda: [ais(b"5" * 10, 3, k, "1", "A") for k in (1, 2, 3)] + [ais(b"5" * 10, 2, k, "", "A") for k in (1, 2)],
        }
        rounds = 3000 if not self.deep else 60000
        for name, make in kinds.items():
            ops = []
            c = make()
            ops += [("Y", 0, 60, c), ("M",), ("Y", 0, rounds // 4, c), ("M",), ("Y", 0, rounds, c), ("M",)]
            self.episode(ops, "cycles: " + name)
        for _ in range(self.n(8)):
            c = drained(r.randrange(4, 12))
            self.episode([("Y", 0, 60, c), ("M",), ("Y", 0, rounds // 5, c), ("M",), ("Y", 0, rounds // 2, c), ("M",)], "cycles: mixed")
        # never the same content twice
        def tri(k):
            return bytes(65 + k // d % 26 for d in (676, 26, 1))
        fresh = {
            "plain": lambda k: [self.self_contained()],
            "two-part": lambda k: list(halves(self.static5(201000000 + k, "V%d" % k), 40, "1", "A")),
            "replaced first halves": lambda k: [halves(self.static5(201000000 + k, "V%d" % k), 40, "1", "A")[0]],
            "replaced second halves": lambda k: [halves(self.static5(201000000 + k, "V%d" % k), 40, "2", "B")[1]],
            "replaced members": lambda k: [self.gsv("GP", 3, 1, [k % 250 + 1, k // 250 + 1, 3, 4]), self.gsv("GP", 3, 3, [k // 250 + 1, k % 250 + 1])],
            "replaced parts A": lambda k: [ais(self.part_a(211000001, "NAME %d" % k))],
            "replaced parts B": lambda k: [ais(self.part_b(211000001, "C%d" % k))],
            "undecodable": lambda k: list(halves(self.foreign(self.static5(201000000 + k, "U")[:60].ljust(60, b"0")), 20, str(k), "A")),
            "unsupported": lambda k: list(halves(armor([r.choice([7, 8, 25])] + [r.randrange(64) for _ in range(60)]), 20, str(k), r.choice("AB"))),
            "three parts": lambda k: [ais(armor([r.randrange(64) for _ in range(50)]), 3, j, str(k), "A") for j in (1, 2, 3)],
            "no message id": lambda k: [ais(armor([r.randrange(64) for _ in range(50)]), 2, j, "", "A") for j in (1, 2)],
            "odd numbering": lambda k: [ais(armor([r.randrange(64) for _ in range(50)]), c, j, str(k), "A") for c, j in ((2, 0), (2, 3), (0, 1), (0, 0), (9, 4), (2, 255))],
            "refused": lambda k: [self.refused().split(b"*")[0] + b"," + str(k).encode() + b"*00", self.refused(), b"$GPXXX,%d" % k, b"!AIXXX,2,1,%d" % k,
                                  b"$GPGSV,%d,%d,11,1,1,1,1" % (k % 200, k % 200 + 1)],
            "corrupted halves": lambda k: [h[:-2] + b"%02X" % (int(h[-2:], 16) ^ 1) for h in halves(self.static5(201000000 + k, "V"), 40, str(k), "A")]
                                          + [self.gsv("GP", 3, 1, [k % 250 + 1])[:-2] + b"QQ"],
            "groups of one talker": lambda k: self.gsv_group("GP", k % 4 + 1, k % 200),
            "odd parts": lambda k: [ais(armor(put(put(blank("t24a"), self.L["t24a"]["mmsi"], 201000000 + k), (38, 2), 2 + k % 2)))],
            "parts cut short": lambda k: [ais(self.part_a(201000000 + k, "V")[:20]), ais(self.part_b(201000000 + k, "V")[:20])],
            "sentence types": lambda k: [b"$GP%s,%d" % (tri(k), k), b"!AI%s,1,1,,A,15,0" % tri(k), b"%s" % tri(k), b"$%s,1" % (tri(k) + tri(k * 7)), "$GP\u00e9{},1".format(k).encode()],
            "talkers": lambda k: [b"$%sGGA,%d" % (tri(k)[1:], k), b"!%sVDM,1,1,,A,%s,0" % (tri(k)[1:], self.pos(201000000 + k)), b"$%sGSA,A,3,1,,,,,,,,,,,,1,1,1" % tri(k)[1:],
                                  b"$%sGSV,1,1,1,%d" % (tri(k)[1:], k % 99), b"$P%sRMC,1" % tri(k), b"$P%s,%d" % (tri(k), k)],
            "channels": lambda k: [ais(self.pos(201000000 + k), chan=tri(k).decode()), ais(self.pos(201000000 + k), mid=str(k)), ais(self.pos(211000001), chan=str(k))],
            "message types": lambda k: [b"!AIVDM,1,1,,A,%s,0" % armor([k % 64] + [r.randrange(64) for _ in range(k % 71)])],
            "positions": lambda k: [ais(self.pos(211000001, t, lat=(600000 + 7919 * k) % (1 << 26), lon=1000 * k)) for t in ("t1", "t18", "t21")],
            "values": lambda k: [self.gnss_random() for _ in range(3)],
            "static and dynamic": lambda k: [ais(self.static5(201000000 + k, "V")), ais(self.pos(201000000 + k)), ais(self.pos(201000000 + k, "t18")), ais(self.pos(201000000 + k, "t21"))],
        }
        many = ("sentence types", "talkers", "channels", "message types", "positions", "values", "static and dynamic", "odd parts", "parts cut short", "unsupported", "no message id")
        for name, make in fresh.items():
            ops = []
            k = 0
            for rep in range(3 if not self.deep else 8):
                for _ in range(700 if name in many else 180):
                    k += 1
                    ops += [("P", 0, s) for s in make(k)]
                ops.append(("M",))
            self.episode(ops, "new content: " + name)
        # the clock goes on
        import datetime
        for step in (61, 3601, 86401):
            ops, t = [], datetime.datetime(2020, 2, 3, 4, 5, 6)
            for rep in range(3):
                for k in range(600):
                    t += datetime.timedelta(seconds=step)
                    ops += [("U", (t.year, t.month, t.day, t.hour, t.minute, t.second)), ("P", 0, self.gnss_random() if k % 2 else self.self_contained()),
                            ("P", 0, b"$GPRMC,%02d%02d%02d,A,4916.45,N,12311.12,W,000.5,054.7,%02d%02d%02d,020.3,E" % (t.hour, t.minute, t.second, t.day, t.month, t.year % 100))]
                ops.append(("M",))
            self.episode(ops, "new content: moments")
        # parsers come and go, with all they had pending
        ops = []
        for rep in range(4):
            for k in range(60):
                ops.append(("N", 0))
                ops += [("P", 0, s) for f in ("replaced first halves", "replaced members", "replaced parts A") for s in fresh[f](rep * 60 + k)]
                ops += [("P", 0, halves(self.static5(211000002, "PENDING %d" % j), 40, str(j), "A")[0]) for j in range(10)]
            ops += [("N", 0), ("M",)]
        self.episode(ops, "parsers come and go")
        # distinct keys come and go
        for what in range(3):
            ops = []
            for rep in range(3 if not self.deep else 6):
                for k in range(700):
                    key = rep * 700 + k
                    if what == 0:
                        ops += [("P", 0, s) for s in halves(self.static5(201000000 + key, "V"), 40, str(key), "A")]
                    elif what == 1:
                        ops += [("P", 0, ais(self.part_a(201000000 + key, "V"))), ("P", 0, ais(self.part_b(201000000 + key, "V")))]
                    else:
                        ops += [("P", 0, s) for s in self.gsv_group("%s%s" % (chr(65 + key % 26), chr(65 + key // 26 % 26)), 2 + key // 676, key % 200)]
                ops.append(("M",))
            self.episode(ops, "distinct keys come and go")
        # What the code sets up once, on first use, is in place before the first measurement.
        warm = [("P", 0, s) for s in [self.gnss_random() for _ in range(120)] + [x for t in TYPES * 2 for x in self.deliver(t)] + [self.refused() for _ in range(40)]]
        out = []
        for e in self.episodes:
            at = next(i for i, o in enumerate(e) if o[0] == "N")
            out.append(e[:at + 1] + warm + [("N", 0)] + e[at + 1:])
        self.episodes = out

    def C31(self):
        """Pairs of answers that differ in one field, by little or much, or only in what is not reported."""
        r = self.rng
        pairs = []
        other = {}

        def whole(t, sx, kind="VDM", talker="AI"):
            mmsi = int("".join("{:06b}".format(x) for x in (sx + [0] * 7)[:7])[8:38], 2)
            if t == "t24a":
                return [ais(armor(sx), kind=kind, talker=talker), ais(self.part_b(mmsi, "OTHER"), kind=kind, talker=talker)]
            if t == "t24b":
                return [ais(self.part_a(mmsi, "OTHER"), kind=kind, talker=talker), ais(armor(sx), kind=kind, talker=talker)]
            return [ais(armor(sx), kind=kind, talker=talker)]
        m = self.models.run("MCFields", dict(types=TYPES, all=8, bgs=[1, 2] if not self.deep else [1, 2, 3, 4], single=True, pairs=False, print=True))
        by = {t: {} for t in TYPES}
        for line in m.lines("MSG"):
            t, f, js = line.split(" ", 2)
            by[t].setdefault(f, []).append(json.loads(js))
        for t in TYPES:
            base = whole(t, self.sextets(t))
            for f, some in sorted(by[t].items()):
                some.sort()
                near = list(zip(some, some[1:])) + [tuple(r.sample(some, 2)) for _ in some if len(some) > 1]
                if not self.deep and len(near) > 60:
                    near = r.sample(near, 60)
                pairs += [(whole(t, a), whole(t, b)) for a, b in near]
                pairs.append((base, whole(t, r.choice(some))))
            # one bit changed, wherever it is
            for _ in range(self.n(60)):
                a = self.sextets(t)
                for at in range(len(a)):
                    b = list(a)
                    b[at] ^= 1 << r.randrange(6)
                    if r.random() < 0.1 and b[at] != a[at] and at > 6:
                        pairs.append((whole(t, a), whole(t, b)))
            a = self.sextets(t)
            pairs += [(whole(t, a, k, s), whole(t, a, k2, s2)) for k, s, k2, s2 in
                      [("VDM", "AI", "VDO", "AI"), ("VDM", "AI", "VDM", "AB"), ("VDM", "AN", "VDM", "SA"), ("VDM", "XX", "VDO", "AB"), ("VDM", "AI", "VDM", "AI")]]
            other[t] = base
        # the same message in one sentence and in two
        for _ in range(self.n(40)):
            p = self.payload(r.choice(TYPES[:11]))
            if len(p) > 1:
                pairs.append(([ais(p)], list(halves(p, r.randrange(1, len(p))))))
        # GNSS: one field another
        m = self.models.run("MCGnss", dict(kinds=["GGA", "RMC", "GSA", "GSV", "VTG", "GLL"], pairs=False, print=True))
        by = {}
        for l in m.lines("SEN"):
            s = codec.hexcodes(json.loads(l))
            if b"nan" not in s.lower():
                by.setdefault(s[3:6], []).append(s)
        for k, some in sorted(by.items()):
            some.sort()
            pairs += [([a], [b]) for a, b in zip(some, some[1:])] + [([r.choice(some)], [r.choice(some)]) for _ in some]
        for k, fs in self.FULL:
            a = gnss("GP", k, *fs)
            other[k] = [a]
            pairs += [([a], [gnss(t, k, *fs)]) for t in ("GP", "GN", "GL", "GA", "BD", "GI", "QZ", "XX", "YY")] + [([gnss("XX", k, *fs)], [gnss("YY", k, *fs)])]
            for at in range(len(fs)):
                for new in ("", fs[at] + "0", fs[at] + "1", "1" + fs[at], fs[at][1:], fs[at][:-1], "-" + fs[at], "N" if fs[at] == "S" else "W", "0"):
                    gs = fs[:]
                    gs[at] = new
                    pairs.append(([a], [gnss("GP", k, *gs)]))
        group = lambda sats: [self.gsv("GP", 3, j + 1, s) for j, s in enumerate(sats)]
        g = [[1, 2, 3, 4], [5, 6, 7, 8], [9]]
        pairs += [(group(g), group(h)) for h in (g, [[1, 2, 3, 4], [5, 6, 7, 8], [10]], [[2, 1, 3, 4], [5, 6, 7, 8], [9]], [[1, 2, 3], [5, 6, 7, 8], [9]], [[1, 2, 3, 4], [5, 6, 7, 8], [9, 9]],
                                                 [[1, 2, 3, 4], [5, 6, 7, 8], []], [[5, 6, 7, 8], [1, 2, 3, 4], [9]])]
        # answers of different kinds, refusals, waiting
        other["part"] = [self.gsv("GP", 3, 1, [1])]
        other["half"] = [halves(self.payload("t5"), 20)[0]]
        other["wrong sum"] = [b"$GPGGA,1*00"]
        other["unknown"] = [b"$GPXXX,1"]
        other["unknown too"] = [b"$GPYYY,1"]
        other["broken"] = [b"!AIVDM,1,1,,A,zzz,0"]
        other["broken too"] = [b"$GPVTG,x,T,2,M,3,N,4,K"]
        pairs += [(a, b) for a in other.values() for b in other.values()]
        r.shuffle(pairs)
        for i in range(0, len(pairs), 300):
            self.episode([("Q", a, b) for a, b in pairs[i:i + 300]], "pairs of answers", r.choice(NOWS[:4]))

    def C30(self):
        tables = ["station", "class", "meta", "ship", "cargo", "fix", "aid", "system", "faa", "gsa", "quality", "default", "error"]
        self.episode([("D", t) for t in tables], "every value of every type")
        r = self.rng
        # parsing leaves the texts alone
        for _ in range(self.n(3)):
            ops = []
            for op in self.history(150):
                ops.append(op)
                if r.random() < 0.1:
                    ops.append(("D", r.choice(tables)))
            self.episode(ops, "between sentences")
        self.episode([("F", bytes([c])) for c in range(32, 127)], "modes")
