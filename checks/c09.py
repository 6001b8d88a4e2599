from families import *
import cgen

BOUNDS = ("every value of the primitive type (symbolic) and every variant of: hand-picked enums with gaps, implied, negative, extreme, "
          "suffixed and differently spelled discriminants for each of the eight primitive types and for automatic selection, plus seeded "
          "ones (quick 96, thorough 1200) of 1-12 variants, and some of 90-250; and the number type the derive macro selects for enums given as text with one to three "
          "symbolic digits, around every boundary between types, decimal and hexadecimal, negative and implied (hand-picked and seeded)")
ASSUME = ["for the selected type the macro runs on the tokens of proc_macro2's own lexer instead of the compiler's"]

RANGES = {"u8": (0, 255), "i8": (-128, 127), "u16": (0, 65535), "i16": (-32768, 32767), "u32": (0, 2**32 - 1), "i32": (-2**31, 2**31 - 1),
          "u64": (0, 2**64 - 1), "i64": (-2**63, 2**63 - 1)}


class E:
    """variants: (name, discriminant or None, spelling or None)"""

    def __init__(self, name, prim, variants, repr_=None):
        self.name, self.prim, self.variants, self.repr = name, prim, variants, repr_
        d = -1
        self.discs = []
        for n, v, s in variants:
            d = v if v is not None else d + 1
            self.discs.append(d)

    def decl(self):
        return "%s#[derive(PrimitiveEnum%s, Clone, Copy, Debug, PartialEq)]\npub enum %s { %s }\n" % (
            "#[repr(%s)]\n" % self.repr if self.repr else "", "_" + self.prim if self.prim else "", self.name,
            ", ".join(n if v is None else "%s = %s" % (n, s or v) for n, v, s in self.variants))

    def brief(self):
        return self.decl().strip().replace("\n", " ")[:300]

    def pick(self, x):
        ns = [n for n, _, _ in self.variants]
        return "match %s { %s _ => %s::%s }" % (x, " ".join("%d => %s::%s," % (k, self.name, n) for k, n in enumerate(ns[:-1])),
                                              self.name, ns[-1])

    def index(self, x):
        return "match %s { %s }" % (x, " ".join("%s::%s => %du8," % (self.name, n, k) for k, (n, _, _) in enumerate(self.variants)))


def harnesses(e):
    nv = len(e.variants)
    P = "<%s as PrimitiveEnum>::Primitive" % e.name

    def disc(sel):
        v = e.discs[-1] & T.mask(128)
        for k in reversed(range(nv - 1)):
            v = T.ite(128, T.eq(8, sel, k), e.discs[k] & T.mask(128), v)
        return v

    def spec_to(I, O):
        c = [("to_primitive", T.eq(128, le(O[0:16]), disc(I[0])))]
        c.append(("from_primitive(to_primitive)", T.eq(8, O[16], T.add(8, I[0], 1))))
        c.append(("same as the cast", T.eq(8, O[17], 1)))
        if e.prim:
            c.append(("width", T.eq(8, O[18], nbits(e.prim) // 8)))
        return c
    a = Harness("to:" + e.name, Entry("to_" + e.name, 1, 19, """
    let v = %s;
    let p: %s = v.to_primitive();
    o[0..16].copy_from_slice(&(p as i128).to_le_bytes());
    o[16] = match %s::from_primitive(p) { Some(w) => 1 + (%s), None => 0 };
    o[17] = (p == v as %s) as u8;
    o[18] = core::mem::size_of::<%s>() as u8;""" % (e.pick("i[0]"), P, e.name, e.index("w"), P, P)), spec_to,
        assume=lambda I: [T.ult(8, I[0], nv)], note=e.brief())

    def spec_from(I, O):
        p = le(O[0:16])
        exp = 0
        for k in reversed(range(nv)):
            exp = T.ite(8, T.eq(128, p, e.discs[k] & T.mask(128)), k + 1, exp)
        c = [("from_primitive", T.eq(8, O[16], exp))]
        if e.prim:
            n = nbits(e.prim)
            x = T.extract(le(I), n - 1, 0)
            c.append(("argument", T.eq(128, p, T.sext(n, 128, x) if e.prim[0] == "i" else T.zext(n, 128, x))))
        return c
    b = Harness("from:" + e.name, Entry("from_" + e.name, 8, 17, """
    let p = u64::from_le_bytes(*i) as %s;
    o[0..16].copy_from_slice(&(p as i128).to_le_bytes());
    o[16] = match %s::from_primitive(p) { Some(w) => 1 + (%s), None => 0 };""" % (P, e.name, e.index("w"))), spec_from, note=e.brief())
    return [a, b]


def named(vals):
    return [("V%d" % k, v, None) if not isinstance(v, tuple) else ("V%d" % k,) + v for k, v in enumerate(vals)]


def fixed():
    out = []
    for t, (lo, hi) in RANGES.items():
        r = t
        pts = sorted({lo, lo + 1, hi - 1, hi, 0, 1, 100, hi // 2, hi // 2 + 1} | ({-1, -2} if lo < 0 else set()))
        out.append(E("X%s" % t, t, named(pts), r))
        out.append(E("D%s" % t, t, named(list(reversed(pts))), r))
        out.append(E("O%s" % t, t, named([hi]), r))
        out.append(E("S%s" % t, t, named([(3, "3" + t), (None, None), (hi, "0x%X" % hi if lo == 0 else "%d%s" % (hi, t)), (7, "0b111"), (8, "0o10"),
                                          (hi // 3, "_".join([str(hi // 3)[:1], str(hi // 3)[1:] or "0"]) if hi // 3 > 9 else None)]), t))
        if lo < 0:
            out.append(E("M%s" % t, t, named([-3, None, None, None, None, None, lo, None, 50, None, -50, None]), r))
            out.append(E("H%s" % t, t, named([(-16, "-0x10"), (None, None), (-1, "-1" + t), (None, None), (lo, "%d%s" % (lo, t))]), t))
        # no repr: the declared numbers live in isize
        out.append(E("N%s" % t, t, named([x for x in pts if x < 2**63])))
    auto = [[None], [None] * 5, [255], [256], [254, None], [255, None], [65535], [65536], [65535, None], [2**32 - 1], [2**32], [2**32 - 1, None],
            [0, 2**63 - 1], [-1], [-128], [-129], [-32768], [-32769], [-2**31], [-2**31 - 1], [-2**63], [-1, 127], [-1, 128], [-1, 255],
            [-1, 256], [-1, 32767], [-1, 32768], [-1, 65535], [-1, 65536], [-1, 2**31 - 1], [-1, 2**31], [-1, 2**32], [-129, 40000],
            [-1, 2**63 - 1], [-3000000000, 5], [5, -3000000000], [-3, None, None, None, None], [-1, None, 127, None], [1000, -1, None, 3],
            [(7, "7u8"), (9, "0x9")], [(-7, "-7i16"), (900, None)], [300, 2, 70000, 1]]
    r = random.Random("many")
    for t, n in (("u8", 250), ("i8", 200), ("u16", 120), (None, 130), ("i64", 90)):
        lo, hi = RANGES[t or "i16"]
        vals = r.sample(range(lo, hi + 1), n) if hi < 2**40 else [r.randrange(-2**r.randrange(1, 63), 2**r.randrange(1, 63)) for _ in range(n)]
        out.append(E("Many%s" % (t or "Auto"), t, named(vals), t))
        if hi - lo > 300:
            out.append(E("Run%s" % (t or "Auto"), t, named([lo + 5] + [None] * 99 + [hi - 60] + [None] * 50), t))
    for k, a in enumerate(auto):
        vs = named(a)
        rp = None
        for _, _, s in vs:
            if s and s[-2:] in ("u8", "16"):
                rp = s[-2:] if s.endswith("u8") else s[-3:]
        out.append(E("Auto%d" % k, None, vs, rp))
    return out


def seeded(seed, n):
    r = random.Random("%s/enums" % seed)
    out = []
    while len(out) < n:
        t = r.choice(list(RANGES) + [None] * 4)
        lo, hi = RANGES[t or r.choice(list(RANGES))]
        if t is None:
            hi = min(hi, 2**63 - 1)
        m = r.randint(1, 12)
        used = set()
        vs = []
        d = -1
        for k in range(m):
            if r.random() < 0.35 and d + 1 not in used and d + 1 <= hi and (k == 0 or lo <= d + 1) and d + 1 >= lo:
                v = None
                d = d + 1
            else:
                b = r.randint(1, hi.bit_length())
                v = r.choice([r.randint(0, 2**b - 1), hi - r.randint(0, 3), r.randint(0, 20)])
                if lo < 0 and r.random() < 0.5:
                    v = r.choice([-v, -v - 1, lo + r.randint(0, 3)])
                if v in used or not lo <= v <= hi:
                    continue
                d = v
            if d in used:
                continue
            used.add(d)
            s = None
            if v is not None:
                s = r.choice([None, None, "0x%x", "0b{:b}", "0o%o"])
                if s:
                    a = abs(v)
                    s = ("-" if v < 0 else "") + (s.format(a) if "{" in s else s % a)
            vs.append(("V%d" % k, v, s))
        if not vs:
            continue
        out.append(E("Q%d" % len(out), t, vs, t if t and (hi >= 2**63 or r.random() < 0.4) else None))
    return out


def selections(seed, n, th):
    """enums whose discriminants are text with symbolic digits, for the macro itself"""
    out = [("u%d_%d" % (b, k), d) for b in (8, 16, 32) for k, d in enumerate(
        [[near(2**b, 1 + (b < 20))], ["3", near(2**b, 1), None, "1"]])]
    out += [("i%d_%d" % (b, k), d) for b in (7, 15, 31) for k, d in enumerate(
        [["-" + near(2**b, 1 + (b < 20)), None], ["-1", near(2**b, 1), None], ["-1", near(2 * 2**b, 1)]])]
    out += [("small%d" % k, d) for k, d in enumerate(
        [["?"], ["?", None, "-?"], ["-?", None, None], ["-?", "2??"], ["1", "-?", None, "??"], ["-??", "-1", None], ["???"], ["-???"],
         ["0x?#"], ["0x##", "-0x?"], ["0x7fff_fff@"], ["6_553?", None], ["0x1??"]])]
    out += [("top%d" % k, d) for k, d in enumerate(
        [["922337203685477580?"]][:th])]
    r = random.Random("%s/selections" % seed)
    while len(out) < n + 40:
        ds = []
        left = 1 + th
        for k in range(r.randint(1, 5)):
            if r.random() < .3:
                ds.append(None)
                continue
            x = str(r.choice([2**r.randint(1, 33 if th else 17) + r.randint(-3, 3), r.randint(0, 300), r.randint(0, 2**r.randint(1, 22))]))
            if x[0] != "-" and left and r.random() < .6:
                p = r.randrange(len(x)) if th and len(x) < 7 and r.random() < .3 else len(x) - 1
                x = x[:p] + "?" + x[p + 1:]
                left -= 1
            if x[0] != "-" and r.random() < .3:
                x = "-" + x
            ds.append(x)
        out.append(("q%d" % len(out), ds))
    return out


def near(v, digits=2):
    """the numbers around v: its last digits are symbolic"""
    s = str(v)
    return s[:max(len(s) - digits, 0)] + "?" * min(digits, len(s))


def units(tier, seed):
    th = tier == "thorough"
    n = 32 if th else 8
    us = [Unit("c09_%d" % k) for k in range(n)]
    for k, e in enumerate(fixed() + seeded(seed, 1200 if th else 96)):
        u = us[k % n]
        u.item(e.name, e.decl())
        for h in harnesses(e):
            u.add(h)
    N = 24 if th else 8
    ms = [cgen.unit("c09m_%d" % k) for k in range(N)]
    for k, (n, ds) in enumerate(selections(seed, 160 if th else 16, th)):
        if k < N:
            ms[k].item("enum", cgen.HELP_ENUM)
        ms[k % N].add(cgen.enum(n, ds))
    return us + ms
