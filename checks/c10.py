from families import *

BOUNDS = ("all strings (symbolic bytes: ASCII and two-byte UTF-8 characters) of every length from 0 to one byte more than the longest name, for enums with one- to "
          "38-byte names and up to 30 variants: prefixes of each other, names that differ in case, digits, underscores, raw identifiers and non-ASCII "
          "letters (also those whose lower case has another length); every variant's display string and the variant list; seeded name sets (quick 8, thorough 80)")

SETS = [
    ("Basic", ["A", "B", "Cd"]),
    ("Prefixes", ["Ab", "A", "Abc", "Abcd", "Bcd", "AbcdE"]),
    ("Cases", ["Foo", "FOObar", "fooBarz", "BAR_x", "bar_y"]),
    ("Digits", ["X1", "X10", "X2", "_Under", "_u", "Trail_"]),
    ("Raw", ["r#type", "r#match", "Normal", "r#if", "Rtype"]),
    ("Longer", ["SelfTestMode", "NormalMode", "DebugMode", "SelfTest"]),
    ("Uni", ["Änd", "Ände", "Oz", "Éa"]),
    ("Single", ["OnlyOne"]),
    ("Acronym", ["HTTPServer", "HttpServers", "HTTP"]),
    ("Lower", ["İx", "ΑΣ", "ΑΣα", "Ǆelo"]),
    ("Long", ["AVeryLongNameOfMoreThanThirtyTwoBytes", "AVeryLongNameOfMoreThanThirtyTwoByteS_", "SeventeenLettersX", "AVeryLongName"]),
    ("Many", ["%s%s%d" % (c, c.lower() * (k % 3), k) for k in range(5) for c in "ABCDEF"]),
]


def low(s):
    return s.lower()


class NE:
    def __init__(self, name, names, discs=None):
        self.name, self.rust = name, names
        self.names = [n[2:] if n.startswith("r#") else n for n in names]
        self.discs = discs or list(range(len(names)))

    def decl(self):
        return "#[derive(PrimitiveEnum_u8, Clone, Copy, Debug, PartialEq)]\n#[allow(non_camel_case_types)]\npub enum %s { %s }\n" % (
            self.name, ", ".join("%s = %d" % x for x in zip(self.rust, self.discs)))

    def index(self, x):
        return "match %s { %s }" % (x, " ".join("%s::%s => %du8," % (self.name, n, k) for k, n in enumerate(self.rust)))

    def pick(self, x):
        return "match %s { %s _ => %s::%s }" % (x, " ".join("%d => %s::%s," % (k, self.name, n) for k, n in enumerate(self.rust[:-1])),
                                              self.name, self.rust[-1])


def utf8(B):
    """whole characters of one or two bytes each"""
    lead = 0
    ok = []
    for b in B:
        two = T.land(T.bnot(T.ult(8, b, 0xC2)), T.ult(8, b, 0xE0))
        ok.append(T.ite(1, lead, T.eq(2, T.extract(b, 7, 6), 2), T.or_(1, T.ult(8, b, 128), two)))
        lead = T.land(T.bnot(lead), two)
    return ok + [T.bnot(lead)]


def strings(e, n):
    def match(I, names):
        r = 0
        for k in reversed(range(len(names))):
            b = names[k].encode()
            if len(b) == n:
                r = T.ite(8, T.land(*[T.eq(8, I[j], b[j]) for j in range(n)]) if n else 1, k + 1, r)
        return r

    def spec(I, O):
        ex, lo = match(I, e.names), match(I, [low(x) for x in e.names])
        return [(w, T.eq(8, O[k], x)) for k, (w, x) in enumerate(
            [("from_str", ex), ("from_str_lower", lo), ("catch-all from_str", ex), ("catch-all from_str_lower", lo)])]
    return Harness("str:%s:%d" % (e.name, n), Entry("str_%s_%d" % (e.name, n), max(n, 1), 4, """
    let s = core::str::from_utf8_unchecked(&i[..%d]);
    o[0] = match <%s as PrimitiveEnum>::from_str(s) { Some(w) => 1 + (%s), None => 0 };
    o[1] = match <%s as PrimitiveEnum>::from_str_lower(s) { Some(w) => 1 + (%s), None => 0 };
    o[2] = match <EnumCatchAll<%s> as PrimitiveEnum>::from_str(s) { Some(EnumCatchAll::Enum(w)) => 1 + (%s), Some(_) => 99, None => 0 };
    o[3] = match <EnumCatchAll<%s> as PrimitiveEnum>::from_str_lower(s) { Some(EnumCatchAll::Enum(w)) => 1 + (%s), Some(_) => 99, None => 0 };
    """ % (n, e.name, e.index("w"), e.name, e.index("w"), e.name, e.index("w"), e.name, e.index("w"))), spec,
        assume=lambda I: utf8(I[:n]), note="%s, all strings of %d bytes" % (e.names, n))


def listing(e):
    m = max(len(x.encode()) for x in e.names)
    nv = len(e.names)
    L = m + 4

    def spec(I, O):
        c = []
        for q, w in enumerate(["static display", "dynamic display", "catch-all display"]):
            o = q * (1 + L)
            for k, x in enumerate(e.names):
                b = x.encode()
                here = T.eq(8, I[0], k)
                ok = T.land(T.eq(8, O[o], len(b)), *[T.eq(8, O[o + 1 + j], b[j]) for j in range(len(b))])
                c.append(("%s of %s" % (w, x), T.or_(1, T.bnot(here), ok)))
        o = 3 * (1 + L)
        for q, w in enumerate(["static list", "dynamic list", "catch-all list"]):
            c.append((w + " length", T.eq(8, O[o], nv)))
            for k in range(nv):
                c.append(("%s entry %d" % (w, k), T.eq(8, O[o + 1 + k], k)))
            o += 1 + nv
        for w in ("names read back", "lowercase names read back"):
            c.append((w, T.eq(8, O[o], T.add(8, I[0], 1))))
            o += 1
        return c
    total = 3 * (1 + L) + 3 * (1 + nv) + 2
    b = ["    let v = %s;" % e.pick("i[0]")]
    for q, x in enumerate(["<%s as PrimitiveEnumStaticStr>::to_display_str(&v)", "&*<%s as PrimitiveEnumDynamicStr>::to_display_str(&v)",
                           "&*<EnumCatchAll<%s> as PrimitiveEnumDynamicStr>::to_display_str(&EnumCatchAll::Enum(v))"]):
        o = q * (1 + L)
        b.append("    { let s: &str = %s; o[%d] = s.len() as u8; o[%d..%d + s.len().min(%d)].copy_from_slice(&s.as_bytes()[..s.len().min(%d)]); }" % (
            x % e.name, o, o + 1, o + 1, L, L))
    o = 3 * (1 + L)
    for x, y in (("<%s as PrimitiveEnumStaticStr>::all_variants()", "*w"), ("<%s as PrimitiveEnumDynamicStr>::all_variants()", "*w"),
                 ("<EnumCatchAll<%s> as PrimitiveEnumDynamicStr>::all_variants()", None)):
        idx = e.index(y) if y else "match w { EnumCatchAll::Enum(w) => %s, EnumCatchAll::CatchAll(_) => 99 }" % e.index("*w")
        b.append("    { let a = %s; o[%d] = a.len() as u8; for (k, w) in a.iter().enumerate().take(%d) { o[%d + k] = %s; } }" % (
            x % e.name, o, nv, o + 1, idx))
        o += 1 + nv
    b.append("    { let s = <%s as PrimitiveEnumStaticStr>::to_display_str(&v); o[%d] = match %s::from_str(s) { Some(w) => 1 + (%s), None => 0 };"
             % (e.name, o, e.name, e.index("w")))
    b.append("    let l: &str = match i[0] { %s _ => %s }; o[%d] = match %s::from_str_lower(l) { Some(w) => 1 + (%s), None => 0 }; }"
             % (" ".join('%d => "%s",' % (k, low(x)) for k, x in enumerate(e.names[:-1])), '"%s"' % low(e.names[-1]), o + 1, e.name, e.index("w")))
    return Harness("names:" + e.name, Entry("names_" + e.name, 1, total, "\n".join(b)), spec, assume=lambda I: [T.ult(8, I[0], nv)],
                   note="display strings and lists of %s" % e.names)


def seeded(seed, n):
    r = random.Random("%s/names" % seed)
    out = []
    for k in range(n):
        names = []
        while len(names) < r.randint(2, 7):
            x = r.choice("ABCDEFGXYZabcz_") + "".join(r.choice("abcdeXYZ_019") for _ in range(r.randint(1, 9)))
            if names and r.random() < 0.4:
                x = names[-1] + r.choice(["a", "B", "_x", "2"])
            if len(x) > 12 or x.lower() in [y.lower() for y in names] or x.strip("_") == "" or x in ("as", "do", "fn", "if", "in"):
                continue
            names.append(x)
        ds = r.sample(range(256), len(names))
        out.append(NE("Rnd%d" % k, names, ds))
    return out


def units(tier, seed):
    th = tier == "thorough"
    n = 16 if th else 8
    us = [Unit("c10_%d" % k) for k in range(n)]
    es = [NE(a, b, list(range(3, 3 + (7 if len(b) < 30 else 2) * len(b), 7 if len(b) < 30 else 2)) if a != "Basic" else None) for a, b in SETS] + seeded(seed, 80 if th else 8)
    q = 0
    for e in es:
        m = max(len(y.encode()) for x in e.names for y in (x, low(x)))
        hs = [listing(e)] + [strings(e, k) for k in range(m + 2)]
        for h in hs:
            u = us[q % n]
            q += 1
            if e.name not in {l for l, _ in u.items}:
                u.item(e.name, e.decl())
            u.add(h)
    return us
