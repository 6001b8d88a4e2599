from families import *

BOUNDS = ("the bit formatter: all contents (symbolic) for every bit range of slices of 1-4 bytes, and boundary ranges of 9-byte slices; the "
          "display: all field values (symbolic) of 1-2 byte structures, and of longer ones (up to 12 bytes) with one field (quick: one byte of fields over 8 bits) symbolic at a time and the "
          "others seeded constants, fields of every kind up to 33 bits, all display options; the field rows of arrays up to 17 elements, of 16 fields and of fields at bits 98 to 1038; seeded structures (quick 10, thorough 80)")
TECHNIQUE = "symbolic execution of the compiled LLVM IR (formatting machinery included), text compared by SMT (z3 QF_BV)"
SINK = """
pub struct Sink<'a> { pub o: &'a mut [u8] }
impl<'a> core::fmt::Write for Sink<'a> {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        let n = u16::from_le_bytes([self.o[0], self.o[1]]) as usize;
        if n + s.len() + 2 > self.o.len() { return Err(core::fmt::Error); }
        self.o[2 + n..2 + n + s.len()].copy_from_slice(s.as_bytes());
        let m = ((n + s.len()) as u16).to_le_bytes();
        self.o[0] = m[0]; self.o[1] = m[1];
        Ok(())
    }
}
"""


def decimal(v, w, signed=False):
    """alternatives (condition, characters) of the decimal text of v"""
    if type(v) is int:
        s = str(T.sgn(v, w) if signed else v)
        return [(1, [ord(c) for c in s])]
    out = []
    W = w + 1
    x = T.zext(w, W, v)
    cases = [(1, x, [])]
    if signed:
        n = T.extract(v, w - 1, w - 1)
        cases = [(T.bnot(n), x, []), (n, T.sub(W, 0, T.sext(w, W, v)), [45])]
    for c0, m, pre in cases:
        digits = len(str(T.mask(w) if not signed else 1 << (w - 1)))
        for d in range(1, digits + 1):
            c = c0
            if d > 1:
                c = T.and_(1, c, T.ule(W, 10 ** (d - 1), m))
            if d < digits:
                c = T.and_(1, c, T.ult(W, m, 10 ** d))
            ch = []
            for k in reversed(range(d)):
                q = T.urem(W, T.udiv(W, m, 10 ** k), 10)
                q = T.extract(q, min(W, 8) - 1, 0)
                q = T.zext(min(W, 8), 8, q)
                ch.append(T.add(8, q, 48))
            out.append((c, pre + ch))
    return out


def hexa(b):
    def dig(n):
        return T.ite(8, T.ult(4, n, 10), T.add(8, T.zext(4, 8, n), 48), T.add(8, T.zext(4, 8, n), 55))
    hi, lo = T.extract(b, 7, 4), T.extract(b, 3, 0)
    z = T.eq(4, hi, 0)
    return [(z, [dig(lo)]), (T.bnot(z), [dig(hi), dig(lo)])]


def bits(P, a, n):
    return [(1, [T.add(8, 48, T.zext(1, 8, T.extract(P[(a + j) // 8], 7 - (a + j) % 8, 7 - (a + j) % 8))) for j in range(n)])]


def lit(s):
    return [(1, [ord(c) for c in s])]


def match(segs, text):
    """condition: the text is the concatenation of the segments"""
    # possible positions after each segment, backwards
    memo = {}

    def go(k, pos):
        if k == len(segs):
            return int(pos == len(text))
        key = (k, pos)
        if key not in memo:
            r = 0
            for c, ch in segs[k]:
                if type(c) is int and not c or pos + len(ch) > len(text):
                    continue
                rest = go(k + 1, pos + len(ch))
                if type(rest) is int and not rest:
                    continue
                e = T.land(*([c, rest] + [T.eq(8, x, y) for x, y in zip(ch, text[pos:pos + len(ch)])]))
                r = T.or_(1, r, e)
            memo[key] = r
        return memo[key]
    return go(0, 0)


def coalesce(segs):
    out = []
    for s in segs:
        if out and len(s) == 1 and len(out[-1]) == 1 and s[0][0] == 1 and out[-1][0][0] == 1 and type(s[0][0]) is int \
                and type(out[-1][0][0]) is int:
            out[-1] = [(1, out[-1][0][1] + s[0][1])]
        else:
            out.append(s)
    return out


def value_text(k, x):
    """alternatives of the Debug text of a field of kind k given its inputs x"""
    if isinstance(k, Bool):
        b = T.extract(x[0], 0, 0)
        return [(b, lit("true")[0][1]), (T.bnot(b), lit("false")[0][1])]
    if isinstance(k, Int):
        n = nbits(k.t)
        v = T.extract(le(x), k.w - 1, 0)
        return decimal(T.sext(k.w, n, v) if k.signed else T.zext(k.w, n, v), n, k.signed)
    if isinstance(k, Prim):
        return decimal(le(x), nbits(k.t), k.signed)

    def names(sel, pre, post):
        vs = k.ty.variants
        return [(T.eq(8, sel, j), lit(pre + n + post)[0][1]) for j, (n, _) in enumerate(vs)]
    if isinstance(k, Enum):
        return names(x[0], "", "")
    if isinstance(k, CatchAll):
        c = T.extract(x[0], 0, 0)
        return ([(T.and_(1, T.bnot(c), d), ch) for d, ch in names(x[1], "Enum(", ")")] +
                [(T.and_(1, c, d), lit("CatchAll(")[0][1] + ch + [41]) for d, ch in decimal(le(x[2:]), k.ty.pw, k.ty.signed)])
    if isinstance(k, Reserved):
        return lit("Reserved - always %d" % k.one)
    raise KeyError(k)


def display_segs(s, I, opt=31):
    """text of the display; opt: bits header, decimal, hex, binary, fields"""
    S = []
    P = s.packed(I)
    if opt & 1:
        S.append(lit("%s (%d %s)\r\n\r\n" % (s.name, s.size, "byte" if s.size == 1 else "bytes")))
    for bit, title, f in ((2, "Decimal", lambda b: [decimal(b, 8)]), (4, "Hex", lambda b: [lit("0x"), hexa(b)]),
                          (8, "Binary", lambda b: [lit("0b"), bits([b], 0, 8)])):
        if opt & bit:
            S.append(lit(title + "\r\n["))
            for k in range(s.size):
                if k:
                    S.append(lit(", "))
                S += f(P[k])
            S.append(lit("]\r\n\r\n"))
    if opt & 16:
        rows = []
        for f, k, b, x in s.slices(I):
            rows.append((f.name if k is None else "%s[%d]" % (f.name, k), b, f.kind, x))
        wide = max(len(n) for n, _, _, _ in rows) + 1
        mw = max(k.w for _, _, k, _ in rows)
        for n, b, k, x in rows:
            S.append(lit("%*s" % (wide, n)))
            if mw <= 33:
                S.append(lit(" | bits %3d:%-3d | 0b" % (b, b + k.w - 1)))
                S.append(bits(P, b, k.w))
                S.append(lit(" " * (mw - k.w)))
            S.append(lit(' | "'))
            S.append(value_text(k, x))
            S.append(lit('"\r\n'))
    return coalesce(S)


def display(s, inp, tag, opt=31):
    cap = 60 + s.size * 24 + sum(len(f.elems()) for f in s.fields) * 150

    def spec(I, O):
        if type(O[0]) is not int or type(O[1]) is not int:
            raise Exception("symbolic text length")
        n = O[0] | O[1] << 8
        return [("text", match(display_segs(s, I, opt), O[2:2 + n]))]
    if opt == 31:
        call = 'core::fmt::Write::write_fmt(&mut w, format_args!("{}", v))'
    else:
        call = """{ let mut d = packed_struct::debug_fmt::PackedStructDisplay::new(&v);
        d.header = %s; d.raw_decimal = %s; d.raw_hex = %s; d.raw_binary = %s; d.fields = %s;
        core::fmt::Write::write_fmt(&mut w, format_args!("{}", d)) }""" % tuple(
            "true" if opt >> k & 1 else "false" for k in range(5))
    return Harness("display:%s:%s" % (s.name, tag), Entry("d_%s_%d" % (s.name, opt), s.nin, cap, """
    let v = %s;
    let mut w = Sink { o: &mut o[..] };
    let _ = %s;""" % (s.build(0), call)), spec, inp=inp, assume=s.assume, note=s.brief(), symptr=True, apart=(0, 1))


def small():
    F = lambda nm, k, p, cnt=None, e="msb": Field(nm, k, p, cnt, endian=e, own_endian=e if k.endian_matters and k.w > 8 else None)

    def S(name, size, fs):
        for f in fs:
            w = f.kind.w * (f.count or 1)
            f.attr = 'bits="%d..=%d"' % (f.start, f.start + w - 1)
        return Struct(name, size, fs)
    return [
        S("DspA", 1, [F("a", Int(3, False), 0), F("flag", Bool(1), 3), F("c", Int(4, True), 4)]),
        S("DspB", 1, [F("m", Enum(ENUMS[0], 3), 1), F("z", Reserved(True, 2), 4), F("q", Int(2, False), 6)]),
        S("DspC", 2, [F("first_field", Int(11, False), 2, e="lsb"), F("x", Bool(1), 15)]),
        S("DspD", 1, [F("b", Bool(1), 0, 3), F("n", Int(2, True), 3, 2)]),
        S("DspE", 1, [F("k", CatchAll(ENUMS[0], 4), 2)]),
        S("DspF", 2, [F("v", Prim(8, True), 0), F("w", Prim(8, False), 8)]),
        S("DspG", 5, [F("big", Int(33, False), 3), F("s", Bool(1), 39)]),
        S("DspH", 6, [F("big", Int(34, True), 3), F("s", Bool(1), 47)]),
        S("DspI", 12, [F("a", Prim(16, False), 0, 3), F("b", Prim(32, True), 56, e="lsb"), F("c", Bool(1), 95)]),
    ]


def rows():
    F = lambda nm, k, p, cnt=None: Field(nm, k, p, cnt)

    def S(name, size, fs):
        for f in fs:
            f.attr = 'bits="%d..=%d"' % (f.start, f.start + f.kind.w * (f.count or 1) - 1)
        return Struct(name, size, fs)
    return [
        S("RowA", 3, [F("fl", Bool(1), 1, 17), F("n", Int(5, True), 18)]),
        S("RowB", 17, [F("a_rather_long_field_name", Prim(8, False), 0, 16), F("q", Int(7, False), 129)]),
        S("RowC", 130, [F("early", Int(3, False), 98), F("mid", Bool(1), 1000), F("late", Prim(8, True), 1031)]),
        S("RowD", 12, [F("p", Int(7, True), 1, 12), F("z", Bool(1), 95)]),
        S("RowE", 4, [F("q%d" % j, Int(1 + j % 2, False), 2 * j) for j in range(16)]),
    ]


def bitfmt(size, a, b):
    def spec(I, O):
        n = O[0] | O[1] << 8
        return [("length", int(n == b - a + 1)), ("text", match([bits(I, a, b - a + 1)], O[2:2 + n]))]
    return Harness("bits:%d:%d-%d" % (size, a, b), Entry("bf_%d_%d_%d" % (size, a, b), size, 4 + b - a + 1, """
    let mut w = Sink { o: &mut o[..] };
    let r = %d..%d;
    let d = packed_struct::debug_fmt::DebugBinaryByteSlice { bits: &r, slice: &i[..] };
    let _ = core::fmt::Write::write_fmt(&mut w, format_args!("{:b}", d));""" % (a, b)), spec,
        note="bits %d to %d of %d bytes" % (a, b, size), symptr=True, apart=(0, 1))


def units(tier, seed):
    th = tier == "thorough"
    n = 32 if th else 16
    us = [Unit("c20_%d" % k) for k in range(n)]
    for u in us:
        u.item("sink", SINK)
    k = 0
    for size in (1, 2, 3, 4):
        for a in range(8 * size):
            for b in range(a, 8 * size):
                if size < 4 and b < 8 * (size - 1):
                    continue
                k += 1
                us[k % n].add(bitfmt(size, a, b))
    for a, b in ((0, 71), (1, 70), (7, 64), (8, 63), (63, 64), (71, 71), (40, 72 - 1), (65, 69)):
        k += 1
        us[k % n].add(bitfmt(9, a, b))
    rng = random.Random("c20/%s" % seed)
    full = small()
    for s in full:
        k += 1
        u = us[k % n]
        add_struct(u, s)
        if s.size <= 2:
            u.add(display(s, None, "all"))
            for opt in (0, 1, 2, 4, 8, 16, 15, 30, 21) if s.name == "DspA" or th else ():
                u.add(display(s, None, "opt%d" % opt, opt))
    # long arrays, and positions and names of more digits: the field rows alone
    for s in rows():
        k += 1
        u = us[k % n]
        add_struct(u, s)
        o = 0
        for f in s.fields:
            es = [e for e, _ in f.elems()]
            for e in es:
                m = f.kind.nin
                if e is None or th or e in (es[0], es[9], es[10], es[-1]):
                    u.add(display(s, [None if o <= j < o + m else rng.randrange(256) for j in range(s.nin)],
                                  "%s%s" % (f.name, "" if e is None else "_%d" % e), 16))
                o += m
    big = [s for s in full if s.size > 2]
    big += randoms(seed, "D", 80 if th else 10, kinds=("int", "bool", "enum", "catch", "prim", "res", "int"), maxbits=70, nfields=(2, 5))
    for s in big:
        k += 1
        u = us[k % n]
        add_struct(u, s)
        o = 0
        for f in s.fields:
            for e, _ in f.elems():
                m = f.kind.nin
                lim = 16 if th else 8
                small_ = nbits(f.kind.t) <= lim if isinstance(f.kind, Prim) else f.kind.ty.pw <= lim if isinstance(f.kind, CatchAll) else True
                if m and (th or e in (None, 0, 1)):
                    # small fields entirely symbolic, of larger ones one byte at a time
                    for sub in [range(m)] if small_ else [[j] for j in range(m) if j * 8 < f.kind.w + 8]:
                        inp = []
                        for g in s.fields:
                            for _ in g.elems():
                                for j in range(g.kind.nin):
                                    v = rng.randrange(256)
                                    if isinstance(g.kind, Enum) or isinstance(g.kind, CatchAll) and j == 1:
                                        v = rng.randrange(len(g.kind.ty.variants))
                                    inp.append(v)
                        for j in sub:
                            inp[o + j] = None
                        u.add(display(s, inp, "%s%s%s" % (f.name, "" if e is None else "_%d" % e, "" if small_ else "+%d" % sub[0])))
                o += m
    return us
