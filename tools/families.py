"""Systematic and seeded-random declaration families."""
import random
from decl import *

KEEP = object()


def cls(w):
    return 8 if w <= 8 else 16 if w <= 16 else 32 if w <= 32 else 64


def lsb_range(size, a, w):
    t = size * 8 - 1
    return t - (a + w - 1), t - a


def spell(rng, a, b, allow_bytes=True):
    """an attribute text for the inclusive bit range a..b (a <= b)"""
    if allow_bytes and a % 8 == 0 and b % 8 == 7 and rng.random() < 0.4:
        x, y = a // 8, b // 8
        o = ['bytes="%d..=%d"' % (x, y), 'bytes="%d:%d"' % (x, y), 'bytes="%d:%d"' % (x, y), 'bytes="0x%x:0x%X"' % (x, y)]
        if x == y:
            o += ['bytes="%d"' % x] * 2
        return rng.choice(o)
    o = ['bits="%d..=%d"' % (a, b), 'bits="%d:%d"' % (a, b), 'bits="%d:%d"' % (b, a), 'bits="%d..%d"' % (a, b + 1),
         'bits="%d..=%d"' % (b, a), 'bits="0x%x..=0x%X"' % (a, b), 'bits=" %d : %d "' % (a, b)]
    if a == b:
        o += ['bits="%d"' % a] * 4
    return rng.choice(o)


def single(w, off, signed, endian, kind="int", tail=0, numbering="msb0"):
    size = (off + w + 7) // 8 + tail
    nm = "S_%s%d_o%d_%s_%s%s%s" % ("i" if signed else "u", w, off, endian, kind, "_t%d" % tail if tail else "",
                                 "_l" if numbering == "lsb0" else "")
    k = Int(w, signed) if kind == "int" else Prim(w, signed)
    if numbering == "msb0":
        attr = 'bits="%d..=%d"' % (off, off + w - 1)
    else:
        attr = 'bits="%d..=%d"' % lsb_range(size, off, w)
    f = Field("a", k, off, endian=endian, attr=attr)
    return Struct(nm, size, [f], numbering=numbering, endian=endian)


def filler(name, start, w, signed=False):
    """a neighbour of any width, as an integer field"""
    return Field(name, Int(w, signed), start, endian="msb", attr='bits="%d..=%d"' % (start, start + w - 1))


def sandwich(w, off, signed, endian, kind="int", numbering="msb0", order=0, make=None, tag=""):
    """the field with neighbours on both sides that fill the bytes completely; declared in one of several orders"""
    end = off + w
    size = (end + 7) // 8
    post = size * 8 - end
    k = make() if make else (Int(w, signed) if kind == "int" else Prim(w, signed))
    fs = []

    def at(a, n):
        return 'bits="%d..=%d"' % ((a, a + n - 1) if numbering == "msb0" else lsb_range(size, a, n))
    if off:
        fs.append(Field("pre", Int(off, False), 0, endian=endian, attr=at(0, off)))
    fs.append(Field("a", k, off, endian=endian, attr=at(off, w)))
    if post:
        fs.append(Field("post", Int(post, False), end, endian=endian, attr=at(end, post)))
    if order == 1:
        fs.reverse()
    elif order == 2 and len(fs) == 3:
        fs = [fs[1], fs[2], fs[0]]
    nm = "N_%s%d_o%d_%s_%s_%d%s%s" % ("i" if signed else "u", w, off, endian, kind, order,
                                    "_l" if numbering == "lsb0" else "", tag)
    return Struct(nm, size, fs, numbering=numbering, endian=endian)


ENUMS = [
    EnumTy("E3", "u8", [("A", 0), ("B", 1), ("C", 2), ("D", 5), ("E", 7)]),
    EnumTy("E2", "u8", [("P", None), ("Q", None), ("R", None)]),
    EnumTy("E2f", "u8", [("P", 3), ("Q", 0), ("R", 1), ("S", 2)]),
    EnumTy("E8", "u8", [("Lo", 0), ("Mid", 100), ("Next", None), ("Hi", 255)]),
    EnumTy("N3", "i8", [("M", -4), ("N", -1), ("Z", 0), ("P", 3)]),
    EnumTy("N8", "i8", [("Min", -128), ("Nxt", None), ("Zero", 0), ("Max", 127)]),
    EnumTy("E10", "u16", [("A", 1), ("B", 256), ("C", 511), ("D", 300)]),
    EnumTy("N12", "i16", [("A", -2048), ("B", -1), ("C", 2047), ("D", 5)]),
    EnumTy("E24", "u32", [("A", 0), ("B", 0x123456), ("C", 0x80000), ("D", 65536)]),
    EnumTy("N20", "i32", [("A", -500000), ("B", 0), ("C", 499999)]),
    EnumTy("E40", "u64", [("A", 0), ("B", 0xDEADBEEF), ("C", 0xFFFFFFFFF)]),
    EnumTy("N36", "i64", [("A", -0x700000000), ("B", -1), ("C", 0x600000000)]),
]


def enum_minw(ty):
    w = 1
    while True:
        ok = True
        for d in ty.discs():
            if ty.signed:
                if not -(1 << (w - 1)) <= d < (1 << (w - 1)):
                    ok = False
            elif d >> w:
                ok = False
        if ok and cls(w) == ty.pw:
            return w
        w += 1


class Gen:
    def __init__(self, seed, tag):
        self.rng = random.Random("%s/%s" % (seed, tag))
        self.tag = tag
        self.n = 0

    def width(self, lo=1, hi=64):
        r = self.rng
        p = r.random()
        if p < 0.45:
            return r.randint(lo, min(hi, 16))
        if p < 0.6:
            return min(hi, r.choice([8, 16, 24, 32, 40, 48, 56, 64]))
        return r.randint(lo, hi)

    def kind(self, kinds, depth):
        r = self.rng
        k = r.choice(kinds)
        if k == "int":
            return Int(self.width(), r.random() < 0.5)
        if k == "prim":
            return Prim(self.width(), r.random() < 0.5)
        if k == "full":
            return Prim(r.choice([8, 16, 32, 64]), r.random() < 0.5)
        if k == "bool":
            return Bool(1 if r.random() < 0.7 else r.randint(2, 8))
        if k in ("enum", "catch"):
            ty = r.choice(ENUMS)
            lo = enum_minw(ty)
            if k == "catch":
                lo = max(lo, 1)
            w = r.randint(lo, ty.pw)
            return Enum(ty, w) if k == "enum" else CatchAll(ty, w)
        if k == "res":
            return Reserved(r.random() < 0.5, self.width(1, 40), r.random() < 0.5)
        if k == "nest":
            s = self.struct(kinds=[x for x in kinds if x != "nest"] + (["nest"] if depth > 1 else []), maxbits=40,
                            nfields=(1, 3), depth=depth - 1, sub=True)
            return Nested(s)
        if k == "half":
            s = self.struct()
        raise KeyError(k)

    def big(self, kinds, numbering=None, endian=None):
        """a long, sparse structure: fields far from its start, long arrays, many fields"""
        r = self.rng
        numbering = numbering or r.choice(["msb0", "msb0", "lsb0", None])
        size = r.choice([33, 40, 64, 65, 100, 127, 128, 129, 160, 200, 255, 256, 257, 300, 400, 520, 1000, 1030])
        items = []
        pos = 0
        style = r.choice(["sparse", "sparse", "arrays", "many"])
        kinds = [x for x in kinds if x != "nest"] if style == "many" else list(kinds)
        nin = 0
        while len(items) < (60 if style == "many" else 9):
            k = self.kind(kinds, 1)
            cnt = None
            if not isinstance(k, Reserved) and r.random() < {"arrays": 0.6, "sparse": 0.25, "many": 0.05}[style]:
                cnt = r.choice([6, 7, 9, 10, 12, 16, 17, 20, 31, 33, 40, 64, 65, 100]) if style == "arrays" else r.randint(1, 9)
            if cnt and not isinstance(k, (Int, Prim)):
                cnt = min(cnt, 20)
            w = k.w * (cnt or 1)
            if nin + k.nin * (cnt or 1) > 420 or k.nout * (cnt or 1) > 420:
                if style == "arrays" and r.random() < 0.8:
                    continue
                break
            if numbering is not None and style == "sparse":
                c = r.random()
                if c < 0.3:         # just around a byte count that is a power of two
                    edge = 8 * r.choice([x for x in (16, 32, 64, 128, 256, 512, size) if x <= size])
                    pos = max(pos, edge - r.randint(0, w + 8))
                elif c < 0.8:
                    pos += r.choice([r.randint(0, 12), r.randint(20, 600)])
            elif numbering is not None and r.random() < 0.15:
                pos += r.randint(1, 9)
            if pos + w > 8 * size:
                break
            items.append((k, cnt, pos))
            nin += k.nin * (cnt or 1)
            pos += w
        if not items:
            return None
        return self.struct(numbering=numbering, endian=endian, items=items, bytes_=size if numbering == "lsb0" or r.random() < 0.6 or
                           pos % 8 else None)

    def struct(self, kinds=("int", "int", "prim", "full", "bool", "enum", "catch", "res", "nest"), maxbits=112,
               nfields=(2, 7), depth=1, sub=False, numbering=None, endian=None, arrays=0.3, nested_ok=True, gaps=True,
               whole=False, autos=True, items=None, bytes_=None):
        r = self.rng
        kinds = list(kinds)
        name = "R%s_%d" % (self.tag, self.n)
        self.n += 1
        numbering = numbering or r.choice(["msb0", "msb0", "msb0", "lsb0", None])
        dflt = endian or r.choice(["msb", "lsb", "be", "le"])
        want = r.randint(*nfields)
        given = items is not None
        items = items or []
        pos = 0
        if numbering is None:
            gaps = False
        if gaps and r.random() < 0.4:
            pos = r.randint(1, 9)
        guard = 40 if given else 0
        while len(items) < want and guard < 40:
            guard += 1
            k = self.kind(kinds, depth)
            cnt = None
            if r.random() < arrays and not isinstance(k, Reserved):
                cnt = r.randint(1, 5)
            w = k.w * (cnt or 1)
            if pos + w > maxbits:
                continue
            items.append((k, cnt, pos))
            pos += w
            if gaps and r.random() < 0.3:
                pos += r.randint(1, 11)
        if not items:
            items = [(Int(5, False), None, 0)]
            pos = 5
        end = max(p + k.w * (c or 1) for k, c, p in items)
        need = (end + 7) // 8
        size_attr = True
        size = need
        if numbering != "lsb0" and not sub and r.random() < 0.4 and numbering == "msb0":
            size_attr = False
        elif numbering == "msb0" and r.random() < 0.25 or numbering == "lsb0" and r.random() < 0.3:
            size = need + r.randint(0, 2)
        if numbering is None and end % 8 == 0 and r.random() < 0.6:
            size_attr = False
        if bytes_:
            size, size_attr = bytes_, True
        if size_attr is True and r.random() < 0.2:
            size_attr = "0x%x" % size
        order = list(range(len(items)))
        explicit = numbering == "lsb0"
        if numbering == "msb0" and r.random() < 0.35:
            r.shuffle(order)
        fields = []
        prev_end = None
        for n, ix in enumerate(order):
            k, cnt, p = items[ix]
            w = k.w * (cnt or 1)
            own = None
            eff = dflt
            if k.endian_matters and r.random() < 0.25:
                own = r.choice(["msb", "lsb", "be", "le"])
                eff = own
            eff = {"be": "msb", "le": "lsb"}.get(eff, eff)
            builtin = (isinstance(k, (Int, Reserved)) or isinstance(k, Bool) and k.w == 1 or
                       type(k) is Prim and k.w in (8, 16, 32, 64) and k.w == nbits(k.t))
            sz = ""
            if not builtin:
                if cnt is None or cnt == 1 and r.random() < 0.3:
                    sz = r.choice(['size_bits="%d"' % w] + (['size_bytes="%d"' % (w // 8)] if w % 8 == 0 else []))
                else:
                    sz = r.choice(['element_size_bits="%d"' % k.w] + (
                        ['element_size_bytes="%d"' % (k.w // 8)] if k.w % 8 == 0 else []))
            attr = None
            if numbering == "lsb0":
                attr = spell(r, *lsb_range(size, p, w))
            elif numbering is None:
                attr = sz or None
            else:
                auto_ok = (prev_end is None and p == 0 and (end % 8 == 0 or size_attr)) or prev_end == p
                c = r.random()
                if autos and auto_ok and c < 0.35:
                    attr = sz or None
                elif autos and c < 0.5:
                    st = r.choice(['bits="%d.."' % p, 'bits="%d:"' % p] + (
                        ['bytes="%d.."' % (p // 8), 'bytes="%d:"' % (p // 8)] if p % 8 == 0 else []))
                    attr = ", ".join(x for x in ([st, sz] if r.random() < 0.5 else [sz, st]) if x)
                else:
                    attr = spell(r, p, p + w - 1)
            prev_end = p + w
            fields.append(Field("f%d" % n, k, p, cnt, endian=eff, attr=attr, own_endian=own))
        if numbering is None:
            first_auto = True
        return Struct(name, size, fields, numbering=numbering, endian=dflt, size_attr=size_attr)


def randoms(seed, tag, n, **kw):
    g = Gen(seed, tag)
    out = []
    while len(out) < n:
        s = g.struct(**kw)
        if s.nin <= 160 and s.size <= 24 and s.nout <= 160:
            out.append(s)
    return out


def bigs(seed, tag, n, kinds=("int", "int", "prim", "full", "bool", "enum", "catch", "res", "nest"), **kw):
    g = Gen(seed, tag)
    out = []
    while len(out) < n:
        s = g.big(kinds, **kw)
        if s and s.nin <= 600 and s.nout <= 600:
            out.append(s)
    return out


EDGES = (31, 32, 63, 64, 127, 128, 255, 256, 257, 383, 511, 512, 1023, 1024, 2047, 2048)


def fars(tag, kinds, numbering="msb0", endian="msb", offs=range(8), edges=EDGES, count=None):
    """fields of one kind after another, in turn, beginning at the same bit of bytes around the powers of two"""
    out = []
    for off in offs:
        fs = []
        last = 0
        size = edges[-1] + 24
        for n, b in enumerate(edges):
            k = kinds[(n + off) % len(kinds)]
            a = 8 * b + off
            while a < last:
                a += 8
            c = count if not isinstance(k, Reserved) else None
            last = a + k.w * (c or 1)
            r = (a, last - 1) if numbering == "msb0" else lsb_range(size, a, last - a)
            fs.append(Field("f%d" % n, k, a, c, endian=endian, attr='bits="%d..=%d"' % r))
        if off % 2:
            fs.reverse()
        out.append(Struct("Far%s_%d" % (tag, off), size, fs, numbering=numbering, endian=endian))
    return out


def longs(aligned=(15, 16, 17, 31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1030),
          shifted=(9, 10, 12, 13, 14, 15, 16, 17, 18, 31, 32, 33, 63, 65, 127, 129, 255, 256, 257)):
    """structures of many bytes as fields, at and between byte boundaries"""
    out = []
    for n in sorted(set(aligned) | set(shifted)):
        if n <= 300:
            fs = [Field("a", Prim(8, False), 0, n, endian="msb", attr='bits="0..=%d"' % (8 * n - 1))]
        else:
            ps = [p for p in (0, 30, 63, 127, 200, 253, 255, 257, 400, 509, 511, 515, 800, 1022, 1026) if p + 2 <= n - 2] + [n - 2]
            fs = [Field("a%d" % p, Prim(16, False), 8 * p, endian="msb", attr='bits="%d..=%d"' % (8 * p, 8 * p + 15)) for p in ps]
        inn = Struct("Long%d" % n, n, fs)
        for off, where in ((8, aligned), (1 + n % 7, shifted)):
            if n not in where:
                continue
            post = -off % 8 or 8
            fs = [Field("p", Int(off, False), 0, endian="msb", attr='bits="0..=%d"' % (off - 1)),
                  Field("n", Nested(inn), off, endian="msb", attr='bits="%d..=%d"' % (off, off + 8 * n - 1)),
                  Field("q", Int(post, False), off + 8 * n, endian="msb", attr='bits="%d..=%d"' % (off + 8 * n, off + 8 * n + post - 1))]
            if n % 2:
                fs = [fs[2], fs[0], fs[1]]
            out.append(Struct("Has%d_%d" % (n, off), (off + 8 * n + post) // 8, fs))
    return out


def manys(tag, widths=(1, 3, 8, 9, 16), counts=(33, 127, 128, 129, 255, 256, 257, 300)):
    """arrays of many elements"""
    out = []
    for n, c in enumerate(counts):
        w = widths[n % len(widths)]
        for k in (Int(w, False), Prim(w, True) if w != 1 else Bool(1))[:1 + n % 2]:
            off = n % 8
            num = "lsb0" if n % 3 == 2 else "msb0"
            size = (off + w * c + 7) // 8
            r = (off, off + w * c - 1) if num == "msb0" else lsb_range(size, off, w * c)
            f = Field("a", k, off, c, endian="msb", attr='bits="%d..=%d"' % r)
            out.append(Struct("Many%s_%dx%d%s" % (tag, w, c, k.__class__.__name__), size, [f], numbering=num))
    return out


def huge(tag, size, fields, numbering="msb0", endian="msb", size_attr=True):
    """a structure of megabytes: the bytes from its first field on; fields: (kind, first bit)"""
    fs = []
    for n, (k, a) in enumerate(fields):
        r = (a, a + k.w - 1) if numbering == "msb0" else lsb_range(size, a, k.w)
        fs.append(Field("f%d" % n, k, a, endian=endian, attr='bits="%d..=%d"' % r))
    s = Struct("Huge" + tag, size, fs, numbering=numbering, endian=endian, size_attr=size_attr)
    lo = min(a for _, a in fields) // 8
    m = size - lo
    near = Struct("near", m, [Field(f.name, f.kind, f.start - 8 * lo, endian=endian) for f in fs], endian=endian)

    def spec(I, O):
        exp = near.packed(I)
        c = [("packs", T.eq(8, O[0], 0)), ("unpacks", T.eq(8, O[1], 0)), ("length", T.eq(32, le(O[2:6]), size)),
             ("size of the type", T.eq(32, le(O[6:10]), size))]
        c += [("byte %d" % (lo + k), T.eq(8, O[10 + k], exp[k])) for k in range(m)]
        back = near.fields_out(exp)
        return c + [("value byte %d" % k, T.eq(8, O[10 + m + k], back[k])) for k in range(s.nout)]
    return s, Harness("huge:" + s.name, Entry("h_" + s.name, s.nin, 10 + m + s.nout, """
    let v: %s = %s;
    o[0] = 1; o[1] = 1;
    o[6..10].copy_from_slice(&(core::mem::size_of::<<%s as PackedStruct>::ByteArray>() as u32).to_le_bytes());
    if let Ok(p) = v.pack() {
        o[0] = 0;
        o[2..6].copy_from_slice(&(p.len() as u32).to_le_bytes());
        o[10..10 + %d].copy_from_slice(&p[%d..]);
        if let Ok(u) = <%s as PackedStruct>::unpack(&p) { o[1] = 0; %s }
    }""" % (s.name, s.build(0), s.name, m, lo, s.name, s.emit("u", 10 + m))), spec, assume=s.assume, note=s.brief())


def collide():
    """element names must not be confused with other fields"""
    B = lambda n, p: Field(n, Prim(8, False), p * 8, endian="msb")
    return [
        Struct("Col0", 5, [Field("a", Prim(8, False), 0, 2, endian="msb"), B("a_0", 2), B("a_1", 3), B("a0", 4)], numbering=None),
        Struct("Col1", 6, [B("x_1", 0), Field("x", Prim(16, True), 8, 2, endian="msb"), B("x_0", 5)], numbering=None),
        Struct("Col2", 7, [Field("src", Prim(8, False), 0, 2, endian="msb"), B("target", 2), B("bytes", 3), B("b", 4), B("packed", 5),
                           B("res", 6)], numbering=None),
        Struct("Col3", 6, [Field("a_0", Prim(8, False), 0, 2, endian="msb"), Field("a", Prim(8, False), 16, 2, endian="msb"),
                           B("a_0_0", 4), B("a_0_1", 5)], numbering=None),
        Struct("Col4", 3, [Field("r#fn", Prim(8, False), 0, 2, endian="msb"), B("r#type", 2)], numbering=None),
    ]
