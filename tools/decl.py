"""Declaration families and their wire layout, written independently of the derive macro.

Everything here is the specification side: from a declaration it computes
which bits of the packed bytes hold which bits of which field, as terms.
"""
from llsym import terms as T
from driver import Entry, Harness, Unit

PRELUDE = """
fn st(e: &PackingError) -> u8 {
    match *e {
        PackingError::InvalidValue => 1,
        PackingError::BitsError => 2,
        PackingError::BufferTooSmall => 3,
        PackingError::NotImplemented => 4,
        PackingError::InstanceRequiredForSize => 5,
        PackingError::MoreThanOneDynamicType => 6,
        PackingError::BufferSizeMismatch { .. } => 7,
        PackingError::BufferModMismatch { .. } => 8,
        PackingError::SliceIndexingError { .. } => 9,
        PackingError::InternalError => 10,
    }
}
"""


def native(w, signed):
    n = 8 if w <= 8 else 16 if w <= 16 else 32 if w <= 32 else 64
    return ("i" if signed else "u") + str(n)


def nbits(t):
    return int(t[1:])


def le(bs):
    """little-endian bytes -> term"""
    return T.concat(*[(x, 8) for x in reversed(bs)])


def le_bytes(v, w):
    return [T.extract(v, 8 * k + 7, 8 * k) for k in range(w // 8)]


def wire(v, w, endian):
    """bits of a w-bit value in wire order (first bit on the wire = most significant)"""
    if endian == "msb" or w <= 8:
        return v
    full, r = divmod(w, 8)
    parts = [(T.extract(v, 8 * k + 7, 8 * k), 8) for k in range(full)]
    if r:
        parts.append((T.extract(v, w - 1, w - r), r))
    return T.concat(*parts)


def unwire(x, w, endian):
    if endian == "msb" or w <= 8:
        return x
    full, r = divmod(w, 8)
    parts = []
    if r:
        parts.append((T.extract(x, r - 1, 0), r))
    for k in reversed(range(full)):
        hi = w - 1 - 8 * k
        parts.append((T.extract(x, hi, hi - 7), 8))
    return T.concat(*parts)


def rd(t, o):
    n = nbits(t) // 8
    return "%s::from_le_bytes([%s])" % (t, ", ".join("i[%d]" % (o + k) for k in range(n)))


def wr(t, expr, o):
    n = nbits(t) // 8
    return "o[%d..%d].copy_from_slice(&(%s).to_le_bytes());" % (o, o + n, expr)


class Prim:
    """plain primitive integer, w of its bits"""
    endian_matters = True

    def __init__(self, w, signed):
        self.w, self.signed = w, signed
        self.t = native(w, signed)
        self.rust = self.t
        self.nin = self.nout = nbits(self.t) // 8

    def decode(self, o):
        return rd(self.t, o)

    def assume(self, I):
        return []

    def value(self, I):
        return T.extract(le(I), self.w - 1, 0)

    def encode(self, x, o):
        return wr(self.t, x, o)

    def valid(self, v):
        return 1

    def exact(self, I):
        """does unpack(pack(x)) compare equal to x"""
        got = self.out(self.value(I))
        return T.land(*[T.eq(8, a, b) for a, b in zip(got, I)])

    def out(self, v):
        n = nbits(self.t)
        v = T.sext(self.w, n, v) if self.signed else T.zext(self.w, n, v)
        return le_bytes(v, n)


class Int(Prim):
    """Integer<T, Bits<N>>; constructed from an arbitrary native value"""

    def __init__(self, w, signed, spelling=0):
        Prim.__init__(self, w, signed)
        self.rust = "Integer<%s, %s>" % (self.t, ["packed_bits::Bits::<%d>", "Bits<%d>", "packed_bits::Bits<%d>"][spelling] % w
                                         if spelling != 1 else "packed_bits::Bits::<%d>" % w)

    def decode(self, o):
        return "%s.into()" % rd(self.t, o)

    def exact(self, I):
        return 1

    def encode(self, x, o):
        return wr(self.t, "*(%s)" % x, o)


class Bool:
    endian_matters = False
    rust = "bool"
    nin = nout = 1

    def __init__(self, w=1):
        self.w = w

    def decode(self, o):
        return "i[%d] & 1 != 0" % o

    def assume(self, I):
        return []

    def value(self, I):
        return T.zext(1, self.w, T.extract(I[0], 0, 0))

    def encode(self, x, o):
        return "o[%d] = (%s) as u8;" % (o, x)

    def valid(self, v):
        return T.ult(self.w, v, 2) if self.w > 1 else 1

    def exact(self, I):
        return 1

    def out(self, v):
        return [T.zext(1, 8, T.extract(v, 0, 0))]


class EnumTy:
    def __init__(self, name, prim, variants, derive=None, implicit=False):
        self.name, self.prim, self.variants = name, prim, variants
        self.signed = prim[0] == "i"
        self.pw = nbits(prim)
        self.derive = derive or ("PrimitiveEnum_%s" % prim)
        self.implicit = implicit

    def decl(self):
        return ("#[derive(PrimitiveEnum%s, Clone, Copy, Debug, PartialEq)]\npub enum %s { %s }\n" % (
            "" if self.implicit else "_" + self.prim, self.name,
            ", ".join("%s = %d" % (n, d) if d is not None else n for n, d in self.variants)))

    def discs(self):
        out = []
        d = -1
        for n, v in self.variants:
            d = v if v is not None else d + 1
            out.append(d)
        return out

    def pick(self, sel):
        """Rust match from selector byte to variant"""
        names = [n for n, _ in self.variants]
        return "match %s { %s _ => %s::%s }" % (
            sel, " ".join("%d => %s::%s," % (k, self.name, n) for k, n in enumerate(names[:-1])), self.name, names[-1])

    def index(self, x):
        return "match %s { %s }" % (x, " ".join("%s::%s => %du8," % (self.name, n, k)
                                                for k, (n, _) in enumerate(self.variants)))

    def value_of(self, sel, w):
        ds = self.discs()
        v = ds[-1] & T.mask(w)
        for k in reversed(range(len(ds) - 1)):
            v = T.ite(w, T.eq(8, sel, k), ds[k] & T.mask(w), v)
        return v

    def known(self, p):
        """p: value of the primitive (pw bits)"""
        r = 0
        for d in self.discs():
            r = T.or_(1, r, T.eq(self.pw, p, d & T.mask(self.pw)))
        return r

    def index_of(self, p):
        ds = self.discs()
        v = len(ds) - 1
        for k in reversed(range(len(ds) - 1)):
            v = T.ite(8, T.eq(self.pw, p, ds[k] & T.mask(self.pw)), k, v)
        return v

    def prim_of(self, v, w):
        return T.sext(w, self.pw, v) if self.signed else T.zext(w, self.pw, v)


class Enum:
    endian_matters = True
    nin = nout = 1

    def __init__(self, ty, w):
        self.ty, self.w = ty, w
        self.rust = ty.name

    def decode(self, o):
        return self.ty.pick("i[%d]" % o)

    def assume(self, I):
        return [T.ult(8, I[0], len(self.ty.variants))]

    def value(self, I):
        return self.ty.value_of(I[0], self.w)

    def encode(self, x, o):
        return "o[%d] = %s;" % (o, self.ty.index(x))

    def valid(self, v):
        return self.ty.known(self.ty.prim_of(v, self.w))

    def exact(self, I):
        return 1

    def out(self, v):
        return [self.ty.index_of(self.ty.prim_of(v, self.w))]


class CatchAll:
    """EnumCatchAll<E>: selector byte (0 = Enum, else CatchAll), variant byte, raw value"""
    endian_matters = True

    def __init__(self, ty, w):
        self.ty, self.w = ty, w
        self.rust = "EnumCatchAll<%s>" % ty.name
        self.pb = ty.pw // 8
        self.nin = 2 + self.pb
        self.nout = 2 + self.pb

    def decode(self, o):
        return "if i[%d] & 1 == 0 { EnumCatchAll::Enum(%s) } else { EnumCatchAll::CatchAll(%s) }" % (
            o, self.ty.pick("i[%d]" % (o + 1)), rd(self.ty.prim, o + 2))

    def assume(self, I):
        return [T.ult(8, I[1], len(self.ty.variants))]

    def value(self, I):
        raw = T.extract(le(I[2:]), self.w - 1, 0)
        return T.ite(self.w, T.extract(I[0], 0, 0), raw, self.ty.value_of(I[1], self.w))

    def encode(self, x, o):
        return ("match %s { EnumCatchAll::Enum(e) => { o[%d] = 0; o[%d] = %s; let p = e.to_primitive(); %s } "
                "EnumCatchAll::CatchAll(p) => { o[%d] = 1; o[%d] = 0; %s } }" % (
                    x, o, o + 1, self.ty.index("e"), wr(self.ty.prim, "p", o + 2), o, o + 1,
                    wr(self.ty.prim, "p", o + 2)))

    def valid(self, v):
        return 1

    def exact(self, I):
        p = self.ty.prim_of(T.extract(le(I[2:]), self.w - 1, 0), self.w)
        return T.or_(1, T.bnot(T.extract(I[0], 0, 0)), T.eq(self.ty.pw, p, le(I[2:])))

    def out(self, v):
        p = self.ty.prim_of(v, self.w)
        k = self.ty.known(p)
        return [T.zext(1, 8, T.bnot(k)), T.ite(8, k, self.ty.index_of(p), 0)] + le_bytes(p, self.ty.pw)


class Reserved:
    endian_matters = False
    nin = nout = 0

    def __init__(self, one, w, plural=False):
        self.one, self.w = one, w
        self.rust = "Reserved%s<packed_bits::Bits::<%d>>" % (
            ("Ones" if one else "Zeroes") if plural else ("One" if one else "Zero"), w)

    def decode(self, o):
        return "Default::default()"

    def assume(self, I):
        return []

    def value(self, I):
        return T.mask(self.w) if self.one else 0

    def encode(self, x, o):
        return ""

    def valid(self, v):
        return 1

    def exact(self, I):
        return 1

    def out(self, v):
        return []


class Nested:
    """a derived struct that fills whole bytes, used as a field"""
    endian_matters = False

    def __init__(self, s):
        self.s = s
        self.w = s.size * 8
        self.rust = s.name
        self.nin = s.nin
        self.nout = s.nout

    def decode(self, o):
        return self.s.build(o)

    def assume(self, I):
        return self.s.assume(I)

    def value(self, I):
        return T.concat(*[(b, 8) for b in self.s.packed(I)])

    def encode(self, x, o):
        return "{ let n = &(%s); %s }" % (x, self.s.emit("n", o))

    def valid(self, v):
        return self.s.valid([T.extract(v, 8 * k + 7, 8 * k) for k in reversed(range(self.s.size))])

    def exact(self, I):
        return self.s.exact(I)

    def out(self, v):
        return self.s.fields_out([T.extract(v, 8 * k + 7, 8 * k) for k in reversed(range(self.s.size))])


class Field:
    """start: msb0 index of the first bit; count: None (scalar) or array length"""

    def __init__(self, name, kind, start, count=None, endian=None, attr=None, own_endian=None):
        self.name, self.kind, self.start, self.count = name, kind, start, count
        self.endian = endian          # effective endianness
        self.attr = attr              # positioning attribute text, or None for auto
        self.own_endian = own_endian  # endian attribute spelled on the field

    @property
    def width(self):
        return self.kind.w * (self.count or 1)

    @property
    def rust(self):
        return self.kind.rust if self.count is None else "[%s; %d]" % (self.kind.rust, self.count)

    def elems(self):
        """(index or None, first bit)"""
        if self.count is None:
            return [(None, self.start)]
        return [(k, self.start + k * self.kind.w) for k in range(self.count)]


class Struct:
    def __init__(self, name, size, fields, numbering="msb0", endian="msb", size_attr=True, pub="pub ", extra="",
                 derives="Debug, Clone, PartialEq", vis="pub "):
        self.name, self.size, self.fields = name, size, fields
        self.numbering, self.endian, self.size_attr = numbering, endian, size_attr
        self.extra = extra
        self.derives = derives
        self.nin = sum(f.kind.nin * (f.count or 1) for f in fields)
        self.nout = sum(f.kind.nout * (f.count or 1) for f in fields)

    def decl(self):
        at = []
        if self.numbering:
            at.append('bit_numbering="%s"' % self.numbering)
        if self.endian:
            at.append('endian="%s"' % self.endian)
        if self.size_attr:
            at.append('size_bytes="%s"' % (self.size_attr if type(self.size_attr) is str else self.size))
        out = ["#[derive(PackedStruct, %s)]\n" % self.derives if self.derives else "#[derive(PackedStruct)]\n"]
        if at:
            out.append("#[packed_struct(%s)]\n" % ", ".join(at))
        out.append("pub struct %s {\n" % self.name)
        for f in self.fields:
            a = []
            if f.attr:
                a.append(f.attr)
            if isinstance(f.kind, (Enum, CatchAll)):
                a.append('ty="enum"')
            if f.own_endian:
                a.append('endian="%s"' % f.own_endian)
            if a:
                out.append("    #[packed_field(%s)]\n" % ", ".join(a))
            out.append("    pub %s: %s,\n" % (f.name, f.rust))
        out.append("}\n")
        return "".join(out)

    # ---- Rust side
    def build(self, o):
        parts = []
        for f in self.fields:
            if f.count is None:
                parts.append("%s: %s" % (f.name, f.kind.decode(o)))
                o += f.kind.nin
            else:
                es = []
                for _ in range(f.count):
                    es.append(f.kind.decode(o))
                    o += f.kind.nin
                parts.append("%s: [%s]" % (f.name, ", ".join(es)))
        return "%s { %s }" % (self.name, ", ".join(parts))

    def emit(self, x, o):
        out = []
        for f in self.fields:
            for k, _ in f.elems():
                e = "%s.%s" % (x, f.name) if k is None else "%s.%s[%d]" % (x, f.name, k)
                out.append(f.kind.encode(e, o))
                o += f.kind.nout
        return "\n        ".join(out)

    # ---- specification side
    def slices(self, I):
        o = 0
        for f in self.fields:
            for k, b in f.elems():
                yield f, k, b, I[o:o + f.kind.nin]
                o += f.kind.nin

    def assume(self, I):
        r = []
        for f, k, b, x in self.slices(I):
            r += f.kind.assume(x)
        return r

    def exact(self, I):
        return T.land(*[f.kind.exact(x) for f, k, b, x in self.slices(I)])

    def packed(self, I):
        """expected packed bytes for the field inputs I"""
        bits = [0] * (self.size * 8)
        for f, k, b, x in self.slices(I):
            w = f.kind.w
            v = wire(f.kind.value(x), w, f.endian if f.kind.endian_matters else "msb")
            for j in range(w):
                bits[b + j] = T.extract(v, w - 1 - j, w - 1 - j)
        return [T.concat(*[(bits[8 * n + j], 1) for j in range(8)]) for n in range(self.size)]

    def field_values(self, P):
        for f in self.fields:
            for k, b in f.elems():
                w = f.kind.w
                x = T.concat(*[(T.extract(P[(b + j) // 8], 7 - (b + j) % 8, 7 - (b + j) % 8), 1) for j in range(w)])
                yield f, k, unwire(x, w, f.endian if f.kind.endian_matters else "msb")

    def valid(self, P):
        return T.land(*[f.kind.valid(v) for f, k, v in self.field_values(P)])

    def fields_out(self, P):
        out = []
        for f, k, v in self.field_values(P):
            out += f.kind.out(v)
        return out

    def covered(self):
        """per byte: mask of bits that belong to some field"""
        m = [0] * self.size
        for f in self.fields:
            for j in range(f.start, f.start + f.width):
                m[j // 8] |= 0x80 >> (j % 8)
        return m

    def masks_stored(self):
        """per byte: mask of bits whose value is kept (not reserved)"""
        m = [0] * self.size
        for f in self.fields:
            if isinstance(f.kind, Reserved):
                continue
            inner = f.kind.s.masks_stored() if isinstance(f.kind, Nested) else None
            for j in range(f.width):
                i = j % f.kind.w
                if inner is not None and not inner[i // 8] & (0x80 >> (i % 8)):
                    continue
                b = f.start + j
                m[b // 8] |= 0x80 >> (b % 8)
        return m

    # ---- entries
    def e_pack(self):
        return Entry("pack_" + self.name, self.nin, 1 + self.size,
                     "    let v = %s;\n    match v.pack() { Ok(p) => { o[1..].copy_from_slice(&p[..]); } Err(e) => { o[0] = st(&e); } }"
                     % self.build(0))

    def e_unpack(self, repack=False):
        n = 1 + self.nout + ((1 + self.size) if repack else 0)
        body = "    match %s::unpack(i) { Ok(v) => { %s\n" % (self.name, self.emit("v", 1))
        if repack:
            body += "    match v.pack() { Ok(p) => { o[%d..].copy_from_slice(&p[..]); } Err(e) => { o[%d] = st(&e); } }\n" % (
                2 + self.nout, 1 + self.nout)
        body += "    } Err(e) => { o[0] = st(&e); } }"
        return Entry(("repack_" if repack else "unpack_") + self.name, self.size, n, body)

    def e_rt(self):
        return Entry("rt_" + self.name, self.nin, 3 + self.nout,
                     "    let v = %s;\n    match v.pack() { Ok(p) => { match %s::unpack(&p) { Ok(u) => { o[2] = (u == v) as u8; %s }\n"
                     "    Err(e) => { o[1] = st(&e); } } } Err(e) => { o[0] = st(&e); } }"
                     % (self.build(0), self.name, self.emit("u", 3)))

    # ---- harnesses
    def h_pack(self, **kw):
        s = self

        def spec(I, O):
            exp = s.packed(I)
            c = [("pack succeeds", T.eq(8, O[0], 0))]
            for k in range(s.size):
                c.append(("byte %d" % k, T.eq(8, O[1 + k], exp[k])))
            return c
        return Harness("pack:" + self.name, self.e_pack(), spec, assume=self.assume, note=self.brief(), **kw)

    def h_unpack(self, **kw):
        s = self

        def spec(P, O):
            ok = s.valid(P)
            exp = s.fields_out(P)
            c = [("accepted iff valid", T.eq(8, O[0], T.ite(8, ok, 0, 1)))]
            bad = T.bnot(ok)
            for k in range(s.nout):
                c.append(("value byte %d" % k, T.or_(1, bad, T.eq(8, O[1 + k], exp[k]))))
            return c
        return Harness("unpack:" + self.name, self.e_unpack(), spec, note=self.brief(), **kw)

    def h_repack(self, **kw):
        s = self

        def spec(P, O):
            ok = s.valid(P)
            bad = T.bnot(ok)
            m = s.masks_stored()
            fx = s.reserved_bytes()
            c = [("accepted iff valid", T.eq(8, O[0], T.ite(8, ok, 0, 1))),
                 ("repack succeeds", T.or_(1, bad, T.eq(8, O[1 + s.nout], 0)))]
            for k in range(s.size):
                exp = T.or_(8, T.and_(8, P[k], m[k]), fx[k])
                c.append(("repacked byte %d" % k, T.or_(1, bad, T.eq(8, O[2 + s.nout + k], exp))))
            return c
        return Harness("repack:" + self.name, self.e_unpack(True), spec, note=self.brief(), **kw)

    def reserved_bytes(self):
        m = [0] * self.size
        for f in self.fields:
            if isinstance(f.kind, Reserved):
                if f.kind.one:
                    for j in range(f.start, f.start + f.width):
                        m[j // 8] |= 0x80 >> (j % 8)
            if isinstance(f.kind, Nested):
                n = f.kind.s
                base = n.reserved_bytes()
                for k, b in f.elems():
                    for j in range(n.size * 8):
                        bit = b + j
                        inner = 0x80 >> (j % 8)
                        if base[j // 8] & inner:
                            m[bit // 8] |= 0x80 >> (bit % 8)
        return m

    def h_rt(self, **kw):
        s = self

        def spec(I, O):
            P = s.packed(I)
            exp = s.fields_out(P)
            c = [("pack succeeds", T.eq(8, O[0], 0)), ("unpack succeeds", T.eq(8, O[1], 0)),
                 ("equal", T.eq(8, O[2], T.ite(8, s.exact(I), 1, 0)))]
            for k in range(s.nout):
                c.append(("value byte %d" % k, T.eq(8, O[3 + k], exp[k])))
            return c
        return Harness("roundtrip:" + self.name, self.e_rt(), spec, assume=self.assume, note=self.brief(), **kw)

    def brief(self):
        return "%d bytes %s/%s: " % (self.size, self.numbering, self.endian) + "; ".join(
            "%s %s @%d+%d%s" % (f.name, f.rust, f.start, f.width, "" if not f.kind.endian_matters else " " + str(f.endian))
            for f in self.fields)


def enums_of(s):
    out = {}
    for f in s.fields:
        if isinstance(f.kind, (Enum, CatchAll)):
            out[f.kind.ty.name] = f.kind.ty
        if isinstance(f.kind, Nested):
            out.update(enums_of(f.kind.s))
    return out


def nested_of(s):
    out = {}
    for f in s.fields:
        if isinstance(f.kind, Nested):
            out.update(nested_of(f.kind.s))
            out[f.kind.s.name] = f.kind.s
    return out


def add_struct(u, s, done=None):
    """declare s (and what it uses) in unit u"""
    have = {l for l, _ in u.items}
    if "prelude" not in have:
        u.item("prelude", PRELUDE)
    for n, e in enums_of(s).items():
        if n not in have:
            u.item(n, e.decl())
    for n, x in nested_of(s).items():
        if n not in have:
            u.item(n, x.decl())
    if s.name not in have:
        u.item(s.name, s.decl())


def spread(name, structs, mk, n=8, variant="std"):
    """distribute structs over n units; mk(s) -> list of harnesses"""
    n = min(n + n // 2, max(1, len(structs) // 12)) if n < 32 else n
    units = [Unit("%s_%d" % (name, k), variant) for k in range(n)]
    load = [0] * n
    for k, s in sorted(enumerate(structs), key=lambda x: -x[1].nin):
        i = min(range(n), key=lambda j: load[j])
        u = units[i]
        add_struct(u, s)
        for h in mk(s):
            u.add(h)
            load[i] += 8 + s.nin + s.size + s.nout
    return [u for u in units if u.harnesses]
