from families import *
from c16 import Ty, types, structs, of_struct
from c17 import tuple_ty

BOUNDS = ("all byte contents, field values, enum numbers and names (symbolic); every slice length from 0 to the packed size plus 3 for derived "
          "structures, wrappers of every width, primitives and arrays, 0 to two items plus 2 for vectors, vectors in tuples and nested "
          "vectors, and lengths 255-258 for vectors of bytes; seeded structures with every field kind, narrow enums and partial-byte nested "
          "structures (quick 60, thorough 600); compiled with overflow checks and debug assertions, a call that cannot return is a panic; "
          "seeded large declarations (quick 8, thorough 60) of 33-1030 bytes with up to 60 fields and arrays of up to 100 elements")


def quiet(name, entry, note):
    return Harness(name, entry, lambda I, O: [("returns a value or an error", T.ult(8, O[0], 11))], note=note)


def unpack_from(tag, rust, L, emit, nout, note=""):
    return quiet("unpack:%s:%d" % (tag, L), Entry("q_%s_%d" % (tag, L), max(L, 1), 1 + nout, """
    match <%s as PackedStructSlice>::unpack_from_slice(&i[..%d]) {
        Ok(u) => { %s }
        Err(e) => o[0] = st(&e) }""" % (rust, L, emit)), "%s from %d bytes%s" % (rust, L, note))


def pack_into(tag, rust, nin, decode, L):
    return quiet("pack:%s:%d" % (tag, L), Entry("p_%s_%d" % (tag, L), max(nin, 1), 1 + L, """
    let v: %s = %s;
    let (h, t) = o.split_at_mut(1);
    if let Err(e) = PackedStructSlice::pack_to_slice(&v, t) { h[0] = st(&e); }
    if PackedStructSlice::pack_to_vec(&v).is_err() { h[0] |= 0; }""" % (rust, decode)), "%s into %d bytes" % (rust, L))


def wrap(w, sg, e):
    """standalone wrapper: any bytes of any length, and back"""
    t = native(w, sg)
    n = nbits(t) // 8
    m = (w + 7) // 8
    ty = "%sInteger<%s, packed_bits::Bits<%d>, Integer<%s, packed_bits::Bits<%d>>>" % (e, t, w, t, w)
    tag = "%s%s%d" % (e, t, w)
    hs = [unpack_from(tag, ty, L, wr(t, "**u", 1), n) for L in range(0, m + 2)]
    hs.append(pack_into(tag, ty, n, "{ let q: Integer<%s, packed_bits::Bits<%d>> = %s.into(); q.as_packed_%s() }" % (
        t, w, rd(t, 0), e.lower()), m))
    return hs


def narrow(k):
    """enum fields too small for their discriminants"""
    f = lambda nm, kd, p: Field(nm, kd, p, endian="lsb" if k & 1 else "msb", own_endian="lsb" if k & 1 else "msb",
                                attr='bits="%d..=%d", ty="enum"' % (p, p + kd.w - 1))
    tys = [(ENUMS[3], 4), (ENUMS[5], 3), (ENUMS[6], 9), (ENUMS[7], 10), (ENUMS[8], 17), (ENUMS[9], 18), (ENUMS[10], 33), (ENUMS[11], 35),
           (ENUMS[0], 1), (ENUMS[4], 1)]
    ty, w = tys[k]
    off = k % 8
    s = Struct("Nar%d" % k, (off + 2 * w + 7) // 8, [f("e", Enum(ty, w), off), f("c", CatchAll(ty, w), off + w)],
               size_attr=True)
    return s


def half(k):
    w = [3, 9, 13, 22][k]
    inner = Struct("HalfQ%d" % k, (w + 7) // 8, [
        Field("a", Int(w - 1, k % 2 == 1), 0, endian="msb", attr='bits="0..=%d"' % (w - 2)),
        Field("b", Bool(1), w - 1, endian="msb", attr='bits="%d"' % (w - 1))], size_attr=False)
    return inner, w


def names(ty):
    """names: arbitrary bytes that form a string"""
    hs = []
    for n in range(0, 7):
        hs.append(quiet("name:%s:%d" % (ty.name, n), Entry("nm_%s_%d" % (ty.name, n), max(n, 1), 1, """
    if let Ok(s) = core::str::from_utf8(&i[..%d]) {
        if let Some(v) = <%s as PrimitiveEnum>::from_str(s) { o[0] = 1 + (PrimitiveEnumStaticStr::to_display_str(&v).len() == 0) as u8; }
        if let Some(v) = <%s as PrimitiveEnum>::from_str_lower(s) { o[0] |= 4; }
    }""" % (n, ty.name, ty.name)), "%s from %d bytes of text" % (ty.name, n)))
    hs.append(quiet("number:" + ty.name, Entry("nu_" + ty.name, ty.pw // 8, 1, """
    if let Some(v) = <%s as PrimitiveEnum>::from_primitive(%s) { o[0] = %s; }
    let c = EnumCatchAll::<%s>::from_primitive(%s);
    if let Some(c) = c { o[0] |= (c.to_primitive() == %s) as u8; }""" % (
        ty.name, rd(ty.prim, 0), ty.index("v"), ty.name, rd(ty.prim, 0), rd(ty.prim, 0))), "%s from any number" % ty.name))
    return hs


def units(tier, seed):
    th = tier == "thorough"
    n = 32 if th else 8
    us = [Unit("c19_%d" % k) for k in range(n)]
    for u in us:
        u.item("prelude", PRELUDE)
    turn = [0]

    def nxt():
        turn[0] += 1
        return us[turn[0] % n]
    # wrappers of every width
    for w in range(1, 65):
        for sg in (False, True):
            for e in ("Msb", "Lsb"):
                if not th and (w + sg + (e == "Lsb")) % 2 and w > 8:
                    continue
                u = nxt()
                for h in wrap(w, sg, e):
                    u.add(h)
    # structures
    ss = randoms(seed, "Q", 600 if th else 60, depth=2) + structs(seed, 4)[:4] + [narrow(k) for k in range(10)]
    ss += bigs(seed, "Qx", 60 if th else 8)
    for s in ss:
        u = nxt()
        add_struct(u, s)
        t = of_struct(s)
        ls = range(0, s.size + 4) if th or s.size < 6 else (0, 1, s.size // 2, s.size - 1, s.size, s.size + 1, s.size + 3)
        for L in ls:
            u.add(unpack_from(s.name, s.name, L, t.emit("u", 1), t.nout))
            u.add(pack_into(s.name, s.name, s.nin, s.build(0), L))
    # nested structures that do not fill their bytes
    for k in range(4):
        inner, w = half(k)
        for off in (0, 3, 7):
            u = nxt()
            if inner.name not in {l for l, _ in u.items}:
                u.item(inner.name, inner.decl())
            nm = "HalfO%d_%d" % (k, off)
            size = (off + 2 * w + 7) // 8
            u.item(nm, """#[derive(PackedStruct, Clone, Debug, PartialEq)]
#[packed_struct(bit_numbering="msb0", endian="msb", size_bytes="%d")]
pub struct %s { #[packed_field(bits="%d..=%d", element_size_bits="%d")] pub h: [%s; 2] }
""" % (size, nm, off, off + 2 * w - 1, w, inner.name))
            for L in range(size + 2):
                u.add(unpack_from(nm, nm, L, "o[1] = *u.h[0].a as u8; o[2] = u.h[1].b as u8;", 2))
            u.add(pack_into(nm, nm, 2 * inner.nin, "%s { h: [%s, %s] }" % (nm, inner.build(0), inner.build(inner.nin)), size))
    # everything else that packs, alone, in vectors, in tuples
    T_ = {t.name: t for t in types()}
    every = types() + [tuple_ty()] + [of_struct(s) for s in structs(seed, 4)[:4]]
    for t in every:
        u = nxt()
        if t.decl is not None:
            add_struct(u, t.decl)
        for L in range(0, t.size + 4):
            u.add(unpack_from(t.name, t.rust, L, t.emit("u", 1), t.nout))
            u.add(pack_into(t.name, t.rust, t.nin, t.decode(0), L))
        lens = range(0, 2 * t.size + 3) if t.size < 6 or th else (0, 1, t.size - 1, t.size, t.size + 1, 2 * t.size, 2 * t.size + 2)
        for L in lens:
            u.add(unpack_from("vec_" + t.name, "Vec<%s>" % t.rust, L,
                              "if u.len() > 0 { %s } if u.len() > 1 { %s }" % (t.emit("u[0]", 1), t.emit("u[1]", 1 + t.nout)), 2 * t.nout))
            u.add(unpack_from("vvec_" + t.name, "Vec<Vec<%s>>" % t.rust, L, "o[1] = u.len() as u8;", 1))
            u.add(unpack_from("two_" + t.name, "(u8, Vec<%s>, (Vec<u8>, u8))" % t.rust, L, "o[1] = u.1.len() as u8;", 1))
        for L in [t.size + x for x in range(-3, 1) if t.size + x >= 0] + [2 * t.size + 3 + x for x in range(-2, 3)]:
            u.add(unpack_from("tup_" + t.name, "(u8, Vec<%s>, [u8; 2])" % t.rust, L,
                              "if u.1.len() > 0 { %s } o[%d] = u.2[1];" % (t.emit("u.1[0]", 1), 1 + t.nout), 1 + t.nout))
    for L in (255, 256, 257, 258):
        u = nxt()
        u.add(unpack_from("longv", "Vec<u8>", L, "if u.len() > 3 { o[1] = u[u.len() - 1]; }", 1))
        u.add(unpack_from("longt", "(u8, Vec<[u8; 2]>, u8)", L, "if u.1.len() > 3 { o[1] = u.1[u.1.len() - 1][1]; }", 1))
    for ty in ENUMS:
        u = nxt()
        if ty.name not in {l for l, _ in u.items}:
            u.item(ty.name, ty.decl())
        if ty.name in ("E3", "E10") or th:
            hs = names(ty)
        else:
            hs = names(ty)[-1:]
        for h in hs:
            u.add(h)
    return us
