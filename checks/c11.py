import random
from families import *
from c20 import decimal, lit, match

BOUNDS = ("all numbers of the primitive type, all pairs of catch-all values, all field values and all packed byte arrays (symbolic), for "
          "catch-all enums of every primitive type; structures with catch-all fields of every width that holds the discriminants at offsets "
          "0-7 in both endiannesses, and seeded mixed ones (quick 60, thorough 600); "
          "fields at every bit of the bytes around the powers of two up to 2048; the display string of all 8- and 16-bit numbers without a variant, and of wider ones with the lowest byte symbolic; seeded large declarations (quick 12, thorough 120) of 33-1030 bytes with up to 60 fields and arrays of up to 100 elements")

EXTRA = [
    EnumTy("C1", "u8", [("One", 1)]),
    EnumTy("C8", "u8", [("Z", 0), ("A", 127), ("B", 128), ("C", 255)]),
    EnumTy("CM", "i8", [("A", -1)]),
    EnumTy("C64", "u64", [("A", 0), ("B", 1 << 40), ("C", 3)]),
    EnumTy("CM64", "i64", [("A", -(1 << 63)), ("B", 0), ("C", (1 << 63) - 1)]),
]


def direct(ty):
    pb = ty.pw // 8
    c = CatchAll(ty, ty.pw)
    ni = c.nin

    def spec(I, O):
        p = le(I)
        k = ty.known(p)
        return [("always some", T.eq(8, O[0], 1)), ("variant iff declared", T.eq(8, O[1], T.zext(1, 8, k))),
                ("which variant", T.or_(1, T.bnot(k), T.eq(8, O[2], ty.index_of(p)))),
                ("raw value", T.or_(1, k, T.eq(ty.pw, le(O[3:3 + pb]), p))),
                ("back to the number", T.eq(ty.pw, le(O[3 + pb:3 + 2 * pb]), p))]
    a = Harness("number:" + ty.name, Entry("num_" + ty.name, pb, 3 + 2 * pb, """
    let p = %s;
    if let Some(v) = <EnumCatchAll<%s> as PrimitiveEnum>::from_primitive(p) {
        o[0] = 1;
        match v { EnumCatchAll::Enum(e) => { o[1] = 1; o[2] = %s; } EnumCatchAll::CatchAll(r) => { %s } }
        %s
    }""" % (rd(ty.prim, 0), ty.name, ty.index("e"), wr(ty.prim, "r", 3), wr(ty.prim, "v.to_primitive()", 3 + pb))), spec,
        note="%s: %s" % (ty.prim, ty.discs()))

    def spec_eq(I, O):
        x, y = c.value(I[:ni]), c.value(I[ni:])
        e = T.eq(ty.pw, x, y)
        return [("eq", T.eq(8, O[0], T.zext(1, 8, e))), ("ne", T.eq(8, O[1], T.zext(1, 8, T.bnot(e)))),
                ("to_primitive", T.eq(ty.pw, le(O[2:2 + pb]), x)),
                ("from enum", T.eq(ty.pw, le(O[2 + pb:2 + 2 * pb]), ty.value_of(I[1], ty.pw))),
                ("from_enum", T.eq(ty.pw, le(O[2 + 2 * pb:2 + 3 * pb]), ty.value_of(I[1], ty.pw)))]
    b = Harness("equality:" + ty.name, Entry("eq_" + ty.name, 2 * ni, 2 + 3 * pb, """
    let x: EnumCatchAll<%s> = %s;
    let y: EnumCatchAll<%s> = %s;
    o[0] = (x == y) as u8; o[1] = (x != y) as u8;
    %s
    let e = %s;
    let f: EnumCatchAll<%s> = e.into();
    %s
    %s""" % (ty.name, c.decode(0), ty.name, c.decode(ni), wr(ty.prim, "x.to_primitive()", 2), ty.pick("i[1]"), ty.name,
             wr(ty.prim, "f.to_primitive()", 2 + pb),
             wr(ty.prim, "EnumCatchAll::from_enum(e).to_primitive()", 2 + 2 * pb))), spec_eq,
        assume=lambda I: c.assume(I[:ni]) + c.assume(I[ni:]), note="%s: all pairs" % ty.name)
    return [a, b]


def text(ty, seed, th):
    """the display string of a value without a variant; of wide numbers, some bytes are symbolic"""
    pb = ty.pw // 8
    ni = pb if pb <= 2 else 1
    r = random.Random("%s/text/%s" % (seed, ty.name))
    hs = []
    for at in ([0] if pb <= 2 or not th else (0, 1)):
        rest = [r.choice((0, 0, 255, r.randrange(256))) for _ in range(pb)]
        rest[at:at + ni] = [None] * ni

        def number(I, rest=rest, at=at):
            return le([I[k - at] if x is None else x for k, x in enumerate(rest)])

        def spec(I, O, number=number):
            if type(O[0]) is not int:
                raise Exception("symbolic text length")
            p = number(I)
            return [("the number is displayed", match([lit("Unknown value: "), decimal(p, ty.pw, ty.signed)], O[1:1 + O[0]]))]
        hs.append(Harness("text:%s:%d" % (ty.name, at), Entry("text_%s_%d" % (ty.name, at), ni, 42, """
    let mut b = [%s];
    b[%d..%d].copy_from_slice(&i[..%d]);
    let v = EnumCatchAll::<%s>::CatchAll(%s::from_le_bytes(b));
    let t = <EnumCatchAll<%s> as PrimitiveEnumDynamicStr>::to_display_str(&v);
    o[0] = t.len() as u8;
    o[1..1 + t.len()].copy_from_slice(t.as_bytes());""" % (", ".join("%du8" % (x or 0) for x in rest), at, at + ni, ni, ty.name, ty.prim, ty.name)),
            spec, symptr=True, apart=(0,), note="display of %s numbers: %s" % (ty.prim, rest)))
    return hs


def units(tier, seed):
    th = tier == "thorough"
    tys = ENUMS + EXTRA
    ss = []
    n = 0
    for ty in tys:
        lo = enum_minw(ty)
        for w in range(lo, ty.pw + 1):
            for off in range(8):
                n += 1
                if not th and n % 3 and not (w == lo and off in (0, 5)):
                    continue
                s = sandwich(w, off, False, "lsb" if n % 2 else "msb", "catch", numbering="lsb0" if n % 5 == 0 else "msb0", order=n % 3,
                             make=lambda: CatchAll(ty, w), tag="_" + ty.name)
                ss.append(s)
    ss += randoms(seed, "K", 600 if th else 60, kinds=("catch", "catch", "int", "bool", "prim", "res"))
    ss += bigs(seed, "Kx", 120 if th else 12, kinds=("catch", "catch", "int", "bool", "prim", "res"))
    ss += fars("K", [CatchAll(ENUMS[0], 4), CatchAll(ENUMS[6], 11)])
    us = spread("c11", ss, lambda s: [s.h_pack(), s.h_repack()], n=32 if th else 8)
    for k, ty in enumerate(tys):
        u = us[k % len(us)]
        if ty.name not in {l for l, _ in u.items}:
            u.item(ty.name, ty.decl())
        for h in direct(ty):
            u.add(h)
    seen = set()
    for k, ty in enumerate(tys):
        if ty.prim not in seen:
            seen.add(ty.prim)
            for h in text(ty, seed, th):
                us[k % len(us)].add(h)
    return us
