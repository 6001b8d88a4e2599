from families import *

BOUNDS = ("all field values and all packed byte arrays (symbolic): the little-endian wrapper on its own at every width 1-64, signed and "
          "unsigned; little-endian Integer and primitive fields of every width 9-64 at every offset 0-7, signed and unsigned, alone and "
          "between neighbours; fields whose own endianness overrides the structure's; seeded mixed little-endian declarations "
          "(quick 60, thorough 800); "
          "fields at every bit of the bytes around the powers of two up to 2048; seeded large declarations (quick 12, thorough 120) of 33-1030 bytes with up to 60 fields and arrays of up to 100 elements")


def wrapper(u, w, signed):
    t = native(w, signed)
    n = nbits(t) // 8
    m = (w + 7) // 8
    ty = "LsbInteger<%s, packed_bits::Bits<%d>, Integer<%s, packed_bits::Bits<%d>>>" % (t, w, t, w)
    nm = "%s%d" % ("i" if signed else "u", w)

    def spec_p(I, O):
        v = T.extract(le(I), w - 1, 0)
        x = T.concat(*[(b, 8) for b in O[1:1 + m]])
        return [("packs", T.eq(8, O[0], 0)), ("layout", T.eq(w, T.extract(x, w - 1, 0), wire(v, w, "lsb")))]
    u.add(Harness("wrapper-pack:" + nm, Entry("wp_" + nm, n, 1 + m, """
    let x: Integer<%s, packed_bits::Bits<%d>> = %s.into();
    match x.as_packed_lsb().pack() { Ok(p) => o[1..].copy_from_slice(&p[..]), Err(e) => o[0] = st(&e) }""" % (t, w, rd(t, 0))),
        spec_p, note="LsbInteger of %d bits, %s" % (w, t)))

    def spec_u(P, O):
        x = T.extract(T.concat(*[(b, 8) for b in P]), w - 1, 0)
        exp = Prim(w, signed).out(unwire(x, w, "lsb"))
        return [("unpacks", T.eq(8, O[0], 0))] + [("byte %d" % k, T.eq(8, O[1 + k], exp[k])) for k in range(n)]
    u.add(Harness("wrapper-unpack:" + nm, Entry("wu_" + nm, m, 1 + n, """
    match <%s>::unpack(i) { Ok(v) => { %s } Err(e) => o[0] = st(&e) }""" % (ty, wr(t, "**v", 1))), spec_u,
        note="LsbInteger of %d bits, %s" % (w, t)))


def override(w, off, signed, flip):
    """structure endianness msb, the field's own lsb (or the reverse), with a neighbour that keeps the default"""
    end = off + w
    size = (end + 16 + 7) // 8
    own, dflt = ("lsb", "msb") if flip else ("msb", "lsb")
    sp = {"lsb": ["lsb", "le"], "msb": ["msb", "be"]}
    fs = [Field("a", Int(w, signed), off, endian=own, own_endian=sp[own][w % 2], attr='bits="%d..=%d"' % (off, end - 1)),
          Field("b", Prim(16, False), end, endian=dflt, attr='bits="%d..=%d"' % (end, end + 15))]
    return Struct("O_%s%d_o%d_%s" % ("i" if signed else "u", w, off, own), size, fs, endian=sp[dflt][off % 2])


def units(tier, seed):
    th = tier == "thorough"
    ss = []
    for w in range(9, 65):
        for off in range(8):
            for signed in (False, True):
                ss.append(single(w, off, signed, "lsb", "int" if (w + signed) % 2 else "prim", tail=(w + off) % 2))
            if th or (w + off) % 2:
                ss.append(sandwich(w, off, (w + off) % 4 < 2, "lsb", "int", order=(w + off) % 3))
            if th or (w + off) % 3 == 0:
                ss.append(override(w, off, w % 2 == 0, (w + off) % 2 == 0))
    ss += randoms(seed, "D", 800 if th else 60, endian="lsb")
    ss += bigs(seed, "Dx", 120 if th else 12, endian="lsb")
    ss += fars("D", [Int(13, True), Prim(32, False), Int(3, False), Prim(21, True), Int(56, False)], endian="lsb")
    us = spread("c04", ss, lambda s: [s.h_pack(), s.h_unpack()], n=32 if th else 8)
    for w in range(1, 65):
        for signed in (False, True):
            wrapper(us[w % len(us)], w, signed)
    return us
