from families import *

BOUNDS = ("every value and every byte array (symbolic): u8-u64 and i8-i64 byte conversions, and for every N from 1 to 64, signed and "
          "unsigned: to/from bytes in both orders, the big- and little-endian wrappers, and their reported bit counts")


def units(tier, seed):
    us = [Unit("c08_%d" % k) for k in range(8)]
    for u in us:
        u.item("prelude", PRELUDE)
    for k, t in enumerate(["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64"]):
        plain(us[k], t)
    k = 0
    for w in range(1, 65):
        for signed in (False, True):
            sized(us[k % 8], w, signed)
            k += 1
    return us


def plain(u, t):
    nb = nbits(t)
    n = nb // 8

    def spec(I, O):
        v = le(I)
        c = []
        for k in range(n):
            c.append(("msb byte %d" % k, T.eq(8, O[k], T.extract(v, nb - 8 * k - 1, nb - 8 * k - 8))))
            c.append(("lsb byte %d" % k, T.eq(8, O[n + k], T.extract(v, 8 * k + 7, 8 * k))))
        c.append(("from msb", T.eq(nb, le(O[2 * n:3 * n]), T.concat(*[(b, 8) for b in I]))))
        c.append(("from lsb", T.eq(nb, le(O[3 * n:4 * n]), v)))
        c.append(("inverse msb", T.eq(nb, le(O[4 * n:5 * n]), v)))
        c.append(("inverse lsb", T.eq(nb, le(O[5 * n:6 * n]), v)))
        return c
    u.add(Harness("native:" + t, Entry("nat_" + t, n, 6 * n, """
    let x = %s;
    let m = <%s as IntegerAsBytes>::to_msb_bytes(&x); o[0..%d].copy_from_slice(&m);
    let l = <%s as IntegerAsBytes>::to_lsb_bytes(&x); o[%d..%d].copy_from_slice(&l);
    %s %s %s %s""" % (rd(t, 0), t, n, t, n, 2 * n,
                      wr(t, "<%s as IntegerAsBytes>::from_msb_bytes(i)" % t, 2 * n),
                      wr(t, "<%s as IntegerAsBytes>::from_lsb_bytes(i)" % t, 3 * n),
                      wr(t, "<%s as IntegerAsBytes>::from_msb_bytes(&m)" % t, 4 * n),
                      wr(t, "<%s as IntegerAsBytes>::from_lsb_bytes(&l)" % t, 5 * n))), spec, note="byte conversions of " + t))


def sized(u, w, signed):
    t = native(w, signed)
    nb = nbits(t)
    n = nb // 8
    m = (w + 7) // 8
    ty = "Integer<%s, packed_bits::Bits<%d>>" % (t, w)
    tr = "<%s as SizedInteger<%s, packed_bits::Bits<%d>>>" % (ty, t, w)
    nm = "%s%d" % ("i" if signed else "u", w)

    def red(x):
        v = T.extract(x, w - 1, 0)
        return T.sext(w, nb, v) if signed else T.zext(w, nb, v)

    def spec_to(I, O):
        r = red(le(I))
        c = [("no error", T.eq(8, T.or_(8, T.or_(8, O[0], O[1]), T.or_(8, O[2], O[3])), 0))]
        for k in range(m):
            c.append(("msb byte %d" % k, T.eq(8, O[4 + k], T.extract(r, 8 * (m - 1 - k) + 7, 8 * (m - 1 - k)))))
            c.append(("lsb byte %d" % k, T.eq(8, O[4 + m + k], T.extract(r, 8 * k + 7, 8 * k))))
        v = T.extract(r, w - 1, 0)
        x = T.extract(T.concat(*[(b, 8) for b in O[4 + 2 * m:4 + 3 * m]]), w - 1, 0)
        y = T.extract(T.concat(*[(b, 8) for b in O[4 + 3 * m:4 + 4 * m]]), w - 1, 0)
        c.append(("msb wrapper bits", T.eq(w, x, v)))
        c.append(("lsb wrapper bits", T.eq(w, y, wire(v, w, "lsb"))))
        o = 4 + 4 * m
        for k, l in enumerate(["inverse msb", "inverse lsb", "inverse msb wrapper", "inverse lsb wrapper", "wrapper derefs"]):
            c.append((l, T.eq(nb, le(O[o + k * n:o + (k + 1) * n]), r)))
        c.append(("bit counts", T.eq(8, O[o + 5 * n], 1)))
        return c
    o = 4 + 4 * m
    body = """
    let x: %s = %s.into();
    let mw: MsbInteger<%s, packed_bits::Bits<%d>, %s> = x.into();
    let lw: LsbInteger<%s, packed_bits::Bits<%d>, %s> = x.into();
    match %s::to_msb_bytes(&x) { Ok(p) => { o[4..%d].copy_from_slice(&p[..]); match %s::from_msb_bytes(&p) { Ok(v) => { %s } Err(_) => o[0] = 99 } } Err(e) => o[0] = st(&e) }
    match %s::to_lsb_bytes(&x) { Ok(p) => { o[%d..%d].copy_from_slice(&p[..]); match %s::from_lsb_bytes(&p) { Ok(v) => { %s } Err(_) => o[1] = 99 } } Err(e) => o[1] = st(&e) }
    match mw.pack() { Ok(p) => { o[%d..%d].copy_from_slice(&p[..]); match <MsbInteger<_, _, %s>>::unpack(&p) { Ok(v) => { %s } Err(_) => o[2] = 99 } } Err(e) => o[2] = st(&e) }
    match lw.pack() { Ok(p) => { o[%d..%d].copy_from_slice(&p[..]); match <LsbInteger<_, _, %s>>::unpack(&p) { Ok(v) => { %s } Err(_) => o[3] = 99 } } Err(e) => o[3] = st(&e) }
    %s
    o[%d] = (<MsbInteger<%s, packed_bits::Bits<%d>, %s> as PackedStructInfo>::packed_bits() == %d && <LsbInteger<%s, packed_bits::Bits<%d>, %s> as PackedStructInfo>::packed_bits() == %d) as u8;
    """ % (ty, rd(t, 0), t, w, ty, t, w, ty,
           tr, 4 + m, tr, wr(t, "*v", o),
           tr, 4 + m, 4 + 2 * m, tr, wr(t, "*v", o + n),
           4 + 2 * m, 4 + 3 * m, ty, wr(t, "**v", o + 2 * n),
           4 + 3 * m, 4 + 4 * m, ty, wr(t, "**v", o + 3 * n),
           wr(t, "if **mw == **lw { **mw } else { !**mw }", o + 4 * n),
           o + 5 * n, t, w, ty, w, t, w, ty, w)
    u.add(Harness("to:" + nm, Entry("to_" + nm, n, o + 5 * n + 1, body), spec_to, note=ty + " to bytes and back"))

    def spec_from(P, O):
        be = T.extract(T.concat(*[(b, 8) for b in P]), w - 1, 0)
        lev = T.extract(le(P), w - 1, 0)
        ext = (lambda v: T.sext(w, nb, v)) if signed else (lambda v: T.zext(w, nb, v))
        c = [("no error", T.eq(8, O[0], 0))]
        for k, (l, v) in enumerate([("from msb", be), ("from lsb", lev), ("msb wrapper", be), ("lsb wrapper", unwire(be, w, "lsb"))]):
            c.append((l, T.eq(nb, le(O[1 + k * n:1 + (k + 1) * n]), ext(v))))
        return c
    u.add(Harness("from:" + nm, Entry("from_" + nm, m, 1 + 4 * n, """
    match %s::from_msb_bytes(i) { Ok(v) => { %s } Err(e) => o[0] = st(&e) }
    match %s::from_lsb_bytes(i) { Ok(v) => { %s } Err(e) => o[0] = st(&e) }
    match <MsbInteger<%s, packed_bits::Bits<%d>, %s>>::unpack(i) { Ok(v) => { %s } Err(e) => o[0] = st(&e) }
    match <LsbInteger<%s, packed_bits::Bits<%d>, %s>>::unpack(i) { Ok(v) => { %s } Err(e) => o[0] = st(&e) }""" % (
        tr, wr(t, "*v", 1), tr, wr(t, "*v", 1 + n), t, w, ty, wr(t, "**v", 1 + 2 * n), t, w, ty, wr(t, "**v", 1 + 3 * n))),
        spec_from, note=ty + " from any bytes"))
