from families import *

BOUNDS = ("all slice contents and field values (symbolic) and every slice length from 0 to the packed size plus 4 (and some up to 4096 more), for primitives, byte arrays, "
          "integer wrappers, reserved fields and derived structures of 1-24 bytes (hand-picked, and seeded: quick 24, thorough 240)")


class Ty:
    """a packable Rust type with its instance decoding, packed bytes and unpack result"""

    def __init__(self, name, rust, size, nin, decode, packed, nout, emit, out, valid=None, assume=None, decl=None, padded=False):
        self.name, self.rust, self.size = name, rust, size
        self.nin, self.decode, self.packed = nin, decode, packed
        self.nout, self.emit, self.out = nout, emit, out
        self.valid = valid or (lambda P: 1)
        self.assume = assume or (lambda I: [])
        self.decl = decl
        self.padded = padded      # the bits above the value are not specified


def of_struct(s):
    return Ty(s.name, s.name, s.size, s.nin, s.build, s.packed, s.nout, s.emit, s.fields_out, s.valid, s.assume, s)


def types():
    out = []
    for n in (1, 2, 3, 8, 17):
        out.append(Ty("Arr%d" % n, "[u8; %d]" % n, n, n, lambda o, n=n: "[%s]" % ", ".join("i[%d]" % (o + k) for k in range(n)),
                      lambda I: I, n, lambda x, o, n=n: "o[%d..%d].copy_from_slice(&(%s)[..]);" % (o, o + n, x), lambda P: P))
    out.append(Ty("Boolean", "bool", 1, 1, lambda o: "i[%d] & 1 != 0" % o, lambda I: [T.zext(1, 8, T.extract(I[0], 0, 0))], 1,
                  lambda x, o: "o[%d] = (%s) as u8;" % (o, x), lambda P: [T.zext(1, 8, T.extract(P[0], 0, 0))],
                  valid=lambda P: T.ult(8, P[0], 2)))
    for t in ("u8", "i8"):
        out.append(Ty(t, t, 1, 1, lambda o, t=t: "i[%d] as %s" % (o, t), lambda I: I, 1, lambda x, o: "o[%d] = (%s) as u8;" % (o, x), lambda P: P))
    out.append(Ty("Unit", "()", 0, 0, lambda o: "()", lambda I: [], 0, lambda x, o: "", lambda P: []))
    for w, sg in ((3, False), (8, True), (12, True), (24, False), (33, False), (64, True)):
        t = native(w, sg)
        for e in ("Msb", "Lsb"):
            m = (w + 7) // 8
            n = nbits(t) // 8
            pr = Prim(w, sg)
            le_ = "lsb" if e == "Lsb" else "msb"

            def packed(I, w=w, m=m, le_=le_):
                v = wire(T.extract(le(I), w - 1, 0), w, le_)
                x = T.zext(w, 8 * m, v)
                return [T.extract(x, 8 * k + 7, 8 * k) for k in reversed(range(m))]

            def outv(P, w=w, pr=pr, le_=le_):
                return pr.out(unwire(T.extract(T.concat(*[(b, 8) for b in P]), w - 1, 0), w, le_))
            out.append(Ty("%s%s%d" % (e, t, w), "%sInteger<%s, packed_bits::Bits<%d>, Integer<%s, packed_bits::Bits<%d>>>" % (e, t, w, t, w),
                          m, n, lambda o, t=t, w=w, e=e: "{ let q: Integer<%s, packed_bits::Bits<%d>> = %s.into(); q.as_packed_%s() }" % (
                              t, w, rd(t, o), e.lower()), packed, n, lambda x, o, t=t: wr(t, "**%s" % x, o), outv,
                          padded=sg and w % 8 != 0))
    for w in (5, 16):
        m = (w + 7) // 8
        out.append(Ty("ResZ%d" % w, "ReservedZero<packed_bits::Bits<%d>>" % w, m, 0, lambda o: "Default::default()", lambda I, m=m: [0] * m, 0,
                      lambda x, o: "", lambda P: []))
    return out


def structs(seed, n):
    f = lambda nm, k, p, e="msb": Field(nm, k, p, endian=e, own_endian=e if k.endian_matters and k.w > 8 else None,
                                        attr='bits="%d..=%d"' % (p, p + k.w - 1))
    a = [Struct("Sl1", 1, [f("x", Int(3, False), 0), f("e", Enum(ENUMS[0], 4), 3)]),
         Struct("Sl3", 3, [f("x", Prim(11, True), 0, "lsb"), f("b", Bool(2), 11), f("c", CatchAll(ENUMS[0], 5), 14)]),
         Struct("Sl5", 5, [f("x", Int(40, False), 0, "lsb")]),
         Struct("Sl9", 9, [f("x", Int(64, False), 5)])]
    return a + randoms(seed, "SL", n)


def unpack_len(t, L):
    ok_len = L == t.size

    def spec(I, O):
        c = []
        if not ok_len:
            c = [("size error", T.eq(8, O[0], 7)), ("expected length", T.eq(16, le(O[2:4]), t.size)),
                 ("actual length", T.eq(16, le(O[4:6]), L)), ("nothing else", 1)]
        else:
            v = t.valid(I[:L])
            exp = t.out(I[:L])
            bad = T.bnot(v)
            c = [("accepted iff valid", T.eq(8, O[0], T.ite(8, v, 0, 1))), ("same as from the array", T.eq(8, O[1], O[0]))]
            for k in range(t.nout):
                c.append(("value byte %d" % k, T.or_(1, bad, T.eq(8, O[6 + k], exp[k]))))
                c.append(("array value byte %d" % k, T.or_(1, bad, T.eq(8, O[6 + t.nout + k], exp[k]))))
        return c
    arr = ""
    if ok_len:
        arr = """
    let mut arr = <<%s as PackedStruct>::ByteArray as ByteArray>::new(0); arr.as_mut_bytes_slice().copy_from_slice(&i[..%d]);
    match <%s as PackedStruct>::unpack(&arr) { Ok(u) => { %s } Err(e) => o[1] = st(&e) }""" % (t.rust, L, t.rust, t.emit("u", 6 + t.nout))
    return Harness("unpack:%s:%d" % (t.name, L), Entry("us_%s_%d" % (t.name, L), max(L, 1), 6 + 2 * t.nout, """
    match <%s as PackedStructSlice>::unpack_from_slice(&i[..%d]) {
        Ok(u) => { %s }
        Err(PackingError::BufferSizeMismatch { expected, actual }) => { o[0] = 7;
            o[2..4].copy_from_slice(&(expected as u16).to_le_bytes()); o[4..6].copy_from_slice(&(actual as u16).to_le_bytes()); }
        Err(e) => o[0] = st(&e) }%s""" % (t.rust, L, t.emit("u", 6), arr)), spec, note="%s from %d bytes" % (t.rust, L))


def pack_len(t, L, alloc=True):
    ok_len = L == t.size
    n = t.nin

    def spec(I, O):
        exp = t.packed(I[:n]) if ok_len else I[n:n + L]
        c = []
        if ok_len:
            c.append(("packs", T.eq(8, O[0], 0)))
        else:
            c += [("size error", T.eq(8, O[0], 7)), ("expected length", T.eq(16, le(O[2:4]), t.size)), ("actual length", T.eq(16, le(O[4:6]), L))]
        for k in range(L):
            if ok_len and t.padded:
                continue
            c.append(("%s byte %d" % ("packed" if ok_len else "untouched", k), T.eq(8, O[6 + k], exp[k])))
        if ok_len:
            c.append(("vector and array agree", T.eq(8, O[1], 3)))
        return c
    vec = ""
    if ok_len:
        vec = ("\n    match v.pack_to_vec() { Ok(w) => o[1] = (w.len() == %d && w[..] == out[..]) as u8, Err(_) => {} }" % L if alloc
               else "\n    o[1] = 1;") + "\n    match PackedStruct::pack(&v) { Ok(w) => o[1] += 2 * (w.as_bytes_slice() == &out[..]) as u8, Err(_) => {} }"
    return Harness("pack:%s:%d" % (t.name, L), Entry("ps_%s_%d" % (t.name, L), max(n + L, 1), 6 + L, """
    let v: %s = %s;
    let mut out = [0u8; %d]; out.copy_from_slice(&i[%d..%d]);
    match PackedStructSlice::pack_to_slice(&v, &mut out[..]) {
        Ok(()) => {}
        Err(PackingError::BufferSizeMismatch { expected, actual }) => { o[0] = 7;
            o[2..4].copy_from_slice(&(expected as u16).to_le_bytes()); o[4..6].copy_from_slice(&(actual as u16).to_le_bytes()); }
        Err(e) => o[0] = st(&e) }
    o[6..].copy_from_slice(&out);%s""" % (t.rust, t.decode(0), L, n, n + L, vec)), spec, assume=lambda I: t.assume(I[:n]),
        note="%s into %d bytes" % (t.rust, L))


def units(tier, seed):
    th = tier == "thorough"
    n = 32 if th else 8
    us = [Unit("c16_%d" % k) for k in range(n)]
    ts = types() + [of_struct(s) for s in structs(seed, 240 if th else 24)]
    for k, t in enumerate(ts):
        u = us[k % n]
        if t.decl is not None:
            add_struct(u, t.decl)
        elif "prelude" not in {l for l, _ in u.items}:
            u.item("prelude", PRELUDE)
        for L in range(0, t.size + 5):
            if not th and t.size > 8 and L not in (0, 1, t.size // 2, t.size - 1, t.size, t.size + 1, t.size + 4):
                continue
            u.add(unpack_len(t, L))
            u.add(pack_len(t, L))
        # slices far too long
        if th or t.decl is None or k % 4 == 0:
            for L in (255, 256, 257, 300, 511, 512, 1024, 4096 + t.size) if th or k < 3 else (256 + t.size, 300):
                u.add(unpack_len(t, L))
                u.add(pack_len(t, L))
    return us
