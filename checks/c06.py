from families import *

BOUNDS = ("all field values and all packed byte arrays (symbolic) of: every documented position spelling (single, open, inclusive, reversed, "
          "exclusive, hexadecimal, spaced; bits and bytes) on a grid of ranges, each group packed side by side; positions implied by types (widths spelled in several ways) and "
          "size attributes; seeded declarations that mix spellings and automatic placement (quick 160, thorough 1600), also large "
          "ones (quick 24, thorough 200) of 33-1030 bytes with up to 60 fields and arrays of up to 100 elements; positions up to bit 1383, around bytes up to 2048 and bits 2^16 and 2^24; reported sizes of each")


def sizes(s):
    """reported sizes against the declaration; the instance is symbolic"""
    end = max(f.start + f.width for f in s.fields)
    bits = s.size * 8 if s.size_attr else end

    def spec(I, O):
        return [("packed_bits", T.eq(16, le(O[0:2]), bits)), ("packed_bytes_size(None)", T.eq(16, le(O[2:4]), s.size)),
                ("packed_bytes_size(Some)", T.eq(16, le(O[4:6]), s.size)), ("array length", T.eq(16, le(O[6:8]), s.size)),
                ("vector length", T.eq(16, le(O[8:10]), s.size))]
    return Harness("sizes:" + s.name, Entry("sz_" + s.name, s.nin, 10, """
    let v = %s;
    let r = [<%s as PackedStructInfo>::packed_bits(), <%s as PackedStructSlice>::packed_bytes_size(None).unwrap(),
             <%s as PackedStructSlice>::packed_bytes_size(Some(&v)).unwrap(), v.pack().unwrap().len(), v.pack_to_vec().unwrap().len()];
    for (k, x) in r.iter().enumerate() { o[2 * k..2 * k + 2].copy_from_slice(&(*x as u16).to_le_bytes()); }""" % (
        s.build(0), s.name, s.name, s.name)), spec, assume=s.assume, note=s.brief())


def forms(a, b, kind):
    """every spelling of the inclusive bit range a..b"""
    o = ['bits="%d:%d"' % (a, b), 'bits="%d:%d"' % (b, a), 'bits="%d..=%d"' % (a, b), 'bits="%d..=%d"' % (b, a),
         'bits="%d..%d"' % (a, b + 1), 'bits="0x%x:0x%x"' % (a, b), 'bits="0X%X..0X%X"' % (a, b + 1), 'bits="0x%X..=%d"' % (a, b),
         'bits=" %d : %d "' % (a, b), 'bits="%d .. %d"' % (a, b + 1), 'bits="%d.."' % a, 'bits="%d:"' % a, 'bits=" 0x%x.. "' % a]
    if a > 9:
        mixed = "".join(c.upper() if k % 2 else c for k, c in enumerate("%x" % a))
        o += ['bits="0x%s..=%d"' % (mixed, b), 'bits="0x0%s:0X00%X"' % (mixed, b), 'bits="0%d:00%d"' % (a, b)]
    if a == b:
        o += ['bits="%d"' % a, 'bits="0x%x"' % a, 'bits=" %d "' % a]
    if a % 8 == 0 and b % 8 == 7:
        x, y = a // 8, b // 8
        o += ['bytes="%d:%d"' % (x, y), 'bytes="%d:%d"' % (y, x), 'bytes="%d..=%d"' % (x, y), 'bytes="%d..=%d"' % (y, x),
              'bytes="%d.."' % x, 'bytes="%d:"' % x, 'bytes="0x%x:0x%X"' % (x, y), 'bytes=" 0x%x : %d "' % (x, y)]
        if x == y:
            o += ['bytes="%d"' % x, 'bytes="0x%x"' % x]
    return o


def group(a, b, kind, prim=False, endian="msb", lsb=None):
    """the same declaration in every spelling"""
    w = b - a + 1
    size = lsb or (b + 8) // 8
    out = []
    fs = forms(a, b, kind) if not lsb else [f for f in forms(*lsb_range(size, a, w), kind) if not f.endswith('.."') and
                                            not f.endswith(':"') and not f.endswith('.. "')]
    for n, at in enumerate(fs):
        k = Prim(w, w % 2 == 0) if prim else Int(w, w % 2 == 0)
        full = prim and w in (8, 16, 32, 64)
        if prim and not full and (at.endswith('.."') or at.endswith(':"') or at.endswith('.. "')):
            at += [', size_bits="%d"' % w, ', size_bits="0x%x"' % w][n % 2] if w % 8 or n % 3 else ', size_bytes="%d"' % (w // 8)
        out.append(Struct("G%d_%d_%s%s_%d" % (a, b, "p" if prim else "i", "l" if lsb else "", n), size,
                          [Field("a", k, a, endian=endian, attr=at)], endian=endian, numbering="lsb0" if lsb else "msb0",
                          size_attr=True if lsb else n % 2 == 0))
    return out


def same(ss):
    """one input, all spellings packed"""
    s0 = ss[0]

    def spec(I, O):
        exp = s0.packed(I)
        c = []
        for n, s in enumerate(ss):
            for k in range(s0.size):
                c.append(("%s byte %d" % (s.fields[0].attr, k), T.eq(8, O[n * s0.size + k], exp[k])))
        return c
    body = "\n".join("o[%d..%d].copy_from_slice(&(%s).pack().unwrap());" % (n * s0.size, (n + 1) * s0.size, s.build(0))
                     for n, s in enumerate(ss))
    return Harness("same:" + s0.name, Entry("same_" + s0.name, s0.nin, s0.size * len(ss), body), spec,
                   note="all spellings of bits %d..=%d" % (s0.fields[0].start, s0.fields[0].start + s0.fields[0].width - 1))


def autos():
    """positions that follow from types and sizes"""
    def st(n, kinds, **kw):
        pos = 0
        fs = []
        for k, (kind, cnt, attr) in enumerate(kinds):
            if attr and attr.endswith('.."') and attr.startswith('b'):
                x = attr.split('"')[1][:-2]
                pos = int(x, 0) * (8 if attr.startswith('bytes') else 1)
            fs.append(Field("f%d" % k, kind, pos, cnt, endian="msb", attr=attr))
            pos += kind.w * (cnt or 1)
        kw.setdefault("size_attr", False)
        return Struct("Auto%d" % n, kw.pop("size", (pos + 7) // 8), fs, **kw)
    E = ENUMS[0]
    return [
        st(0, [(Prim(8, False), None, None), (Prim(16, True), None, None), (Prim(32, False), None, None), (Prim(64, True), None, None)],
           numbering=None),
        st(1, [(Bool(), None, None), (Int(7, False), None, None), (Int(9, True), None, None), (Int(23, False), None, None)]),
        st(2, [(Prim(8, False), 3, None), (Int(4, False), 2, None), (Bool(), 8, None)], numbering=None),
        st(3, [(Prim(5, False), None, 'size_bits="5"'), (Prim(3, True), None, 'size_bits="3"'), (Prim(24, False), None, 'size_bytes="3"')]),
        st(4, [(Enum(E, 4), None, 'size_bits="4"'), (Enum(E, 3), 4, 'element_size_bits="3"')]),
        st(5, [(Prim(24, True), 2, 'element_size_bytes="3"'), (Prim(40, False), 1, 'size_bytes="0x5"')], numbering=None),
        st(6, [(Reserved(False, 3), None, None), (Int(5, False), None, None), (Reserved(True, 12, True), None, None),
               (Int(4, True), None, None)]),
        st(7, [(Int(3, False), None, None), (Int(3, False), None, None)], size_attr=True, size=1),
        st(8, [(Int(3, False), None, None), (Int(30, False), None, None)], size_attr=True, size=7),
        st(9, [(Int(3, False), None, 'bits="0.."'), (Int(10, True), None, None)]),
        st(10, [(Int(1, False), None, 'bits="0"'), (Int(2, True), None, 'bits="1:"'), (Int(7, False), None, None), (Prim(8, False), None, None)]),
        st(11, [(Prim(11, False), 3, 'element_size_bits="11"'), (Int(15, False), None, None), (Int(8, False), 2, None)], numbering=None),
        st(13, [(Prim(8, False), 9, 'bits="0.."'), (Int(5, False), None, None), (Int(3, True), 17, None), (Bool(), 100, None), (Int(16, False), None, None)]),
        st(14, [(Bool(), 33, None), (Enum(E, 3), 13, 'element_size_bits="3"'), (Prim(9, False), 10, 'element_size_bits="9"'),
                (Int(4, False), 65, None), (Int(1, False), None, None)], size_attr=True, size=60),
        st(15, [(Prim(16, False), 12, None), (Prim(64, True), None, None), (Int(12, False), 20, None), (Prim(32, False), 31, None),
                (Prim(8, False), None, None)], numbering=None),
        st(16, [(Reserved(False, 248), None, None), (Int(5, False), None, None), (Reserved(True, 200, True), None, None),
                (Int(4, True), 70, None), (Int(3, False), None, None)]),
        st(17, [(Int(64, k % 2 == 0), None, None) for k in range(17)] + [(Int(7, False), None, None), (Bool(), None, None)], numbering=None),
        st(18, [(Int(1 + k % 13, k % 2 == 0), None, None) for k in range(70)], size_attr=True, size=80),
        st(19, [(Int(13, False), None, 'bits="1000.."'), (Int(9, False), 11, None), (Bool(), None, None)]),
        st(20, [(Prim(8, False), None, 'bytes="0x7f.."'), (Prim(16, False), 9, None), (Prim(24, False), 3, 'element_size_bytes="3"')]),
        st(12, [(Int(w, w % 2 == 0), None, None) for w in (1, 12, 19, 32, 64)], numbering=None),
        Struct("AutoOrder", 6, [Field("z", Int(10, False), 38, endian="msb", attr='bits="38.."'),
                                Field("a", Int(6, False), 0, endian="msb", attr='bits="0.."'),
                                Field("b", Prim(16, False), 6, endian="msb")], size_attr=False),
        Struct("AutoTail", 5, [Field("a", Prim(8, False), 0, endian="msb", attr='bytes="0"'),
                               Field("b", Prim(16, False), 8, endian="msb"),
                               Field("c", Int(3, False), 32, endian="msb", attr='bytes="4.."'),
                               Field("d", Int(2, False), 35, endian="msb")], size_attr=False),
        # position and size both given
        Struct("Both", 4, [Field("a", Prim(8, False), 0, endian="msb", attr='size_bits="8", bits="0:7"'),
                           Field("b", Prim(12, False), 8, endian="msb", attr='bits="8..", size_bits="12"'),
                           Field("c", Prim(4, False), 20, 3, endian="msb", attr='bits="20:31", element_size_bits="4"')], size_attr=False),
    ]


def spelled():
    """automatic placement behind types whose width is not written as a plain decimal number, and constants that need a position"""
    def ty(w, signed, text, path="packed_bits::Bits"):
        k = Int(w, signed)
        k.rust = "Integer<%s, %s<%s>>" % (k.t, path, text)
        return k
    r = Reserved(True, 11)
    r.rust = "ReservedOne<packed_bits::Bits<0b1011>>"
    out = [
        [(ty(10, False, "0xA"), None), (ty(10, True, "1_0"), None), (r, None), (ty(12, False, "12usize"), None), (ty(5, True, "{ 5 }"), None), (Bool(8), None, 'size_bits="8"')],
        [(ty(9, True, "9", "packed_bits::Bits::"), 3), (ty(17, False, "0o21", "packed_struct::prelude::packed_bits::Bits"), None), (ty(24, True, "0x1_8"), 2),
         (Int(4, False), None)],
        [(ty(3, False, "3", "::packed_struct::prelude::packed_bits::Bits"), None), (ty(12, False, "{ c06_w::W3 }"), None, 'bits="3..=14"'),
         (ty(7, True, "{ 3 + 4 }"), None, 'bits="15..", size_bits="7"'), (ty(5, False, "{ c06_w::W3 - 7 }"), 2, 'element_size_bits="5"'), (Bool(8), None, 'size_bits="8"')],
    ]
    ss = []
    for n, fs in enumerate(out):
        pos = 0
        l = []
        for k, f in enumerate(fs):
            l.append(Field("f%d" % k, f[0], pos, f[1], endian="msb", attr=f[2] if len(f) > 2 else None))
            pos += f[0].w * (f[1] or 1)
        ss.append(Struct("Spelled%d" % n, (pos + 7) // 8 if n != 1 else 16, l, size_attr=n == 1))
    return ss


def exclusive_bytes(a, b):
    """`bytes="a..b"` excludes b; recorded finding: the current code is one byte short"""
    size = b + 1
    s = Struct("XB_%d_%d" % (a, b), size, [Field("a", Prim(8 * (b - a), False), 8 * a, endian="msb", attr='bytes="%d..%d"' % (a, b))])
    cur = Struct("XB_%d_%d" % (a, b), size, [Field("a", Prim(8 * (b - a) - 8, False), 8 * a, endian="msb", attr="")])

    def known(I, O):
        exp = cur.packed(I)
        return [("pack succeeds", T.eq(8, O[0], 0))] + [("byte %d" % k, T.eq(8, O[1 + k], exp[k])) for k in range(size)]
    h = s.h_pack(known=known)
    return s, h


def units(tier, seed):
    th = tier == "thorough"
    us = []
    groups = []
    rs = [(0, 0), (3, 3), (7, 7), (8, 8), (10, 10), (0, 7), (8, 15), (0, 15), (16, 31), (8, 31), (0, 31), (32, 63), (8, 71), (1, 2), (0, 1),
          (5, 12), (9, 30), (10, 19), (7, 70), (15, 16), (11, 43)]
    # positions of three and four digits, decimal and hexadecimal, with every hexadecimal letter
    far = [(99, 100), (127, 128), (160, 175), (171, 188), (205, 239), (240, 255), (255, 256), (256, 263), (496, 511), (0x3cd, 0x3ef),
           (1000, 1009), (1368, 1383)]
    rs += far
    if th:
        rs += [(a, a + w - 1) for a in range(0, 24, 5) for w in range(1, 65, 6)] + [(8 * a, 8 * b + 7) for a in range(4) for b in range(a, a + 8)]
        rs = sorted(set(rs))
    for n, (a, b) in enumerate(rs):
        groups.append(group(a, b, "int", prim=n % 2 == 0, endian="lsb" if n % 3 == 0 else "msb"))
        if n % 2 or th:
            groups.append(group(a, b, "int", prim=n % 2 == 1, endian="msb", lsb=(b + 8) // 8 + n % 2))
    n_units = 32 if th else 8
    us = [Unit("c06_%d" % k) for k in range(n_units)]
    for n, g in enumerate(groups):
        u = us[n % n_units]
        if g[0].size > 12 and not th:
            g = g[:9] + g[9::2]
        for s in g:
            add_struct(u, s)
            u.add(s.h_unpack())
            u.add(sizes(s))
        u.add(same(g))
    ss = autos() + randoms(seed, "F", 800 if th else 80, numbering="msb0") + randoms(seed, "G", 800 if th else 80)
    ss = spelled() + ss
    for u in us:
        u.item("c06_w", "pub mod c06_w { pub const W3: usize = 12; }")
    ss += bigs(seed, "Fx", 200 if th else 24)
    ss += fars("F", [Int(13, True), Bool(1), Prim(8, False)], offs=(0, 5))
    for n, s in enumerate(ss):
        u = us[n % n_units]
        add_struct(u, s)
        for h in (s.h_pack(), s.h_unpack(), sizes(s)):
            u.add(h)
    for k, (tag, a) in enumerate([("I16", 1 << 16), ("I24", 1 << 24)]):
        s, h = huge(tag, a // 8 + 1, [(Int(3, False), a - 9), (Int(5, True), a - 4)], size_attr=False)
        add_struct(us[k], s)
        us[k].add(h)
    for n, (a, b) in enumerate([(0, 4), (1, 9)]):
        s, h = exclusive_bytes(a, b)
        add_struct(us[n], s)
        us[n].add(h)
    return us
