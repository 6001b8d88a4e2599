from families import *

BOUNDS = ("all inner field values and all outer packed byte arrays (symbolic): structures of 1-8, 33 and 67 bytes nested at every offset 0-7, alone, in "
          "arrays and up to three levels deep, in both numberings, including inner structures whose enums or flags can be undefined; seeded "
          "mixed declarations (quick 120, thorough 1200); structures that do not fill whole bytes, as far as the recorded finding; structures of 9-1030 bytes as fields, at and between byte "
          "boundaries; fields at every bit of the bytes around the powers of two up to 2048; seeded large declarations (quick 16, thorough 160) of 33-1030 bytes with up to 60 fields and arrays of up to 100 elements")

U = lambda w: Int(w, False)


def inners():
    f = lambda n, k, p, e="msb": Field(n, k, p, endian=e, own_endian=e if k.endian_matters and k.w > 8 else None,
                                       attr='bits="%d..=%d"' % (p, p + k.w - 1))
    a = [
        Struct("In1", 1, [f("x", Int(3, False), 0), f("y", Int(5, True), 3)]),
        Struct("In1e", 1, [f("x", Enum(ENUMS[0], 3), 0), f("y", Bool(2), 4), f("z", Bool(), 7)]),
        Struct("In2", 2, [f("x", Prim(11, True), 0, "lsb"), f("y", Int(5, False), 11)]),
        Struct("In2g", 2, [f("x", Int(4, False), 2), f("y", Int(6, True), 9)]),
        Struct("In2t", 2, [f("x", Int(7, False), 0), f("y", Int(6, True), 7)], size_attr=False),
        Struct("In3", 3, [f("x", Prim(16, False), 0, "lsb"), f("e", CatchAll(ENUMS[0], 5), 16), f("r", Reserved(True, 3), 21)]),
        Struct("In4", 4, [Field("w", Prim(32, True), 0, endian="lsb")], numbering=None, endian="lsb", size_attr=False),
        Struct("In5", 5, [f("x", Int(33, False), 0, "lsb"), f("e", Enum(ENUMS[4], 7), 33)]),
        Struct("In8", 8, [f("x", Prim(61, False), 3)]),
    ]
    l2 = Struct("InL", 2, [Field("x", Int(9, False), 7 - 0, endian="lsb", attr='bits="0..=8"'),
                           Field("y", Int(7, True), 0, endian="lsb", attr='bits="15..=9"')], numbering="lsb0", endian="lsb")
    a.append(l2)
    two = Struct("Two", 4, [f("p", Nested(a[1]), 3), f("q", Nested(a[2]), 12), f("t", Int(3, False), 29)])
    a.append(two)
    three = Struct("Three", 5, [f("d", Nested(two), 5), f("e", Bool(), 0)])
    a.append(three)
    arr = Struct("Arr", 4, [Field("d", Nested(a[1]), 5, 3, endian="msb", attr='bits="5..=28"'), f("e", Int(5, False), 0)])
    a.append(arr)
    a.append(Struct("In33", 33, [f("x", Prim(64, True), 0, "lsb"), Field("y", Prim(64, False), 64, 3, endian="msb", attr='bits="64..=255"'),
                                 f("z", Int(7, False), 257)]))
    a.append(Struct("In67", 67, [f("x", Int(3, False), 0), Field("y", Prim(64, False), 11, 8, endian="lsb", own_endian="lsb",
                                                                attr='bits="11..=522"'), f("z", Int(13, True), 523)]))
    return a


def partial(w1, w2, off):
    """the inner structure occupies w1+w2 bits, which are not whole bytes"""
    w = w1 + w2
    size = (w + 7) // 8
    inn = Struct("Half%d_%d" % (w1, w2), size, [Field("a", U(w1), 0, endian="msb", attr='bits="0:%d"' % (w1 - 1)),
                                               Field("b", U(w2), w1, endian="msb", attr='bits="%d:%d"' % (w1, w - 1))], size_attr=False)

    class Half(Nested):
        def __init__(self, low):
            Nested.__init__(self, inn)
            self.w = w
            self.low = low

        def value(self, I):
            v = Nested.value(self, I)
            return T.extract(v, w - 1, 0) if self.low else T.extract(v, 8 * size - 1, 8 * size - w)

        def out(self, v):
            return Nested.out(self, T.zext(w, 8 * size, v) if self.low else T.concat((v, w), (0, 8 * size - w)))
    osz = (off + w + 7) // 8

    def outer(low):
        return Struct("HalfIn%d_%d_%d" % (w1, w2, off), osz, [Field("h", Half(low), off, endian="msb",
                                                                   attr='bits="%d:%d"' % (off, off + w - 1))])
    s, cur = outer(False), outer(True)

    def known(I, O):
        exp = cur.packed(I)
        return [("pack succeeds", T.eq(8, O[0], 0))] + [("byte %d" % k, T.eq(8, O[1 + k], exp[k])) for k in range(osz)]

    def known_u(P, O):
        exp = cur.fields_out(P)
        return [("unpacks", T.eq(8, O[0], 0))] + [("value byte %d" % k, T.eq(8, O[1 + k], exp[k])) for k in range(s.nout)]
    return s, [s.h_pack(known=known), s.h_unpack(known=known_u)]


def units(tier, seed):
    th = tier == "thorough"
    ss = []
    n = 0
    for s in inners():
        for off in range(8):
            for num in ("msb0", "lsb0"):
                n += 1
                ss.append(sandwich(8 * s.size, off, False, "lsb" if n % 2 else "msb", "nest", numbering=num, order=n % 3,
                                   make=lambda: Nested(s), tag="_" + s.name))
                if s.size <= 4:
                    for cnt in (2, 3):
                        if th or (n + cnt) % 2:
                            w = 8 * s.size * cnt
                            size = (off + w + 7) // 8
                            at = lambda a, m: 'bits="%d..=%d"' % ((a, a + m - 1) if num == "msb0" else lsb_range(size, a, m))
                            fs = [Field("n", Nested(s), off, cnt, endian="msb", attr=at(off, w))]
                            if off:
                                fs.insert(n % 2, Field("p", U(off), 0, endian="msb", attr=at(0, off)))
                            ss.append(Struct("NA_%s_%d_%d_%s" % (s.name, off, cnt, num), size, fs, numbering=num))
    ss += randoms(seed, "Q", 1200 if th else 120, kinds=("nest", "nest", "int", "enum", "bool", "prim"), depth=3, maxbits=136)
    ss += bigs(seed, "Qx", 160 if th else 16, kinds=("nest", "nest", "int", "enum", "bool", "prim"))
    inn = inners()
    ss += fars("Q", [Nested(inn[1]), Nested(inn[3]), Nested(inn[5])])
    ss += longs()
    us = spread("c15", ss, lambda s: [s.h_pack(), s.h_unpack()], n=32 if th else 8)
    for k, (w1, w2, off) in enumerate([(5, 7, 0), (3, 9, 3), (1, 2, 1), (8, 2, 6)]):
        s, hs = partial(w1, w2, off)
        add_struct(us[k], s)
        for h in hs:
            us[k].add(h)
    return us
