from families import *

BOUNDS = ("every field value (symbolic) of: one field of every width 1-64 at every offset 0-7, signed and unsigned, alone and between "
          "neighbours that fill the bytes, declared in order and out of order; plus seeded mixed MSB0 big-endian declarations "
          "(quick 120, thorough 1200) of up to 14 bytes; "
          "fields at every bit of the bytes around the powers of two up to 2048; fields around the bits 2^16 and 2^24; seeded large declarations (quick 24, thorough 200) of 33-1030 bytes with up to 60 fields and arrays of up to 100 elements")


def units(tier, seed):
    th = tier == "thorough"
    ss = []
    for w in range(1, 65):
        for off in range(8):
            ss.append(single(w, off, (w + off) % 2 == 0, "msb", "int", tail=(w + off) % 2))
            ss.append(sandwich(w, off, (w + off) % 2 == 1, "msb", "int", order=(w + off) % 3))
            if th:
                ss.append(single(w, off, (w + off) % 2 == 1, "msb", "prim"))
                ss.append(sandwich(w, off, (w + off) % 2 == 0, "msb", "prim", order=(w + off + 1) % 3))
            elif (w + off) % 4 == 0:
                ss.append(sandwich(w, off, (w + off) % 8 == 0, "msb", "prim", order=(w + off + 1) % 3))
    ss += randoms(seed, "B", 1200 if th else 120, numbering="msb0", endian="msb")
    ss += bigs(seed, "Bx", 200 if th else 24, numbering="msb0", endian="msb")
    ss += fars("B", [Int(13, True), Prim(32, False), Int(3, False), Prim(21, True), Int(56, False)])
    us = spread("c02", ss, lambda s: [s.h_pack()], n=32 if th else 8)
    # beyond bit 2^16 and 2^24
    for k, (tag, a) in enumerate([("16", 1 << 16), ("24", 1 << 24)]):
        s, h = huge(tag, a // 8 + 24, [(Int(3, False), a - 9), (Prim(16, False), a - 1), (Bool(1), a + 15), (Int(20, True), a + 31), (Int(40, False), a + 64)])
        add_struct(us[k], s)
        us[k].add(h)
    return us
