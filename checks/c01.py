from families import *

BOUNDS = ("every field value (symbolic) of: Integer and primitive fields of every width 1-64 at offsets 0-7, signed and unsigned, "
          "both endiannesses, between full neighbours, plus seeded mixed declarations (quick 160, thorough 1600) of up to 14 bytes; "
          "fields at every bit of the bytes around the powers of two up to 2048; seeded large declarations (quick 24, thorough 200) of 33-1030 bytes with up to 60 fields and arrays of up to 100 elements")


def units(tier, seed):
    th = tier == "thorough"
    ss = []
    for w in range(1, 65):
        for off in range(8):
            for signed, kind, endian in ((True, "int", "msb"), (False, "int", "lsb"), (True, "prim", "lsb"), (False, "prim", "msb"),
                                         (False, "int", "msb"), (True, "int", "lsb")):
                if not th and ((w + off + signed + (kind == "int") * 2 + (endian == "lsb") * 3) % 3):
                    continue
                ss.append(sandwich(w, off, signed, endian, kind, numbering="msb0" if (w + off) % 2 else "lsb0",
                                   order=(w + off) % 3))
    ss += collide()
    ss += randoms(seed, "A", 1600 if th else 160)
    ss += bigs(seed, "Ax", 200 if th else 24)
    ss += fars("A", [Int(13, True), Prim(32, False), Int(3, False), Prim(21, True), Int(56, False)]) + fars("A1", [Prim(64, True), Int(9, False)], endian="lsb", offs=range(0, 8, 3))
    return spread("c01", ss, lambda s: [s.h_rt()], n=32 if th else 8)
