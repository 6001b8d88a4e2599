from families import *

BOUNDS = ("all packed byte arrays (symbolic) of: one field of every width 1-64 at every offset 0-7, signed and unsigned, big and little "
          "endian, alone (undeclared bits around it) and between neighbours; plus seeded mixed declarations (quick 120, thorough "
          "1200) of up to 14 bytes, unpacked and packed again; "
          "structures of 13-1030 bytes as fields, at and between byte boundaries; fields at every bit of the bytes around the powers of two up to 2048; seeded large declarations (quick 20, thorough 160) of 33-1030 bytes with up to 60 fields and arrays of up to 100 elements")


def units(tier, seed):
    th = tier == "thorough"
    ss = []
    for w in range(1, 65):
        for off in range(8):
            e = "lsb" if (w + off) % 4 < 2 else "msb"
            ss.append(single(w, off, True, e, "int" if w % 2 else "prim", tail=(w + off) % 2))
            if th or (w * 3 + off) % 2:
                ss.append(sandwich(w, off, False, "msb" if e == "lsb" else "lsb", "int" if off % 2 else "prim", order=(w + off) % 3))
    ss += collide()
    ss += randoms(seed, "C", 1200 if th else 120)
    ss += bigs(seed, "Cx", 160 if th else 20)
    ss += fars("C", [Bool(1), Int(13, True), Prim(8, False), Reserved(True, 6), Enum(ENUMS[0], 4)], endian="lsb")
    ss += longs(aligned=(64, 128, 255, 256, 257, 300, 1030), shifted=(13, 17, 33, 64, 129, 257))
    return spread("c03", ss, lambda s: [s.h_repack()], n=32 if th else 8)
