from families import *

BOUNDS = ("all field values and all packed byte arrays (symbolic) of LSB0 declarations: every width 1-64 at every end offset 0-7, alone "
          "and between neighbours, both endiannesses, plus seeded mixed LSB0 declarations (quick 140, thorough 1200) with flags, enums, "
          "arrays, reserved fields and nested structures; compared with the mirrored MSB0 layout; "
          "fields at every bit of the bytes around the powers of two up to 2048; seeded large declarations (quick 16, thorough 160) of 33-1030 bytes with up to 60 fields and arrays of up to 100 elements")


def units(tier, seed):
    th = tier == "thorough"
    ss = []
    for w in range(1, 65):
        for off in range(8):
            e = "msb" if (w + off) % 2 else "lsb"
            ss.append(single(w, off, w % 3 == 0, e, "int", tail=(w * 5 + off) % 3, numbering="lsb0"))
            if th or (w + off) % 3 == 0:
                ss.append(sandwich(w, off, w % 2 == 0, "lsb" if e == "msb" else "msb", "prim", numbering="lsb0", order=w % 3))
    ss += randoms(seed, "E", 1200 if th else 140, numbering="lsb0")
    ss += bigs(seed, "Ex", 160 if th else 16, numbering="lsb0")
    ss += fars("E", [Int(13, True), Bool(1), Prim(32, False), Int(3, False)], numbering="lsb0")
    return spread("c05", ss, lambda s: [s.h_pack(), s.h_unpack()], n=32 if th else 8)
