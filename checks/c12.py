from families import *

BOUNDS = ("all packed byte arrays (symbolic) of declarations with enum, flag and catch-all fields of every width that holds the discriminants, "
          "at offsets 0-7, signed and unsigned, both endiannesses and numberings, beside fields of every other kind, in arrays and in nested "
          "structures; seeded mixed declarations (quick 120, thorough 1200); "
          "fields at every bit of the bytes around the powers of two up to 2048; seeded large declarations (quick 16, thorough 160) of 33-1030 bytes with up to 60 fields and arrays of up to 100 elements")


def units(tier, seed):
    th = tier == "thorough"
    ss = []
    n = 0
    for ty in ENUMS:
        for w in range(enum_minw(ty), ty.pw + 1):
            for off in range(8):
                n += 1
                if not th and n % 2:
                    continue
                ss.append(sandwich(w, off, False, "lsb" if n // 2 % 2 else "msb", "enum", numbering="lsb0" if n // 2 % 5 == 0 else "msb0",
                                   order=n % 3, make=lambda: Enum(ty, w), tag="_" + ty.name))
    for w in range(1, 9):
        for off in range(8):
            ss.append(sandwich(w, off, False, "msb", "bool", order=(w + off) % 3, make=lambda: Bool(w)))
            if th or (w + off) % 2:
                ss.append(sandwich(w, off, False, "lsb", "bool", numbering="lsb0", order=(w + off) % 3, make=lambda: Bool(w)))
    ss += randoms(seed, "L", 800 if th else 80, kinds=("enum", "bool", "enum", "int", "catch", "prim", "res", "nest"), depth=2)
    ss += randoms(seed, "M", 400 if th else 40, kinds=("int", "prim", "full", "res", "catch", "bool", "nest"))
    ss += bigs(seed, "Mx", 160 if th else 16, kinds=("enum", "bool", "enum", "int", "catch", "prim", "res", "nest"))
    ss += fars("L", [Enum(ENUMS[0], 4), Bool(2), Enum(ENUMS[6], 11)])
    return spread("c12", ss, lambda s: [s.h_unpack()], n=32 if th else 8)
