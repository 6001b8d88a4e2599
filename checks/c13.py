from families import *

BOUNDS = ("all values of the neighbouring fields and all packed byte arrays (symbolic): reserved-zero and reserved-one fields of every width "
          "1-64 at every offset 0-7 between neighbours, both numberings, plus widths up to 248 bits, several in one structure, and seeded "
          "mixed declarations (quick 80, thorough 800); "
          "fields at every bit of the bytes around the powers of two up to 2048; seeded large declarations (quick 16, thorough 160) of 33-1030 bytes with up to 60 fields and arrays of up to 100 elements")


def wide(w, off, one):
    """two narrow neighbours around a wide reserved field"""
    end = off + w
    size = (end + 5 + 7) // 8
    fs = []
    if off:
        fs.append(Field("pre", Int(off, False), 0, endian="msb", attr='bits="0:%d"' % (off - 1)))
    fs.append(Field("r", Reserved(one, w, w % 2 == 0), off, attr='bits="%d..=%d"' % (off, end - 1)))
    fs.append(Field("post", Int(5, True), end, endian="msb", attr='bits="%d.."' % end))
    return Struct("W%d_%d_%d" % (w, off, one), size, fs)


def several(k):
    w = [3, 1, 6, 13, 8, 2, 20, 5, 7, 9]
    pos = 0
    fs = []
    for n, x in enumerate(w):
        if (n + k) % 3 == 0:
            fs.append(Field("f%d" % n, Int(x, n % 2 == 0), pos, endian="msb" if x <= 8 else ("lsb" if k % 2 else "msb"), attr='bits="%d:%d"' % (pos, pos + x - 1)))
        else:
            fs.append(Field("f%d" % n, Reserved((n + k) % 2 == 0, x, n % 4 == 1), pos, attr='bits="%d:%d"' % (pos, pos + x - 1)))
        pos += x
    return Struct("Sev%d" % k, (pos + 7) // 8, fs, endian="lsb" if k % 2 else "msb")


def units(tier, seed):
    th = tier == "thorough"
    ss = []
    for w in range(1, 65):
        for off in range(8):
            for one in (False, True):
                if not th and (w + off + one) % 2:
                    continue
                ss.append(sandwich(w, off, False, "msb", "res", numbering="lsb0" if (w + off) % 4 == 1 else "msb0", order=(w + off) % 3,
                                   make=lambda: Reserved(one, w, off % 2 == 0), tag="_%d" % one))
    for w in (65, 71, 72, 79, 96, 100, 127, 128, 129, 160, 191, 200, 248) if not th else range(65, 249):
        for off in range(8):
            if th or (w + off) % 3 == 0:
                ss.append(wide(w, off, (w + off) % 2 == 0))
    for k in range(6):
        ss.append(several(k))
    ss += randoms(seed, "N", 800 if th else 80, kinds=("res", "res", "int", "bool", "prim", "enum", "nest"))
    ss += bigs(seed, "Nx", 160 if th else 16, kinds=("res", "res", "int", "bool", "prim", "enum", "nest"))
    ss += fars("N", [Reserved(True, 6), Reserved(False, 13), Int(7, False), Reserved(True, 30)])
    return spread("c13", ss, lambda s: [s.h_pack(), s.h_repack()], n=32 if th else 8)
