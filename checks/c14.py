from families import *

BOUNDS = ("all element values and all packed byte arrays (symbolic): arrays of 1-8 elements of integers, partial-width primitives, flags, enums, "
          "catch-all enums and structures, element widths 1-64 at offsets 0-7, positions explicit or implied, both endiannesses and "
          "numberings; seeded mixed declarations (quick 100, thorough 1000); "
          "arrays of 33-300 elements; fields at every bit of the bytes around the powers of two up to 2048; seeded large declarations (quick 24, thorough 240) of 33-1030 bytes with up to 60 fields and arrays of up to 100 elements")


def arr(kind, cnt, off, endian, numbering, tag, how):
    w = kind.w * cnt
    end = off + w
    size = (end + 7) // 8
    post = size * 8 - end

    def at(a, n):
        return 'bits="%d..=%d"' % ((a, a + n - 1) if numbering == "msb0" else lsb_range(size, a, n))
    fs = []
    if off:
        fs.append(Field("pre", Int(off, False), 0, endian=endian, attr=at(0, off)))
    attr = at(off, w)
    if numbering == "msb0" and how:
        attr = 'element_size_bits="%d"' % kind.w
        if how == 2 and kind.w % 8 == 0:
            attr = 'element_size_bytes="%d"' % (kind.w // 8)
        if off:
            if how == 1:
                attr += ', bits="%d.."' % off
        else:
            attr += ', bits="0.."'
    fs.append(Field("a", kind, off, cnt, endian=endian, attr=attr))
    if post:
        fs.append(Field("post", Int(post, False), end, endian=endian, attr=at(end, post)))
    if tag[-1] in "13" and numbering == "lsb0":
        fs.reverse()
    return Struct("A_%s_%dx%d_o%d_%s_%s_%d" % (tag, kind.w, cnt, off, endian, numbering, how), size, fs, numbering=numbering, endian=endian)


def units(tier, seed):
    th = tier == "thorough"
    ss = collide()
    n = 0
    inner = Struct("Inner2", 2, [Field("x", Int(3, False), 0, endian="msb", attr='bits="0:2"'),
                                 Field("y", Prim(11, True), 3, endian="lsb", own_endian="lsb", attr='bits="3:13"'),
                                 Field("z", Bool(), 15, attr='bits="15"')])
    inner1 = Struct("Inner1", 1, [Field("e", Enum(ENUMS[0], 3), 0, endian="msb", attr='bits="0:2"'),
                                  Field("f", Int(5, True), 3, endian="msb", attr='bits="3:7"')])
    for w in range(1, 65):
        for cnt in (1, 2, 3, 4, 5, 8) if th else ((2, 3, 5) if w <= 24 else (2, 3)):
            if w * cnt > 200:
                continue
            for off in range(8):
                n += 1
                if not th and n % 3:
                    continue
                k = Int(w, n % 2 == 0) if n // 3 % 2 else Prim(w, n % 2 == 0)
                how = n // 6 % 3
                ss.append(arr(k, cnt, off, "lsb" if n // 2 % 2 else "msb", "lsb0" if n // 3 % 4 == 0 else "msb0",
                              "i%d" % (n % 4), how))
    for cnt in (1, 2, 3, 7, 8):
        for off in range(8):
            for w in (1, 2, 5, 8):
                n += 1
                if th or n % 2:
                    ss.append(arr(Bool(w), cnt, off, "msb", "lsb0" if n % 4 == 1 else "msb0", "b", n % 2))
            for ty in ENUMS if th else ENUMS[(cnt + off) % 3::3]:
                lo = enum_minw(ty)
                for w in {lo, min(lo + 3, ty.pw), ty.pw}:
                    n += 1
                    if w * cnt > 160 or not th and n % 3:
                        continue
                    k = Enum(ty, w) if n % 2 else CatchAll(ty, w)
                    ss.append(arr(k, cnt, off, "lsb" if n // 2 % 2 else "msb", "lsb0" if n % 5 == 0 else "msb0", "%s%d" % (ty.name, n % 2), n % 3))
            if cnt <= 4:
                ss.append(arr(Nested(inner), cnt, off, "msb", "lsb0" if (cnt + off) % 3 == 0 else "msb0", "n", 1))
                ss.append(arr(Nested(inner1), cnt, off, "msb", "lsb0" if (cnt + off) % 3 == 1 else "msb0", "m", 0))
    seen = set()
    ss = [s for s in ss if not (s.name in seen or seen.add(s.name))]
    ss += randoms(seed, "P", 1000 if th else 100, arrays=0.85)
    ss += bigs(seed, "Px", 240 if th else 24)
    ss += manys("P")
    ss += fars("P", [Int(5, False), Bool(1), Prim(9, True)], count=3)
    return spread("c14", ss, lambda s: [s.h_pack(), s.h_unpack()], n=32 if th else 8)
