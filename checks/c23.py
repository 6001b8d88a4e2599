from families import *

BOUNDS = ("every width of the default (1-255), byte_types_64 (1-511) and byte_types_256 (1-2047) tables; byte arrays of 1-12 bytes and a few up "
          "to 256 with symbolic contents, fill byte and shift count below the length; reserved fields of wide widths in structures of up to 200 "
          "bytes with symbolic neighbours, in all three configurations")
HELP = """
fn vp_full<T: BitsFullBytes>() {}
fn vp_part<T: BitsPartialBytes>() {}
fn vp_width<T: NumberOfBits>(o: &mut [u8]) {
    o[0..2].copy_from_slice(&(T::number_of_bits() as u16).to_le_bytes());
    o[2..4].copy_from_slice(&(<T::Bytes as NumberOfBytes>::number_of_bytes() as u16).to_le_bytes());
    o[4..6].copy_from_slice(&(T::byte_array_len() as u16).to_le_bytes());
    let a = <<T::Bytes as NumberOfBytes>::AsBytes as ByteArray>::new(7);
    o[6..8].copy_from_slice(&(a.as_bytes_slice().len() as u16).to_le_bytes());
    o[8..10].copy_from_slice(&(<<T::Bytes as NumberOfBytes>::AsBytes as ByteArray>::len() as u16).to_le_bytes());
}
"""


def widths(tag, lo, hi):
    ws = list(range(lo, hi))

    def spec(I, O):
        c = []
        for k, w in enumerate(ws):
            n = (w + 7) // 8
            for j, (what, e) in enumerate((("bits", w), ("bytes", n), ("array length", n), ("slice length", n), ("array len()", n))):
                c.append(("Bits<%d> %s" % (w, what), T.eq(16, le(O[10 * k + 2 * j:10 * k + 2 * j + 2]), e)))
        return c
    return Harness("widths:%s:%d" % (tag, lo), Entry("w_%d" % lo, 1, 10 * len(ws), "\n".join(
        "    vp_width::<Bits<%d>>(&mut o[%d..%d]);" % (w, 10 * k, 10 * k + 10) for k, w in enumerate(ws))), spec,
        note="width types %d to %d" % (lo, hi - 1))


def markers(lo, hi):
    return "pub fn vp_mark_%d() { %s }\n" % (lo, " ".join(
        "%s::<Bits<%d>>();" % ("vp_part" if w % 8 else "vp_full", w) for w in range(lo, hi)))


def array(tag, n):
    """content, fill byte and shift symbolic"""
    def spec(I, O):
        k = I[n + 1]
        c = [("length", T.eq(16, le(O[0:2]), n)), ("number of bytes", T.eq(16, le(O[2:4]), n))]
        o = 4
        for j in range(n):
            c.append(("filled %d" % j, T.eq(8, O[o + j], I[n])))
        o += n
        for j in range(n):
            e = 0
            for s in range(j + 1):
                e = T.ite(8, T.eq(8, k, s), I[j - s], e)
            c.append(("shifted %d" % j, T.eq(8, O[o + j], e)))
        o += n
        for j in range(n):
            c.append(("slice %d" % j, T.eq(8, O[o + j], I[j])))
        o += n
        for j in range(n):
            c.append(("packs as itself %d" % j, T.eq(8, O[o + j], I[j])))
        o += n
        for j in range(n):
            c.append(("unpacks as itself %d" % j, T.eq(8, O[o + j], I[j])))
        return c
    return Harness("array:%s:%d" % (tag, n), Entry("a_%d" % n, n + 2, 4 + 5 * n, """
    let mut a = [0u8; {n}]; a.as_mut_bytes_slice().copy_from_slice(&i[..{n}]);
    o[0..2].copy_from_slice(&(<[u8; {n}] as ByteArray>::len() as u16).to_le_bytes());
    o[2..4].copy_from_slice(&(<Bytes<{n}> as NumberOfBytes>::number_of_bytes() as u16).to_le_bytes());
    let f = <<Bytes<{n}> as NumberOfBytes>::AsBytes as ByteArray>::new(i[{n}]);
    o[4..4 + {n}].copy_from_slice(f.as_bytes_slice());
    let mut r = a;
    ByteArray::rotate_right(&mut r, i[{n} + 1] as usize);
    o[4 + {n}..4 + 2 * {n}].copy_from_slice(&r);
    o[4 + 2 * {n}..4 + 3 * {n}].copy_from_slice(a.as_bytes_slice());
    if let Ok(p) = PackedStruct::pack(&a) {{ o[4 + 3 * {n}..4 + 4 * {n}].copy_from_slice(&p); }}
    if let Ok(p) = <[u8; {n}] as PackedStruct>::unpack(&a) {{ o[4 + 4 * {n}..4 + 5 * {n}].copy_from_slice(&p); }}""".format(n=n)), spec,
        inp=None if n <= 12 else [None] * (n + 1) + [n // 3], assume=lambda I: [T.ult(8, I[n + 1], n)] if n <= 12 else [],
        note="[u8; %d]" % n)


def reserved(tag, w, off, one, size):
    f = lambda nm, k, p: Field(nm, k, p, attr='bits="%d..=%d"' % (p, p + k.w - 1), endian="msb")
    fs = []
    if off:
        fs.append(f("pre", Int(off, False), 0))
    fs.append(f("r", Reserved(one, w, True), off))
    end = off + w
    post = min(64, size * 8 - end)
    if post:
        fs.append(f("post", Int(post, False), end))
    return Struct("Rw%d_%d_%d" % (w, off, one), size, fs)


def units(tier, seed):
    th = tier == "thorough"
    out = []
    rng = random.Random("c23/%s" % seed)
    for var, top in (("std", 256), ("wide", 512), ("wide256", 2048)):
        n = 2 if var != "wide256" else 4
        us = [Unit("c23_%s_%d" % (var, k), var) for k in range(n)]
        for u in us:
            u.item("prelude", PRELUDE)
            u.item("help", HELP)
        k = 0
        for lo in range(1, top, 64):
            hi = min(lo + 64, top)
            u = us[k % n]
            k += 1
            u.item("width types %d to %d" % (lo, hi - 1), markers(lo, hi))
            u.add(widths(var, lo, hi))
        for sz in list(range(1, 13)) + [16, 31, 32] + ([33, 48, 63, 64] if top > 256 else []) + ([65, 127, 128, 200, 255] if top > 512 else []):
            us[k % n].add(array(var, sz))
            k += 1
        cand = [(9, 3), (64, 0), (65, 7), (128, 0), (200, 5), (255, 0), (255, 1), (240, 8)]
        if top > 256:
            cand += [(256, 0), (257, 7), (300, 4), (504, 0), (511, 1)]
        if top > 512:
            cand += [(512, 0), (600, 5), (1000, 3), (1536, 0)] + [(rng.randrange(512, 1500), rng.randrange(8)) for _ in range(40 if th else 4)]
        for j, (w, off) in enumerate(cand):
            for one in (False, True):
                s = reserved(var, w, off, one, (w + off + 7) // 8 + j % 2)
                u = us[k % n]
                k += 1
                add_struct(u, s)
                u.add(s.h_pack())
                u.add(s.h_repack())
        out += us
    return out
