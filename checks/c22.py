from families import *
from c16 import types, structs, of_struct, unpack_len, pack_len
import c07
import c09
import c10

BOUNDS = ("all field values, packed byte arrays, slice contents, primitive values and strings up to one byte more than the longest name (symbolic), for "
          "a fixed and a seeded set of declarations (quick 40, thorough 400) of structures of all kinds, arrays, flags, "
          "reserved fields, enums and integer wrappers of every width, each under six configurations: standard library, no features, alloc, byte_types_64, byte_types_256, use_serde; "
          "every configuration is compared with the same expected bytes, values and errors")
VARIANTS = ("std", "nostd", "alloc", "wide", "wide256", "serde")
ALLOC = {"nostd": False}


def some_enums(seed, n):
    fx = c09.fixed()
    out = [e for e in fx if e.name in ("Xu8", "Mi8", "Xi64", "Xu64", "Hi16", "Auto5", "Auto23", "Auto39")]
    return out + c09.seeded("%s/c22" % seed, n)


def name_list(e):
    """static names only: they exist in every configuration"""
    m = max(len(x.encode()) for x in e.names)

    def spec(I, O):
        c = [("count", T.eq(8, O[0], len(e.names)))]
        for k, x in enumerate(e.names):
            b = x.encode()
            here = T.eq(8, I[0], k)
            c.append(("display of " + x, T.or_(1, T.bnot(here), T.land(T.eq(8, O[1], len(b)), *[T.eq(8, O[2 + j], b[j]) for j in range(len(b))]))))
        c.append(("listed", T.eq(8, O[2 + m], T.add(8, I[0], 1))))
        return c
    return Harness("names:" + e.name, Entry("names_" + e.name, 1, 3 + m, """
    let v = %s;
    let a = <%s as PrimitiveEnumStaticStr>::all_variants();
    o[0] = a.len() as u8;
    let s: &'static str = PrimitiveEnumStaticStr::to_display_str(&v);
    o[1] = s.len() as u8; o[2..2 + s.len().min(%d)].copy_from_slice(&s.as_bytes()[..s.len().min(%d)]);
    o[%d] = match a.get(i[0] as usize) { Some(w) => 1 + (%s), None => 0 };""" % (e.pick("i[0]"), e.name, m, m, 2 + m, e.index("*w"))), spec,
        assume=lambda I: [T.ult(8, I[0], len(e.names))], note="names of %s" % e.names)


def tuples():
    """a tuple and an array, which have no structure size table"""
    return [Harness("tuple", Entry("tup", 6, 8, """
    let v: (u8, [u8; 2], bool, u8) = (i[0], [i[1], i[2]], i[3] & 1 != 0, i[4]);
    match PackedStructSlice::pack_to_slice(&v, &mut o[1..6]) { Ok(()) => {}, Err(e) => o[0] = st(&e) }
    match <(u8, bool) as PackedStructSlice>::unpack_from_slice(&i[4..6]) { Ok(t) => { o[6] = 100; o[7] = t.0 ^ (t.1 as u8); }, Err(e) => o[6] = st(&e) }"""),
        lambda I, O: [("packs", T.eq(8, O[0], 0))] + [("byte %d" % k, T.eq(8, O[1 + k], x)) for k, x in enumerate(
            [I[0], I[1], I[2], T.and_(8, I[3], 1), I[4]])] + [
                ("unpacks valid flags only", T.eq(8, O[6], T.ite(8, T.ult(8, I[5], 2), 100, 1))),
                ("value", T.or_(1, T.bnot(T.ult(8, I[5], 2)), T.eq(8, O[7], T.xor(8, I[4], I[5]))))], note="tuples")]


def units(tier, seed):
    th = tier == "thorough"
    ss = [s for s in structs("%s/c22" % seed, 400 if th else 40)]
    for w in (1, 5, 8, 9, 13, 16, 24, 31, 32, 33, 47, 63, 64):
        for sg in (False, True):
            ss.append(sandwich(w, (w * 3 + sg) % 8, sg, "lsb" if (w + sg) % 2 else "msb", "prim" if w % 3 else "int",
                               numbering="lsb0" if w % 4 == 1 else "msb0"))
    out = []
    for var in VARIANTS:
        if var == "std" and not th:
            continue                # the standard configuration is what all other checks decide
        al = ALLOC.get(var, True)
        n = 4 if th else 2
        us = [Unit("c22_%s_%d" % (var, k), var) for k in range(n)]
        for u in us:
            u.item("prelude", ("extern crate alloc;\n" if var == "alloc" else "") + PRELUDE)
        k = 0
        for s in ss:
            u = us[k % n]
            k += 1
            add_struct(u, s)
            u.add(s.h_pack())
            u.add(s.h_unpack())
        for t in types() + [of_struct(s) for s in ss[:8]]:
            u = us[k % n] if t.decl is None else us[ss.index(t.decl) % n]
            k += 1
            for L in sorted({max(0, t.size - 1), t.size, t.size + 1}):
                u.add(unpack_len(t, L))
                u.add(pack_len(t, L, al))
        for e in some_enums(seed, 60 if th else 8):
            u = us[k % n]
            k += 1
            u.item(e.name, e.decl())
            for h in c09.harnesses(e):
                u.add(h)
        us[0].item("rec", c07.REC)
        us[1].item("rec", c07.REC)
        for w in range(1, 65):
            for sg in (False, True):
                c07.one(us[w % 2], w, sg)
        for a, b in c10.SETS:
            e = c10.NE(a, b, list(range(3, 3 + 7 * len(b), 7)))
            u = us[k % n]
            k += 1
            u.item(e.name, e.decl())
            u.add(name_list(e))
            for L in range(max(len(x.encode()) for x in e.names) + 2):
                u.add(c10.strings(e, L))
        for h in tuples():
            us[0].add(h)
        out += us
    for u in out:
        for h in u.harnesses:
            h.name = u.variant + ":" + h.name
    return out
