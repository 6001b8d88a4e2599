from families import *
from c16 import Ty, types, structs, of_struct

BOUNDS = ("all item values and slice contents (symbolic): vectors of 0-4 items packed into slices of every length around the required one; "
          "unpacking of every slice length from 0 to 12 (thorough: 24), for items of 1-9 bytes: bytes, byte arrays, flags, integer wrappers, "
          "derived structures with undefined encodings, tuples; vectors of vectors and of empty items")


def tuple_ty():
    return Ty("Tup", "(u8, [u8; 2])", 3, 3, lambda o: "(i[%d], [i[%d], i[%d]])" % (o, o + 1, o + 2), lambda I: I, 3,
              lambda x, o: "o[%d] = (%s).0; o[%d..%d].copy_from_slice(&(%s).1);" % (o, x, o + 1, o + 3, x), lambda P: P)


ERR = """Err(PackingError::BufferSizeMismatch { expected, actual }) => { o[0] = 7;
            o[2..4].copy_from_slice(&(expected as u16).to_le_bytes()); o[4..6].copy_from_slice(&(actual as u16).to_le_bytes()); }
        Err(PackingError::BufferModMismatch { actual_size, modulo_required }) => { o[0] = 8;
            o[2..4].copy_from_slice(&(actual_size as u16).to_le_bytes()); o[4..6].copy_from_slice(&(modulo_required as u16).to_le_bytes()); }
        Err(e) => o[0] = st(&e)"""


def unpack(t, L):
    n = L // t.size
    whole = L % t.size == 0

    def spec(I, O):
        if not whole:
            return [("modulo error", T.eq(8, O[0], 8)), ("actual size", T.eq(16, le(O[2:4]), L)), ("item size", T.eq(16, le(O[4:6]), t.size))]
        items = [I[k * t.size:(k + 1) * t.size] for k in range(n)]
        ok = T.land(*[t.valid(x) for x in items]) if n else 1
        bad = T.bnot(ok)
        c = [("accepted iff every item is valid", T.eq(8, O[0], T.ite(8, ok, 0, 1))), ("item count", T.or_(1, bad, T.eq(8, O[1], n)))]
        for k in range(n):
            exp = t.out(items[k])
            for j in range(t.nout):
                c.append(("item %d byte %d" % (k, j), T.or_(1, bad, T.eq(8, O[6 + k * t.nout + j], exp[j]))))
        return c
    emit = " ".join(t.emit("v[%d]" % k, 6 + k * t.nout) for k in range(n))
    return Harness("unpack:%s:%d" % (t.name, L), Entry("vu_%s_%d" % (t.name, L), max(L, 1), 6 + t.nout * n, """
    match <Vec<%s> as PackedStructSlice>::unpack_from_slice(&i[..%d]) {
        Ok(v) => { o[1] = v.len() as u8; if v.len() == %d { %s } }
        %s }""" % (t.rust, L, n, emit, ERR)), spec, note="Vec<%s> from %d bytes" % (t.rust, L))


def pack(t, n, L):
    need = n * t.size
    ok_len = L == need

    def spec(I, O):
        c = [("size of the instance", T.eq(16, le(O[6:8]), need)), ("size without an instance is unknown", T.eq(8, O[8], 5))]
        if not ok_len:
            c += [("size error", T.eq(8, O[0], 7)), ("expected", T.eq(16, le(O[2:4]), need)), ("actual", T.eq(16, le(O[4:6]), L))]
            for k in range(L):
                c.append(("untouched %d" % k, T.eq(8, O[9 + k], I[n * t.nin + k])))
            return c
        c += [("packs", T.eq(8, O[0], 0)), ("vector", T.eq(8, O[1], 1))]
        for k in range(n):
            x = t.packed(I[k * t.nin:(k + 1) * t.nin])
            for j in range(t.size):
                c.append(("item %d byte %d" % (k, j), T.eq(8, O[9 + k * t.size + j], x[j])))
        return c
    vec = "\n    match v.pack_to_vec() { Ok(w) => o[1] = (w.len() == %d && w[..] == out[..]) as u8, Err(_) => o[1] = 9 }" % L if ok_len else ""
    return Harness("pack:%s:%d:%d" % (t.name, n, L), Entry("vp_%s_%d_%d" % (t.name, n, L), max(1, n * t.nin + L), 9 + L, """
    let v: Vec<%s> = vec![%s];
    let mut out = [0u8; %d]; out.copy_from_slice(&i[%d..%d]);
    match PackedStructSlice::pack_to_slice(&v, &mut out[..]) { Ok(()) => {} %s }
    o[9..].copy_from_slice(&out);
    match <Vec<%s> as PackedStructSlice>::packed_bytes_size(Some(&v)) { Ok(n) => o[6..8].copy_from_slice(&(n as u16).to_le_bytes()), Err(_) => o[6] = 255 }
    match <Vec<%s> as PackedStructSlice>::packed_bytes_size(None) { Ok(_) => {}, Err(e) => o[8] = st(&e) }%s""" % (
        t.rust, ", ".join(t.decode(k * t.nin) for k in range(n)), L, n * t.nin, n * t.nin + L, ERR, t.rust, t.rust, vec)), spec,
        assume=lambda I: [a for k in range(n) for a in t.assume(I[k * t.nin:(k + 1) * t.nin])], note="%d items of %s into %d bytes" % (n, t.rust, L))


def odd(u):
    """items without a fixed size, and items of no bytes"""
    for L in (0, 1, 5):
        u.add(Harness("vecvec:%d" % L, Entry("vv_%d" % L, max(L, 1), 3, """
    match <Vec<Vec<u8>> as PackedStructSlice>::unpack_from_slice(&i[..%d]) { Ok(v) => o[0] = 100 + v.len() as u8, Err(e) => o[0] = st(&e) }
    match <Vec<()> as PackedStructSlice>::unpack_from_slice(&i[..%d]) { Ok(v) => o[1] = 100 + v.len() as u8, Err(e) => o[1] = st(&e) }
    let w: Vec<Vec<u8>> = vec![vec![i[0]]];
    match w.pack_to_vec() { Ok(v) => o[2] = 100, Err(e) => o[2] = st(&e) }""" % (L, L)),
            lambda I, O: [("inner size unknown", T.eq(8, O[0], 5)), ("empty items", T.eq(8, O[1], 100)), ("cannot pack", T.eq(8, O[2], 5))]))


def units(tier, seed):
    th = tier == "thorough"
    n = 32 if th else 8
    us = [Unit("c17_%d" % k) for k in range(n)]
    ts = [t for t in types() if t.size and t.size <= 9 and not t.padded] + [tuple_ty()]
    ts += [of_struct(s) for s in structs(seed, 120 if th else 16) if s.size <= 9]
    if not th:
        ts = [t for t in ts if t.name not in ("Lsbu83", "Lsbi88", "i8", "ResZ5", "Msbu333")]
    for k, t in enumerate(ts):
        u = us[k % n]
        if t.decl is not None:
            add_struct(u, t.decl)
        elif "prelude" not in {l for l, _ in u.items}:
            u.item("prelude", PRELUDE)
        for L in range(0, 25 if th else 13):
            u.add(unpack(t, L))
        if t.size > 6:
            u.add(unpack(t, 2 * t.size))
            u.add(unpack(t, 2 * t.size + 1))
        for m in range(0, 5):
            need = m * t.size
            for L in sorted({0, need - t.size, need - 1, need, need + 1, need + t.size} if t.size > 1 else {need - 1, need, need + 1}):
                if L >= 0 and (th or L == need or (m + L) % 2 or m == 1):
                    u.add(pack(t, m, L))
    odd(us[0])
    return us
