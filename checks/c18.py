from families import *
from c16 import types, structs, of_struct
from c17 import tuple_ty, ERR

BOUNDS = ("all contents (symbolic) and every slice length from 0 to the fixed size plus 7 for unpacking, and the required length plus or minus 3 "
          "for packing vectors of 0-3 items, for tuples of 1-10 parts: bytes, arrays, flags, integer wrappers, derived structures with undefined "
          "encodings, tuples in tuples, with no, one or several vectors in every position")


class Fix:
    dyn = False

    def __init__(self, t):
        self.t = t
        self.rust, self.size = t.rust, t.size
        self.decl = t.decl


class Vec:
    dyn = True
    size = 0

    def __init__(self, t):
        self.t = t
        self.rust = "Vec<%s>" % t.rust
        self.decl = t.decl


def rust(parts):
    return "(%s,)" % ", ".join(p.rust for p in parts)


def unpack(name, parts, L):
    fixed = sum(p.size for p in parts)
    nd = sum(p.dyn for p in parts)
    left = L - fixed
    good = nd <= 1 and (left >= 0 if nd else left == 0)
    vt = [p.t for p in parts if p.dyn]
    mod = good and nd == 1 and left % vt[0].size != 0
    count = left // vt[0].size if good and nd == 1 and not mod else 0
    pieces = []     # (access, type, offset)
    pos = 0
    for k, p in enumerate(parts):
        if p.dyn:
            for j in range(count):
                pieces.append(("t.%d[%d]" % (k, j), p.t, pos + j * p.t.size))
            pos += left if good else 0
        else:
            pieces.append(("t.%d" % k, p.t, pos))
            pos += p.size
    emit = []
    o = 6
    outs = []
    for acc, t, at in pieces:
        emit.append(t.emit(acc, o))
        outs.append((acc, t, at, o))
        o += t.nout
    lens = "".join(" o[1] = t.%d.len() as u8;" % k for k, p in enumerate(parts) if p.dyn)
    guard = "".join("t.%d.len() == %d && " % (k, count) for k, p in enumerate(parts) if p.dyn) + "true"

    def spec(I, O):
        if nd > 1:
            return [("more than one variable part", T.eq(8, O[0], 6))]
        if not good:
            return [("size error", T.eq(8, O[0], 7)), ("expected", T.eq(16, le(O[2:4]), fixed)), ("actual", T.eq(16, le(O[4:6]), L))]
        if mod:
            ok = T.land(*[t.valid(I[at:at + t.size]) for acc, t, at in pieces if "[" not in acc]) if pieces else 1
            return [("modulo error", T.ite(1, ok, T.eq(8, O[0], 8), T.or_(1, T.eq(8, O[0], 8), T.eq(8, O[0], 1))))]
        ok = T.land(*([t.valid(I[at:at + t.size]) for acc, t, at in pieces] + [1]))
        bad = T.bnot(ok)
        c = [("accepted iff every part is valid", T.eq(8, O[0], T.ite(8, ok, 0, 1)))]
        if nd:
            c.append(("vector length", T.or_(1, bad, T.eq(8, O[1], count))))
        for acc, t, at, o in outs:
            exp = t.out(I[at:at + t.size])
            for j in range(t.nout):
                c.append(("%s byte %d" % (acc, j), T.or_(1, bad, T.eq(8, O[o + j], exp[j]))))
        return c
    return Harness("unpack:%s:%d" % (name, L), Entry("tu_%s_%d" % (name, L), max(L, 1), max(o, 6), """
    match <%s as PackedStructSlice>::unpack_from_slice(&i[..%d]) {
        Ok(t) => {%s if %s { %s } }
        %s }""" % (rust(parts), L, lens, guard, " ".join(emit), ERR)), spec, note="%s from %d bytes" % (rust(parts), L))


def pack(name, parts, m, delta):
    nin = 0
    exprs = []
    pieces = []
    need = 0
    for p in parts:
        if p.dyn:
            es = []
            for j in range(m):
                es.append(p.t.decode(nin))
                pieces.append((p.t, nin))
                nin += p.t.nin
                need += p.t.size
            exprs.append("vec![%s]" % ", ".join(es))
        else:
            exprs.append(p.t.decode(nin))
            pieces.append((p.t, nin))
            nin += p.t.nin
            need += p.t.size
    L = need + delta
    nd = sum(p.dyn for p in parts)

    def spec(I, O):
        c = [("size of the instance", T.eq(16, le(O[6:8]), need)),
             ("size without an instance", T.eq(16, le(O[8:10]), 0x8005 if nd else need))]
        if delta:
            c += [("size error", T.eq(8, O[0], 7)), ("expected", T.eq(16, le(O[2:4]), need)), ("actual", T.eq(16, le(O[4:6]), L))]
            for k in range(L):
                c.append(("untouched %d" % k, T.eq(8, O[10 + k], I[nin + k])))
            return c
        c += [("packs", T.eq(8, O[0], 0)), ("vector", T.eq(8, O[1], 1))]
        exp = []
        for t, at in pieces:
            exp += t.packed(I[at:at + t.nin])
        for k in range(L):
            c.append(("byte %d" % k, T.eq(8, O[10 + k], exp[k])))
        return c
    vec = "\n    match v.pack_to_vec() { Ok(w) => o[1] = (w.len() == %d && w[..] == out[..]) as u8, Err(_) => o[1] = 9 }" % L if not delta else ""
    tag = ("m%d" % -delta) if delta < 0 else str(delta)
    return Harness("pack:%s:%d:%s" % (name, m, tag), Entry("tp_%s_%d_%s" % (name, m, tag), max(1, nin + L), 10 + L, """
    let v: %s = (%s,);
    let mut out = [0u8; %d]; out.copy_from_slice(&i[%d..%d]);
    match PackedStructSlice::pack_to_slice(&v, &mut out[..]) { Ok(()) => {} %s }
    o[10..].copy_from_slice(&out);
    match <%s as PackedStructSlice>::packed_bytes_size(Some(&v)) { Ok(n) => o[6..8].copy_from_slice(&(n as u16).to_le_bytes()), Err(_) => o[6] = 255 }
    match <%s as PackedStructSlice>::packed_bytes_size(None) { Ok(n) => o[8..10].copy_from_slice(&(n as u16).to_le_bytes()), Err(e) => { o[8] = st(&e); o[9] = 0x80; } }%s""" % (
        rust(parts), ", ".join(exprs), L, nin, nin + L, ERR, rust(parts), rust(parts), vec)), spec,
        assume=lambda I: [a for t, at in pieces for a in t.assume(I[at:at + t.nin])], note="%s with %d items into %d bytes" % (rust(parts), m, L))


def nested(u, L):
    """a tuple with a vector inside another tuple: the inner one is the variable part"""
    def spec(I, O):
        if L < 4:
            return [("size error", T.eq(8, O[0], 7))]
        n = L - 4
        c = [("ok", T.eq(8, O[0], 0)), ("count", T.eq(8, O[1], n)), ("first", T.eq(8, O[2], I[0])), ("inner first", T.eq(8, O[3], I[1])),
             ("last", T.eq(8, O[4], I[L - 2])), ("last 2", T.eq(8, O[5], I[L - 1])), ("repacked", T.eq(8, O[6], 1))]
        for k in range(n):
            c.append(("item %d" % k, T.eq(8, O[7 + k], I[2 + k])))
        return c
    u.add(Harness("nested:%d" % L, Entry("tn_%d" % L, max(L, 1), 7 + max(L - 4, 0), """
    match <(u8, (u8, Vec<u8>), [u8; 2]) as PackedStructSlice>::unpack_from_slice(&i[..%d]) {
        Ok(t) => { o[1] = (t.1).1.len() as u8; o[2] = t.0; o[3] = (t.1).0; o[4] = t.2[0]; o[5] = t.2[1];
            if (t.1).1.len() + 7 == o.len() { o[7..].copy_from_slice(&(t.1).1); }
            match t.pack_to_vec() { Ok(w) => o[6] = (w.len() == %d && w[..] == i[..%d]) as u8, Err(_) => {} } }
        Err(e) => o[0] = st(&e) }""" % (L, L, L)), spec, note="(u8, (u8, Vec<u8>), [u8; 2]) from %d bytes" % L))


def units(tier, seed):
    th = tier == "thorough"
    n = 32 if th else 8
    us = [Unit("c18_%d" % k) for k in range(n)]
    T_ = {t.name: t for t in types()}
    S = {s.name: of_struct(s) for s in structs(seed, 4)[:4]}
    u8, a2, a3, b, m24 = T_["u8"], T_["Arr2"], T_["Arr3"], T_["Boolean"], T_["Lsbu3224"]
    i8, unit, tup = T_["i8"], T_["Unit"], tuple_ty()
    s1, s3 = S["Sl1"], S["Sl3"]
    F = lambda *a: [Fix(x) for x in a]
    shapes = [("one", F(u8)), ("onev", [Vec(u8)]), ("onev2", [Vec(a2)]), ("two", F(a2, u8)), ("three", F(u8, s1, a3)), ("unit", F(unit, u8)),
              ("tupt", F(tup, u8, tup)), ("ten", F(u8, a2, b, m24, s1, a3, u8, i8, s3, a2)), ("four", F(b, b, s1, s3)),
              ("tenu", F(*[u8] * 10)), ("nine", F(a2, u8, a2, u8, a2, u8, a2, u8, a3)), ("five", F(m24, s1, u8, a2, a3)),
              ("six", F(u8, a3, u8, a2, u8, s1)), ("seven", F(a2, a2, b, a2, u8, a2, a3)), ("eight", F(u8, a2, a3, u8, a2, a3, u8, a2)),
              ("vv", [Vec(u8), Vec(u8)]), ("vxv", [Vec(u8), Fix(a2), Vec(a2)]), ("vvv", [Fix(u8), Vec(s1), Vec(u8), Vec(a3)])]
    for width in range(2, 11):
        base = [u8, a2, s1, a3, u8, b, a2, u8, a3, u8][:width]
        for pos in range(width):
            if not th and width > 4 and pos not in (0, width // 2, width - 1, (width * 7 + 3) % width):
                continue
            parts = [Fix(x) for x in base]
            parts[pos] = Vec([u8, a2, a3, s1, s3, tup][(pos + width) % 6])
            shapes.append(("v%d_%d" % (width, pos), parts))
    for k, (name, parts) in enumerate(shapes):
        u = us[k % n]
        if "prelude" not in {l for l, _ in u.items}:
            u.item("prelude", PRELUDE)
        for p in parts:
            if p.decl is not None:
                add_struct(u, p.decl)
        fixed = sum(p.size for p in parts)
        for L in range(0, fixed + 8):
            if not th and fixed > 6 and L not in (0, 1, 3, fixed // 2) and L < fixed - 1:
                continue
            u.add(unpack(name, parts, L))
        nd = sum(p.dyn for p in parts)
        for m in range(4 if nd else 1):
            for delta in (-3, -1, 0, 1, 2, 3) if th or m == 1 or not nd else (-1, 0, 1):
                need = fixed + sum(p.t.size * m for p in parts if p.dyn)
                if need + delta >= 0:
                    u.add(pack(name, parts, m, delta))
    for L in range(0, 10):
        nested(us[L % n], L)
    return us
