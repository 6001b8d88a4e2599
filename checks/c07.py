from families import *

BOUNDS = ("every native 8- to 64-bit value (symbolic), every N from 1 to 64, signed and unsigned; equality and hashing over all pairs of "
          "values; Debug and Display text for N <= 8 (thorough: N <= 16), and with one symbolic byte (the others seeded constants) for every N")
ASSUME = ["hashing is observed through a hasher that records every byte it is given"]

REC = """
pub struct Rec { pub b: [u8; 32], pub n: usize }
impl core::hash::Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, x: &[u8]) { for v in x { self.b[self.n] = *v; self.n += 1; } }
}
pub struct Txt { pub b: [u8; 24], pub n: usize }
impl core::fmt::Write for Txt {
    fn write_str(&mut self, s: &str) -> core::fmt::Result { for v in s.as_bytes() { self.b[self.n] = *v; self.n += 1; } Ok(()) }
}
"""


def units(tier, seed):
    th = tier == "thorough"
    n_units = 16 if th else 8
    us = [Unit("c07_%d" % k) for k in range(n_units)]
    for u in us:
        u.item("prelude", PRELUDE)
        u.item("rec", REC)
    k = 0
    for w in range(1, 65):
        for signed in (False, True):
            one(us[k % n_units], w, signed)
            if w <= (16 if th else 8):
                text(us[k % n_units], w, signed)
            if w > 8:
                r = random.Random("text%d%s" % (w, signed))
                n = nbits(native(w, signed)) // 8
                for pos in (0, (w - 1) // 8)[:1 + (th or w % 8 in (0, 1))]:
                    inp = [r.choice([0, 255, r.randrange(256)]) for _ in range(n)]
                    inp[pos] = None
                    text(us[k % n_units], w, signed, inp, ":byte%d" % pos)
            k += 1
    return us


def one(u, w, signed):
    t = native(w, signed)
    nb = nbits(t)
    n = nb // 8
    ty = "Integer<%s, packed_bits::Bits<%d>>" % (t, w)
    nm = "%s%d" % ("i" if signed else "u", w)

    def red(x):
        v = T.extract(x, w - 1, 0)
        return T.sext(w, nb, v) if signed else T.zext(w, nb, v)

    def spec(I, O):
        a, b = le(I[:n]), le(I[n:])
        ra, rb = red(a), red(b)
        names = ["From", "deref", "into native", "from_primitive/to_primitive", "reconverted", "copy"]
        c = []
        for k, nm2 in enumerate(names):
            c.append((nm2, T.eq(nb, le(O[k * n:(k + 1) * n]), ra)))
        o = len(names) * n
        c.append(("mask", T.eq(nb, le(O[o:o + n]), T.mask(w))))
        c.append(("default", T.eq(nb, le(O[o + n:o + 2 * n]), 0)))
        o += 2 * n
        eq = T.eq(nb, ra, rb)
        c.append(("eq", T.eq(8, O[o], T.zext(1, 8, eq))))
        c.append(("ne", T.eq(8, O[o + 1], T.zext(1, 8, T.bnot(eq)))))
        c.append(("hash of equal values", T.or_(1, T.bnot(eq), T.eq(8, O[o + 2], 1))))
        c.append(("hash as the value", T.eq(8, O[o + 3], 1)))
        c.append(("in range unchanged", T.or_(1, T.bnot(T.eq(nb, a, ra)), T.eq(nb, le(O[:n]), a))))
        return c
    L = []
    exprs = ["x.to_primitive()", "*x", "{ let y: %s = x.into(); y }" % t,
             "<%s as SizedInteger<%s, packed_bits::Bits<%d>>>::from_primitive(a).to_primitive()" % (ty, t, w),
             "{ let z: %s = (*x).into(); *z }" % ty, "{ let c = x.clone(); *c }"]
    for k, e in enumerate(exprs):
        L.append(wr(t, e, k * n))
    o = len(exprs) * n
    L.append(wr(t, "<%s as SizedInteger<%s, packed_bits::Bits<%d>>>::value_bit_mask()" % (ty, t, w), o))
    L.append(wr(t, "*<%s as Default>::default()" % ty, o + n))
    o += 2 * n
    u.add(Harness("int:" + nm, Entry("int_" + nm, 2 * n, o + 4, """
    use core::hash::Hash;
    let a = %s; let b = %s;
    let x: %s = a.into(); let y: %s = b.into();
    %s
    o[%d] = (x == y) as u8; o[%d] = (x != y) as u8;
    let mut r = Rec { b: [0; 32], n: 0 }; x.hash(&mut r);
    let mut s = Rec { b: [0; 32], n: 0 }; y.hash(&mut s);
    let mut q = Rec { b: [0; 32], n: 0 }; x.to_primitive().hash(&mut q);
    o[%d] = (r.b == s.b && r.n == s.n) as u8;
    o[%d] = (r.b == q.b && r.n == q.n) as u8;""" % (rd(t, 0), rd(t, n), ty, ty, "\n    ".join(L), o, o + 1, o + 2, o + 3)),
        spec, note="%s, all pairs of native values" % ty))


def text(u, w, signed, inp=None, tag=""):
    t = native(w, signed)
    n = nbits(t) // 8
    ty = "Integer<%s, packed_bits::Bits<%d>>" % (t, w)
    nm = "%s%d" % ("i" if signed else "u", w)

    def red(x):
        v = T.extract(x, w - 1, 0)
        return T.sext(w, nbits(t), v) if signed else T.zext(w, nbits(t), v)

    def spec(I, O):
        return [("value", T.eq(nbits(t), le(O[2:2 + n]), red(le(I)))), ("Display", T.eq(8, O[0], 1)), ("Debug", T.eq(8, O[1], 1))]
    u.add(Harness("text:" + nm + tag, Entry("text_" + nm, n, 2 + n, """
    use core::fmt::Write;
    let x: %s = %s.into();
    let v: %s = x.to_primitive();
    let mut a = Txt { b: [0; 24], n: 0 }; let _ = write!(a, "{}", x);
    let mut b = Txt { b: [0; 24], n: 0 }; let _ = write!(b, "{:?}", x);
    let mut c = Txt { b: [0; 24], n: 0 }; let _ = write!(c, "{}", v);
    o[0] = (a.b == c.b && a.n == c.n) as u8;
    o[1] = (b.b == c.b && b.n == c.n) as u8;
    let mut a = Txt { b: [0; 24], n: 0 }; let _ = write!(a, "{}", x.as_packed_msb());
    let mut b = Txt { b: [0; 24], n: 0 }; let _ = write!(b, "{:?}", x.as_packed_msb());
    o[0] &= (a.b == c.b && a.n == c.n) as u8;
    o[1] &= (b.b == c.b && b.n == c.n) as u8;
    let mut a = Txt { b: [0; 24], n: 0 }; let _ = write!(a, "{}", x.as_packed_lsb());
    let mut b = Txt { b: [0; 24], n: 0 }; let _ = write!(b, "{:?}", x.as_packed_lsb());
    o[0] &= (a.b == c.b && a.n == c.n) as u8;
    o[1] &= (b.b == c.b && b.n == c.n) as u8;
    %s""" % (ty, rd(t, 0), t, wr(t, "v", 2))), spec, inp=inp, note="text of %s equals the text of its value" % ty))
