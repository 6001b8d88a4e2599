from families import *

BOUNDS = ("every native number (symbolic) for each of the 128 bit-limited integer types (1-64 bits, signed and unsigned), written to a serializer that "
          "records the one call it receives, and read from a deserializer that offers it as its own type, as u64 or as i64; structures of several such "
          "integers written and read as sequences; reserved fields")
SERDE = r"""
use serde::ser::{self, Serialize, Serializer};
use serde::de::{self, Deserialize, Deserializer, Visitor};
#[derive(Debug)]
pub struct Er;
impl core::fmt::Display for Er { fn fmt(&self, _: &mut core::fmt::Formatter) -> core::fmt::Result { Ok(()) } }
impl std::error::Error for Er {}
impl ser::Error for Er { fn custom<T: core::fmt::Display>(_: T) -> Self { Er } }
impl de::Error for Er { fn custom<T: core::fmt::Display>(_: T) -> Self { Er }
    fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> Self { Er }
    fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> Self { Er }
    fn invalid_length(_: usize, _: &dyn de::Expected) -> Self { Er } }
/// records every call: one tag byte and eight value bytes each
pub struct Rec<'a> { o: &'a mut [u8], n: usize }
impl<'a> Rec<'a> {
    fn put(&mut self, tag: u8, v: u64) -> Result<(), Er> {
        let p = self.n * 9;
        if p + 9 <= self.o.len() { self.o[p] = tag; self.o[p + 1..p + 9].copy_from_slice(&v.to_le_bytes()); }
        self.n += 1;
        Ok(())
    }
}
macro_rules! num { ($($f:ident $t:ty, $tag:expr;)*) => { $(fn $f(self, v: $t) -> Result<(), Er> { self.put($tag, v as u64) })* } }
impl<'a, 'b> Serializer for &'b mut Rec<'a> {
    type Ok = (); type Error = Er;
    type SerializeSeq = ser::Impossible<(), Er>; type SerializeTuple = Self; type SerializeTupleStruct = Self;
    type SerializeTupleVariant = ser::Impossible<(), Er>; type SerializeMap = ser::Impossible<(), Er>; type SerializeStruct = Self;
    type SerializeStructVariant = ser::Impossible<(), Er>;
    num! { serialize_u8 u8, 1; serialize_u16 u16, 2; serialize_u32 u32, 4; serialize_u64 u64, 8;
           serialize_i8 i8, 17; serialize_i16 i16, 18; serialize_i32 i32, 20; serialize_i64 i64, 24; serialize_bool bool, 33; serialize_char char, 34; }
    fn serialize_f32(self, v: f32) -> Result<(), Er> { Err(Er) }
    fn serialize_f64(self, v: f64) -> Result<(), Er> { Err(Er) }
    fn serialize_str(self, _: &str) -> Result<(), Er> { self.put(35, 0) }
    fn serialize_bytes(self, _: &[u8]) -> Result<(), Er> { self.put(36, 0) }
    fn serialize_none(self) -> Result<(), Er> { self.put(37, 0) }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), Er> { self.put(38, 0) }
    fn serialize_unit(self) -> Result<(), Er> { self.put(39, 0) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), Er> { self.put(40, 0) }
    fn serialize_unit_variant(self, _: &'static str, k: u32, _: &'static str) -> Result<(), Er> { self.put(41, k as u64) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), Er> { self.put(42, 0)?; v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, v: &T) -> Result<(), Er> { self.put(43, 0) }
    fn serialize_seq(self, _: Option<usize>) -> Result<ser::Impossible<(), Er>, Er> { Err(Er) }
    fn serialize_tuple(self, _: usize) -> Result<Self, Er> { Ok(self) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, Er> { Ok(self) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<ser::Impossible<(), Er>, Er> { Err(Er) }
    fn serialize_map(self, _: Option<usize>) -> Result<ser::Impossible<(), Er>, Er> { Err(Er) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, Er> { Ok(self) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<ser::Impossible<(), Er>, Er> { Err(Er) }
}
impl<'a, 'b> ser::SerializeTuple for &'b mut Rec<'a> { type Ok = (); type Error = Er;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Er> { v.serialize(&mut **self) } fn end(self) -> Result<(), Er> { Ok(()) } }
impl<'a, 'b> ser::SerializeTupleStruct for &'b mut Rec<'a> { type Ok = (); type Error = Er;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Er> { v.serialize(&mut **self) } fn end(self) -> Result<(), Er> { Ok(()) } }
impl<'a, 'b> ser::SerializeStruct for &'b mut Rec<'a> { type Ok = (); type Error = Er;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> Result<(), Er> { v.serialize(&mut **self) } fn end(self) -> Result<(), Er> { Ok(()) } }

/// reads recorded values back: the tag decides which visit method is called
pub struct Rd<'a> { i: &'a [u8], n: usize }
impl<'de, 'a, 'b> Deserializer<'de> for &'b mut Rd<'a> {
    type Error = Er;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
        let p = self.n * 9;
        self.n += 1;
        let x = u64::from_le_bytes(*<&[u8; 8]>::try_from(&self.i[p + 1..p + 9]).unwrap());
        match self.i[p] { 1 => v.visit_u8(x as u8), 2 => v.visit_u16(x as u16), 4 => v.visit_u32(x as u32), 8 => v.visit_u64(x),
            17 => v.visit_i8(x as i8), 18 => v.visit_i16(x as i16), 20 => v.visit_i32(x as i32), 24 => v.visit_i64(x as i64), 40 => v.visit_unit(), _ => Err(Er) }
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, Er> { v.visit_seq(Sq(self, f.len())) }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, n: usize, v: V) -> Result<V::Value, Er> { v.visit_seq(Sq(self, n)) }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, Er> { v.visit_seq(Sq(self, n)) }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq map enum identifier ignored_any }
}
pub struct Sq<'a, 'b>(&'b mut Rd<'a>, usize);
impl<'de, 'a, 'b> de::SeqAccess<'de> for Sq<'a, 'b> { type Error = Er;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Er> {
        if self.1 == 0 { return Ok(None); }
        self.1 -= 1;
        s.deserialize(&mut *self.0).map(Some)
    } }
"""


def tag(w, sg):
    return nbits(native(w, sg)) // 8 + (16 if sg else 0)


def ty(w, sg):
    return "Integer<%s, packed_bits::Bits<%d>>" % (native(w, sg), w)


def wide(v, n, sg):
    """an n-bit native number as the recorder stores it"""
    return (T.sext if sg else T.zext)(n, 64, v) if n < 64 else v


def reduce(x, w, sg, n):
    """the N-bit integer holding a native number, as an n-bit native number"""
    v = T.extract(x, w - 1, 0)
    return (T.sext if sg else T.zext)(w, n, v) if w < n else v


def single_ser(w, sg):
    t = native(w, sg)
    n = nbits(t)

    def spec(I, O):
        e = reduce(T.extract(le(I), n - 1, 0), w, sg, n)
        return [("succeeds", T.eq(8, O[0], 0)), ("one call", T.eq(8, O[1], 1)), ("as its native type", T.eq(8, O[2], tag(w, sg))),
                ("the number", T.eq(64, le(O[3:11]), wide(e, n, sg))), ("readable", T.eq(8, O[11], 1)), ("equal after reading", T.eq(8, O[12], 1))]
    nm = "%s%d" % (t[0], w)
    return Harness("write:" + nm, Entry("w_" + nm, n // 8, 13, """
    let v: {T} = <{T} as SizedInteger<{t}, packed_bits::Bits<{w}>>>::from_primitive({rd});
    let mut buf = [0u8; 18];
    let mut r = Rec {{ o: &mut buf, n: 0 }};
    o[0] = v.serialize(&mut r).is_err() as u8;
    o[1] = r.n as u8;
    o[2..11].copy_from_slice(&buf[..9]);
    match <{T} as Deserialize>::deserialize(&mut Rd {{ i: &buf, n: 0 }}) {{ Ok(x) => {{ o[11] = 1; o[12] = (x == v) as u8; }} Err(_) => {{}} }}
    """.format(T=ty(w, sg), t=t, w=w, rd=rd(t, 0))), spec, note=ty(w, sg))


def single_de(w, sg):
    t = native(w, sg)
    n = nbits(t)
    nm = "%s%d" % (t[0], w)

    def spec(I, O):
        c = []
        x = le(I)
        lo = T.extract(x, n - 1, 0)
        for k, (what, ok) in enumerate((
                ("own type", 1),
                ("u64", T.ult(64, x, 1 << (n - 1 if sg else n)) if not (n == 64 and not sg) else 1),
                ("i64", T.eq(64, x, wide(lo, n, sg)) if sg else T.land(T.eq(1, T.extract(x, 63, 63), 0), T.eq(64, x, wide(lo, n, sg))) if n < 64
                 else T.eq(1, T.extract(x, 63, 63), 0)))):
            o = 9 * k
            bad = T.bnot(ok)
            c.append(("from %s: accepted iff it is a %s" % (what, t), T.eq(8, O[o], T.zext(1, 8, ok))))
            c.append(("from %s: reduced to %d bits" % (what, w), T.or_(1, bad, T.eq(64, le(O[o + 1:o + 9]), wide(reduce(lo, w, sg, n), n, sg)))))
        return c
    return Harness("read:" + nm, Entry("r_" + nm, 8, 27, "\n".join("""
    {{ let mut b = [0u8; 9]; b[0] = {tag}; b[1..9].copy_from_slice(i);
       match <{T} as Deserialize>::deserialize(&mut Rd {{ i: &b, n: 0 }}) {{ Ok(x) => {{ o[{o}] = 1;
          let y: {t} = *x; o[{o} + 1..{o} + 9].copy_from_slice(&(y as i64 as u64).to_le_bytes()); }} Err(_) => {{}} }} }}""".format(
        tag=tg, T=ty(w, sg), t=t, o=9 * k) for k, tg in enumerate((tag(w, sg), 8, 24)))), spec, note="%s from any number" % ty(w, sg))


def record(k, fields):
    """a structure that is both packable and serializable: numbers in order, and back"""
    nm = "Ser%d" % k
    head = "#[derive(PackedStruct, serde::Serialize, serde::Deserialize, Clone, Debug)]\n#[packed_struct(bit_numbering=\"msb0\", endian=\"msb\")]\n"
    pos = 0
    ps = []
    for j, (w, s) in enumerate(fields):
        ps.append('#[packed_field(bits="%d:%d")] pub f%d: %s' % (pos, pos + w - 1, j, ty(w, s)))
        pos += w
    d = head + "pub struct %s { %s, #[packed_field(bits=\"%d:%d\")] pub r: ReservedOnes<packed_bits::Bits<5>> }\n" % (
        nm, ", ".join(ps), pos, pos + 4)
    acc = ["f%d" % j for j in range(len(fields))]
    nin = sum(nbits(native(w, s)) // 8 for w, s in fields)
    off = []
    p = 0
    for w, s in fields:
        off.append(p)
        p += nbits(native(w, s)) // 8
    m = len(fields)
    vals = ["%s.into()" % rd(native(w, s), o) for (w, s), o in zip(fields, off)]
    build = "%s { %s, r: Default::default() }" % (nm, ", ".join("%s: %s" % x for x in zip(acc, vals)))

    def spec(I, O):
        c = [("writes and reads", T.eq(8, O[0], 2)), ("all equal", T.eq(8, O[2], T.mask(m)))]
        for j, (w, s) in enumerate(fields):
            n = nbits(native(w, s))
            e = reduce(T.extract(le(I[off[j]:off[j] + n // 8]), n - 1, 0), w, s, n)
            c.append(("type of field %d" % j, T.eq(8, O[3 + 9 * j], tag(w, s))))
            c.append(("field %d" % j, T.eq(64, le(O[4 + 9 * j:12 + 9 * j]), wide(e, n, s))))
        return c
    h = Harness("record:" + nm, Entry("rec_" + nm, nin, 3 + 9 * m, """
    let v = %s;
    let mut buf = [0u8; %d];
    let mut r = Rec { o: &mut buf, n: 0 };
    o[0] = v.serialize(&mut r).is_ok() as u8;
    o[1] = r.n as u8;
    o[3..].copy_from_slice(&buf[..%d]);
    match <%s as Deserialize>::deserialize(&mut Rd { i: &buf, n: 0 }) { Ok(x) => { o[0] += 1; %s } Err(_) => {} }""" % (
        build, 9 * (m + 4), 9 * m, nm, " ".join("o[2] |= ((x.%s == v.%s) as u8) << %d;" % (a, a, j) for j, a in enumerate(acc)))), spec, note=d.replace("\n", " "))
    return nm, d, h


def units(tier, seed):
    th = tier == "thorough"
    n = 8
    us = [Unit("c21_%d" % k, "serde", crates=("packed_struct", "serde")) for k in range(n)]
    for u in us:
        u.item("prelude", PRELUDE)
        u.item("serde", SERDE)
    k = 0
    for w in range(1, 65):
        for sg in (False, True):
            u = us[k % n]
            k += 1
            u.add(single_ser(w, sg))
            u.add(single_de(w, sg))
    r = random.Random("%s/serde" % seed)
    for j in range(60 if th else 12):
        fs = [(r.randint(1, 64), r.random() < 0.5) for _ in range(r.randint(1, 5))]
        nm, d, h = record(j, fs)
        u = us[j % n]
        u.item(nm, d)
        u.add(h)
    return us
