"""Declarations as the macro sees them: source text with symbolic digits, run through the macro's own parsing and layout code.

Numbers are written as patterns: `?` is any decimal digit, `#` any of a-f, `@` any of A-F, everything else stands for itself.
"""
import re
from driver import Entry, Harness, Unit
from llsym import terms as T

W = 32


def imp(a, b):
    return T.lor(T.bnot(a), b)

HELP = r"""
fn vp_sat(x: usize) -> [u8; 2] { (if x > 65535 { 65535u16 } else { x as u16 }).to_le_bytes() }
/// the next number in t from k on
fn vp_num(t: &[u8], mut k: usize, end: usize) -> Option<(usize, usize)> {
    while k < end && !t[k].is_ascii_digit() { k += 1; }
    if k >= end { return None; }
    let mut r = 0usize;
    while k < end && t[k].is_ascii_digit() { r = r * 10 + (t[k] - 48) as usize; k += 1; }
    Some((r, k))
}
fn vp_find(t: &[u8], what: &[u8], from: usize) -> Option<usize> {
    let mut k = from;
    while k + what.len() <= t.len() { if &t[k..k + what.len()] == what { return Some(k); } k += 1; }
    None
}
fn vp_doc(t: &[u8], o: &mut [u8]) {
    if let Some(k) = vp_find(t, b"into ", 0) {
        if let Some((n, _)) = vp_num(t, k, t.len()) { o[1..3].copy_from_slice(&vp_sat(n)); }
    }
    if vp_find(t, b"<thead>", 0).is_some() { return; }
    if let Some(k) = vp_find(t, b"<tr><td>", 0) {
        let k = k + 8;
        let e = vp_find(t, b"</td>", k).unwrap_or(t.len());
        let r = o[3] as usize;
        o[3] += 1;
        let b = 4 + 24 * r;
        if b + 24 > o.len() { return; }
        if let Some((n, k)) = vp_num(t, k, e) {
            o[b..b + 2].copy_from_slice(&vp_sat(n));
            let n2 = vp_num(t, k, e).map(|x| x.0).unwrap_or(n);
            o[b + 2..b + 4].copy_from_slice(&vp_sat(n2));
        }
        if let Some(k) = vp_find(t, b"<td>", e) {
            let e = vp_find(t, b"</td>", k).unwrap_or(t.len());
            let n = if e - k - 4 > 20 { 20 } else { e - k - 4 };
            o[b + 4..b + 4 + n].copy_from_slice(&t[k + 4..k + 4 + n]);
        }
    }
}
fn vp_docs(ts: proc_macro2::TokenStream, o: &mut [u8], top: bool) {
    let mut n = 0;
    for t in ts {
        match t {
            proc_macro2::TokenTree::Ident(i) => {
                if top && i == "compile_error" { o[0] = 1; }
                n = if i == "doc" { 1 } else { 0 };
            }
            proc_macro2::TokenTree::Punct(p) => { n = if n == 1 && p.as_char() == '=' { 2 } else { 0 }; }
            proc_macro2::TokenTree::Literal(l) => { if n == 2 { vp_doc(l.to_string().as_bytes(), o); } n = 0; }
            proc_macro2::TokenTree::Group(g) => {
                n = 0;
                if g.delimiter() == proc_macro2::Delimiter::Bracket { vp_docs(g.stream(), o, false); }
            }
        }
    }
}
/// the quoted values as a macro's expression fragment passes them on: in groups without delimiters
fn vp_grouped(ts: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
    let mut r = proc_macro2::TokenStream::new();
    for t in ts {
        let t = match t {
            proc_macro2::TokenTree::Group(g) => proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), vp_grouped(g.stream()))),
            proc_macro2::TokenTree::Literal(l) => if l.to_string().as_bytes()[0] == b'"' {
                let mut one = proc_macro2::TokenStream::new();
                one.extend(core::iter::once(proc_macro2::TokenTree::Literal(l)));
                proc_macro2::TokenTree::Group(proc_macro2::Group::new(proc_macro2::Delimiter::None, one))
            } else { proc_macro2::TokenTree::Literal(l) },
            t => t,
        };
        r.extend(core::iter::once(t));
    }
    r
}
/// the macro itself. o: status (0 accepted, 1 rejected, 2 not Rust), then what the documentation says
fn vp_derive(s: &[u8], o: &mut [u8], docs: bool, grouped: bool) {
    let s = unsafe { core::str::from_utf8_unchecked(s) };
    let t: proc_macro2::TokenStream = match s.parse() { Ok(t) => t, Err(_) => { o[0] = 2; return } };
    let r = derive_packable_bytes(if grouped { vp_grouped(t) } else { t });
    if docs { vp_docs(r, o, true); return; }
    for x in r { if let proc_macro2::TokenTree::Ident(i) = x { if i == "compile_error" { o[0] = 1; } } }
}
"""
HELP_ENUM = r"""
/// what the macro selects as the number type. o: status, 1 signed 2 unsigned, bits
fn vp_selected(ts: proc_macro2::TokenStream, o: &mut [u8]) {
    let mut n = 0;
    for t in ts {
        match t {
            proc_macro2::TokenTree::Ident(i) => {
                if i == "compile_error" { o[0] = 1; }
                if n == 3 {
                    for (k, x) in ["i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64"].iter().enumerate() {
                        if i == x { o[1] = if k < 4 { 1 } else { 2 }; o[2] = 8 << (k % 4); }
                    }
                }
                n = if i == "type" { 1 } else if n == 1 && i == "Primitive" { 2 } else { 0 };
            }
            proc_macro2::TokenTree::Punct(p) => { n = if n == 2 && p.as_char() == '=' { 3 } else { 0 }; }
            proc_macro2::TokenTree::Literal(_) => n = 0,
            proc_macro2::TokenTree::Group(g) => { n = 0; vp_selected(g.stream(), o); }
        }
    }
}
fn vp_enum(s: &[u8], o: &mut [u8]) {
    let s = unsafe { core::str::from_utf8_unchecked(s) };
    let t: proc_macro2::TokenStream = match s.parse() { Ok(t) => t, Err(_) => { o[0] = 2; return } };
    vp_selected(derive_primitive_detect(t), o);
}
"""
PRELUDE = "use vp_codegen::*;\nuse vp_codegen::{syn, quote, proc_macro2};\n"


def unit(name):
    u = Unit(name, "codegen", ("vp_codegen",))
    u.prelude = PRELUDE
    u.internal = True
    u.item("derive", HELP)
    return u


class Text:
    """source text whose symbolic bytes are inputs"""

    def __init__(self):
        self.b = []         # int or (lo, hi)
        self.n = 0

    def lit(self, s):
        self.b += list(s.encode())
        return self

    def num(self, pat, W=W):
        """append a number; -> fn(I) giving its value in W bits"""
        pat = str(pat)
        hexa = pat[:2] in ("0x", "0X")
        ds = []
        for k, c in enumerate(pat):
            if c == "?":
                ds.append((self.n, 48))
                self.b.append((48, 57))
                self.n += 1
            elif c in "#@":
                ds.append((self.n, (97 if c == "#" else 65) - 10))
                self.b.append((97, 102) if c == "#" else (65, 70))
                self.n += 1
            else:
                if not (hexa and k < 2 or c == "_"):
                    ds.append(int(c, 16))
                self.b.append(ord(c))
        base = 16 if hexa else 10

        def value(I):
            r = 0
            for d in ds:
                x = d if type(d) is int else T.sub(W, T.zext(8, W, I[d[0]]), d[1])
                r = T.add(W, T.mul(W, r, base), x)
            return r
        return value

    def chars(self, n, lo, hi):
        """n symbolic bytes; -> their input indices"""
        r = list(range(self.n, self.n + n))
        self.b += [(lo, hi)] * n
        self.n += n
        return r

    def inp(self):
        return [x for x in self.b if type(x) is tuple]

    def body(self, call):
        out = []
        for x in self.b:
            c = 63 if type(x) is tuple else x
            out.append("\\\"" if c == 34 else "\\\\" if c == 92 else chr(c) if 32 <= c < 127 else "\\x%02x" % c)
        sets = []
        n = 0
        for k, x in enumerate(self.b):
            if type(x) is tuple:
                sets.append("t[%d] = i[%d];" % (k, n))
                n += 1
        return 'let mut t = *b"%s";\n %s\n %s' % ("".join(out), " ".join(sets), call)


INTS = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64}


class F:
    """one field; pos: None, ("one"|"open", n), ("incl"|"excl", a, b), with a separator; unit 1 or 8"""

    def __init__(self, ty="bool", pos=None, sep=None, unit=1, w=None, wunit=1, count=None, endian=None, enum=False, raw=None, plain_size=False, attr="packed_field", more=()):
        # more: further [(size_bits..., pattern)] or [(bits|bytes, pos)], written after the others, the last ones in an attribute of their own
        self.ty, self.pos, self.sep, self.unit, self.w, self.wunit, self.count, self.endian, self.enum = (
            ty, pos, sep, unit, w, wunit, count, endian, enum)
        self.more = more
        self.raw = raw          # further attribute text
        self.plain_size = plain_size    # size_bits instead of element_size_bits for an array

    def builtin(self):
        """(width of the type, fixed by the type)"""
        if self.ty == "bool":
            return 1, False
        if self.ty in INTS:
            return INTS[self.ty], False
        m = re.search(r"\bBits *(?:::)? *< *\{? *(0[xob][0-9a-fA-F_]+|[0-9][0-9_]*)(?:usize)? *\}? *>", self.ty)
        if m:
            return int(m.group(1).replace("_", ""), 0), self.ty.startswith("Integer")
        return None, False

    def isint(self):
        return self.enum or self.ty in INTS or self.ty.startswith("Integer")


class D:
    """one declaration"""

    def __init__(self, name, fields, numbering="msb0", size=None, endian="msb", tail="", grouped=False):
        # grouped: the quoted values come from a macro
        self.grouped = grouped
        self.name, self.fields, self.numbering, self.size, self.endian = name, fields, numbering, size, endian
        t = self.t = Text()
        at = []
        if numbering:
            at.append('bit_numbering="%s"' % numbering)
        if endian:
            at.append('endian="%s"' % endian)
        t.lit("#[packed_struct(" + ", ".join(at))
        self.vsize = None
        if size is not None:
            t.lit((", " if at else "") + 'size_bytes="')
            self.vsize = t.num(size)
            t.lit('"')
        t.lit(")] pub struct S { ")
        for n, f in enumerate(fields):
            first = [True]
            f.vpos = f.vw = None

            def sep():
                t.lit("#[packed_field(" if first[0] else ", ")
                first[0] = False
            if f.raw is not None:
                sep()
                t.lit(f.raw)
            def position(pos, unit, mark):
                sep()
                t.lit('%s="' % ("bits" if unit == 1 else "bytes"))
                k = pos[0]
                a = t.num(pos[1])
                if k == "one":
                    r = (k, a)
                elif k == "open":
                    t.lit(mark or "..")
                    r = (k, a)
                else:
                    t.lit(mark or ("..=" if k == "incl" else ".."))
                    r = (k, a, t.num(pos[2]))
                t.lit('"')
                return r
            parts = ["w", "pos"] if n % 2 else ["pos", "w"]
            for what in parts:
                if what == "pos" and f.pos:
                    f.vpos = position(f.pos, f.unit, f.sep)
                if what == "w" and f.w is not None:
                    sep()
                    t.lit("%ssize_%s=\"" % ("element_" if f.count and not f.plain_size else "", "bits" if f.wunit == 1 else "bytes"))
                    f.vw = t.num(f.w)
                    t.lit('"')
            if f.enum:
                sep()
                t.lit('ty="enum"')
            if f.endian:
                sep()
                t.lit('endian="%s"' % f.endian)
            f.vmore = []
            for j, (what, p) in enumerate(f.more):
                if j and not first[0]:
                    t.lit(")] ")
                    first[0] = True
                if what in ("bits", "bytes"):
                    u = 1 if what == "bits" else 8
                    f.vmore.append((position(p, u, None), u))
                else:
                    sep()
                    t.lit('%s="' % what)
                    f.vmore.append((t.num(p), 8 if "bytes" in what else 1, what.startswith("element")))
                    t.lit('"')
            if not first[0]:
                t.lit(")] ")
            t.lit("f%d: " % n)
            f.vcount = None
            if f.count is not None:
                t.lit("[%s; " % f.ty)
                f.vcount = t.num(f.count)
                t.lit("], ")
            else:
                t.lit(f.ty + ", ")
        t.lit("}" + tail)
        # the longest array
        self.maxcount = [int(re.sub("[?#@]", "9", str(f.count)), 0) if f.count is not None else 1 for f in fields]
        self.rows = sum(self.maxcount)

    # ------------------------------------------------------------- the oracle
    def oracle(self, I):
        """(the declaration can be laid out, no claim is made, bits, [(count, start, element width, end)])"""
        bad = []
        free = []
        size = self.vsize(I) if self.vsize else None
        prev = None
        out = []
        mx = 0
        for n, f in enumerate(self.fields):
            cnt = f.vcount(I) if f.vcount else 1
            bw, fixed = f.builtin()
            if f.count is not None and f.vw and f.plain_size:
                bad.append(T.ult(W, 1, cnt))
            def bounds(pos, unit):
                k = pos[0]
                a = pos[1](I)
                if k in ("one", "open"):
                    lo, hi = a, a
                elif k == "incl":
                    b = pos[2](I)
                    c = T.ule(W, a, b)
                    lo, hi = T.ite(W, c, a, b), T.ite(W, c, b, a)
                else:
                    b = pos[2](I)
                    bad.append(T.ule(W, b, a))
                    lo, hi = a, T.sub(W, b, 1)
                if unit == 8:
                    assert k != "excl"
                    lo, hi = T.mul(W, lo, 8), T.add(W, T.mul(W, hi, 8), 7)
                return lo, hi
            rng = bounds(f.vpos, f.unit) if f.vpos and f.vpos[0] != "open" else None
            # width
            if f.vw:
                ew = T.mul(W, f.vw(I), f.wunit)
                width = T.mul(W, ew, cnt)
                if rng:
                    bad.append(T.ne(W, width, T.add(W, T.sub(W, rng[1], rng[0]), 1)))
            elif rng:
                width = T.add(W, T.sub(W, rng[1], rng[0]), 1)
            elif bw:
                width = T.mul(W, bw, cnt)
            else:
                bad.append(1)
                width = 1
            if f.vcount:
                bad.append(T.eq(W, cnt, 0))
                bad.append(T.ne(W, T.urem(W, width, T.ite(W, T.eq(W, cnt, 0), 1, cnt)), 0))
                ew = T.udiv(W, width, T.ite(W, T.eq(W, cnt, 0), 1, cnt))
            else:
                ew = width
            for m in f.vmore:
                if len(m) == 2:
                    # the same position again (of the same kind)
                    lo, hi = bounds(*m)
                    l0, h0 = bounds(f.vpos, f.unit)
                    bad.append(T.ne(W, lo, l0))
                    if m[0][0] != "open":
                        bad.append(T.ne(W, hi, h0))
                else:
                    x = T.mul(W, m[0](I), m[1])
                    bad.append(T.ne(W, x, width if not m[2] else ew))
            bad.append(T.eq(W, width, 0))
            if fixed:
                bad.append(T.ult(W, ew, bw))
            if bw and not f.enum:
                # too wide for its type: left to the type checker
                free.append(T.ult(W, 8 if f.ty == "bool" else bw, ew))
            # position
            if self.numbering == "lsb0":
                if rng is None or size is None:
                    bad.append(1)
                    rng = (0, 0)
                else:
                    top = T.sub(W, T.mul(W, size, 8), 1)
                    bad.append(T.ule(W, T.mul(W, size, 8), rng[1]))
                    rng = T.sub(W, top, rng[1]), T.sub(W, top, rng[0])
                start = rng[0]
            elif f.vpos is None:
                start = prev if prev is not None else 0
            else:
                if self.numbering is None:
                    bad.append(1)
                start = rng[0] if rng else f.vpos[1](I)
                if not rng and f.unit == 8:
                    start = T.mul(W, start, 8)
            prev = T.add(W, start, width)
            out.append((cnt, start, ew, prev))
            mx = T.ite(W, T.ult(W, mx, prev), prev, mx)
            if f.isint() and not f.endian and not self.endian:
                bad.append(T.ult(W, 8, ew))
        bits = T.mul(W, size, 8) if size is not None else mx
        bad.append(T.ult(W, bits, mx))
        if self.fields and self.fields[0].vpos is None and size is None:
            bad.append(T.ne(W, T.and_(W, bits, 7), 0))
        for i, a in enumerate(out):
            for b in out[:i]:
                bad.append(T.land(T.ult(W, a[1], b[3]), T.ult(W, b[1], a[3])))
        return T.bnot(T.lor(*bad)) if bad else 1, T.lor(*free) if free else 0, bits, out

    def names(self, n, cnt):
        return ["f%d[%d]" % (n, k) for k in range(cnt)] if self.fields[n].count is not None else ["f%d" % n]

    def doc_conds(self, O, bits, out):
        """[(label, condition)]: the rows of the documentation table"""
        u16 = lambda o: T.concat((0, 16), (O[o + 1], 8), (O[o], 8))
        r = [("documented size", T.eq(W, u16(1), T.lshr(W, T.add(W, bits, 7), 3)))]
        base = 0
        total = 0
        for cnt, _, _, _ in out:
            total = T.add(W, total, cnt)
        r.append(("one row for every field", T.eq(W, T.zext(8, W, O[3]), total)))
        for n, (cnt, start, ew, _) in enumerate(out):
            for k, nm in enumerate(self.names(n, self.maxcount[n])):
                row = T.add(W, base, k)
                s = T.add(W, start, T.mul(W, ew, k))
                e = T.sub(W, T.add(W, s, ew), 1)
                live = T.ult(W, k, cnt)
                for i in ([row] if type(row) is int else range(self.rows)):
                    c = T.land(live, T.eq(W, row, i))
                    o = 4 + 24 * i
                    r.append(("first bit of " + nm, imp(c, T.eq(W, u16(o), s))))
                    r.append(("last bit of " + nm, imp(c, T.eq(W, u16(o + 2), e))))
                    want = nm.encode()[:20].ljust(20, b"\0")
                    r.append(("name of " + nm, imp(c, T.land(*[T.eq(8, O[o + 4 + j], want[j]) for j in range(20)]))))
            base = T.add(W, base, cnt)
        return r

    def note(self):
        return "".join("?" if type(x) is tuple else chr(x) for x in self.t.b)

    def harness(self, docs=False):
        """docs: what the documentation says, otherwise whether the declaration is accepted"""
        def spec(I, O):
            ok, free, bits, out = self.oracle(I)
            if O is None:
                return [] if docs else [("rejected, although it can be laid out", T.lor(free, T.bnot(ok)))]
            acc = T.eq(8, O[0], 0)
            if not docs:
                return [("parses", T.ne(8, O[0], 2)),
                        ("accepted exactly if it can be laid out", T.lor(free, T.eq(1, acc, ok)))]
            both = T.land(acc, ok, T.bnot(free))
            if type(both) is int and not both:
                return []
            return [(l, imp(both, c)) for l, c in self.doc_conds(O, bits, out)]
        return symbolic(("document:" if docs else "declare:") + self.name, self.t, 4 + 24 * self.rows if docs else 4, spec, docs, self.grouped)


def enum(name, discs):
    """the number type the macro selects for an enum; discs: patterns, or None for the next number"""
    N = 80
    t = Text().lit("enum E { ")
    vals = []
    for k, d in enumerate(discs):
        t.lit("V%d" % k)
        if d is None:
            vals.append(None)
        else:
            t.lit(" = ")
            neg = d[0] == "-"
            if neg:
                t.lit("-")
            vals.append((neg, t.num(d[neg:], N)))
        t.lit(", ")
    t.lit("}")

    def spec(I, O):
        if O is None:
            return [("rejected, although every number has a type", 0)]
        ok = []
        v = T.sub(N, 0, 1)
        sg = T.eq(8, O[1], 1)
        for x in vals:
            if x is None:
                v = T.add(N, v, 1)
            else:
                v = x[1](I)
                if x[0]:
                    v = T.sub(N, 0, v)
            for b in (8, 16, 32, 64):
                fit = T.ite(1, sg, T.eq(N, T.sext(b, N, T.extract(v, b - 1, 0)), v), T.eq(N, T.zext(b, N, T.extract(v, b - 1, 0)), v))
                ok.append(imp(T.eq(8, O[2], b), fit))
        return [("accepted", T.eq(8, O[0], 0)), ("a number type", T.ne(8, O[1], 0)), ("holds every discriminant", T.land(*ok))]
    e = Entry("m_" + name, max(t.n, 1), 3, t.body("vp_enum(&t, o);"))
    h = Harness("select:" + name, e, spec, inp=t.inp() or [0], panics=True, max_paths=200000,
                note="".join("?" if type(x) is tuple else chr(x) for x in t.b))
    h.heapfork = True
    return h


def symbolic(name, text, nout, spec, docs=False, grouped=False):
    e = Entry("d_" + re.sub(r"\W", "_", name), max(text.n, 1), nout, text.body("vp_derive(&t, o, %s, %s);" % ("true" if docs else "false", "true" if grouped else "false")))
    h = Harness(name, e, spec, inp=text.inp() or [0], panics=True, max_paths=200000,
                note="".join("?" if type(x) is tuple else chr(x) for x in text.b))
    h.heapfork = True
    return h
