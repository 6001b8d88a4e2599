"""C24: the derive macro accepts exactly the declarations that can be laid out."""
import random
from cgen import D, F, Text, symbolic, unit
from llsym import terms as T

BOUNDS = ("declarations given to the derive macro as text with symbolic digits and letters: overlapping fields (plain, arrays, nested, reserved; bit and "
          "byte positions in every spelling; both numberings; implied positions), declared sizes too small, missing or contradicting positions, widths, "
          "endianness and numbering, words with up to four symbolic letters for the attributes, each with one to three symbolic digits (positions up to "
          "bit 649) in structures of one to three fields; positions and sizes given twice, and values that come from a macro; unsupported types and items, attributes without quotes, and values that are no numbers; seeded declarations (quick 24, "
          "thorough 200) with one (thorough: two) symbolic digits")
ASSUME = ["the macro runs on the tokens of proc_macro2's own lexer instead of the compiler's",
          "a type too narrow for its field, or unknown to the macro, is left to the type checker: no claim"]
TECHNIQUE = "symbolic execution of the derive macro itself (its LLVM IR, with syn, quote and proc_macro2), decided by SMT (z3 QF_BV)"
I9 = "Integer<u16, packed_bits::Bits<9>>"


def overlaps():
    inc = lambda a, b: ("incl", a, b)
    return [
        # two fields
        D("ov_lo", [F("u8", inc("4", "9")), F("u8", inc("?", "1?"))], size="3"),
        D("ov_hi", [F("u16", inc("?", "1?")), F("u8", inc("9", "13"))], size="3"),
        D("ov_one", [F("u8", inc("4", "9")), F("bool", ("one", "12")), F("bool", ("one", "?"))], size="3"),
        D("ov_grow", [F("u8", inc("3", "8")), F("u16", inc("?", "1?"))]),
        D("ov_bytes", [F("u8", ("one", "1"), unit=8), F("u32", inc("?", "?"), unit=8)], size="4"),
        D("ov_mixed", [F("u16", inc("1", "2"), unit=8), F("u8", inc("?", "2?"))], size="4"),
        D("ov_excl", [F("u8", inc("6", "9")), F("u16", ("excl", "?", "1?"))], size="3"),
        D("ov_open", [F("u8", inc("9", "12")), F("u8", ("open", "?"), w="5")], size="4"),
        D("ov_next", [F("bool", ("one", "11")), F("u8", ("open", "?"), w="5"), F("u8", w="4")], size="3"),
        D("ov_auto", [F("u8", ("open", "?"), w="7"), F("u8"), F("u8", inc("14", "17"))], size="3"),
        D("ov_arr", [F("u8", inc("2", "13"), count="3"), F("u8", inc("?", "1?"))], size="3"),
        D("ov_arr2", [F("u8", inc("1?", "17")), F("bool", inc("?", "11"), count="3")], size="3"),
        D("ov_arrs", [F("u8", inc("8", "15"), count="2"), F("u8", ("open", "?"), w="3", count="3")], size="3"),
        D("ov_res", [F("ReservedZero<packed_bits::Bits<4>>", inc("3", "6")), F("u16", inc("?", "1?"))], size="3"),
        D("ov_nest", [F("Inner", inc("8", "15")), F("Other", inc("1?", "23"))], size="3"),
        D("ov_lsb", [F("u8", inc("9", "4")), F("u16", inc("14", "?"))], size="3", numbering="lsb0"),
        D("ov_lsb2", [F("u16", inc("15", "5")), F("bool", ("one", "1?")), F("bool", ("one", "?"))], size="3", numbering="lsb0"),
        # many elements, many fields
        D("ov_longarr", [F("bool", inc("8", "47"), count="40"), F("bool", ("one", "3?"))], size="6"),
        D("ov_longarr2", [F("u8", inc("1?", "25")), F("bool", inc("20", "55"), count="36")], size="7"),
        D("ov_longarr3", [F("u8", inc("0", "159"), count="20"), F("u8", ("open", "14?"), w="6")], size="21"),
        D("ov_many", [F("bool", ("one", str(3 * j))) for j in range(14)] + [F("bool", ("one", "3?"))], size="6"),
        D("ov_many2", [F("u8", inc("2?", "33"))] + [F("u8", w="5")] + [F("bool", ("one", str(n))) for n in (5, 7, 9, 11, 13, 15, 17, 19, 45, 47)],
          size="6"),
        D("ov_lsbarr", [F("u8", inc("19", "8"), count="3"), F("u8", inc("?", "1"))], size="3", numbering="lsb0"),
    ]


def sizes():
    inc = lambda a, b: ("incl", a, b)
    return [
        D("sz_one", [F("u16", inc("?9", "1?"))], size="3"),
        D("sz_end", [F("u32", inc("5", "3?"))], size="4"),
        D("sz_decl", [F("u8"), F("u16")], size="?", numbering=None),
        D("sz_decl2", [F("u16", inc("9", "1?"))], size="2"),
        D("sz_decl3", [F("u16", inc("9", "16"))], size="?"),
        D("sz_big", [F("u8", inc("643", "64?"))], size="81"),
        D("sz_bytes", [F("u64", inc("?", "?"), unit=8)], size="6"),
        D("sz_auto", [F("u8", w="7"), F("u8", w="?"), F("bool")], size="2", numbering=None),
        D("sz_open", [F("u8", ("open", "1?"), w="7")], size="3"),
        D("sz_arr", [F("u8", w="?", count="3")], size="3", numbering=None),
        D("sz_arrn", [F("u8", w="3", count="?")], size="3", numbering=None),
        D("sz_arrb", [F("u16", w="?", wunit=8, count="2")], size="4", numbering=None),
        D("sz_lsb", [F("u16", inc("2?", "11"))], size="3", numbering="lsb0"),
        D("sz_lsb2", [F("u16", inc("17", "6"))], size="?", numbering="lsb0"),
        D("sz_hex", [F("u16", inc("0x0#", "0X1?"))], size="0x3"),
        D("sz_first", [F("u8", w="?"), F("u8", w="1?")], numbering=None),
        D("sz_first2", [F("bool"), F("u8", w="?"), F("Sub", w="?")], numbering=None),
        D("sz_given", [F("u8", ("open", "0"), w="5"), F("u8", w="?")]),
    ]


def widths():
    inc = lambda a, b: ("incl", a, b)
    e = None
    return [
        # contradicting widths
        D("w_both", [F("u16", inc("?", "13"), w="1?")], size="3"),
        D("w_bytes", [F("u32", inc("?", "3"), w="?", wunit=8, unit=8)], size="4"),
        D("w_int", [F(I9, inc("?", "11"))], size="3"),
        D("w_intsz", [F(I9, w="?"), F("u8")], size="3", numbering=None),
        D("w_arrint", [F("Integer<u8, packed_bits::Bits<5>>", inc("?", "14"), count="2")], size="3"),
        D("w_arr", [F("u8", inc("?", "1?"), count="3")], size="3"),
        D("w_arr2", [F("bool", inc("2", "13"), count="?")], size="3"),
        D("w_arr3", [F("u16", inc("0", "1"), unit=8, w="?", count="2")], size="3"),
        D("w_arrsz", [F("u8", w="8", count="?", plain_size=True)], size="9", numbering=None),
        D("w_empty", [F("u8", ("excl", "?", "?"))], size="2"),
        D("w_empty2", [F("bool", ("one", "0")), F("u16", ("excl", "17", "1?"))], size="3"),
        # said twice
        D("m_size", [F("u16", w="?", more=[("size_bits", "1?")])], size="3", numbering=None),
        D("m_sizes", [F("u32", inc("0", "1?"), more=[("size_bytes", "?")])], size="4"),
        D("m_elem", [F("u16", w="1?", count="2", more=[("element_size_bytes", "?")])], size="5", numbering=None),
        D("m_plain", [F("u16", w="12", more=[("element_size_bits", "1?")])], size="5", numbering=None),
        D("m_bits", [F("u8", inc("8", "13"), more=[("bits", inc("?", "1?"))])], size="3"),
        D("m_bytes", [F("u16", inc("?", "15"), more=[("bytes", inc("?", "1"))])], size="3"),
        D("m_open", [F("u8", ("open", "1?"), more=[("bytes", ("open", "?"))])], size="5"),
        D("m_three", [F("u8", inc("8", "15"), more=[("bytes", ("one", "?")), ("size_bits", "?"), ("size_bytes", "1")])], size="3"),
        D("m_lsb", [F("u8", inc("15", "8"), more=[("bytes", ("one", "?")), ("bits", inc("1?", "8"))])], size="3", numbering="lsb0"),
        D("m_bare", [F("Integer<u16, Bits<9>>", inc("?", "11"))], size="3"),
        D("m_bareauto", [F("Integer<u16, Bits<9>>"), F("ReservedOne<Bits<12>>"), F("Integer<u8, Bits::<3>>", w="?")], size="3", numbering=None),
        # the width in the type, spelled in other ways, or not at all
        D("t_hex", [F("Integer<u16, packed_bits::Bits<0xA>>"), F("bool", ("one", "1?"))], size="3"),
        D("t_under", [F("Integer<u16, packed_bits::Bits<1_0>>"), F("ReservedOne<packed_bits::Bits<{4}>>"), F("u8", w="?")], size="2", numbering=None),
        D("t_suffix", [F("Integer<u16, packed_bits::Bits<12usize>>", inc("?", "11"))], size="2"),
        D("t_const", [F("Integer<u8, packed_bits::Bits<W3>>"), F("u8", inc("8", "1?"))], size="3"),
        D("t_constopen", [F("Integer<u16, packed_bits::Bits<W10>>", ("open", "?"))], size="3"),
        D("t_constpos", [F("Integer<u16, packed_bits::Bits<W12>>", inc("?", "11"))], size="3"),
        D("t_sum", [F("Integer<u8, packed_bits::Bits<{3 + 2}>>")], size="?", numbering=None),
        D("t_reserved", [F("u8"), F("ReservedZero<packed_bits::Bits<R4>>")], size="?", numbering=None),
        D("t_other", [F("Integer<u8, More8Bits<5>>")], size="?", numbering=None),
        # values that come from a macro
        D("g_auto", [F("u8"), F("u8", inc("8", "1?"), endian="lsb"), F("bool", ("one", "1?"))], size="3", grouped=True),
        D("g_size", [F("u8", w="?"), F("u16", w="13", count="2")], size="4", grouped=True),
        D("g_lsb", [F("u16", inc("17", "6")), F("u8", inc("?", "0"))], size="?", numbering="lsb0", grouped=True),
        # no width
        D("w_none", [F("Sub")], size="?", numbering=None),
        D("w_nonearr", [F("Sub", count="?")], size="4", numbering=None),
        D("w_open", [F("Sub", ("open", "?"))], size="4"),
        D("w_some", [F("Sub", ("open", "?"), w="14")], size="4"),
        D("w_enum", [F("E", enum=True)], size="?", numbering=None),
        D("w_alias", [F("Integer<u16, NineBits>")], size="?", numbering=None),
        # no endianness
        D("e_prim", [F("u16", inc("0", "1?"))], size="3", endian=e),
        D("e_prim2", [F("i32", inc("?", "12"))], size="3", endian=e),
        D("e_own", [F("u16", inc("0", "9"), endian="lsb"), F("u16", inc("1?", "21"))], size="3", endian=e),
        D("e_int", [F(I9, inc("?", "12"))], size="2", endian=e),
        D("e_int8", [F("Integer<u8, packed_bits::Bits<8>>", inc("?", "12"))], size="2", endian=e),
        D("e_enum", [F("E", inc("?", "11"), enum=True)], size="3", endian=e),
        D("e_arr", [F("u16", w="1?", count="2")], size="5", numbering=None, endian=e),
        D("e_arr8", [F("u16", w="?", count="2")], size="5", numbering=None, endian=e),
        D("e_rest", [F("bool", ("one", "?")), F("ReservedZero<packed_bits::Bits<12>>", inc("10", "21")), F("Sub", inc("22", "31"))], size="4",
          endian=e),
        D("e_none", [F("bool"), F("u8", w="7"), F("u16")], size="?", numbering=None, endian=e),
        # no numbering, no size, not enough position
        D("n_incl", [F("u8", inc("?", "7"))], size="?", numbering=None),
        D("n_one", [F("bool", ("one", "?"))], size="2", numbering=None),
        D("n_open", [F("u8", ("open", "?"))], size="3", numbering=None),
        D("n_second", [F("u8"), F("u8", inc("8", "1?"))], size="3", numbering=None),
        D("l_nosize", [F("u8", inc("7", "?"))], numbering="lsb0"),
        D("l_open", [F("u8", ("open", "?"))], size="?", numbering="lsb0"),
        D("l_open2", [F("u8", inc("7", "0")), F("u8", ("open", "8"))], size="?", numbering="lsb0"),
        D("l_auto", [F("u8")], size="?", numbering="lsb0"),
        D("l_auto2", [F("u8", inc("7", "0")), F("u8")], size="?", numbering="lsb0"),
    ]


def always(name, head, body, ok, size="?"):
    """a declaration whose fate does not depend on the digit in it"""
    t = Text()
    t.lit(head)
    t.num(size)
    t.lit(body)

    def spec(I, O):
        if O is None:
            return [("rejected, although it can be laid out", 0)] if ok else []
        return [("parses", T.ne(8, O[0], 2)), ("accepted exactly if it can be laid out", T.eq(8, O[0], 0 if ok else 1))]
    return symbolic("declare:" + name, t, 4, spec)


def kinds():
    h = '#[packed_struct(endian="msb", size_bytes="1'
    hn = '#[packed_struct(endian="msb", bit_numbering="msb0", size_bytes="1'
    r = []
    for n, ty in enumerate(["&'static [u8]", "(u8, u8)", "fn() -> u8", "[[u8; 2]; 2]", "[u8; N]", "[(u8, u8); 2]", "*const u8", "std::vec::Vec<u8>", "!",
                            "[u8; 0]", "[std::u8; 2]", "[&u8; 2]"]):
        r.append(always("type%d" % n, h, '")] pub struct S { #[packed_field(size_bits="8")] a: %s }' % ty, False))
        r.append(always("type_at%d" % n, hn, '")] pub struct S { x: u8, #[packed_field(bits="8..=15")] a: %s }' % ty, False))
    for n, (d, ok) in enumerate([
            ("pub struct S { a: u8 }", True), ("struct S { a: u8, b: [u8; 2], }", True), ("pub(crate) struct S { pub a: u8 }", True),
            ("pub struct S<T> { a: u8, b: T }", False), ("pub struct S<'a> { a: u8 }", False), ("pub struct S<const N: usize> { a: u8 }", False),
            ("pub struct S(u8, u8);", False), ("pub struct S([u8; 2]);", False), ("pub enum S { A, B }", False), ("pub enum S { A { a: u8 } }", False), ("pub union S { a: u8, b: u8 }", False),
            ('pub struct S { #[packed_struct(size_bits="8")] a: u8 }', False),
            ('#[packed_field(size_bits="8")] pub struct S { a: u8 }', False),
            ('#[derive(Clone)] /// text\n pub struct S { /// text\n a: u8, #[allow(unused)] b: bool }', True)]):
        r.append(always("item%d" % n, h, '")] ' + d, ok))
    # attributes that say nothing, or not in a way that is understood
    for n, (a, ok) in enumerate([
            ("bits=8", False), ("bits = 8..=15", False), ("bits('8')", False), ('bits("8..=15")', False), ("bits", False), ('bits="8..=15" "x"', False),
            ("bits=b\"8\"", False), ('bits=concat!("8", "..=15")', False), ('bits: "8..=15"', False), ('a::bits="8..=15"', False), ("size_bits=8", False),
            ("size_bytes=1", False), ('"8..=15"', False), ("8", False), ('bits="8..=15",', True), ("", True), ("bits=r\"8..=15\"", True), ('bits=r#"8"#', True)]):
        r.append(always("attr%d" % n, hn, '")] pub struct S { a: u8, #[packed_field(%s)] b: u8 }' % a, ok))
    r.append(always("attr_none", hn, '")] pub struct S { #[packed_field] a: u8, #[packed_field()] b: u8 }', True))
    for n, a in enumerate(["size_bytes=3", "size_bytes(3)", "size_bytes", 'endian=lsb', "endian=\"lsb\" size_bytes=\"3\"", "bit_numbering=msb0"]):
        r.append(always("sattr%d" % n, '#[packed_struct(endian="msb")] #[doc="', '"] #[packed_struct(%s)] pub struct S { a: u8, b: u16 }' % a, False))
    # values that are no numbers
    for n, v in enumerate(["x", "", "-1", "1,2", "0x", "1_0", "0b1", "1:2:3", "..3", ":3", "..", "a:b", "1..=", "1...3", "1..2..", "1:2:", "1....", "1::", ":1:", "..1..", "1..=..", "1:..", "..=1", "1..=2..=3", "1..2..3", "=1", "1=2", "1.2", "1.", "99999999999999999999"]):
        r.append(always("pos%d" % n, hn, '")] pub struct S { a: u8, #[packed_field(bits="%s")] b: u8 }' % v, False))
        if n < 7 or n > 13:
            r.append(always("size%d" % n, h, '")] pub struct S { a: u8, #[packed_field(size_bits="%s")] b: u8 }' % v, False))
            r.append(always("bytes%d" % n, h, '")] pub struct S { a: u8, #[packed_field(element_size_bytes="%s")] b: [u8; 2] }' % v, False))
    return r


def low(I, ks):
    """the bytes in lower case"""
    return [T.or_(8, I[k], 32) for k in ks]


def oneof(I, ks, ws):
    """case-insensitively one of the words"""
    b = low(I, ks)
    letter = lambda k, c: T.eq(8, I[k], c) if not chr(c).isalpha() else T.eq(8, T.or_(8, I[k], 32), c)
    return T.lor(*[T.land(*[letter(k, c) for k, c in zip(ks, w.encode())]) for w in ws if len(w) == len(ks)])


def words():
    """attribute words with symbolic letters"""
    r = []

    def make(name, parts, good, need):
        t = Text()
        ks = None
        for x in parts:
            if type(x) is str:
                t.lit(x)
            else:
                ks = t.chars(*x)

        def spec(I, O):
            ok = oneof(I, ks, good)
            acc = 0 if O is None else T.eq(8, O[0], 0)
            if not need:
                # a word that means nothing may be ignored where nothing depends on it
                return [("accepted with a known word", T.lor(T.bnot(ok), acc))]
            return [("accepted exactly with a known word", T.eq(1, acc, ok))]
        r.append(symbolic("word:" + name, t, 4, spec))
    for lo, hi, tag in ((97, 122, "lower"), (65, 90, "upper")):
        for n in (2, 3):
            w = ["lsb", "msb", "le", "be"]
            make("endian%d_%s" % (n, tag), ['#[packed_struct(endian="', (n, lo, hi), '")] pub struct S { a: u16 }'], w, True)
            make("own%d_%s" % (n, tag), ['#[packed_struct()] pub struct S { #[packed_field(endian="', (n, lo, hi), '")] a: u16 }'], w, True)
    for c in (48, 49):
        t = "0" if c == 48 else "1"
        make("numbering_" + t, ['#[packed_struct(bit_numbering="', (3, 97, 122), t + '", endian="msb", size_bytes="2")] pub struct S { #[packed_field(bits="0..=7")] a: u16 }'],
             ["lsb", "msb"] if t == "0" else [], True)
    make("ty", ['#[packed_struct(endian="msb")] pub struct S { #[packed_field(ty="', (4, 97, 122), '", size_bits="16")] a: u16 }'], ["enum"], False)
    # built-in types have a width of their own, unknown ones have none
    t = Text().lit('#[packed_struct(endian="msb")] pub struct S { a: ')
    k = t.chars(1, 97, 122)
    d = t.chars(2, 48, 57)
    t.lit(" }")

    def spec(I, O):
        acc = 0 if O is None else T.eq(8, O[0], 0)
        num = lambda s: T.land(*[T.eq(8, I[x], ord(c)) for x, c in zip(d, s)])
        ok = T.land(T.lor(T.eq(8, I[k[0]], ord("u")), T.eq(8, I[k[0]], ord("i"))), T.lor(num("16"), num("32"), num("64")))
        return [("accepted exactly if the type has a width", T.eq(1, acc, ok))]
    r.append(symbolic("word:type", t, 4, spec))
    return r


def seeded(rnd, n, most=2):
    """two or three fields with up to `most` symbolic digits"""
    out = []
    for k in range(n):
        numbering = rnd.choice(["msb0", "msb0", "lsb0"])
        fs = []
        digits = most
        for j in range(rnd.choice((2, 2, 3))):
            ty = rnd.choice(["u8", "u16", "i16", "bool", "Sub", "ReservedOne<packed_bits::Bits<6>>", "[u8]", "[bool]", "[u16]", I9])
            cnt = None
            if ty[0] == "[":
                ty = ty[1:-1]
                cnt = str(rnd.choice((1, 2, 3)))
            a = rnd.randrange(0, 28)
            how = rnd.choice(["incl", "incl", "incl", "open", "one", "auto", "excl"])
            if numbering == "lsb0" and how in ("open", "auto") and rnd.random() < .8:
                how = "incl"
            sa = str(a)
            if rnd.random() < .6 and digits:
                sa = sa[:-1] + "?"
                digits -= 1
            if how in ("incl", "excl"):
                b = a + (rnd.choice((1, 2, 3)) * int(cnt) * rnd.choice((1, 2, 3)) - 1 if cnt else rnd.randrange(0, 10))
                sb = str(b)
                if rnd.random() < .5 and digits:
                    sb = sb[:-1] + "?"
                    digits -= 1
                if how == "incl" and rnd.random() < .3:
                    sa, sb = sb, sa
                f = F(ty, (how, sa, sb), count=cnt)
            elif how == "open":
                f = F(ty, ("open", sa), count=cnt, w=rnd.choice([None, str(rnd.randrange(1, 9)), str(rnd.randrange(1, 9))]))
            elif how == "one":
                f = F(ty, ("one", sa), count=cnt)
            else:
                f = F(ty, None, count=cnt, w=rnd.choice([None, str(rnd.randrange(1, 9)), str(rnd.randrange(1, 9))]))
            fs.append(f)
        out.append(D("rnd%d" % k, fs, numbering=numbering, size=rnd.choice(["4", "4", "5", None]), endian=rnd.choice(["msb", "lsb", None])))
    return out


def units(tier, seed):
    th = tier == "thorough"
    hs = [d.harness() for d in overlaps() + sizes() + widths() + seeded(random.Random(seed * 7 + 24), 200 if th else 24, 2 if th else 1)]
    hs += kinds() + words()
    N = 48 if th else 32
    us = [unit("c24_%d" % k) for k in range(N)]
    for n, h in enumerate(hs):
        us[n % N].add(h)
    return [u for u in us if u.harnesses]
