"""C25: the generated documentation table gives each field's bits."""
import random
from cgen import D, F, unit
from c24 import I9, TECHNIQUE, ASSUME, seeded

BOUNDS = ("the doc attributes in the derive macro's output, for declarations given as text with symbolic digits (one to three digits, structures of one to "
          "eleven fields and up to 21 rows): positions in every spelling in bits and bytes, implied positions, widths from types and attributes, "
          "arrays of symbolic length, nested, reserved and enum fields, both numberings, declared and implied sizes up to 2000 bytes; seeded declarations "
          "(quick 30, thorough 200)")


def fixed():
    inc = lambda a, b: ("incl", a, b)
    return [
        D("pair", [F("u8", inc("?", "9")), F("u16", inc("10", "16"))], size="3"),
        D("pair2", [F("u8", inc("4", "9")), F("u16", inc("10", "1?"))], size="3"),
        D("reverse", [F("u16", inc("1?", "7"), sep=":")], size="3"),
        D("excl", [F("u16", ("excl", "3", "1?")), F("bool", ("one", "21"))], size="3"),
        D("grow", [F("bool", ("one", "3")), F("u16", inc("10", "1?"))]),
        D("hex", [F("u16", inc("0x#", "0x12"))], size="0x4"),
        D("bytes", [F("u32", inc("1", "?"), unit=8), F("bool", ("one", "7"))], size="7"),
        D("bytes1", [F("u8", ("one", "?"), unit=8)]),
        D("open", [F("u8", ("open", "1?"), w="7"), F("bool"), F("bool")], size="4"),
        D("openb", [F("u16", ("open", "?"), unit=8, sep=":"), F("u8", w="5"), F("bool")], size="9"),
        D("implied", [F("u8"), F("bool"), F("u16", w="1?"), F("i32")], size="9", numbering=None),
        D("prims", [F("u8"), F("i16"), F("u32"), F("i64")], size="1?", numbering=None),
        D("minimum", [F("u8", w="4"), F("u8", w="?"), F("bool")], numbering=None),
        D("ints", [F(I9), F("Integer<i8, packed_bits::Bits<3>>"), F("ReservedOne<packed_bits::Bits<12>>")], size="?", numbering=None),
        D("array", [F("u8", count="?"), F("bool")], size="11", numbering=None),
        D("arraybits", [F("bool", ("one", "0")), F("u8", ("open", "?"), w="3", count="4")], size="3"),
        D("arrayrng", [F("u16", inc("3", "1?"), count="4"), F("bool", ("one", "2"))], size="3"),
        D("arraybytes", [F("Sub", w="?", wunit=8, count="2"), F("u8")], size="21", numbering=None),
        D("nested", [F("Sub", inc("3", "1?")), F("E", inc("0", "2"), enum=True)], size="3"),
        D("lsb", [F("u8", inc("7", "2")), F("u16", inc("1?", "8"))], size="3", numbering="lsb0"),
        D("lsbone", [F("bool", ("one", "?")), F("bool", ("one", "13"))], size="2", numbering="lsb0"),
        D("lsbarr", [F("u8", inc("1?", "4"), count="3")], size="3", numbering="lsb0"),
        D("lsbbytes", [F("u16", inc("?", "0"), unit=8)], size="3", numbering="lsb0"),
        D("order", [F("u8", inc("8", "1?")), F("u8", inc("0", "5"))], size="2"),
        D("far", [F("u8", inc("643", "64?"))], size="81"),
        D("far4", [F("u16", inc("10?6", "1096")), F("bool", ("one", "8191"))], size="1024"),
        D("far5", [F("u8", ("one", "151?"), unit=8), F("bool", w="3")], size="2000"),
        D("longarr", [F("bool", ("open", "?"), count="18"), F("u8", w="5")], size="5"),
        D("longarrb", [F("u16", ("open", "1?"), unit=8, count="12")], size="50"),
        D("longlsb", [F("u8", inc("10?", "20"), w="4", count="21")], size="14", numbering="lsb0"),
        D("many", [F("bool"), F("u8", w="?")] + [F("u8", w=str(1 + j % 8)) for j in range(9)], size="9", numbering=None),
    ]


def units(tier, seed):
    th = tier == "thorough"
    hs = [d.harness(docs=True) for d in fixed() + seeded(random.Random(seed * 7 + 25), 200 if th else 30, 2 if th else 1)]
    N = 48 if th else 24
    us = [unit("c25_%d" % k) for k in range(N)]
    for n, h in enumerate(hs):
        us[n % N].add(h)
    return [u for u in us if u.harnesses]
