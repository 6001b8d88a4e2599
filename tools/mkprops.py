"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
CG = "packed_struct_codegen/src/"
LB = "packed_struct/src/"


def p(id, title, statement, over, text, why, files, symbols=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=x, where=files[0]) for x in symbols])))


p("C01", "Unpacking a packed value gives the value back",
  "For every structure declaration the derive macro accepts and every value of it, packing succeeds and unpacking the result succeeds and yields an equal value (a primitive stored in fewer bits than its type yields the value reduced to those bits, sign-extended when signed). This holds for every supported kind of field, any mix of them, any bit offset, either endianness and either bit numbering.",
  ["inputs", "programs"], "all field values of every declaration of the stated families (symbolic values; widths 1-64, offsets 0-7, mixed and nested fields)",
  "Tests pack a handful of constants in about thirty declarations; neither the values nor the combinations of offset, width, sign and neighbours are covered.",
  [CG + "pack_codegen.rs", CG + "pack_parse.rs", LB + "types_num.rs"], ["derive_pack", "pack_bits", "PackedStruct::pack", "PackedStruct::unpack"])

p("C02", "Every field occupies exactly its declared bits, most significant bit first",
  "In MSB0 numbering and big-endian order, packing places bit k of a field's value (counted from its most significant bit) at the k-th bit of the declared range, counting bit 0 as the most significant bit of byte 0. Bits of the packed bytes that belong to no field are zero, and the value of one field never influences the bits of another.",
  ["inputs", "programs"], "all values of every declaration of the families: every width 1-64 at every offset 0-7, signed and unsigned, alone and among neighbours, including fields declared out of order",
  "The placement code is generated per offset and width with masks and shifts; tests hit a few of the several hundred (offset, width) shapes with a few constants, and a wrong mask shows only for particular neighbouring bits.",
  [CG + "pack_codegen.rs", CG + "utils.rs"], ["pack_bits", "ones_u8"])

p("C03", "Unpacking reads each field from exactly its declared bits of any byte array",
  "For every byte array of the right length, unpacking yields for each field the value held in exactly its declared bits; bits outside the declared fields and the bits of other fields have no influence on it. When unpacking succeeds, packing the result again reproduces every bit that belongs to a value-carrying field.",
  ["inputs", "programs"], "all byte arrays (symbolic) for every declaration of the families: every width 1-64 at every offset 0-7, signed and unsigned, big and little endian, mixed",
  "Tests unpack only bytes that were just packed, so stray bits in gaps, all-ones neighbours and sign bits at odd offsets are not exercised.",
  [CG + "pack_codegen.rs", LB + "types_num.rs"], ["pack_bits", "unpack_field", "PackedStruct::unpack"])

p("C04", "Little-endian fields and wrappers put the low bytes first at every width",
  "A little-endian integer of N bits is laid out as its full low-order bytes in increasing order of significance, followed by its remaining N mod 8 most significant bits, contiguously in the declared range; integers of at most 8 bits are laid out as in big-endian order. Packing and unpacking agree with this for every width 1-64, offset, sign and value, for fields and for the little-endian integer wrapper used on its own, and a field's own endianness attribute overrides the structure's.",
  ["inputs", "programs"], "all values and all byte arrays; every width 1-64 (wrapper), every width 9-64 at every offset 0-7 (fields), signed and unsigned",
  "Partial widths go through bit-slice shifts whose behaviour depends on the width; the tests check two of them with one value each.",
  [LB + "types_num.rs", CG + "pack_parse.rs"], ["LsbInteger", "parse_reg_field"])

p("C05", "LSB0 numbering addresses the same bits as the mirrored MSB0 declaration",
  "With LSB0 bit numbering, bit 0 is the least significant bit of the last byte, and a field declared on bits a to b (in either order) of an S-byte structure occupies MSB0 bits 8S-1-b to 8S-1-a with its most significant bit at the higher LSB0 number. Packing and unpacking behave exactly as for the mirrored MSB0 declaration, for integers, flags, enums, arrays and nested structures.",
  ["inputs", "programs"], "all values / byte arrays of LSB0 declarations: every width 1-64 at every end offset, and seeded mixed declarations",
  "Two or three LSB0 structures are tested with constants; the mirrored position arithmetic is per declaration.",
  [CG + "pack_parse.rs", CG + "pack_parse_attributes.rs"], ["parse_struct", "BitsPositionParsed"])

p("C06", "Position spellings, automatic placement and sizes mean what they say",
  "A position may be written as a single number, a start (`a..`, `a:`), an inclusive range (`a:b`, `a..=b`, in either order) or an exclusive range (`a..b`), in bits or in bytes, decimal or hexadecimal; equivalent spellings give identical packing. A field without a position follows the previous field immediately, its width given by its type or size attribute; the packed array has the declared byte size, or the smallest number of bytes holding the last field, and the reported bit and byte sizes agree with it.",
  ["programs", "inputs"], "every supported spelling of a position, symbolic values, compared with the layout the documentation gives for it",
  "Spelling tests check a parsing helper on a few strings; they do not establish where the bits of a declared field end up for all values.",
  [CG + "pack_parse_attributes.rs", CG + "pack_parse.rs", CG + "utils.rs"], ["parse_position_val", "parse_num", "BitsRange"])

p("C07", "A bit-limited integer always holds its input reduced to N bits",
  "Converting any native value into an N-bit integer keeps exactly its low N bits, zero-extended for unsigned and sign-extended for signed types; values already in range are unchanged, and the reported mask is 2^N-1. Reading it back, dereferencing, comparing, hashing, formatting and the conversions to and from the native type all agree with that reduced value.",
  ["inputs"], "all native values (symbolic 8- to 64-bit), every N from 1 to 64, signed and unsigned",
  "Only Bits<4>, Bits<7>, Bits<8> and a few full widths are tested with selected values.",
  [LB + "types_num.rs"], ["Integer", "SizedInteger", "SizedIntegerSigned", "ones"])

p("C08", "Integer byte conversions are exact in both byte orders and inverse to each other",
  "Converting an integer to big-endian bytes lists its bytes from most to least significant and little-endian the reverse, for native integers and for N-bit integers in the minimal number of bytes; converting any bytes back reads the same value, reduced to N bits. The big- and little-endian wrappers pack and unpack accordingly, and report N bits.",
  ["inputs"], "all values and all byte arrays for u8..u64, i8..i64 and every N from 1 to 64",
  "Tests use one value for each of a few widths; signed and partial widths are not exercised.",
  [LB + "types_num.rs", LB + "types_bits.rs"], ["IntegerAsBytes", "SizedInteger", "MsbInteger", "LsbInteger"])

p("C09", "Primitive enums convert to and from exactly their declared numbers",
  "For a derived primitive enum, converting a variant gives its declared or implied discriminant as a value of the chosen integer type, and converting a number gives the variant with that discriminant, or nothing if there is none. When no integer type is chosen, the selected type can represent every discriminant, so distinct variants keep distinct, correct numbers.",
  ["inputs", "programs"], "all values of the primitive type (symbolic) and all variants, over enums with gaps, implied, negative, extreme and suffixed discriminants for every primitive type and for automatic selection",
  "Tests check a few discriminants and a few non-matching numbers; absence of any other accepted number needs all values.",
  [CG + "primitive_enum.rs", LB + "primitive_enum.rs"], ["PrimitiveEnum", "get_unitary_enum", "derive"])

p("C10", "Enum names convert exactly: case-sensitive, lowercase, display and listing",
  "A string converts to a variant exactly when it equals that variant's name (the lowercase conversion: the lowercased name), and every other string converts to nothing. The display string of a variant is its name and the variant list holds every variant once, in declaration order.",
  ["inputs", "programs"], "all strings up to one byte longer than the longest name (symbolic ASCII bytes), all variants",
  "Tests try a few names; a string that must not match can only be excluded by covering all strings of a length.",
  [CG + "primitive_enum.rs", LB + "primitive_enum.rs"], ["from_str", "from_str_lower", "to_display_str", "all_variants"])

p("C11", "A catch-all enum keeps every raw number",
  "A catch-all enum accepts every number: a number with a declared discriminant becomes that variant, any other is kept as the raw value, and converting back gives the original number in every case; the display string of a raw value holds its number. Equality between two catch-all values is equality of their numbers, and in a structure a catch-all enum field never makes unpacking fail and repacks to the same bits.",
  ["inputs"], "all numbers of the primitive type, all pairs for equality, all byte arrays of the structures that contain such fields",
  "Tests use a couple of unknown values.",
  [LB + "primitive_enum.rs", CG + "pack_codegen.rs"], ["EnumCatchAll"])

p("C12", "Unpacking fails exactly when a field holds an undefined encoding",
  "Unpacking a structure returns the invalid-value error if and only if some enum field holds a number with no declared variant or some flag wider than one bit holds a value other than 0 or 1; in every other case it succeeds. No other field kind makes unpacking fail.",
  ["inputs", "programs"], "all byte arrays for declarations with enum and flag fields of all widths that hold the discriminants, at various offsets, signed and unsigned, in both endiannesses",
  "Tests try one or two invalid bytes; which of all bit patterns are rejected is a statement over all of them.",
  [CG + "pack_codegen.rs", LB + "types_basic.rs", CG + "primitive_enum.rs"], ["unpack_field", "from_primitive", "PackingError::InvalidValue"])

p("C13", "Reserved fields always pack to their constant and ignore their input",
  "A reserved-zero field always packs to zeroes and a reserved-one field to ones over exactly its declared bits, at any offset and width, without touching neighbouring bits. Unpacking never depends on the bits under a reserved field and never fails because of them.",
  ["inputs", "programs"], "all values of neighbouring fields and all byte arrays; reserved widths 1-64 at offsets 0-7 plus wider ones",
  "Two reserved layouts are tested with constants; independence from the reserved bits is a statement over pairs of inputs.",
  [LB + "types_reserved.rs", CG + "pack_codegen.rs"], ["ReservedBits"])

p("C14", "Array fields hold their elements consecutively, first element first",
  "An array field occupies its range with elements of equal width one after the other, element 0 first, each packed like a single field of that element type, width and endianness. Packing and unpacking agree for arrays of integers, partial-width integers, flags, enums and structures at any bit offset.",
  ["inputs", "programs"], "all element values / byte arrays for array declarations of 1 to 8 elements, element widths 1-64, offsets 0-7",
  "Tests cover a few arrays with constants.",
  [CG + "pack_parse.rs", CG + "pack_codegen.rs", LB + "types_array.rs"], ["FieldKind::Array", "parse_field"])

p("C15", "Nested structures are embedded as their own packed bits",
  "A structure used as a field contributes exactly its own packed bits at the declared position, at any bit offset, and unpacking the outer structure yields exactly what unpacking the inner structure from those bits yields, including its errors. This also holds for arrays of structures, for deeper nesting and for inner structures that do not fill whole bytes.",
  ["inputs", "programs"], "all inner values / outer byte arrays for nested declarations at offsets 0-7 and nesting depth up to 3",
  "Tests nest two byte-aligned structures with constants.",
  [CG + "pack_codegen.rs", LB + "packing.rs"], ["pack_field", "unpack_field", "PackedStruct"])

p("C16", "Slice packing accepts exactly the right length and never writes on error",
  "For any packable type of fixed size, packing into or unpacking from a slice succeeds only if the slice has exactly the packed size, otherwise it returns the size-mismatch error with the expected and actual lengths. On success the slice holds exactly the packed bytes and unpacking equals unpacking the array; on a size error the output is untouched, and packing to a vector gives exactly the packed bytes.",
  ["inputs"], "all contents and all lengths up to a few bytes beyond the packed size, for derived structures, primitives, byte arrays and wrappers",
  "Tests use right-sized slices plus one wrong size.",
  [LB + "types_generic.rs", LB + "packing.rs"], ["PackedStructSlice", "BufferSizeMismatch"])

p("C17", "Vectors pack as the concatenation of their items",
  "A vector of fixed-size packable items packs into the concatenation of the packed items in order, requires exactly that output length, and unpacks any slice whose length is a multiple of the item size into that many items; other lengths give the modulo error, and an invalid item makes the whole unpacking fail. An empty slice gives an empty vector, and the size without an instance is reported as unknown.",
  ["inputs"], "all item values and byte contents for vectors of 0-4 items of 1-5 byte item types; all slice lengths up to 12",
  "Tests unpack one vector.",
  [LB + "types_vec.rs"], ["Vec"])

p("C18", "Tuples pack as consecutive parts with at most one variable-length part",
  "A tuple of up to ten packable parts packs and unpacks as the concatenation of its parts in order; when one part is a vector, it takes all bytes not needed by the fixed parts, wherever it stands. Too short or too long input gives a size error, and unpacking with more than one variable-length part gives the corresponding error, never a panic or a misaligned value.",
  ["inputs"], "all contents and all slice lengths up to the stated bound for tuples of 1-10 parts, the variable part first, in the middle, last or absent",
  "Tests use three tuples with one message each.",
  [LB + "types_tuples.rs"], ["StructLengthBuilder", "StructLengths", "tuple_impls"])

p("C19", "No input makes unpacking panic",
  "Unpacking arbitrary bytes, of any length where a slice is accepted, either returns a value or an error: it never panics, overflows an integer or reads outside its input, for structures, wrappers, tuples, vectors, enums and bit-limited integers. Packing any value likewise never panics, including values of raw enum numbers or native integers too large for their field.",
  ["inputs", "programs"], "all byte contents, all slice lengths up to the bounds, all field values, over the declaration families, with overflow checks on",
  "Absence of a panic for untrusted bytes is a statement over all inputs; tests supply well-formed ones.",
  [LB + "types_generic.rs", LB + "types_tuples.rs", LB + "types_vec.rs", LB + "types_num.rs", CG + "pack_codegen.rs"], ["unpack", "unpack_from_slice"])

p("C20", "The debug display shows the actual packed bytes and field bits",
  "The console display of a structure prints its name, the packed bytes in decimal, hexadecimal and binary, and for each field its value and, when no field is wider than 33 bits, its position and exactly the bits it occupies in the packed bytes. The binary bit-range formatter prints, for any bytes and any range inside them, one character per bit in order.",
  ["inputs"], "all byte contents for all bit ranges of slices up to 4 bytes; all field values of the display declarations",
  "Tests print one structure without comparing the digits.",
  [LB + "debug_fmt.rs", CG + "pack_codegen_docs.rs"], ["DebugBinaryByteSlice", "PackedStructDisplay", "packable_fmt_fields"])

p("C21", "Serialized bit-limited integers look like plain numbers and come back in range",
  "With serialization enabled, an N-bit integer is written exactly as its native number, and reading any native number gives the N-bit integer holding that number reduced to N bits, so a value outside the N-bit range can never be constructed by deserializing. Writing and then reading gives an equal value.",
  ["inputs"], "all native numbers for every N from 1 to 64, signed and unsigned, through a serializer that records what it is given",
  "No test covers serialization.",
  [LB + "types_num.rs"], ["Serialize", "Deserialize"])

p("C22", "All library configurations produce the same bytes",
  "The packed bytes, unpacked values and errors of a declaration do not depend on which crate features are enabled: the standard library, the no-std configuration, the larger byte types and serialization support all give the same results. Enum number and name conversions agree as well.",
  ["configurations", "inputs"], "all values / byte arrays of a fixed and a seeded set of declarations under the default, no-std, byte_types_64, byte_types_256 and use_serde configurations",
  "The no-std test crate runs a few constants and the other configurations are not run at all.",
  [LB + "lib.rs", CG + "common.rs", "packed_struct/build.rs"], ["alloc_supported", "result_type"])

p("C23", "Bit and byte width types report their own size, also for the large types",
  "The width type of N bits reports N bits and the smallest sufficient number of bytes, and its byte array has that length; the byte array type of N bytes reports N, is filled by its constructor with the given byte, and moving its content toward the end by k bytes (k less than its length) keeps the order and clears the first k. Reserved fields and arrays that use the large widths behave as the small ones.",
  ["inputs", "configurations"], "all widths of the default, byte_types_64 and byte_types_256 tables; symbolic contents",
  "Tests check a single rotation and no large width.",
  [LB + "types_bits.rs", "packed_struct/build.rs"], ["NumberOfBits", "NumberOfBytes", "ByteArray"])

p("C24", "The derive macro rejects declarations that cannot be laid out",
  "Declarations whose fields overlap, exceed the declared size, lack a needed position, width or endianness, give widths or positions that contradict each other, give a position or size that is empty or not a (quoted) number, or use unsupported types are rejected at compile time, and every layout that is not contradictory is accepted.",
  ["programs"], "all declarations",
  "Tests can only hold declarations that compile.",
  [CG + "pack_parse.rs", CG + "pack_parse_attributes.rs"], ["parse_struct", "parse_position_val"])

p("C25", "Generated documentation describes the layout that is used",
  "The documentation table generated for a structure lists each field with the bit range it actually occupies.",
  ["programs"], "all declarations", "No test reads the generated documentation.",
  [CG + "pack_codegen_docs.rs"], ["type_docs"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
