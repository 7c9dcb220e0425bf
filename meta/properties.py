"""Single source of properties.jsonl and the checks of MANIFEST.json (python3 -m meta.gen)."""

PY = "compiler/extensions/python/runtime/src/zserio/"
BVP = ("symbolic execution of the unmodified runtime source (all paths of the harness) with Z3 bit-vector queries; "
       "counterexamples replayed on the real module")

PROPERTIES = []


def prop(pid, title, statement, text, why, files, mechanism, over=("inputs",), technique=BVP, note="", observe=()):
    PROPERTIES.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": name, "where": where} for name, where in mechanism],
                    "observe_at": list(observe)},
        "technique": technique, "note": note,
    })


prop("P01", "Python bit stream: fixed-width integer fields",
     "In the Python runtime, a signed or unsigned integer written with any width of 1 to 64 bits at any bit position "
     "takes exactly that many bits, appears most significant bit first in two's complement, leaves its neighbours and "
     "the zero padding of the last byte intact, and is read back unchanged with the reader at the position after it. "
     "A value outside the range of its width, or a width outside 1..64, is rejected and leaves the stream unchanged. "
     "Byte alignment and positioning on both sides move to the same position and only insert zero bits.",
     "every value, width, bit offset, neighbour and alignment",
     "The tests write a few values per width at offset 0; 2^64 values at 8 offsets cannot be sampled.",
     [PY + "bitwriter.py", PY + "bitreader.py", PY + "limits.py"],
     [("write_bits / write_signed_bits / alignto", PY + "bitwriter.py"),
      ("read_bits / read_signed_bits / alignto", PY + "bitreader.py")],
     observe=["byte_array and bitposition of the writer", "values and bitposition of the reader"])

prop("P02", "Python variable-length integers: wire format, size, range",
     "For every varint type (varint16/32/64, varuint16/32/64, varint, varuint, varsize) every value of the documented "
     "range is written in the documented format with the smallest number of bytes at any bit position, its computed "
     "bit size is the number of bits written, and it is read back unchanged. Values outside the range are rejected by "
     "the writer and by the size calculation. Every byte sequence decodes to the value the format defines or is "
     "rejected.",
     "every value in and around the 64-bit range, every byte sequence of up to 9 bytes, every bit offset",
     "Tests use hand-picked limits; each size class holds up to 2^57 values.",
     [PY + "bitwriter.py", PY + "bitreader.py", PY + "bitsizeof.py", PY + "limits.py"],
     [("_write_varnum / _write_signed_varnum", PY + "bitwriter.py"), ("read_var*", PY + "bitreader.py"),
      ("bitsizeof_var*", PY + "bitsizeof.py")])

prop("P03", "Python floating point fields",
     "A float64 field keeps every bit pattern; a float32 field holds the value rounded to the nearest representable "
     "number; a float16 field holds the nearest float16, with halfway cases away from zero, magnitudes below 2^-24 "
     "as signed zero and magnitudes above the float16 range as infinity, never turning a number into NaN. Every "
     "16, 32 or 64 bit pattern read gives exactly the number it denotes, and writing a number read from a field "
     "restores the same bits unless it is NaN, which stays NaN.",
     "all 2^64 doubles, all 2^32 and 2^16 patterns",
     "The tests sample a few dozen numbers; rounding carries and overflow need particular mantissas.",
     [PY + "float.py", PY + "bitwriter.py", PY + "bitreader.py"],
     [("uint16_to_float / float_to_uint16 and 32, 64 bit versions", PY + "float.py")])

prop("P04", "Python bytes, string and bit buffer fields",
     "Bytes, strings and external bit buffers are written as a length (bytes, UTF-8 bytes, bits) in varsize format "
     "followed by the payload at any bit position, their computed bit size is the number of bits written, and they "
     "are read back equal with the reader right after them. Unused bits of a bit buffer's last byte are zero and never "
     "reach the stream. An arbitrary stream gives the field it encodes, and raises an exception if its length prefix or payload "
     "is incomplete or a string is not valid UTF-8.",
     "every content within the stated lengths, bit offset and input stream",
     "Content, length class and bit offset multiply; the fast byte-aligned path and the slow path are sampled once.",
     [PY + "bitwriter.py", PY + "bitreader.py", PY + "bitbuffer.py", PY + "bitsizeof.py", PY + "builtin.py"],
     [("write_bytes / write_string / write_bitbuffer", PY + "bitwriter.py"),
      ("read_bytes / read_string / read_bitbuffer", PY + "bitreader.py")])

prop("P05", "Python reader never leaves the stream",
     "Whatever the stream content, its bit size and the reader position, a read either returns the value denoted by "
     "exactly the bits at the position, all of which lie inside the stream, or raises an exception and does not move "
     "past the end. A reader over a given number of bits never exposes bits after that size, and positions outside "
     "the stream are rejected.",
     "every stream content, bit size, start position and read operation within the bounds",
     "Tests check a few overruns; each operation has several internal fetch steps, each with its own bound.",
     [PY + "bitreader.py"],
     [("bounds checks of BitStreamReader", PY + "bitreader.py")])

prop("P06", "Python arrays: wire format, size and element offsets",
     "In the Python runtime, an array of any element kind with fixed, auto (varsize prefix) or implicit length writes "
     "exactly its length prefix and its elements in order at any bit position; its computed bit size and end position "
     "are what writing produces, and reading restores the same elements. An implicit array reads every element up to "
     "the end of the stream. With element offsets each element is byte aligned and its index and byte position are "
     "reported; a truncated stream raises an exception.",
     "every element value, length, mode and bit offset within the bounds",
     "Element kind, length, mode and bit offset multiply; sizes of variable-size elements depend on the values.",
     [PY + "array.py"],
     [("Array.bitsizeof / initialize_offsets / write / from_reader", PY + "array.py"),
      ("ArrayTraits of all kinds", PY + "array.py")],
     observe=["written bits", "reported offsets", "raw_array after reading"])

prop("P07", "Python packed arrays: delta compression",
     "A packed array of integers writes a descriptor, its first element and the signed deltas in the smallest common "
     "width, or falls back to unpacked elements when a delta does not fit 62 bits or packing would not be smaller; the "
     "elements of an object array share one descriptor per packed field. Its computed bit size and end position equal "
     "what is written, and reading any valid packed array yields the running sums. A truncated packed array raises an "
     "exception.",
     "every element value, order, delta width and mode within the bounds",
     "Whether packing wins depends on all elements together; delta width limits need 62-bit differences.",
     [PY + "array.py", PY + "bitsizeof.py"],
     [("DeltaContext", PY + "array.py"), ("Array.write_packed / from_reader_packed / bitsizeof_packed", PY + "array.py")])

prop("P08", "Python equality and hash codes",
     "Two bit buffers are equal exactly if they have the same bit size and the same used bits; equal bit buffers, equal "
     "field values and equal arrays of every kind have equal 32-bit hash codes whatever the unused bits hold. An "
     "unset value hashes like zero.",
     "every content within the stated sizes and every seed",
     "Hash equality has to hold for all pairs of equal objects; tests compare a handful.",
     [PY + "bitbuffer.py", PY + "hashcode.py", PY + "array.py"],
     [("BitBuffer.__eq__ / __hash__", PY + "bitbuffer.py"), ("calc_hashcode_*", PY + "hashcode.py")])

prop("P09", "Python position, bound and operator helpers",
     "Aligning a bit position gives the next multiple of the alignment; bits and bytes convert exactly and only whole "
     "bytes convert; the bounds of a bit field of 1..64 bits are those of its two's complement range and other widths "
     "are rejected. The numbits operator gives the smallest width able to hold that many values, isset whether all "
     "bits of the mask are set, and lengthof of a string its number of UTF-8 bytes.",
     "every position, value and mask within the bounds",
     "Off-by-one errors appear at powers of two anywhere in a 64-bit range.",
     [PY + "bitposition.py", PY + "bitfield.py", PY + "builtin.py"],
     [("alignto / bits_to_bytes", PY + "bitposition.py"), ("bitfield_*bound", PY + "bitfield.py"),
      ("numbits / isset / lengthof_*", PY + "builtin.py")])

prop("P10", "Python JSON text: values, tokens and documents",
     "Every string, integer, boolean and null written by the Python JSON encoder is decoded back to the same value, and "
     "every escape sequence and number of the JSON grammar gets its value whatever follows it. The tokens, values, line "
     "and column numbers of a text do not depend on the chunks in which the stream delivers it. The parser reports "
     "exactly the structure of a well-formed text to its observer, and raises JsonParserException for any other text.",
     "every value, every text over the JSON alphabets and every division into chunks within the bounds",
     "Chunk boundaries inside tokens and escapes multiply with the texts; the tests use fixed texts and chunks.",
     [PY + "json.py"],
     [("JsonEncoder / JsonDecoder", PY + "json.py"), ("JsonTokenizer", PY + "json.py"), ("JsonParser", PY + "json.py")],
     observe=["text of encode_value", "result of decode_value", "tokens", "observer calls"])

prop("P11", "Python JSON export and import of whole objects",
     "The JSON text of an object of generated Python code contains exactly its set fields by schema name in schema order "
     "with their values, null for unset ones, in the requested layout and enumeration format, and reading the text gives "
     "an equal object. On input, enumerations accept exactly the names and values of their items, and bitmasks the names "
     "of their values joined by | and every number of the underlying type; anything else raises an exception.",
     "every object of the test types within the bounds, every text for enumerations and bitmasks",
     "Export and import combine every field kind with every value; the tests use one hand-written object tree.",
     [PY + "json.py", PY + "walker.py", PY + "creator.py", PY + "debugstring.py",
      "compiler/extensions/python/freemarker/TypeInfo.inc.ftl"],
     [("JsonWriter", PY + "json.py"), ("JsonReader", PY + "json.py"), ("Walker", PY + "walker.py"),
      ("ZserioTreeCreator", PY + "creator.py"), ("type info", "compiler/extensions/python/freemarker/TypeInfo.inc.ftl")],
     technique="symbolic execution of the unmodified runtime and of code generated by the compiler built from the current "
               "source, with Z3; counterexamples replayed on the real modules",
     observe=["JSON text", "object read from JSON text"])


# generated Python code

GEN = "compiler/extensions/python/freemarker/"
EMIT = "compiler/extensions/python/src/zserio/extension/python/"
GENPY = ("symbolic execution of the code generated by the real compiler (built from the current sources) together with "
         "the unmodified runtime (all paths of the harness), against a reference model of the encoding, with Z3 "
         "bit-vector queries; counterexamples replayed on the really imported generated code")


def genprop(pid, title, statement, text, why, files, mechanism, over=("inputs",), **kwargs):
    prop(pid, title, statement, text, why, [GEN + name if "/" not in name else name for name in files],
         [(name, GEN + where if "/" not in where else where) for name, where in mechanism], over, technique=GENPY,
         **kwargs)


genprop("P20", "Generated Python structures encode as specified",
        "For a schema structure with fields of any built-in type, enumerations, bitmasks, nested structures and dynamic "
        "bit fields, the generated Python class writes exactly the fields in schema order in the documented encoding at "
        "any bit position, and its computed bit size is the number of bits written. Reading what was written gives equal "
        "field values and stops at the end of the object; a truncated stream raises an exception. Writing does not "
        "change the object.",
        "every field value and bit offset for the structures of the test schema",
        "The generator's tests do not run generated code; the values and offsets multiply.",
        ["Structure.py.ftl", "CompoundField.inc.ftl", "Enumeration.py.ftl", "Bitmask.py.ftl"],
        [("read / write / bitsizeof", "Structure.py.ftl"), ("field access macros", "CompoundField.inc.ftl")])

genprop("P21", "Generated Python choices and unions",
        "A generated Python choice writes and reads exactly the field selected by its selector expression (integer, "
        "boolean, enumeration, bitmask or compound expression; default and empty cases included), and a generated union "
        "writes the index of its field followed by that field. Sizes, alignment to any bit position, nested and array "
        "use follow the documented encoding and reading restores the selected field and value.",
        "every selector and field value within the bounds",
        "No existing test executes generated choices or unions.",
        ["Choice.py.ftl", "Union.py.ftl"], [("read / write / bitsizeof", "Choice.py.ftl"), ("choice tag", "Union.py.ftl")])

genprop("P22", "Generated Python optional, conditional and extended fields",
        "An optional field takes one presence bit and is encoded only if set; a conditional field is encoded exactly if "
        "its condition holds; an extended field starts byte aligned at the end. Sizes, offsets and alignments account "
        "for absent fields, and values left in fields whose condition does not hold are neither encoded nor compared. A "
        "stream that ends before an extended field is read with that field absent and is written back identically.",
        "every combination of presence and value within the bounds, every number of extended fields in the stream",
        "Presence combinations are exponential and no existing test executes generated code.",
        ["Structure.py.ftl", "CompoundField.inc.ftl"],
        [("presence conditions", "CompoundField.inc.ftl"), ("extended fields", "Structure.py.ftl")])

genprop("P23", "Generated Python alignment and offsets",
        "Aligned fields start at a multiple of their alignment counted from the start of the stream, filled with zero "
        "bits. Initializing offsets stores in every offset field, including fields of other structures, parameters and "
        "indexed arrays, the byte position at which the field it announces is then written. An offset that does not match "
        "the position is refused both when writing and when reading.",
        "every field value, start position and wrong offset within the bounds",
        "Positions depend on all previous fields; no existing test executes generated code.",
        ["Structure.py.ftl", "CompoundField.inc.ftl"],
        [("initialize_offsets", "Structure.py.ftl"), ("offset checks", "CompoundField.inc.ftl")])

genprop("P24", "Generated Python arrays and packed arrays",
        "Arrays of every element type with fixed, expression, auto and implicit length, plain and packed, including "
        "packed arrays of structures, choices and unions with nested, optional and dynamic fields, are encoded by "
        "generated Python code as specified. Packed compounds share one delta context per field. Sizes equal the bits "
        "written and reading restores the elements.",
        "every element value and length within the bounds",
        "Packing decisions depend on all elements together; no existing test executes generated packed code.",
        ["Structure.py.ftl", "Choice.py.ftl", "Union.py.ftl", "ArrayTraits.inc.ftl", PY + "array.py"],
        [("packing contexts and packed read / write", "Structure.py.ftl"), ("array construction", "CompoundField.inc.ftl")])

genprop("P25", "Generated Python parameterized types and templates",
        "A parameterized type instantiated with field values, literals, expressions, functions, element indices or whole "
        "compounds sees the current values of its arguments when writing and when reading, through any nesting and in "
        "arrays. Instances of a template encode like the type with its arguments substituted.",
        "every argument and field value within the bounds",
        "No existing test executes generated parameterized types.",
        ["Structure.py.ftl", "CompoundParameter.inc.ftl", "CompoundField.inc.ftl", "ArrayTraits.inc.ftl"],
        [("parameters", "CompoundParameter.inc.ftl"), ("element factories", "ArrayTraits.inc.ftl")])

genprop("P26", "Generated Python constraint checks",
        "Writing and reading succeed for every object whose field constraints hold, and raise an exception for every "
        "object or stream violating one, for constraints over fields and parameters in structures, choices, unions, "
        "arrays and packed arrays. The constraint of an absent field is not checked.",
        "every value satisfying the constraints and every value violating one, within the bounds",
        "Boundaries of constraint expressions are sampled at best; no existing test executes generated code.",
        ["CompoundField.inc.ftl", "Structure.py.ftl", "Choice.py.ftl", "Union.py.ftl"],
        [("constraint checks", "CompoundField.inc.ftl")])

genprop("P27", "Generated Python expressions follow the language semantics",
        "Every integer, boolean and string schema expression evaluated by generated Python code has the value defined by "
        "the schema language: operator precedence and associativity, truncating division and modulo, shifts, bit and "
        "logical operators, ternary, enumeration and bitmask operators and the built-in functions. This holds for "
        "functions, constants, array lengths, parameters and conditions alike.",
        "every operand value within the bounds for 240 expressions over all operators",
        "Operator pairs times operand values cannot be enumerated by tests, and no test executes generated expressions.",
        [EMIT + "PythonExpressionFormattingPolicy.java", PY + "builtin.py"],
        [("expression formatting", EMIT + "PythonExpressionFormattingPolicy.java"), ("builtin operators", PY + "builtin.py")])

genprop("P28", "Generated Python code refuses what cannot be decoded",
        "Writing raises an exception for every object whose array lengths or parameters differ from their schema "
        "expressions, whose choice selector has no case, whose union has no field set, whose enumeration item is removed, "
        "or whose integer is outside the range of its field, with and without range checking code; other objects are "
        "written. Reading raises an exception for undefined enumeration values, union indices and choice selectors. "
        "Bitmasks hold exactly the values of their underlying type.",
        "every length, parameter, selector, enumeration value, index and integer within the bounds",
        "Mismatches multiply with the field kinds; no existing test executes generated code.",
        ["CompoundField.inc.ftl", "Choice.py.ftl", "Union.py.ftl", "Enumeration.py.ftl", "Bitmask.py.ftl"],
        [("array length, parameter and range checks", "CompoundField.inc.ftl"), ("no match", "Choice.py.ftl"),
         ("removed items", "Enumeration.py.ftl")])

genprop("P29", "Objects of generated Python code behave like values",
        "An object created without values has the schema's initial values, zero values and unset optional fields, and "
        "shares no state with other objects. Setting a field changes that field only, in the getters and in the bytes "
        "written. Two objects are equal exactly if their types, parameters and used fields are equal, and then have the "
        "same 32-bit hash code; bitmask operators are those of the underlying values.",
        "every pair of values of the test types, every new value of each field",
        "Equality has to hold for all pairs of objects; no existing test executes generated code.",
        ["Structure.py.ftl", "Choice.py.ftl", "Union.py.ftl", "Bitmask.py.ftl", "CompoundField.inc.ftl",
         PY + "hashcode.py"],
        [("constructor, accessors, __eq__, __hash__", "Structure.py.ftl"), ("operators", "Bitmask.py.ftl")],
        observe=["getters", "== and hash()", "bytes written"])

genprop("P30", "Generated Python code survives arbitrary streams",
        "Whatever the bytes of a stream, reading a type from it with generated Python code either raises a zserio, value "
        "or Unicode decoding exception or gives an object without leaving the stream. That object has a size, can be "
        "written, and is read back equal; if the encoding has no redundant forms the bits written are the bits read.",
        "every stream content within the stated number of bytes",
        "Streams are untrusted input; the tests read what they wrote.",
        ["Structure.py.ftl", "Choice.py.ftl", "Union.py.ftl", "CompoundField.inc.ftl", PY + "bitreader.py"],
        [("read", "Structure.py.ftl"), ("bounds", PY + "bitreader.py")])

JAVA = "compiler/extensions/java/runtime/src/zserio/runtime/"
BYTECODE = ("symbolic execution of the bytecode javac produces from the current Java sources (all paths of the harness) "
            "with Z3 bit-vector queries; counterexamples replayed in a JVM")


def javaprop(pid, title, statement, text, why, files, mechanism, over=("inputs",), **kwargs):
    prop(pid, title, statement, text, why, [JAVA + f for f in files],
         [(name, JAVA + where) for name, where in mechanism], over, technique=BYTECODE, **kwargs)


javaprop("P40", "Java bit stream: fixed-width integer fields",
         "In the Java runtime, a signed, unsigned or big integer field written with any width of 1 to 64 bits at any bit "
         "position takes exactly that many bits, most significant first in two's complement, leaves its neighbours and "
         "the zero padding of the last byte intact whatever the capacity of the buffer, and is read back unchanged by the "
         "general and the special (byte, short, int, long) methods. A value outside the range of its width or an illegal "
         "width is rejected and leaves the stream as it was. Alignment only inserts zero bits.",
         "every value, width, bit offset, neighbour and initial capacity",
         "The JUnit tests write a few values per width; unaligned paths, growth and limits combine in 2^64 values x 8 "
         "offsets x 64 widths.",
         ["io/ByteArrayBitStreamWriter.java", "io/ByteArrayBitStreamReader.java"],
         [("writeBits / writeSignedBits / writeBigInteger / alignTo", "io/ByteArrayBitStreamWriter.java"),
          ("readBits / readSignedBits / readBigInteger / alignTo", "io/ByteArrayBitStreamReader.java")])

javaprop("P41", "Java variable-length integers: wire format, size, range",
         "For every varint type every value of the documented range is written by the Java runtime in the documented "
         "format with the smallest number of bytes at any bit position, the computed bit size is the number of bits "
         "written, and it is read back unchanged. Values outside the range are rejected by the writer and by the size "
         "calculation. Every byte sequence decodes to the value the format defines or is rejected.",
         "every value of the argument type, every byte sequence of up to 10 bytes, every bit offset",
         "Tests use hand-picked limits; each size class holds up to 2^57 values.",
         ["io/ByteArrayBitStreamWriter.java", "io/ByteArrayBitStreamReader.java", "BitSizeOfCalculator.java",
          "VarSizeUtil.java"],
         [("writeVar*", "io/ByteArrayBitStreamWriter.java"), ("readVar*", "io/ByteArrayBitStreamReader.java"),
          ("getBitSizeOfVar*", "BitSizeOfCalculator.java")])

javaprop("P42", "Java floating point fields",
         "A float64 or float32 field of the Java runtime keeps every bit pattern that is not NaN and keeps NaN a NaN; a "
         "float16 field holds the nearest float16 of a float, with halfway cases away from zero, magnitudes below 2^-24 "
         "as signed zero and magnitudes above the float16 range as infinity. Every 16 bit pattern read gives exactly the "
         "number it denotes and is restored when written again.",
         "all 2^32 floats, 2^64 doubles and 2^16 half patterns at every bit offset",
         "The tests sample a few dozen numbers; rounding carries and overflow need particular mantissas.",
         ["FloatUtil.java", "io/ByteArrayBitStreamWriter.java", "io/ByteArrayBitStreamReader.java"],
         [("convertFloatToShort / convertShortToFloat", "FloatUtil.java")])

javaprop("P43", "Java bytes, string and bit buffer fields",
         "Bytes, strings and external bit buffers are written by the Java runtime as a varsize length followed by the "
         "payload at any bit position, their computed bit size is the number of bits written, and they are read back "
         "unchanged from any position. Bit buffers are equal and hash equally exactly by their size and used bits, "
         "whatever the unused bits and spare bytes hold.",
         "every content within the stated lengths, every bit offset, arbitrary streams",
         "Aligned and unaligned copies, partial last bytes and lengths around 128 interact; tests use few contents.",
         ["io/ByteArrayBitStreamWriter.java", "io/ByteArrayBitStreamReader.java", "io/BitBuffer.java",
          "BitSizeOfCalculator.java", "HashCodeUtil.java"],
         [("writeBytes / writeString / writeBitBuffer", "io/ByteArrayBitStreamWriter.java"),
          ("readBytes / readString / readBitBuffer", "io/ByteArrayBitStreamReader.java"),
          ("BitBuffer.equals / hashCode", "io/BitBuffer.java")])

javaprop("P44", "Java reader never returns bits behind the end of the stream",
         "Every read method of the Java reader, at every position of a stream of any bit size, either returns exactly the "
         "bits at its position, all within the declared size, or throws an IOException; bits of the last byte behind the "
         "declared size are never returned. An illegal width is rejected.",
         "every buffer content, bit size, position and width within the bounds",
         "The check of the end is separate in byte aligned, partial and bulk reads; tests try a few truncations.",
         ["io/ByteArrayBitStreamReader.java"],
         [("readBits / nextFullByte / read", "io/ByteArrayBitStreamReader.java")])

javaprop("P45", "Java arrays: encoding, size, offsets",
         "Every kind of Java runtime array (fixed size, auto, implicit, with element offsets) of every element type is the "
         "concatenation of its length (if auto) and its elements, aligned to bytes when it has offsets, at any bit "
         "position; its bit size, initialised offsets and end position agree with what is written, and it is read back "
         "equal, with an equal hash code, whatever the preallocation limit. A truncated array throws.",
         "every element value, position, array kind and truncation within the bounds",
         "Sizes depend on values, positions and array kind together; tests use fixed arrays at offset 0.",
         ["array/Array.java", "array/ArrayTraits.java", "array/RawArray.java", "array/ArrayType.java"],
         [("Array.write / read / bitSizeOf / initializeOffsets", "array/Array.java"),
          ("element encodings", "array/ArrayTraits.java")])

javaprop("P46", "Java packed arrays: delta compression",
         "A packed array of integers written by the Java runtime holds a descriptor, its first element and the signed "
         "deltas in the smallest common width, or falls back to unpacked elements when a delta does not fit 62 bits or "
         "packing would not be smaller; object arrays share one descriptor per packed field. Bit size and end position "
         "equal what is written, any valid packed array reads as the running sums, and a truncated one throws.",
         "every element value, order, delta width and mode within the bounds",
         "Whether packing wins depends on all elements together; delta width limits need 62-bit differences.",
         ["array/Array.java", "array/DeltaContext.java", "array/ArrayTraits.java", "array/RawArray.java"],
         [("DeltaContext", "array/DeltaContext.java"),
          ("Array.writePacked / readPacked / bitSizeOfPacked", "array/Array.java")])

JGEN = "compiler/extensions/java/freemarker/"
GENJAVA = ("symbolic execution of the byte code of the Java code generated by the real compiler (built from the current "
           "sources), together with the byte code of the Java runtime; obligations decided by z3; replays on a JVM")

prop("P49", "Compiler: bounds of integer expressions are sound",
     "For every operator of zserio expressions and all operands whose values lie within their known bounds, the value the "
     "compiler evaluates equals the exact mathematical value (division truncates), and the bounds it derives for the result "
     "contain the value of the expression, so that generated code can choose types which hold it. Unknown bounds are "
     "treated as unlimited.",
     "all operand values and bounds within the stated ranges, every operator",
     "Bounds decide the native type of generated expressions; they go wrong only for particular combinations of signs and "
     "limits, which tests of a few literal expressions do not meet.",
     ["compiler/core/src/zserio/ast/ExpressionIntegerValue.java", "compiler/core/src/zserio/ast/Expression.java"],
     [("bounds and values of operators", "compiler/core/src/zserio/ast/ExpressionIntegerValue.java")], technique=BYTECODE)


def javagenprop(pid, title, statement, text, why, files, mechanism):
    prop(pid, title, statement, text, why, [f if "/" in f else JGEN + f for f in files],
         [(name, where if "/" in where else JGEN + where) for name, where in mechanism], technique=GENJAVA)


javagenprop("P50", "Generated Java structures encode as specified",
            "For a schema structure with fields of any built-in type, enumerations, bitmasks, nested structures and dynamic "
            "bit fields, the generated Java class writes exactly the fields in schema order in the documented encoding at "
            "any bit position, and bitSizeOf is the number of bits written. Reading what was written gives an equal object "
            "with an equal hash code and stops at its end; a truncated stream throws. Writing does not change the object.",
            "every field value and bit offset for the structures of the test schemas",
            "The stable tests run no generated Java code; native types narrower and wider than the field and values multiply.",
            ["Structure.java.ftl", "CompoundField.inc.ftl", "Enumeration.java.ftl", "Bitmask.java.ftl"],
            [("read / write / bitSizeOf", "Structure.java.ftl"), ("field access", "CompoundField.inc.ftl")])

javagenprop("P51", "Generated Java choices and unions",
            "A generated Java choice writes and reads exactly the field selected by its selector (integer of any width up to "
            "uint64, boolean, enumeration, bitmask or expression; default and empty cases included), and a generated union "
            "writes the index of its field followed by that field. Sizes, alignment to any bit position, nested and array "
            "use follow the documented encoding; reading restores an equal object with an equal hash code.",
            "every selector and field value within the bounds",
            "No stable test executes generated choices or unions; the kind of selector decides the shape of the code.",
            ["Choice.java.ftl", "Union.java.ftl",
             "compiler/extensions/java/src/zserio/extension/java/ChoiceEmitterTemplateData.java"],
            [("selection of cases", "Choice.java.ftl"), ("choice tag", "Union.java.ftl")])

javagenprop("P52", "Generated Java optional, conditional and extended fields",
            "In generated Java code an optional field takes one presence bit and is encoded only if set; a conditional field "
            "is encoded exactly if its condition holds; an extended field starts byte aligned at the end. Sizes, offsets and "
            "alignments account for absent fields, and reading restores values and presence.",
            "every combination of presence and value within the bounds",
            "Presence combinations are exponential and no stable test executes generated code.",
            ["Structure.java.ftl", "CompoundField.inc.ftl"],
            [("presence conditions", "CompoundField.inc.ftl"), ("extended fields", "Structure.java.ftl")])

javagenprop("P53", "Generated Java alignment and offsets",
            "In generated Java code aligned fields start at a multiple of their alignment counted from the start of the "
            "stream, filled with zero bits. initializeOffsets stores in every offset field, including fields of other "
            "structures, parameters and indexed arrays, the byte position at which the field it announces is then written, "
            "wherever the object starts. An offset that does not match the position is refused by writing and by reading.",
            "every field value, start position and wrong offset within the bounds",
            "Positions depend on all previous fields; no stable test executes generated code.",
            ["Structure.java.ftl", "CompoundField.inc.ftl"],
            [("initializeOffsets", "Structure.java.ftl"), ("offset checks", "CompoundField.inc.ftl")])

javagenprop("P54", "Generated Java arrays and packed arrays",
            "Arrays of every element type with fixed, expression, auto and implicit length, plain and packed, including packed "
            "arrays of structures, choices and unions with nested, optional and dynamic fields, are encoded by generated Java "
            "code as specified. Packed compounds share one delta context per field. Sizes equal the bits written and reading "
            "restores the elements.",
            "every element value and length within the bounds",
            "Packing decisions depend on all elements together; no stable test executes generated packed code.",
            ["Structure.java.ftl", "Choice.java.ftl", "Union.java.ftl", "CompoundField.inc.ftl", JAVA + "array/Array.java"],
            [("packing contexts and packed read / write", "Structure.java.ftl"),
             ("array construction", "CompoundField.inc.ftl")])

javagenprop("P55", "Generated Java parameterized types and templates",
            "A parameterized type of generated Java code, instantiated with field values, literals, expressions, functions, "
            "element indices or whole compounds, sees the values of its arguments when writing and when reading, through any "
            "nesting and in arrays; arguments equal by value are accepted whatever object holds them. Instances of a template "
            "encode like the type with its arguments substituted.",
            "every argument and field value within the bounds",
            "No stable test executes generated parameterized types.",
            ["Structure.java.ftl", "CompoundParameter.inc.ftl", "CompoundField.inc.ftl"],
            [("parameters", "CompoundParameter.inc.ftl"), ("parameter checks", "CompoundField.inc.ftl")])

javagenprop("P56", "Generated Java constraint checks",
            "Writing and reading with generated Java code succeed for every object whose field constraints hold, and throw "
            "for every object or stream violating one, for constraints over fields and parameters in structures, choices, "
            "unions, arrays and packed arrays. The constraint of an absent field is not checked.",
            "every value satisfying the constraints and every value violating one, within the bounds",
            "Boundaries of constraint expressions are sampled at best; no stable test executes generated code.",
            ["CompoundField.inc.ftl", "Structure.java.ftl", "Choice.java.ftl", "Union.java.ftl"],
            [("constraint checks", "CompoundField.inc.ftl")])

# how each property is decided (DESIGN.md)
HOW = {
 "P01": "BitStreamWriter and BitStreamReader run on a symbolic prefix, value and suffix for every width and offset; the "
        "bytes are compared bit by bit with the concatenation given by the oracle, then read back. Rejections: the "
        "value ranges over a wider interval and the writer must raise exactly if it is outside.",
 "P02": "writer, reader and bitsizeof run on one symbolic value; the oracle encodes the documented format (sign, "
        "continuation bits, 7/8-bit groups) by case distinction on the magnitude. Decoding: symbolic bytes against the "
        "oracle's decoder.",
 "P03": "the double is a symbolic 64-bit pattern; the oracle rounds with Z3's floating point theory (fp.to_fp with "
        "RNA/RNE) or directly on mantissa and exponent bits, and the result patterns must be equal.",
 "P04": "symbolic bytes, code points and bits of concrete number; strings go through a UTF-8 encoder and decoder of the "
        "engine whose branches on the code point are symbolic. Arbitrary streams against the oracle's decoder.",
 "P05": "bytes behind the declared bit size are symbolic and must not influence any result: the value read is compared "
        "with the bits at the position and the position with its bound, for symbolic widths, positions and sizes.",
 "P06": "Array objects of every array trait, array kind and offset callback are written, measured and read back; the "
        "oracle is the concatenation of the prefix and of the elements.",
 "P07": "the oracle computes deltas, the maximal delta width and the decision packed/unpacked from the documentation; "
        "its formulas and the runtime's bytes must agree for all elements. Reading is checked on streams the oracle "
        "builds from arbitrary descriptors, which the writer itself would not produce.",
 "P08": "two symbolic objects; equality of the objects is compared with equality of their used bits, and equal objects "
        "must have equal hash terms.",
 "P09": "direct comparison of the helper with its definition; strings and masks symbolic.",
 "P10": "the real encoder, tokenizer, decoder and parser run on symbolic characters; oracle `checks/jsonref.py` is a "
        "recursive-descent reader of the RFC grammar. Chunk independence: the same symbolic text is tokenized through "
        "two arrangements of chunks and all tokens, positions and errors must be equal.",
 "P11": "objects of generated classes with symbolic fields are written by the real walker and JsonWriter, compared with "
        "the text the schema model prescribes, and read by the real JsonReader and creator; the result must be equal to "
        "the object. Enumeration and bitmask texts: symbolic characters against the schema's names.",
 "P20": "`checks/model.py` holds for every type of the schema a model that produces the bits (round trip job: build the "
        "object from symbolic values, write at several offsets, compare bits, bitsizeof, read, compare, truncate).",
 "P21": "as P20, with the selector symbolic: all cases are reached by forking.",
 "P22": "as P20, with the presence of every optional field symbolic, conditions depending on symbolic fields and stale "
        "values in fields whose condition does not hold; old streams are prefixes of the new encoding.",
 "P23": "as P20; the model computes positions. Wrong offsets: a symbolic offset different from the position must raise "
        "on both sides.",
 "P24": "as P20, with the model of P07 per packed field path.",
 "P25": "as P20; the model passes the argument values itself.",
 "P26": "the constraint is stated in the model as a Python predicate; write and read must succeed exactly if it holds.",
 "P27": "each function of the schema is called on a symbolic object; the oracle is an independent parser and evaluator "
        "of the schema's expressions (`checks/exprs.py`) with the precedence table and the semantics of the language "
        "documentation, evaluated on the same symbols.",
 "P28": "objects that differ from the schema in one symbolic respect (length, parameter, selector, value) must raise "
        "exactly if the difference is one.",
 "P29": "two objects with independent symbolic values; `==` is compared with the model's equality; defaults with the "
        "schema; aliasing by changing one object and observing the other.",
 "P30": "the stream is symbolic; all paths of the reader are followed; the only exceptions allowed are those listed and "
        "the position stays within the stream. The read object is written and read again.",
 "P40": "as P01, on the Java classes: prefix, value and suffix symbolic; the engine interprets the bytecode of the writer "
        "and reader, so that Java's own int and long overflow and shift rules apply.",
 "P41": "as P02; the argument ranges over the whole Java type.",
 "P42": "as P03 with Java's float and double; the oracle works on mantissa and exponent bits.",
 "P43": "as P04; equality of bit buffers is compared with equality of used bits on two symbolic buffers.",
 "P44": "symbolic buffer, bit size, position and width; the value read is compared with the bits at the position.",
 "P45": "as P06; harness classes in `checks/java/harness` provide the offset callback and an object type.",
 "P46": "as P07, with the same oracle written against the Java classes.",
 "P49": "the byte code of the compiler's own ExpressionIntegerValue runs on operands with symbolic values and bounds; the "
        "oracle is integer arithmetic on symbolic members of the operand intervals, whose result must be within the result's "
        "bounds.",
 "P50": "the Java code the compiler generates from the schemas of P20 is compiled by javac and its byte code executed "
        "symbolically; the model is the one P20 uses, so that both languages are held to one encoding.",
 "P51": "as P50, with the schemas and models of P21.",
 "P52": "as P50, with the schemas and models of P22 (without its old streams and stale values).",
 "P53": "as P50, with the schemas and models of P23; also bitSizeOf and initializeOffsets at a symbolic base position.",
 "P54": "as P50, with the schemas and models of P24.",
 "P55": "as P50, with the schemas and models of P25; arguments and parameters are separately built objects of equal value.",
 "P56": "as P50, with the schemas and models of P26.",
}
