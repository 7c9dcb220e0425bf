"""Methods of the Java library modelled by the interpreter."""

import struct

import z3

from .. import terms as T
from ..core import Explorer, PathCut, Unsupported
from ..pyproxy import SymInt, SymBool, concrete, ite, mkint, mkbool, coerce, lor, land, unsigned_term
from ..pystr import SymStr
from .values import *

BIG = "java/math/BigInteger"
STR = "java/lang/String"


def install(vm):
    """Registers all natives."""
    table = vm.natives

    def native(owner, *names):
        def add(func):
            for name in names:
                table[(owner,) + (tuple(name) if isinstance(name, tuple) else (name,))] = func
            return func
        return add

    # ------------------------------------------------------------------------------------------------ Object
    native("java/lang/Object", "<init>")(lambda v, a: None)
    native("java/lang/Object", "getClass")(lambda v, a: JClass(v.class_of(a[0])))
    native("java/lang/Object", "equals")(lambda v, a: int(a[0] is a[1]))

    @native("java/lang/Object", "hashCode")
    def _(v, a):
        return v.ident(a[0])

    native("java/lang/Object", "toString")(lambda v, a: Opaque())
    for name in ("getName", "getSimpleName", "getCanonicalName"):
        native("java/lang/Class", name)(lambda v, a: a[0].name.replace("/", "."))
    native("java/lang/Class", "desiredAssertionStatus")(lambda v, a: 0)
    native("java/lang/Class", "getComponentType")(lambda v, a: JClass(a[0].name[1:]))
    native("java/lang/Class", "isInstance")(lambda v, a: int(v.is_instance(a[1], a[0].name)))
    native("java/lang/Class", "equals")(lambda v, a: int(isinstance(a[1], JClass) and a[0].name == a[1].name))
    native("java/lang/Class", "isArray")(lambda v, a: int(a[0].name.startswith("[")))

    # ------------------------------------------------------------------------------------------------ Throwable
    @native("java/lang/Throwable", "<init>")
    def _(v, a):
        obj = a[0]
        obj.fields["message"] = obj.fields["cause"] = None
        for arg in a[1:]:
            if arg is None:
                continue
            if isinstance(arg, (str, Opaque, SymStr)):
                obj.fields["message"] = arg
            elif isinstance(arg, JObject):
                obj.fields["cause"] = arg
                if obj.fields["message"] is None and len(a) == 2:
                    obj.fields["message"] = Opaque()

    native("java/lang/Throwable", "getMessage", "getLocalizedMessage")(lambda v, a: a[0].fields.get("message"))
    native("java/lang/Throwable", "getCause")(lambda v, a: a[0].fields.get("cause"))
    native("java/lang/Throwable", "toString")(lambda v, a: Opaque())
    native("java/lang/Throwable", "<clinit>", "addSuppressed", "fillInStackTrace")(lambda v, a: None)

    # ------------------------------------------------------------------------------------------------ boxes
    def box(kind):
        name = BOXES[kind]
        native(name, "<clinit>")(lambda v, a: None)
        native(name, ("valueOf", f"({kind})L{name};"))(lambda v, a: JBox(kind, a[0]))
        for method, want in (("intValue", "I"), ("longValue", "J"), ("shortValue", "S"), ("byteValue", "B"),
                             ("charValue", "C"), ("booleanValue", "Z"), ("floatValue", "F"), ("doubleValue", "D")):
            def unbox(v, a, want=want):
                value = a[0].value
                if isinstance(value, JFloat):
                    if want in "FD":
                        return value
                    raise Unsupported("float box conversion")
                if want in "IJSB":
                    return wrap(value, {"I": 32, "J": 64, "S": 16, "B": 8}[want])
                return value
            native(name, method)(unbox)

        @native(name, "equals")
        def _(v, a):
            other = a[1]
            if not isinstance(other, JBox) or other.kind != kind:
                return 0
            if kind in "FD":
                return boolean(float_bits(a[0].value) == float_bits(other.value))
            return boolean(a[0].value == other.value)

        native(name, ("hashCode", "()I"))(lambda v, a: box_hash(kind, a[0].value))
        native(name, ("hashCode", f"({kind})I"))(lambda v, a: box_hash(kind, a[0]))
        native(name, ("compareTo", f"(L{name};)I"), ("compareTo", "(Ljava/lang/Object;)I"))(
            lambda v, a: LCmp(a[0].value, a[1].value).number())
        native(name, "toString")(lambda v, a: _text(a[-1].value if isinstance(a[-1], JBox) else a[-1], kind))
        native(name, ("compare", f"({kind}{kind})I"))(lambda v, a: LCmp(a[0], a[1]).number())
        native(name, "<new>")(lambda v, desc, a: JBox(kind, a[0]))

    for kind_ in BOXES:
        box(kind_)

    def boolean(value):
        """0/1 of a condition without forking."""
        if isinstance(value, SymBool):
            return mkint(coerce(value)[0], 0, 1)
        return int(bool(value))

    def float_bits(value):
        """doubleToLongBits: NaN is canonical."""
        width = value.width
        exp, man = (0x7F800000, 0x7FC00000) if width == 32 else (0x7FF0000000000000, 0x7FF8000000000000)
        is_nan = (value.bits & ((1 << (width - 1)) - 1)) > exp
        return ite(is_nan, man, value.bits)

    def box_hash(kind, value):
        if kind == "J":
            return wrap(value ^ unsigned(value, 64) >> 32, 32)
        if kind == "Z":
            return ite(value != 0, 1231, 1237)
        if kind == "F":
            return wrap(float_bits(value), 32)
        if kind == "D":
            bits = float_bits(value)
            return wrap(bits ^ (bits >> 32), 32)
        return value

    native("java/lang/Float", "floatToIntBits")(lambda v, a: wrap(float_bits(a[0]), 32))
    native("java/lang/Float", "floatToRawIntBits")(lambda v, a: wrap(a[0].bits, 32))
    native("java/lang/Double", "doubleToLongBits")(lambda v, a: wrap(float_bits(a[0]), 64))
    native("java/lang/Double", "doubleToRawLongBits")(lambda v, a: wrap(a[0].bits, 64))
    native("java/lang/Float", "intBitsToFloat")(lambda v, a: JFloat(unsigned(a[0], 32), 32))
    native("java/lang/Double", "longBitsToDouble")(lambda v, a: JFloat(unsigned(a[0], 64), 64))

    def nan(value):
        return boolean((value.bits & ((1 << (value.width - 1)) - 1)) > (0x7F800000 if value.width == 32 else
                                                                         0x7FF0000000000000))
    native("java/lang/Float", ("isNaN", "(F)Z"))(lambda v, a: nan(a[0]))
    native("java/lang/Double", ("isNaN", "(D)Z"))(lambda v, a: nan(a[0]))
    for name in ("java/lang/Float", "java/lang/Double"):
        def fcompare(v, a):
            x, y = a[0], a[1]
            key = [ite(b >> (x.width - 1) != 0, (1 << x.width) - 1 - b, b + (1 << (x.width - 1)))
                   for b in (float_bits(x), float_bits(y))]
            return LCmp(key[0], key[1]).number()
        native(name, ("compare", "(FF)I"), ("compare", "(DD)I"))(fcompare)

    # number helpers
    def nlz(v, a, bits):
        value = unsigned(a[0], bits)
        if type(value) is int:
            return bits - value.bit_length()
        result = bits
        for i in range(bits):
            result = ite(value >= (1 << i), bits - 1 - i, result)
        return result
    native("java/lang/Integer", "numberOfLeadingZeros")(lambda v, a: nlz(v, a, 32))
    native("java/lang/Long", "numberOfLeadingZeros")(lambda v, a: nlz(v, a, 64))
    for name, bits in (("java/lang/Integer", 32), ("java/lang/Long", 64)):
        native(name, "compareUnsigned")(
            lambda v, a, bits=bits: LCmp(unsigned(a[0], bits), unsigned(a[1], bits)).number())
        native(name, "signum")(lambda v, a: ite(a[0] > 0, 1, ite(a[0] < 0, -1, 0)))
    native("java/lang/Byte", "toUnsignedInt")(lambda v, a: unsigned(a[0], 8))
    native("java/lang/Short", "toUnsignedInt")(lambda v, a: unsigned(a[0], 16))
    native("java/lang/Integer", "toUnsignedLong")(lambda v, a: unsigned(a[0], 32))
    for name in ("Integer", "Long", "Short", "Byte"):
        def parse(v, a):
            if not isinstance(a[0], str):
                raise Unsupported("number text")
            try:
                return int(a[0], a[1] if len(a) > 1 else 10)
            except ValueError:
                v.throw("java/lang/NumberFormatException")
        native("java/lang/" + name, "parse" + {"Integer": "Int"}.get(name, name))(parse)

    native("java/lang/Math", "min")(lambda v, a: minmax(a, True))
    native("java/lang/Math", "max")(lambda v, a: minmax(a, False))

    def minmax(a, low):
        if isinstance(a[0], JFloat):
            raise Unsupported("float minimum")
        if type(a[0]) is int and type(a[1]) is int:
            return min(a) if low else max(a)
        return ite(a[0] < a[1], a[0], a[1]) if low else ite(a[0] < a[1], a[1], a[0])

    def absolute(v, a, bits):
        return wrap(ite(a[0] < 0, -a[0], a[0]), bits)
    native("java/lang/Math", ("abs", "(I)I"))(lambda v, a: absolute(v, a, 32))
    native("java/lang/Math", ("abs", "(J)J"))(lambda v, a: absolute(v, a, 64))
    for name, bits in (("Exact", None),):
        for op, func in (("add", lambda x, y: x + y), ("subtract", lambda x, y: x - y), ("multiply", lambda x, y: x * y)):
            for kind, bits_ in (("I", 32), ("J", 64)):
                def exact(v, a, func=func, bits_=bits_):
                    result = func(a[0], a[1])
                    if truth(lor(result < -(1 << (bits_ - 1)), result >= 1 << (bits_ - 1))):
                        v.throw("java/lang/ArithmeticException")
                    return wrap(result, bits_)
                native("java/lang/Math", (op + name, f"({kind}{kind}){kind}"))(exact)

    @native("java/lang/Math", "toIntExact")
    def _(v, a):
        if truth(lor(a[0] < -(1 << 31), a[0] >= 1 << 31)):
            v.throw("java/lang/ArithmeticException")
        return wrap(a[0], 32)

    # ------------------------------------------------------------------------------------------------ System, arrays
    @native("java/lang/System", "arraycopy")
    def _(v, a):
        src, spos, dst, dpos, count = a
        spos, dpos, count = (concrete(x, why="arraycopy") for x in (spos, dpos, count))
        if src is None or dst is None:
            v.throw("java/lang/NullPointerException", "arraycopy")
        if min(spos, dpos, count) < 0 or spos + count > len(src.items) or dpos + count > len(dst.items):
            v.throw("java/lang/ArrayIndexOutOfBoundsException", "arraycopy")
        dst.items[dpos:dpos + count] = src.items[spos:spos + count]

    native("java/lang/System", "identityHashCode")(lambda v, a: v.ident(a[0]))

    @native("java/util/Arrays", "copyOf")
    def _(v, a):
        size = concrete(a[1], why="array size")
        items = a[0].items[:size]
        kind = a[0].kind if len(a) < 3 else a[2].name[1:]
        return JArray(kind, items + [v.default(kind)] * (size - len(items)))

    @native("java/util/Arrays", "copyOfRange")
    def _(v, a):
        low, high = concrete(a[1]), concrete(a[2])
        items = a[0].items[low:high]
        return JArray(a[0].kind, items + [v.default(a[0].kind)] * (high - low - len(items)))

    @native("java/util/Arrays", "equals")
    def _(v, a):
        if len(a) == 6:
            x, y = (JArray(part[0].kind, part[0].items[concrete(part[1]):concrete(part[2])]) for part in (a[:3], a[3:]))
        else:
            x, y = a
        if x is None or y is None:
            return int(x is y)
        if len(x.items) != len(y.items):
            return 0
        if x.kind in "IJSBCZ":
            return boolean(land(*[p == q for p, q in zip(x.items, y.items)]))
        if x.kind in "FD":
            return boolean(land(*[float_bits(p) == float_bits(q) for p, q in zip(x.items, y.items)]))
        return int(all(truth(equals(v, p, q)) for p, q in zip(x.items, y.items)))

    @native("java/util/Arrays", "fill")
    def _(v, a):
        if len(a) == 2:
            a[0].items[:] = [a[1]] * len(a[0].items)
        else:
            a[0].items[a[1]:a[2]] = [a[3]] * (a[2] - a[1])

    @native("java/util/Arrays", "hashCode")
    def _(v, a):
        if a[0] is None:
            return 0
        result = 1
        for item in a[0].items:
            value = box_hash(a[0].kind, item) if a[0].kind in BOXES else hash_of(v, item)
            result = wrap(31 * result + value, 32)
        return result

    native("java/util/Arrays", "toString")(lambda v, a: Opaque())

    BUF = "java/nio/ByteBuffer"
    for name in (BUF, "java/nio/Buffer", "java/lang/System"):
        native(name, "<clinit>")(lambda v, a: None)

    @native(BUF, "wrap")
    def _(v, a):
        obj = v.new(BUF)
        low, size = (concrete(a[1]), concrete(a[2])) if len(a) > 1 else (0, len(a[0].items))
        if low < 0 or size < 0 or low + size > len(a[0].items):
            v.throw("java/lang/IndexOutOfBoundsException")
        obj.native = (a[0], low, low + size)
        return obj

    @native(BUF, "equals")
    def _(v, a):
        if getattr(a[1], "native", None) is None or a[1].cls is not a[0].cls:
            return 0
        x, y = (part.native[0].items[part.native[1]:part.native[2]] for part in a)
        return boolean(land(*[p == q for p, q in zip(x, y)])) if len(x) == len(y) else 0

    def equals(v, x, y):
        if x is None or y is None:
            return int(x is y)
        return v.invoke_virtual("java/lang/Object", "equals", "(Ljava/lang/Object;)Z", [x, y])

    def hash_of(v, x):
        return 0 if x is None else v.invoke_virtual("java/lang/Object", "hashCode", "()I", [x])

    native("java/util/Objects", "equals")(lambda v, a: equals(v, a[0], a[1]))
    native("java/util/Objects", ("hashCode", "(Ljava/lang/Object;)I"))(lambda v, a: hash_of(v, a[0]))

    @native("java/util/Objects", "requireNonNull")
    def _(v, a):
        if a[0] is None:
            v.throw("java/lang/NullPointerException")
        return a[0]

    for owner in ("java/util/Objects", "jdk/internal/util/Preconditions"):
        @native(owner, "checkIndex")
        def _(v, a):
            if truth(lor(a[0] < 0, a[0] >= a[1])):
                v.throw("java/lang/IndexOutOfBoundsException")
            return concrete(a[0])

    @native("java/lang/reflect/Array", "newInstance")
    def _(v, a):
        name = a[0].name
        return v.array(name if name.startswith("[") or name in BOXES else "L" + name + ";", a[1])

    # ------------------------------------------------------------------------------------------------ String
    @native(STR, "<new>")
    def _(v, desc, a):
        if desc == "()V":
            return ""
        if desc.startswith("([B"):
            if desc == "([BII)V" or isinstance(a[-1], str) and a[-1] != "UTF-8":
                raise Unsupported("new String" + desc)
            return decode_utf8(v, a[0].items)
        if desc.startswith("(Ljava/lang/String;"):
            return a[0]
        if desc == "([C)V":
            return v.make_string(a[0].items)
        raise Unsupported("new String" + desc)

    def decode_utf8(v, items):
        """UTF-8 decoding; malformed input is outside the engine's reach."""
        raw = [unsigned(item, 8) for item in items]
        if all(type(item) is int for item in raw):
            return bytes(raw).decode("utf-8", "replace")
        from ..pyproxy import SymBytes

        try:
            return SymBytes(raw).decode("utf-8")
        except UnicodeDecodeError:
            raise PathCut("malformed UTF-8") from None

    def chars(value):
        if isinstance(value, str):
            return [ord(char) for char in value]
        if isinstance(value, SymStr):
            return list(value.cps)
        raise Unsupported("content of a message text")

    def encode_utf8(value):
        out = []
        for cp in chars(value):
            if truth(cp < 0x80):
                out.append(cp)
            elif truth(cp < 0x800):
                out += [0xC0 | (cp >> 6), 0x80 | (cp & 0x3F)]
            elif truth(cp < 0x10000):
                out += [0xE0 | (cp >> 12), 0x80 | ((cp >> 6) & 0x3F), 0x80 | (cp & 0x3F)]
            else:
                out += [0xF0 | (cp >> 18), 0x80 | ((cp >> 12) & 0x3F), 0x80 | ((cp >> 6) & 0x3F), 0x80 | (cp & 0x3F)]
        return out

    v_encode = encode_utf8
    vm.encode_utf8 = v_encode
    vm.decode_utf8 = decode_utf8

    def make_string(items):
        if all(type(item) is int for item in items):
            return "".join(chr(item) for item in items)
        return SymStr(list(items))
    vm.make_string = make_string
    vm.chars = chars

    @native("java/nio/charset/StandardCharsets", "<clinit>")
    def _(v, a):
        for name in ("UTF_8", "US_ASCII", "ISO_8859_1", "UTF_16"):
            v.statics["java/nio/charset/StandardCharsets", name] = name.replace("_", "-")

    @native(STR, "getBytes")
    def _(v, a):
        if len(a) > 1 and a[1] != "UTF-8":
            raise Unsupported("charset")
        return JArray("B", [wrap(item, 8) for item in encode_utf8(a[0])])
    native(STR, "length")(lambda v, a: len(chars(a[0])))
    native(STR, "isEmpty")(lambda v, a: int(not chars(a[0])))
    native(STR, "toString", "intern")(lambda v, a: a[0])
    native(STR, "toCharArray")(lambda v, a: JArray("C", chars(a[0])))

    @native(STR, "charAt")
    def _(v, a):
        items = chars(a[0])
        index = concrete(a[1])
        if not 0 <= index < len(items):
            v.throw("java/lang/StringIndexOutOfBoundsException")
        return items[index]

    @native(STR, "equals")
    def _(v, a):
        if a[0] is a[1]:
            return 1
        if not isinstance(a[1], (str, SymStr)):
            return 0
        x, y = chars(a[0]), chars(a[1])
        return boolean(land(*[p == q for p, q in zip(x, y)])) if len(x) == len(y) else 0

    @native(STR, "hashCode")
    def _(v, a):
        result = 0
        for item in chars(a[0]):
            result = wrap(31 * result + item, 32)
        return result

    @native(STR, "compareTo")
    def _(v, a):
        x, y = chars(a[0]), chars(a[1])
        for p, q in zip(x, y):
            if not truth(p == q):
                return p - q
        return len(x) - len(y)

    @native(STR, "substring")
    def _(v, a):
        items = chars(a[0])
        return make_string(items[concrete(a[1]):concrete(a[2]) if len(a) > 2 else None])

    @native(STR, "indexOf")
    def _(v, a):
        if isinstance(a[0], str) and isinstance(a[1], str):
            return a[0].find(a[1], *a[2:])
        for i, item in enumerate(chars(a[0])):
            if i >= (a[2] if len(a) > 2 else 0) and truth(item == a[1]):
                return i
        return -1

    native(STR, "valueOf", "format", "join")(lambda v, a: _text(a[0], None) if len(a) == 1 else Opaque())
    native(STR, "concat")(lambda v, a: a[0] + a[1] if isinstance(a[0], str) and isinstance(a[1], str) else Opaque())
    native(STR, "startsWith")(lambda v, a: int(a[0].startswith(a[1])))
    native(STR, "endsWith")(lambda v, a: int(a[0].endswith(a[1])))

    def _text(value, kind):
        from .decode import text_of

        text = text_of(vm, value, kind or "L")
        return Opaque() if text is None else text

    for name in ("java/lang/StringBuilder", "java/lang/StringBuffer"):
        def create(v, desc, a, name=name):
            obj = v.new(name)
            obj.native = [a[0]] if a and isinstance(a[0], (str, SymStr, Opaque)) else []
            return obj
        native(name, "<new>")(create)

        def append(v, a):
            value = a[1]
            a[0].native.append(_text(value, None) if not isinstance(value, (str, SymStr, Opaque)) else value)
            return a[0]
        native(name, "append")(append)

        def append_char(v, a):
            a[0].native.append(make_string([a[1]]))
            return a[0]
        native(name, ("append", f"(C)L{name};"))(append_char)

        def to_string(v, a):
            if any(isinstance(part, Opaque) for part in a[0].native):
                return Opaque()
            return make_string([item for part in a[0].native for item in chars(part)])
        native(name, "toString")(to_string)
        native(name, "length")(lambda v, a: sum(len(chars(part)) for part in a[0].native))

    # ------------------------------------------------------------------------------------------------ BigInteger
    @native(BIG, "<clinit>")
    def _(v, a):
        for name, number in (("ZERO", 0), ("ONE", 1), ("TWO", 2), ("TEN", 10)):
            v.statics[BIG, name] = JBig(number)

    def big(v, value):
        if value is None:
            v.throw("java/lang/NullPointerException", "BigInteger")
        return value.v

    @native(BIG, "<new>")
    def _(v, desc, a):
        if desc == "(Ljava/lang/String;)V" or desc == "(Ljava/lang/String;I)V":
            if not isinstance(a[0], str):
                raise Unsupported("number text")
            return JBig(int(a[0], a[1] if len(a) > 1 else 10))
        if desc in ("(I[B)V", "([B)V"):
            items = [unsigned(item, 8) for item in a[-1].items]
            number = 0
            for item in items:
                number = (number << 8) | item
            if desc == "([B)V":
                number = ite(number >= 1 << (8 * len(items) - 1), number - (1 << (8 * len(items))), number)
            elif a[0] < 0:
                number = -number
            return JBig(number)
        raise Unsupported("new BigInteger" + desc)

    native(BIG, "valueOf")(lambda v, a: JBig(a[0]))
    native(BIG, "add")(lambda v, a: JBig(big(v, a[0]) + big(v, a[1])))
    native(BIG, "subtract")(lambda v, a: JBig(big(v, a[0]) - big(v, a[1])))
    native(BIG, "multiply")(lambda v, a: JBig(big(v, a[0]) * big(v, a[1])))
    native(BIG, "negate")(lambda v, a: JBig(-a[0].v))
    native(BIG, "not")(lambda v, a: JBig(~a[0].v))
    native(BIG, "and")(lambda v, a: JBig(big(v, a[0]) & big(v, a[1])))
    native(BIG, "or")(lambda v, a: JBig(big(v, a[0]) | big(v, a[1])))
    native(BIG, "xor")(lambda v, a: JBig(big(v, a[0]) ^ big(v, a[1])))
    native(BIG, "andNot")(lambda v, a: JBig(a[0].v & ~big(v, a[1])))
    native(BIG, "abs")(lambda v, a: JBig(ite(a[0].v < 0, -a[0].v, a[0].v)))
    native(BIG, "signum")(lambda v, a: ite(a[0].v > 0, 1, ite(a[0].v < 0, -1, 0)))
    native(BIG, "toString")(lambda v, a: _text(a[0], None))

    def shift(v, value, count, left):
        if truth(count < 0):
            return shift(v, value, -count, not left)
        if isinstance(count, SymInt) and count.hi > 512:
            count = concrete(count, why="shift")
        return JBig(value << count if left else value >> count)
    native(BIG, "shiftLeft")(lambda v, a: shift(v, a[0].v, a[1], True))
    native(BIG, "shiftRight")(lambda v, a: shift(v, a[0].v, a[1], False))

    def big_div(v, a, which):
        right = big(v, a[1])
        if truth(right == 0):
            v.throw("java/lang/ArithmeticException", "BigInteger divide by zero")
        return JBig(divide(a[0].v, right, 1024)[which])
    native(BIG, "divide")(lambda v, a: big_div(v, a, 0))
    native(BIG, "remainder")(lambda v, a: big_div(v, a, 1))
    native(BIG, "mod")(lambda v, a: JBig(a[0].v % big(v, a[1])))
    native(BIG, "pow")(lambda v, a: JBig(a[0].v ** a[1]))
    native(BIG, "min")(lambda v, a: JBig(ite(a[0].v < big(v, a[1]), a[0].v, a[1].v)))
    native(BIG, "max")(lambda v, a: JBig(ite(a[0].v > big(v, a[1]), a[0].v, a[1].v)))

    @native(BIG, "testBit")
    def _(v, a):
        return boolean((a[0].v >> a[1]) & 1 != 0)

    @native(BIG, "compareTo")
    def _(v, a):
        return LCmp(a[0].v, big(v, a[1]))

    @native(BIG, "equals")
    def _(v, a):
        return boolean(a[0].v == a[1].v) if isinstance(a[1], JBig) else 0

    for name, bits in (("longValue", 64), ("intValue", 32), ("shortValue", 16), ("byteValue", 8)):
        native(BIG, name)(lambda v, a, bits=bits: wrap(a[0].v, bits))

        def exact_value(v, a, bits=bits):
            if truth(lor(a[0].v < -(1 << (bits - 1)), a[0].v >= 1 << (bits - 1))):
                v.throw("java/lang/ArithmeticException")
            return wrap(a[0].v, bits)
        native(BIG, name + "Exact")(exact_value)

    def magnitude_bits(value):
        """Bits of the two's complement representation without sign (forks)."""
        mag = ite(value < 0, ~value, value) if not type(value) is int else (~value if value < 0 else value)
        if type(mag) is int:
            return mag.bit_length()
        for count in range(0, mag.hi.bit_length() + 1):
            if truth(mag < (1 << count)):
                return count
        raise Unsupported("bit length")
    native(BIG, "bitLength")(lambda v, a: magnitude_bits(a[0].v))

    @native(BIG, "toByteArray")
    def _(v, a):
        size = magnitude_bits(a[0].v) // 8 + 1
        return JArray("B", [wrap(a[0].v >> (8 * (size - 1 - i)), 8) for i in range(size)])

    @native(BIG, "doubleValue")
    def _(v, a):
        if type(a[0].v) is not int:
            return JIntDouble(a[0].v)
        return JFloat.of(float(a[0].v), 64)

    @native(BIG, "hashCode")
    def _(v, a):
        value = a[0].v
        negative = truth(value < 0)
        mag = -value if negative else value
        words = 0
        while truth(mag >= 1 << (32 * words)):
            words += 1
        result = 0
        for i in range(words):
            result = wrap(31 * result + ((mag >> (32 * (words - 1 - i))) & 0xFFFFFFFF), 32)
        return wrap(-result, 32) if negative else result
