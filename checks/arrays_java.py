"""Element kinds of the Java array checks."""

from sym.java.engine import harness_classes

from . import wire
from .common_java import *
from .common_java import Job as _Job

ARRAY_ENGINE = JavaEngine(lambda: [runtime_classes(), harness_classes()])
ARR = RT + "array."


def Job(name, func, params=None, **kwargs):
    return _Job(name, func, params, engine=ARRAY_ENGINE, **kwargs)


class Kind:
    """Element kind: array traits, raw array class, descriptor of the raw array, number generator and encoder."""

    def __init__(self, name, traits, args, raw, make, put, constant=None, elem=None):
        self.name, self.traits_name, self.args, self.raw_name = name, traits, args, raw
        self.make, self.put, self.constant, self.elem = make, put, constant, elem

    def traits(self, ctx):
        if self.name == "object":
            return ctx.env.static("harness.Padded", "traits")
        return ctx.env.new(ARR + "ArrayTraits$" + self.traits_name + "ArrayTraits", *self.args)

    def raw(self, ctx, values=None):
        env = ctx.env
        if self.name == "object":
            return env.static("harness.Padded", "empty") if values is None else \
                env.static("harness.Padded", "raw", values)
        name = ARR + "RawArray$" + self.raw_name + "RawArray"
        if values is None:
            return env.new(name)
        if self.name == "bytes":
            items = env.new("harness.BytesList", len(values), sig="(I)")
            for index, value in enumerate(values):
                env.call(items, "set", index, value)
            return env.call(items, "raw")
        return env.new(name, list(values), sig=f"([{self.elem})")

    def elements(self, ctx, array):
        """Comparable elements of an Array."""
        env = ctx.env
        if self.name == "bytes":
            items = env.new("harness.BytesList", array, sig="(Lzserio/runtime/array/Array;)")
            return [env.call(items, "get", index) for index in range(env.call(items, "size"))]
        items = [canon_value(ctx, item) for item in env.call(array, "getRawArray")]
        return [ctx.ite(item > 127, item - 256, item) for item in items] if self.elem == "B" else items


def canon_value(ctx, value):
    env = ctx.env
    if isinstance(value, Float):
        if value.width == 64:
            return unsigned(env.static("java.lang.Double", "doubleToLongBits", value, sig="(D)J"), 64)
        return unsigned(env.static("java.lang.Float", "floatToIntBits", value, sig="(F)I"), 32)
    if isinstance(value, (int, bool, str, list)) or type(value).__name__ in ("SymInt", "SymBool", "SymStr"):
        return value
    name = env.class_name(value)
    if name.endswith("BitBuffer"):
        size = env.call(value, "getBitSize")
        return [size, bits_value(ctx, env.call(value, "getBuffer"), size)]
    assert name == "harness/Padded", name
    return [env.call(value, "getHead"), env.call(value, "getTail")]


def _float(width):
    def make(ctx, label, variant):
        bits = ctx.int(label, 0, (1 << (64 if width == 64 else 23)) - 1)
        if width == 64:
            ctx.assume(ctx.lnot(ctx.land(((bits >> 52) & 0x7FF) == 0x7FF, (bits & ((1 << 52) - 1)) != 0)))
            return Float(bits, 64)
        sign = ctx.int(label + ".sign", 0, 1)
        if width == 16:
            bits = bits & 0x7FE000
        return Float((sign << 31) | (0x7F << 23) | bits, 32)
    return make


def _var(name):
    def make(ctx, label, variant):
        low, high = wire.var_range(name)
        if variant and high > 1 << 20:
            low, high = max(low, -200), 200
        return ctx.int(label, low, high)
    return make


def _bitbuffer(ctx, label, variant):
    size = [0, 3, 8, 11][variant % 4]
    return ctx.env.new(IO + "BitBuffer", list(ctx.bytes(label, (size + 7) // 8)), size)


def _put(name, *args):
    return lambda env, out, value: env.call(out, name, value, *args)


KINDS = {}


def _add(name, *args, **kwargs):
    KINDS[name] = Kind(name, *args, **kwargs)


CLASSES = [("Byte", "B", 8), ("Short", "S", 16), ("Int", "I", 32), ("Long", "J", 64)]
BIGI = "Ljava/math/BigInteger;"
for _n in range(1, 65):
    _cls, _desc, _bits = next(entry for entry in CLASSES if _n <= entry[2])
    _add(f"int:{_n}", f"SignedBitField{_cls}", (_n,), _cls,
         lambda ctx, label, variant, n=_n: ctx.int(label, -(1 << (n - 1)), (1 << (n - 1)) - 1), _put("writeSignedBits", _n),
         _n, _desc)
    if _n == 64:
        _add("bit:64", "BitFieldBigInteger", (64,), "BigInteger",
             lambda ctx, label, variant: ctx.int(label, 0, 3) if variant else
             ctx.int(label, 1 << 63, (1 << 64) - 1), _put("writeBigInteger", 64), 64, BIGI)
        continue
    _cls, _desc, _bits = next(entry for entry in CLASSES if _n < entry[2])
    _add(f"bit:{_n}", f"BitField{_cls}", (_n,), _cls,
         lambda ctx, label, variant, n=_n: ctx.int(label, 0, (1 << n) - 1), _put("writeBits", _n), _n, _desc)
for _v, _t, _cls, _desc in (
        ("varuint16", "VarUInt16", "Short", "S"), ("varuint32", "VarUInt32", "Int", "I"),
        ("varuint64", "VarUInt64", "Long", "J"), ("varuint", "VarUInt", "BigInteger", BIGI),
        ("varsize", "VarSize", "Int", "I"), ("varint16", "VarInt16", "Short", "S"), ("varint32", "VarInt32", "Int", "I"),
        ("varint64", "VarInt64", "Long", "J"), ("varint", "VarInt", "Long", "J")):
    _add(_v, _t, (), _cls, _var(_v), _put("write" + _t), None, _desc)
for _n, _cls, _desc in ((16, "Float", "F"), (32, "Float", "F"), (64, "Double", "D")):
    _add(f"float{_n}", f"Float{_n}", (), _cls, _float(_n), _put(f"writeFloat{_n}"), _n, _desc)
_add("bool", "Bool", (), "Boolean", lambda ctx, label, variant: ctx.bool(label), _put("writeBool"), 1, "Z")
_add("bytes", "Bytes", (), "Bytes", lambda ctx, label, variant: list(ctx.bytearray(label, [1, 0, 2][variant % 3])),
     _put("writeBytes"))
_add("string", "String", (), "String", lambda ctx, label, variant: ctx.string(label, [1, 0, 2][variant % 3]),
     _put("writeString"), None, "Ljava/lang/String;")
_add("bitbuffer", "BitBuffer", (), "BitBuffer", _bitbuffer, _put("writeBitBuffer"), None, "Lzserio/runtime/io/BitBuffer;")
_add("object", "WriteObject", (), "Object",
     lambda ctx, label, variant: ctx.env.new("harness.Padded", ctx.int(label + ".h", 0, 31), ctx.int(label + ".t", 0, 7)),
     lambda env, out, value: env.call(value, "write", out))

MAIN_WIDTHS = (1, 7, 8, 13, 16, 31, 32, 33, 63, 64)
MAIN = [name for name in KINDS if not name.startswith(("bit:", "int:")) or int(name.split(":")[1]) in MAIN_WIDTHS]


def same_list(ctx, left, right):
    return ctx.eq([canon_value(ctx, value) for value in left], [canon_value(ctx, value) for value in right])


def start_stream(ctx, offsets):
    offset = ctx.pick("offset", offsets)
    before = ctx.int("prefix", 0, (1 << offset) - 1) if offset else 0

    def make():
        out = writer(ctx)
        if offset:
            ctx.env.call(out, "writeBits", before, offset)
        return out
    return offset, make


def position(ctx, stream):
    return ctx.env.call(stream, "getBitPosition")


def same_stream(ctx, out, expected, label):
    total = position(ctx, expected)
    ctx.check(position(ctx, out) == total, label + ": number of bits")
    data = ctx.env.call(out, "toByteArray")
    ctx.check(ctx.eq(bits_value(ctx, data, total), bits_value(ctx, ctx.env.call(expected, "toByteArray"), total)),
              label + ": content")
    return data


def new_array(ctx, raw, traits, mode, offsets):
    env = ctx.env
    kind = "AUTO" if mode.startswith("auto") else "IMPLICIT" if mode == "implicit" else "NORMAL"
    array_type = env.get_static(ARR + "ArrayType", kind)
    cls = ARR + "Array"
    sig = "(Lzserio/runtime/array/RawArray;Lzserio/runtime/array/ArrayTraits;Lzserio/runtime/array/ArrayType;"
    if offsets is None:
        return env.new(cls, raw, traits, array_type, sig=sig + ")")
    return env.new(cls, raw, traits, array_type, offsets, offsets,
                   sig=sig + "Lzserio/runtime/array/OffsetChecker;Lzserio/runtime/array/OffsetInitializer;)")


def check_array(ctx, packed, traits, raw, size, put, mode, offsets, compare, tails=(3,), limits=(1024,)):
    """Writes, measures and reads an array; compares with the expected stream."""
    env = ctx.env
    offset, make = start_stream(ctx, offsets)
    indexed = mode.endswith("offset")
    is_auto = mode.startswith("auto")
    expected = make()
    if is_auto:
        env.call(expected, "writeVarSize", size)
    positions = []
    for index in range(size):
        if indexed:
            env.call(expected, "alignTo", 8)
        positions += [index, position(ctx, expected) // 8]
        put(expected, index)
    end = position(ctx, expected)

    log = env.new("harness.Offsets") if indexed else None
    array = new_array(ctx, raw(True), traits(), mode, log)
    ctx.check(env.call(array, "size") == size, "length")
    suffix = "Packed" if packed else ""
    ctx.check(ctx.eq(env.call(array, "bitSizeOf" + suffix, offset), end - offset), "bitSizeOf is the number of bits")
    ctx.check(ctx.eq(env.call(array, "initializeOffsets" + suffix, offset), end), "initializeOffsets returns the end")
    if indexed:
        ctx.check(ctx.eq(env.call(log, "takeSet"), positions), "offset of each element is its byte position")
    out = make()
    env.call(array, "write" + suffix, out)
    same_stream(ctx, out, expected, "written")
    if indexed:
        ctx.check(ctx.eq(env.call(log, "takeChecked"), positions), "offsets checked while writing")
    tail = ctx.pick("tail", tails) if len(tails) > 1 else tails[0]
    if tail:
        env.call(out, "writeBits", (1 << tail) - 1, tail)
    limit = ctx.pick("limit", limits) if len(limits) > 1 else limits[0]
    inp = env.new(IO + "ByteArrayBitStreamReader", env.call(out, "toByteArray"), end + tail, limit, sig="([BJI)")
    if offset:
        env.call(inp, "readBits", offset)
    got = new_array(ctx, raw(False), traits(), mode, log)
    if is_auto or mode == "implicit":
        env.call(got, "read" + suffix, inp)
    else:
        env.call(got, "read" + suffix, inp, size)
    ctx.check(env.call(got, "size") == size, "number of elements read")
    compare(got)
    ctx.check(position(ctx, inp) == end, "reader position behind the array")
    if indexed:
        ctx.check(ctx.eq(env.call(log, "takeChecked"), positions), "offsets checked while reading")
    if tail:
        ctx.check(ctx.eq(env.call(inp, "readBits", tail), (1 << tail) - 1), "following field")
    return array, got
