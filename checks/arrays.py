"""Element kinds shared by the array checks: value generation and encoding by the (separately checked) primitives."""

from . import wire
from .common_py import *


class Kind:
    def __init__(self, name, traits, make, put, get, constant=None):
        self.name, self.traits, self.make, self.put, self.get = name, traits, make, put, get
        self.constant = constant


def _var(name):
    def make(ctx, label, variant):
        low, high = wire.var_range(name)
        if variant and high > 1 << 20:
            low, high = max(low, -200), 200
        return ctx.int(label, low, high)

    return make


def _float_make(bits):
    def make(ctx, label, variant):
        """A value exactly representable in the field type."""
        if bits == 64:
            value = ctx.float(label)
            pattern = ctx.float_bits(value)
            ctx.assume(ctx.lnot(ctx.land(((pattern >> 52) & 0x7FF) == 0x7FF, (pattern & ((1 << 52) - 1)) != 0)))
            return value
        # full conversions are the subject of P03: here sign and mantissa vary, the exponent is fixed
        mant = 23 if bits == 32 else 10
        fraction = ctx.int(label, 0, (1 << mant) - 1)
        sign = ctx.int(label + ".sign", 0, 1)
        return ctx.float_from_bits((sign << 63) | (0x3FF << 52) | (fraction << (52 - mant)))

    return make


def _bitbuffer(ctx, label, variant):
    size = [0, 3, 8, 11][variant % 4]
    return ctx.module("zserio.bitbuffer").BitBuffer(ctx.bytes(label, (size + 7) // 8), size)


class Padded:
    """Object whose size depends on the bit position: 5 bits followed by padding up to a byte boundary and 3 bits."""

    def __init__(self, head, tail, index=None):
        self.head, self.tail, self.index = head, tail, index

    def __eq__(self, other):
        return (self.head == other.head) & (self.tail == other.tail) if isinstance(other, Padded) else False

    def __hash__(self):
        return 0

    def bitsizeof(self, bitposition):
        return self.initialize_offsets(bitposition) - bitposition

    @staticmethod
    def initialize_offsets(bitposition):
        return (bitposition + 5 + 7) // 8 * 8 + 3

    def write(self, out):
        out.write_bits(self.head, 5)
        out.alignto(8)
        out.write_bits(self.tail, 3)

    @classmethod
    def read(cls, inp, index=None):
        head = inp.read_bits(5)
        inp.alignto(8)
        return cls(head, inp.read_bits(3), index)

    class Factory:
        IS_OBJECT_PACKABLE = False

        @staticmethod
        def create(inp, index):
            return Padded.read(inp, index)


def _traits(name, *args):
    return lambda ctx: getattr(ctx.module("zserio.array"), name)(*args)


def _put(name, *args):
    return lambda out, value: getattr(out, "write_" + name)(value, *args)


def _get(name, *args):
    return lambda inp: getattr(inp, "read_" + name)(*args)


KINDS = {}


def _add(kind):
    KINDS[kind.name] = kind


MAIN_WIDTHS = (1, 7, 8, 13, 33, 64)
for _n in range(1, 65):
    _add(Kind(f"bit:{_n}", _traits("BitFieldArrayTraits", _n),
              lambda ctx, label, variant, n=_n: ctx.int(label, 0, (1 << n) - 1), _put("bits", _n), _get("bits", _n), _n))
    _add(Kind(f"int:{_n}", _traits("SignedBitFieldArrayTraits", _n),
              lambda ctx, label, variant, n=_n: ctx.int(label, -(1 << (n - 1)), (1 << (n - 1)) - 1),
              _put("signed_bits", _n), _get("signed_bits", _n), _n))
for _v, _t in (("varuint16", "VarUInt16"), ("varuint32", "VarUInt32"), ("varuint64", "VarUInt64"),
               ("varuint", "VarUInt"), ("varsize", "VarSize"), ("varint16", "VarInt16"), ("varint32", "VarInt32"),
               ("varint64", "VarInt64"), ("varint", "VarInt")):
    _add(Kind(_v, _traits(_t + "ArrayTraits"), _var(_v), _put(_v), _get(_v)))
for _n in (16, 32, 64):
    _add(Kind(f"float{_n}", _traits(f"Float{_n}ArrayTraits"), _float_make(_n), _put(f"float{_n}"), _get(f"float{_n}"),
              _n))
_add(Kind("bool", _traits("BoolArrayTraits"), lambda ctx, label, variant: ctx.bool(label), _put("bool"), _get("bool"),
          1))
_add(Kind("bytes", _traits("BytesArrayTraits"), lambda ctx, label, variant: ctx.bytearray(label, [1, 0, 2][variant % 3]),
          _put("bytes"), _get("bytes")))
_add(Kind("string", _traits("StringArrayTraits"), lambda ctx, label, variant: ctx.string(label, [1, 0, 2][variant % 3]),
          _put("string"), _get("string")))
_add(Kind("bitbuffer", _traits("BitBufferArrayTraits"), _bitbuffer, _put("bitbuffer"), _get("bitbuffer")))
_add(Kind("object", lambda ctx: ctx.module("zserio.array").ObjectArrayTraits(Padded.Factory),
          lambda ctx, label, variant: Padded(ctx.int(label + ".h", 0, 31), ctx.int(label + ".t", 0, 7)),
          lambda out, value: value.write(out), Padded.read))


MAIN = [name for name in KINDS
        if not name.startswith(("bit:", "int:")) or int(name.split(":")[1]) in MAIN_WIDTHS]


def canon_value(ctx, value):
    """Comparable form of an element."""
    if type(value).__name__ in ("SymFloat", "float"):
        return ctx.float_bits(value)
    if type(value).__name__ == "BitBuffer":
        return [value.bitsize, bits_value(ctx, value.buffer, value.bitsize)]
    if isinstance(value, Padded):
        return [value.head, value.tail]
    return value


def same_list(ctx, left, right):
    return ctx.eq([canon_value(ctx, value) for value in left], [canon_value(ctx, value) for value in right])


def start_stream(ctx, offsets):
    offset = ctx.pick("offset", offsets)
    prefix = ctx.int("prefix", 0, (1 << offset) - 1) if offset else 0

    def make():
        out = writer(ctx)
        if offset:
            out.write_bits(prefix, offset)
        return out

    return offset, make


def same_stream(ctx, out, expected, label):
    ctx.check(out.bitposition == expected.bitposition, label + ": number of bits")
    total = out.bitposition
    ctx.check(ctx.eq(bits_value(ctx, out.byte_array, total), bits_value(ctx, expected.byte_array, total)),
              label + ": content")
