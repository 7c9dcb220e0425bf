"""P07: Python packed arrays (delta compression)."""

from .arrays import *
from .model import bit_length

PROPERTY = "P07"
BOUNDS = ("packed arrays of 0..2 elements (3 for bit:8, int:7, bit:33 and varuint; thorough: 4) of bit/int widths 1, 7, 8, 13, 33, 64 and every varint type (full "
          "range for two elements and for three of up to 13 bits; otherwise differences up to 200; varints wider than 2 "
          "bytes with several elements: 100..200 wide windows at both ends of the range and around 0), fixed size / auto / with element offsets, bit offsets 0..7; objects with two "
          "packed fields and one unpacked field; reading of any descriptor with delta widths 0..62; any truncation")
ASSUMPTIONS = ["pure Python implementation of the runtime",
               "elements encoded by the scalar stream operations, which P01-P04 check on their own"]

INTEGRAL = [name for name in MAIN if name.startswith(("bit:", "int:", "var"))]


def make_values(ctx, kind, size, most=200):
    """All arrays of the size, stated by their first element and the differences (within the bounds)."""
    item = KINDS[kind]
    low, high = value_range(kind)
    wide = kind.startswith("var") and high > 1 << 20 and size > 1
    values = []
    if wide:
        # wide varints: windows at the ends of the range and around zero
        first, last = ctx.pick("window", sorted({(low, low + 100), (max(low, -100), 100), (high - 100, high)}))
        low, high = max(low, first - 100), min(high, last + 100)
        values.append(ctx.int("v0", first, last))
    else:
        values.append(item.make(ctx, "v0", 0))
    for index in range(1, size):
        span = high - low if size == 2 or wide or item.constant and item.constant < 14 and most == 200 else most
        delta = ctx.int(f"d{index}", -span, span)
        value = values[-1] + delta
        ctx.assume(ctx.land(value >= low, value <= high))
        values.append(value)
    return values[:size]


def value_range(kind):
    if kind.startswith("var"):
        return wire.var_range(kind)
    width = KINDS[kind].constant
    return (-(1 << (width - 1)), (1 << (width - 1)) - 1) if kind.startswith("int") else (0, (1 << width) - 1)


class RefDelta:
    """Reference model of the packing of one integral field over all elements of an array."""

    def __init__(self, ctx, kind, values):
        self.ctx, self.item, self.values = ctx, KINDS[kind], values
        self.packed, self.width = False, 0
        sizes = []
        for value in values:
            probe = writer(ctx)
            self.item.put(probe, value)
            sizes.append(probe.bitposition)
        if len(values) > 1:
            k = bit_length(ctx, [value - prev for prev, value in zip(values, values[1:])])
            delta_bits = k + 1 if k else 0
            self.packed = k <= 62 and 6 + sizes[0] + (len(values) - 1) * delta_bits < sum(sizes)
            self.width = k

    def put(self, out, index):
        if index == 0:
            out.write_bool(self.packed)
            if self.packed:
                out.write_bits(self.width, 6)
        if index == 0 or not self.packed:
            self.item.put(out, self.values[index])
        elif self.width:
            out.write_signed_bits(self.values[index] - self.values[index - 1], self.width + 1)


class Pair:
    """Object with packed fields a, c and an unpacked field b (as generated code handles them)."""

    A, C = "int:13", "varuint16"

    def __init__(self, ctx, a, b, c):
        self.ctx, self.a, self.b, self.c = ctx, a, b, c

    def init_packing_context(self, context):
        context[0].init(KINDS[self.A].traits(self.ctx), self.a)
        context[1].init(KINDS[self.C].traits(self.ctx), self.c)

    def bitsizeof_packed(self, context, bitposition):
        end = bitposition + context[0].bitsizeof(KINDS[self.A].traits(self.ctx), self.a) + 3
        return end + context[1].bitsizeof(KINDS[self.C].traits(self.ctx), self.c) - bitposition

    def initialize_offsets_packed(self, context, bitposition):
        return bitposition + self.bitsizeof_packed(context, bitposition)

    def write_packed(self, context, out):
        context[0].write(KINDS[self.A].traits(self.ctx), out, self.a)
        out.write_bits(self.b, 3)
        context[1].write(KINDS[self.C].traits(self.ctx), out, self.c)

    @staticmethod
    def factory(ctx):
        delta = ctx.module("zserio.array").DeltaContext

        class Factory:
            IS_OBJECT_PACKABLE = True
            indexes = []

            @staticmethod
            def create_packing_context():
                return [delta(), delta()]

            @staticmethod
            def create_packed(context, inp, index):
                Factory.indexes.append(index)
                a = context[0].read(KINDS[Pair.A].traits(ctx), inp)
                b = inp.read_bits(3)
                return Pair(ctx, a, b, context[1].read(KINDS[Pair.C].traits(ctx), inp))

        return Factory


def check_array(ctx, traits, values, put, mode, offsets, same):
    array_mod = ctx.module("zserio.array")
    size = len(values)
    offset, make = start_stream(ctx, offsets)
    indexed = mode.endswith("offset")
    is_auto = mode.startswith("auto")
    expected = make()
    if is_auto:
        expected.write_varsize(size)
    positions = []
    for index in range(size):
        if indexed:
            expected.alignto(8)
        positions.append([index, expected.bitposition])
        put(expected, index)
    end = expected.bitposition
    seen = {"set": [], "check": []}
    kwargs = {"is_auto": is_auto}
    if indexed:
        kwargs["set_offset_method"] = lambda index, position: seen["set"].append([index, position])
        kwargs["check_offset_method"] = lambda index, position: seen["check"].append([index, position])
    array = array_mod.Array(traits, list(values), **kwargs)
    ctx.check(ctx.eq(array.bitsizeof_packed(offset), end - offset), "bitsizeof is the number of bits")
    ctx.check(ctx.eq(array.initialize_offsets_packed(offset), end), "initialize_offsets returns the end position")
    if indexed:
        ctx.check(ctx.eq(seen["set"], positions), "offset of each element is its byte aligned position")
    out = make()
    array.write_packed(out)
    same_stream(ctx, out, expected, "written")
    if indexed:
        ctx.check(ctx.eq(seen["check"], positions), "offsets checked while writing")
        seen["check"].clear()
    out.write_bits(5, 3)
    inp = reader(ctx, out.byte_array, end + 3)
    if offset:
        inp.read_bits(offset)
    got = array_mod.Array.from_reader_packed(traits, inp, 0 if is_auto else size, **kwargs)
    ctx.check(len(got) == size, "number of elements read")
    ctx.check(same(got.raw_array, values), "elements read back")
    ctx.check(inp.bitposition == end, "reader position behind the array")
    if indexed:
        ctx.check(ctx.eq(seen["check"], positions), "offsets checked while reading")
    ctx.check(ctx.eq(inp.read_bits(3), 5), "following field")
    ctx.observe("data", out.byte_array)


def integral(ctx, kind, size, mode, offsets, most=200):
    item = KINDS[kind]
    values = make_values(ctx, kind, size, most)
    model = RefDelta(ctx, kind, values)
    check_array(ctx, item.traits(ctx), values, model.put, mode, offsets, lambda a, b: same_list(ctx, a, b))
    ctx.reach("packed" if model.packed else "unpacked")


def objects(ctx, size, mode, offsets):
    values = []
    for i in range(size):
        a = ctx.int(f"a{i}", -3, 4) + (4000 if i == 1 else 0)
        c = ctx.int(f"c{i}", 126, 129)
        values.append(Pair(ctx, a, ctx.int(f"b{i}", 0, 7), c))
    one = RefDelta(ctx, Pair.A, [value.a for value in values])
    two = RefDelta(ctx, Pair.C, [value.c for value in values])

    def put(out, index):
        one.put(out, index)
        out.write_bits(values[index].b, 3)
        two.put(out, index)

    factory = Pair.factory(ctx)
    traits = ctx.module("zserio.array").ObjectArrayTraits(factory)
    check_array(ctx, traits, values, put, mode, offsets,
                lambda left, right: ctx.land(*[ctx.land(x.a == y.a, x.b == y.b, x.c == y.c)
                                               for x, y in zip(left, right)]))
    ctx.check(factory.indexes == list(range(size)), "element indexes passed to the factory")
    ctx.reach("end")


def limit(ctx, kind):
    """differences around the largest packable width (62 bits), in every order."""
    low, high = value_range(kind)
    item = KINDS[kind]
    values = []
    for index in range(3):
        base = ctx.pick(f"base{index}", [low, low + (1 << 61), low + (1 << 62), high - 2])
        values.append(base + ctx.int(f"v{index}", 0, 2))
    model = RefDelta(ctx, kind, values)
    check_array(ctx, item.traits(ctx), values, model.put, "fixed", [0], lambda a, b: same_list(ctx, a, b))
    ctx.reach("packed" if model.packed else "unpacked")


def decode(ctx, kind, width):
    """any valid descriptor: the elements are the running sums of the deltas."""
    item = KINDS[kind]
    size = 3
    first = item.make(ctx, "first", 0)
    deltas = [ctx.int(f"d{i}", -(1 << width), (1 << width) - 1) if width else 0 for i in range(size - 1)]
    out = writer(ctx)
    out.write_bool(True)
    out.write_bits(width, 6)
    item.put(out, first)
    values = [first]
    for delta in deltas:
        if width:
            out.write_signed_bits(delta, width + 1)
        values.append(values[-1] + delta)
    low, high = value_range(kind)
    for value in values:
        ctx.assume(ctx.land(value >= low, value <= high))
    inp = reader(ctx, out.byte_array, out.bitposition)
    array_mod = ctx.module("zserio.array")
    got = array_mod.Array.from_reader_packed(item.traits(ctx), inp, size)
    ctx.check(same_list(ctx, got.raw_array, values), "running sums")
    ctx.check(inp.bitposition == out.bitposition, "position")
    ctx.reach("end")


def truncated(ctx, kind):
    item = KINDS[kind]
    array_mod = ctx.module("zserio.array")
    size = 3 if item.constant and item.constant < 9 else 2
    values = make_values(ctx, kind, size)
    out = writer(ctx)
    array_mod.Array(item.traits(ctx), values, is_auto=True).write_packed(out)
    end = out.bitposition
    cut = ctx.pick("cut", [1, 2, 8, 17])
    if cut > end:
        return
    inp = reader(ctx, out.byte_array, end - cut)
    _, exc = ctx.attempt(array_mod.Array.from_reader_packed, item.traits(ctx), inp, is_auto=True)
    ctx.check(exc is not None and is_runtime_error(exc), "truncated array raises", repr(exc))
    ctx.reach("end")


def jobs(tier):
    out = []
    all8 = list(range(8))
    for kind in INTEGRAL:
        item = KINDS[kind]
        for size in range(0, 4 if tier == "quick" else 5):
            for mode in ("fixed", "auto", "fixed-offset", "auto-offset"):
                if tier == "quick" and size >= 2 and mode not in ("fixed", "auto-offset"):
                    continue
                if tier == "quick" and size == 3 and (kind not in ("bit:8", "int:7", "bit:33", "varuint") or
                                                      mode != "fixed"):
                    continue
                offsets = all8 if size < 2 else [3]
                out.append(Job(f"packed-{kind}-{size}-{mode}", integral,
                               {"kind": kind, "size": size, "mode": mode, "offsets": offsets}))
        out.append(Job(f"truncated-{kind}", truncated, {"kind": kind}, must_reach=["end"]))
    for kind, size, most in (("bit:2", 3, 200), ("bit:2", 4, 200), ("bit:2", 5, 200), ("int:3", 4, 200), ("int:7", 4, 4),
                             ("bit:8", 4, 4)) + (
            () if tier == "quick" else (("int:13", 5, 1), ("bit:33", 4, 1), ("varint", 4, 1))):
        out.append(Job(f"long-{kind}-{size}", integral, {"kind": kind, "size": size, "mode": "auto", "offsets": [0],
                                                         "most": most if tier == "quick" else 4 * most}))
    for kind in ("int:64", "bit:64", "varint"):
        out.append(Job(f"limit-{kind}", limit, {"kind": kind}, must_reach=["packed", "unpacked"]))
    for kind, widths in (("bit:8", (0, 1, 5, 8)), ("bit:33", (0, 9, 33)), ("bit:64", (0, 31, 62)),
                         ("int:13", (0, 1, 13)), ("int:64", (0, 40, 62)), ("varint16", (0, 3, 15)),
                         ("varuint32", (0, 7, 29)), ("varsize", (0, 31))):
        for width in widths:
            out.append(Job(f"decode-{kind}-{width}", decode, {"kind": kind, "width": width}, must_reach=["end"]))
    for size in range(0, 3 if tier == "quick" else 4):
        for mode in ("fixed", "auto", "fixed-offset", "auto-offset"):
            out.append(Job(f"objects-{size}-{mode}", objects, {"size": size, "mode": mode, "offsets": [5]},
                           must_reach=["end"]))
    return out
