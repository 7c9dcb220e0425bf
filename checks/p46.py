"""P46: Java packed arrays (delta compression)."""

from .arrays_java import *
from .model import bit_length

PROPERTY = "P46"
BOUNDS = ("packed arrays of 0..2 elements (3 for bit:8, int:7 and bit:33; up to 5 for bit:2 and int:3) of bit/int widths 1, "
          "7, 8, 13, 16, 31, 32, 33, 63, 64 and every varint type (full range for two elements, otherwise differences up to "
          "200; varints, 63 and 64 bit fields with several elements: windows at both ends of the range and "
          "around 0), fixed size / auto / with element offsets; objects with two packed fields and one unpacked field; "
          "reading of any descriptor with delta widths 0..62; any truncation")
ASSUMPTIONS = ["elements encoded by the scalar stream operations, which P40-P43 check on their own",
               "BigInteger modelled by unbounded integers"]

REPRESENTATIVE = ("bit:1", "bit:8", "int:13", "bit:33", "int:32", "varuint", "varint32", "varsize")
WINDOWS = ("bit:64", "int:64", "bit:63", "int:63", "varint16")
INTEGRAL = [name for name in MAIN if name.startswith(("bit:", "int:", "var"))]


def value_range(kind):
    if kind.startswith("var"):
        return wire.var_range(kind)
    width = KINDS[kind].constant
    return (-(1 << (width - 1)), (1 << (width - 1)) - 1) if kind.startswith("int") else (0, (1 << width) - 1)


def make_values(ctx, kind, size, most=200):
    """All arrays of the size, stated by their first element and the differences (within the bounds)."""
    item = KINDS[kind]
    low, high = value_range(kind)
    wide = (kind.startswith("var") and high > 1 << 20 or kind in WINDOWS) and size > 1
    values = []
    if wide:
        first, last = ctx.pick("window", sorted({(low, low + 100), (max(low, -100), 100), (high - 100, high)}))
        low, high = max(low, first - 100), min(high, last + 100)
        values.append(ctx.int("v0", first, last))
    else:
        values.append(ctx.int("v0", low, high))
    for index in range(1, size):
        span = high - low if size == 2 or wide or item.constant and item.constant < 14 and most == 200 else most
        delta = ctx.int(f"d{index}", -span, span)
        value = values[-1] + delta
        ctx.assume(ctx.land(value >= low, value <= high))
        values.append(value)
    return values[:size]


def forked(ctx, size):
    """One path per value of a small number (1..9)."""
    for n in range(1, 9):
        if ctx.choose_path(ctx.eq(size, n)):
            return n
    return 9


class RefDelta:
    """Reference model of the packing of one integral field over all elements of an array."""

    def __init__(self, ctx, kind, values):
        self.ctx, self.item, self.values = ctx, KINDS[kind], values
        self.packed, self.width = False, 0
        sizes = [self.item.constant if self.item.constant else
                 8 * forked(ctx, wire.var_size(ctx, kind, value)) for value in values]
        if len(values) > 1:
            k = bit_length(ctx, [value - prev for prev, value in zip(values, values[1:])])
            delta_bits = k + 1 if k else 0
            self.packed = k <= 62 and 6 + sizes[0] + (len(values) - 1) * delta_bits < sum(sizes)
            self.width = k

    def put(self, out, index):
        env = self.ctx.env
        if index == 0:
            env.call(out, "writeBool", self.packed)
            if self.packed:
                env.call(out, "writeBits", self.width, 6)
        if index == 0 or not self.packed:
            self.item.put(env, out, self.values[index])
        elif self.width:
            env.call(out, "writeSignedBits", self.values[index] - self.values[index - 1], self.width + 1)


def integral(ctx, kind, size, mode, offsets, most=200):
    item = KINDS[kind]
    values = make_values(ctx, kind, size, most)
    model = RefDelta(ctx, kind, values)

    def compare(got):
        elements = item.elements(ctx, got)
        ctx.check(ctx.eq(elements, values), "elements read back")
        ctx.observe("elements", elements)

    check_array(ctx, True, lambda: item.traits(ctx), lambda full: item.raw(ctx, list(values) if full else None), size,
                model.put, mode, offsets, compare)
    ctx.reach("packed" if model.packed else "unpacked")


def objects(ctx, size, mode, offsets):
    env = ctx.env
    fields = []
    for i in range(size):
        a = ctx.int(f"a{i}", -3, 4) + (4000 if i == 1 else 0)
        fields.append((a, ctx.int(f"b{i}", 0, 7), ctx.int(f"c{i}", 126, 129)))
    one = RefDelta(ctx, "int:13", [entry[0] for entry in fields])
    two = RefDelta(ctx, "varuint16", [entry[2] for entry in fields])

    def put(out, index):
        one.put(out, index)
        env.call(out, "writeBits", fields[index][1], 3)
        two.put(out, index)

    def compare(got):
        items = env.call(got, "getRawArray")
        for index, (item, entry) in enumerate(zip(items, fields)):
            for name, value in zip("ABC", entry):
                ctx.check(ctx.eq(env.call(item, "get" + name), value), "field read back")
            ctx.check(env.call(item, "getIndex") == index, "element index passed to the factory")

    check_array(ctx, True, lambda: env.static("harness.Pair", "traits"),
                lambda full: env.static("harness.Pair", "raw", [env.new("harness.Pair", *entry) for entry in fields])
                if full else env.static("harness.Pair", "empty"), size, put, mode, offsets, compare)
    ctx.reach("end")


def limit(ctx, kind):
    """differences around the largest packable width (62 bits), in every order."""
    low, high = value_range(kind)
    item = KINDS[kind]
    values = []
    for index in range(3):
        base = ctx.pick(f"base{index}", [low, low + (1 << 61), low + (1 << 62), high - 2])
        values.append(base + ctx.int(f"v{index}", 0, 2))
    model = RefDelta(ctx, kind, values)
    check_array(ctx, True, lambda: item.traits(ctx), lambda full: item.raw(ctx, list(values) if full else None), 3,
                model.put, "fixed", [0], lambda got: ctx.check(ctx.eq(item.elements(ctx, got), values), "read back"))
    ctx.reach("packed" if model.packed else "unpacked")


def decode(ctx, kind, width):
    """any valid descriptor: the elements are the running sums of the deltas."""
    item = KINDS[kind]
    env = ctx.env
    size = 3
    low, high = value_range(kind)
    first = ctx.int("first", 1 << 63 if kind == "bit:64" else low, high)
    deltas = [ctx.int(f"d{i}", -(1 << width), (1 << width) - 1) if width else 0 for i in range(size - 1)]
    out = writer(ctx)
    env.call(out, "writeBool", True)
    env.call(out, "writeBits", width, 6)
    item.put(env, out, first)
    values = [first]
    for delta in deltas:
        if width:
            env.call(out, "writeSignedBits", delta, width + 1)
        values.append(values[-1] + delta)
    for value in values:
        ctx.assume(ctx.land(value >= low, value <= high))
    end = position(ctx, out)
    inp = reader(ctx, env.call(out, "toByteArray"), end)
    got = new_array(ctx, item.raw(ctx), item.traits(ctx), "fixed", None)
    env.call(got, "readPacked", inp, size)
    ctx.check(ctx.eq(item.elements(ctx, got), values), "running sums")
    ctx.check(position(ctx, inp) == end, "position")
    ctx.reach("end")


def truncated(ctx, kind):
    item = KINDS[kind]
    env = ctx.env
    size = 3 if item.constant and item.constant < 9 else 2
    values = make_values(ctx, kind, size)
    out = writer(ctx)
    env.call(new_array(ctx, item.raw(ctx, values), item.traits(ctx), "auto", None), "writePacked", out)
    end = position(ctx, out)
    cut = ctx.pick("cut", [1, 2, 8, 17])
    if cut > end:
        return
    inp = reader(ctx, env.call(out, "toByteArray")[:(end - cut + 7) // 8], end - cut)
    _, exc = attempt(ctx, new_array(ctx, item.raw(ctx), item.traits(ctx), "auto", None), "readPacked", inp)
    ctx.check(exc is not None and exc.is_a("java/io/IOException"), "truncated array raises", str(exc))
    ctx.reach("end")


def jobs(tier):
    out = []
    all8 = list(range(8))
    for kind in INTEGRAL:
        for size in range(0, 4 if tier == "quick" else 5):
            for mode in ("fixed", "auto", "fixed-offset", "auto-offset"):
                if tier == "quick" and size >= 2 and mode not in ("fixed", "auto-offset"):
                    continue
                if tier == "quick" and size == 2 and mode == "auto-offset" and kind not in REPRESENTATIVE:
                    continue
                if tier == "quick" and size == 1 and mode in ("auto", "fixed-offset") and kind not in REPRESENTATIVE:
                    continue
                if tier == "quick" and size == 3 and (kind not in ("bit:8", "int:7", "bit:33") or mode != "fixed"):
                    continue
                offsets = all8 if size < 2 else [3]
                out.append(Job(f"packed-{kind}-{size}-{mode}", integral,
                               {"kind": kind, "size": size, "mode": mode, "offsets": offsets,
                                "most": 20 if tier == "quick" and size == 3 and kind == "int:7" else 200}))
        if tier != "quick" or kind in REPRESENTATIVE:
            out.append(Job(f"truncated-{kind}", truncated, {"kind": kind}, must_reach=["end"]))
    for kind, size, most in (("bit:2", 3, 200), ("bit:2", 4, 200), ("bit:2", 5, 200), ("int:3", 4, 200), ("int:7", 4, 4),
                             ("bit:8", 4, 4)):
        out.append(Job(f"long-{kind}-{size}", integral, {"kind": kind, "size": size, "mode": "auto", "offsets": [0],
                                                         "most": most if tier == "quick" else 4 * most}))
    for kind in ("int:64", "bit:64", "varint"):
        out.append(Job(f"limit-{kind}", limit, {"kind": kind}, must_reach=["packed", "unpacked"]))
    for kind, widths in (("bit:8", (0, 1, 5, 8)), ("bit:33", (0, 9, 33)), ("bit:64", (0, 31, 62)),
                         ("int:13", (0, 1, 13)), ("int:64", (0, 40, 62)), ("varint16", (0, 3, 15)),
                         ("varuint32", (0, 7, 29)), ("varsize", (0, 31))):
        for width in widths:
            out.append(Job(f"decode-{kind}-{width}", decode, {"kind": kind, "width": width}, must_reach=["end"]))
    for size in range(0, 4):
        for mode in ("fixed", "auto-offset"):
            out.append(Job(f"objects-{size}-{mode}", objects, {"size": size, "mode": mode, "offsets": [0, 3]},
                           must_reach=["end"]))
    return out
