"""P01: Python bit stream, fixed width fields."""

from .common_py import *

PROPERTY = "P01"
BOUNDS = ("one field of every width 1..64 at every bit offset 0..7, preceded by an arbitrary 0..15 bit prefix and "
          "followed by an arbitrary 5 bit suffix; rejection: width 1..64 and values in [-2^66, 2^66]; widths -2..70")
ASSUMPTIONS = ["pure Python implementation of the runtime (ZSERIO_PYTHON_IMPLEMENTATION=python)"]


def roundtrip(ctx, signed, width):
    """write at any offset, compare the stream with the wire format, read back, positions."""
    offset = ctx.pick("offset", range(0, 16))
    low, high = (-(1 << (width - 1)), (1 << (width - 1)) - 1) if signed else (0, (1 << width) - 1)
    value = ctx.int("value", low, high)
    suffix = ctx.int("suffix", 0, 31)
    out = writer(ctx)
    prefix = 0
    if offset:
        prefix = ctx.int("prefix", 0, (1 << offset) - 1)
        out.write_bits(prefix, offset)
    ctx.check(out.bitposition == offset, "position after prefix")
    (out.write_signed_bits if signed else out.write_bits)(value, width)
    ctx.check(out.bitposition == offset + width, "position after value")
    end1 = bits_value(ctx, out.byte_array, offset + width)
    ctx.check(ctx.eq(end1, (prefix << width) | unsigned(value, width)), "stream before suffix")
    out.write_bits(suffix, 5)
    total = offset + width + 5
    ctx.check(out.bitposition == total, "end position")
    data = out.byte_array
    ctx.check(len(data) == (total + 7) // 8, "byte length")
    expected = (((prefix << width) | unsigned(value, width)) << 5) | suffix
    ctx.check(ctx.eq(bits_value(ctx, data, total), expected), "stream is MSB first big endian")
    ctx.check(ctx.eq(padding_value(ctx, data, total), 0), "padding is zero")
    inp = reader(ctx, data, total)
    if offset:
        ctx.check(ctx.eq(inp.read_bits(offset), prefix), "prefix read back")
    got = inp.read_signed_bits(width) if signed else inp.read_bits(width)
    ctx.check(ctx.eq(got, value), "value read back")
    ctx.check(inp.bitposition == offset + width, "reader position")
    ctx.check(ctx.eq(inp.read_bits(5), suffix), "suffix read back")
    ctx.check(inp.bitposition == total, "reader end")
    ctx.observe("data", data)
    ctx.observe("value", got)
    ctx.reach("end")


def reject(ctx, signed, width):
    """out of range values and widths raise and leave the stream alone."""
    value = ctx.int("value", -(1 << 66), 1 << 66)
    out = writer(ctx)
    prefix = ctx.int("prefix", 0, 7)
    out.write_bits(prefix, 3)
    _, exc = ctx.attempt(out.write_signed_bits if signed else out.write_bits, value, width)
    if 1 <= width <= 64:
        low, high = (-(1 << (width - 1)), (1 << (width - 1)) - 1) if signed else (0, (1 << width) - 1)
        in_range = ctx.land(value >= low, value <= high)
        ctx.check(ctx.eq(exc is None, in_range), "accepts exactly the values of the range")
    else:
        ctx.check(exc is not None, "invalid width rejected")
    if exc is not None:
        ctx.check(is_runtime_error(exc), "declared exception", repr(exc))
        ctx.check(out.bitposition == 3, "position unchanged after rejection")
        out.write_bits(1, 1)
        ctx.check(ctx.eq(bits_value(ctx, out.byte_array, 4), (prefix << 1) | 1), "stream unchanged after rejection")
        ctx.check(len(out.byte_array) == 1, "length unchanged")
        ctx.reach("rejected")
    ctx.observe("exc", exc)


def align(ctx):
    """alignto of writer and reader."""
    start = ctx.pick("start", range(0, 40))
    alignment = ctx.pick("alignment", [1, 2, 3, 4, 5, 7, 8, 12, 16, 24, 32, 33, 64])
    out = writer(ctx)
    value = 0
    if start:
        value = ctx.int("value", 0, (1 << start) - 1)
        out.write_bits(value, start)
    out.alignto(alignment)
    expected = (start + alignment - 1) // alignment * alignment
    ctx.check(out.bitposition == expected, "writer aligned to the next multiple")
    out.write_bits(1, 1)
    ctx.check(ctx.eq(bits_value(ctx, out.byte_array, expected + 1), (((value << (expected - start))) << 1) | 1),
              "skipped bits are zero")
    inp = reader(ctx, out.byte_array)
    if start:
        ctx.check(ctx.eq(inp.read_bits(start), value), "read back")
    inp.alignto(alignment)
    ctx.check(inp.bitposition == expected, "reader aligned like the writer")
    ctx.check(ctx.eq(inp.read_bits(1), 1), "marker after alignment")
    ctx.reach("end")


def boolean(ctx):
    offset = ctx.pick("offset", range(0, 8))
    out = writer(ctx)
    if offset:
        prefix = ctx.int("prefix", 0, (1 << offset) - 1)
        out.write_bits(prefix, offset)
    values = [ctx.bool(f"b{i}") for i in range(4)]
    for value in values:
        out.write_bool(value)
    ctx.check(out.bitposition == offset + 4, "one bit each")
    inp = reader(ctx, out.byte_array, out.bitposition)
    if offset:
        inp.read_bits(offset)
    for value in values:
        got = inp.read_bool()
        ctx.check(ctx.eq(got, value), "bool read back")
        ctx.observe("b", got)
    ctx.reach("end")


def jobs(tier):
    out = []
    for width in range(1, 65):
        for signed in (False, True):
            tag = "s" if signed else "u"
            out.append(Job(f"roundtrip-{tag}{width}", roundtrip, {"signed": signed, "width": width},
                           must_reach=["end"]))
            out.append(Job(f"reject-{tag}{width}", reject, {"signed": signed, "width": width},
                           must_reach=["rejected"]))
    for width in (-2, -1, 0, 65, 66, 70):
        for signed in (False, True):
            out.append(Job(f"reject-{'s' if signed else 'u'}{width}", reject, {"signed": signed, "width": width},
                           must_reach=["rejected"]))
    out.append(Job("align", align, must_reach=["end"]))
    out.append(Job("bool", boolean, must_reach=["end"]))
    return out
