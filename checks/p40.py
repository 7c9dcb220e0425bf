"""P40: Java bit stream, fixed width integer fields."""

from .common_java import *

PROPERTY = "P40"
BOUNDS = ("one field of every width 1..64 at bit offsets 0..8, preceded by an arbitrary prefix and followed by an arbitrary "
          "5 bit suffix; initial capacities 0, 1, 3 and default; rejection: all of int64 for every width, numbers in "
          "[-2^66, 2^66] for big integers, widths -2..70")
ASSUMPTIONS = ["JDK library classes used by the runtime (BigInteger, arrays) behave as documented"]

KINDS = ["signed", "unsigned", "big"]
FIXED = {"Byte": (8, True, "readByte"), "UnsignedByte": (8, False, "readUnsignedByte"), "Short": (16, True, "readShort"),
         "UnsignedShort": (16, False, "readUnsignedShort"), "Int": (32, True, "readInt"),
         "UnsignedInt": (32, False, "readUnsignedInt"), "Long": (64, True, "readLong")}


def bounds(signed, width):
    return (-(1 << (width - 1)), (1 << (width - 1)) - 1) if signed else (0, (1 << width) - 1)


def field(ctx, write, read, width, signed, offsets):
    """writes one value, compares the stream, reads it back."""
    env = ctx.env
    offset = ctx.pick("offset", offsets)
    out = writer(ctx, ctx.pick("capacity", [None, 0, 1, 3]) if offset == 3 else None)
    low, high = bounds(signed, width)
    value = ctx.int("value", low, high)
    before = prefix(ctx, out, offset)
    write(env, out, value)
    ctx.check(env.call(out, "getBitPosition") == offset + width, "position after value")
    first = env.call(out, "toByteArray")
    ctx.check(ctx.eq(bits_value(ctx, first, offset + width), (before << width) | unsigned(value, width)), "stream")
    ctx.check(ctx.eq(padding_value(ctx, first, offset + width), 0), "padding is zero")
    suffix = ctx.int("suffix", 0, 31)
    env.call(out, "writeBits", suffix, 5)
    total = offset + width + 5
    data = env.call(out, "toByteArray")
    ctx.check(len(data) == (total + 7) // 8, "number of bytes")
    ctx.check(ctx.eq(bits_value(ctx, data, total), (((before << width) | unsigned(value, width)) << 5) | suffix),
              "stream with suffix")
    ctx.check(ctx.eq(padding_value(ctx, data, total), 0), "padding is zero")
    inp = reader(ctx, data, total)
    if offset:
        ctx.check(ctx.eq(env.call(inp, "readBits", offset), before), "prefix read back")
    got = read(env, inp)
    ctx.check(ctx.eq(got, value), "value read back")
    ctx.check(env.call(inp, "getBitPosition") == offset + width, "reader position")
    ctx.check(ctx.eq(env.call(inp, "readBits", 5), suffix), "suffix read back")
    ctx.observe("data", data)
    ctx.observe("value", got)
    ctx.reach("end")


def width_field(ctx, kind, width, offsets):
    if kind == "signed":
        field(ctx, lambda e, o, v: e.call(o, "writeSignedBits", v, width), lambda e, i: e.call(i, "readSignedBits", width),
              width, True, offsets)
    elif kind == "unsigned":
        field(ctx, lambda e, o, v: e.call(o, "writeBits", v, width), lambda e, i: e.call(i, "readBits", width), width,
              False, offsets)
    elif kind == "big":
        field(ctx, lambda e, o, v: e.call(o, "writeBigInteger", v, width),
              lambda e, i: e.call(i, "readBigInteger", width), width, False, offsets)
    else:
        field(ctx, lambda e, o, v: e.call(o, "writeBigInteger", v, width),
              lambda e, i: e.call(i, "readSignedBigInteger", width), width, True, offsets)


def fixed_field(ctx, name, offsets):
    width, signed, read = FIXED[name]
    field(ctx, lambda e, o, v: e.call(o, "write" + name, v), lambda e, i: e.call(i, read), width, signed, offsets)


def reject(ctx, method, width, signed, widths, low, high):
    """out of range values and widths raise and leave the stream alone."""
    env = ctx.env
    out = writer(ctx)
    before = prefix(ctx, out, 3)
    value = ctx.int("value", low, high)
    args = (value,) if width is None else (value, width)
    _, exc = attempt(ctx, out, method, *args)
    nbits = FIXED[method[5:]][0] if width is None else width
    if widths[0] <= nbits <= widths[1]:
        first, last = bounds(signed, nbits)
        ctx.check(ctx.eq(exc is None, ctx.land(value >= first, value <= last)), "accepts exactly the values of the range")
    else:
        ctx.check(exc is not None, "invalid width rejected")
    if exc is not None:
        ctx.check(declared(exc), "declared exception", str(exc))
        ctx.check(env.call(out, "getBitPosition") == 3, "position unchanged after rejection")
        env.call(out, "writeBits", 1, 1)
        data = env.call(out, "toByteArray")
        ctx.check(len(data) == 1, "length unchanged")
        ctx.check(ctx.eq(data[0], (before << 5) | 16), "stream unchanged after rejection")
        ctx.reach("rejected")
    ctx.observe("exc", exc)


def align(ctx):
    """alignTo and setBitPosition of writer and reader."""
    env = ctx.env
    start = ctx.pick("start", range(0, 34))
    alignment = ctx.pick("alignment", [1, 2, 3, 4, 7, 8, 12, 16, 32, 33, 64, 65, 100, 128])
    out = writer(ctx)
    value = prefix(ctx, out, start)
    env.call(out, "alignTo", alignment)
    expected = (start + alignment - 1) // alignment * alignment
    ctx.check(env.call(out, "getBitPosition") == expected, "writer aligned to the next multiple")
    env.call(out, "writeBits", 1, 1)
    data = env.call(out, "toByteArray")
    ctx.check(ctx.eq(bits_value(ctx, data, expected + 1), ((value << (expected - start)) << 1) | 1), "skipped bits are zero")
    inp = reader(ctx, data)
    if start:
        ctx.check(ctx.eq(env.call(inp, "readBits", start), value), "read back")
    env.call(inp, "alignTo", alignment)
    ctx.check(env.call(inp, "getBitPosition") == expected, "reader aligned like the writer")
    ctx.check(ctx.eq(env.call(inp, "readBits", 1), 1), "marker after alignment")
    back = ctx.pick("back", [0, start])
    env.call(inp, "setBitPosition", back)
    ctx.check(env.call(inp, "getBitPosition") == back, "position set")
    if start and back == 0:
        ctx.check(ctx.eq(env.call(inp, "readBits", start), value), "read again")
    ctx.reach("end")


def boolean(ctx):
    env = ctx.env
    offset = ctx.pick("offset", range(0, 8))
    out = writer(ctx)
    prefix(ctx, out, offset)
    values = [ctx.bool(f"b{i}") for i in range(4)]
    for value in values:
        env.call(out, "writeBool", value)
    ctx.check(env.call(out, "getBitPosition") == offset + 4, "one bit each")
    inp = reader(ctx, env.call(out, "toByteArray"))
    if offset:
        env.call(inp, "readBits", offset)
    for value in values:
        got = env.call(inp, "readBool")
        ctx.check(ctx.eq(got, value), "bool read back")
        ctx.observe("b", got)
    ctx.reach("end")


def jobs(tier):
    out = []
    for width in range(1, 65):
        offsets = (0, 1, 3, 7) if tier == "quick" else range(9)
        for kind in ("signed", "unsigned", "big", "sbig"):
            if kind == "unsigned" and width == 64:
                continue
            if kind in ("big", "sbig") and tier == "quick" and width not in (1, 2, 7, 8, 9, 15, 16, 17, 31, 33, 55, 57, 62,
                                                                          63, 64):
                continue
            out.append(Job(f"{kind}{width}", width_field, {"kind": kind, "width": width, "offsets": offsets},
                           must_reach=["end"]))
        out.append(Job(f"reject-s{width}", reject, {"method": "writeSignedBits", "width": width, "signed": True,
                                                    "widths": (1, 64), "low": -(1 << 63), "high": (1 << 63) - 1},
                       must_reach=["rejected"] if width < 64 else []))
        out.append(Job(f"reject-u{width}", reject, {"method": "writeBits", "width": width, "signed": False,
                                                    "widths": (1, 63), "low": -(1 << 63), "high": (1 << 63) - 1},
                       must_reach=["rejected"]))
    for width in (-2, -1, 0, 65, 66, 70):
        for method in ("writeSignedBits", "writeBits", "writeBigInteger"):
            out.append(Job(f"reject-{method}{width}", reject, {"method": method, "width": width, "signed": True,
                                                               "widths": (1, 64), "low": 0, "high": 1},
                           must_reach=["rejected"]))
    for name, (width, signed, _read) in FIXED.items():
        out.append(Job("fixed-" + name, fixed_field, {"name": name, "offsets": range(9)}, must_reach=["end"]))
        if not signed:
            kind = {8: 15, 16: 31, 32: 63}[width]
            out.append(Job("reject-" + name, reject, {"method": "write" + name, "width": None, "signed": False,
                                                      "widths": (1, 64), "low": -(1 << kind), "high": (1 << kind) - 1},
                           must_reach=["rejected"]))
    out.append(Job("align", align, must_reach=["end"]))
    out.append(Job("bool", boolean, must_reach=["end"]))
    return out
