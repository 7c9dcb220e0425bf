"""P44: Java reader never returns bits behind the end of the stream."""

from .common_java import *

PROPERTY = "P44"
BOUNDS = ("arbitrary buffers of 0..3 bytes with every bit size within the last byte, two consecutive reads of widths "
          "0..65, every seek position 0..40, alignments 1..64; every primitive reader on streams of 0..72 bits, big "
          "integers of width 1..64; readers of byte arrays and of bit buffers")
ASSUMPTIONS = ["the declared bit size ends in the last byte of the buffer (contract of the constructors)"]


def make(ctx, data, bitsize, kind):
    """A reader of bitsize bits whose last byte has arbitrary bits behind the end."""
    if kind == "bits":
        return reader(ctx, data, bitsize)
    return ctx.env.new(IO + "ByteArrayBitStreamReader", ctx.env.new(IO + "BitBuffer", data, bitsize),
                       sig="(Lzserio/runtime/io/BitBuffer;)")


def io_error(exc):
    return exc is not None and exc.is_a("java/io/IOException")


def two_reads(ctx, bitsize, signed, kind):
    env = ctx.env
    count = (bitsize + 7) // 8
    data = list(ctx.bytes("data", count))
    inp = make(ctx, data, bitsize, kind)
    if count:
        ctx.check(ctx.eq(env.call(inp, "getBufferBitSize"), bitsize), "bit size")
    bits = bits_value(ctx, data, bitsize)
    position = 0
    last = 64 if signed else 63
    for step in range(2):
        width = ctx.pick(f"width{step}", range(0, 29) if step == 0 else [0, 1, 2, 7, 8, 9, 15, 16, 23, 24, 63, 64, 65])
        got, exc = attempt(ctx, inp, "readSignedBits" if signed else "readBits", width)
        if not 1 <= width <= last:
            ctx.check(exc is not None and declared(exc), "invalid width raises", str(exc))
        elif position + width <= bitsize:
            ctx.check(exc is None, "available bits are read", str(exc))
            expect = (bits >> (bitsize - position - width)) & ((1 << width) - 1)
            if signed:
                expect = ctx.ite(expect >= (1 << (width - 1)), expect - (1 << width), expect)
            ctx.check(ctx.eq(got, expect), "value is exactly the addressed bits")
            position += width
            ctx.check(env.call(inp, "getBitPosition") == position, "position")
        else:
            ctx.check(io_error(exc), "reading behind the end raises", str(exc))
            ctx.reach("behind")
            return
    ctx.reach("end")


def seek(ctx, bitsize):
    env = ctx.env
    count = (bitsize + 7) // 8
    data = list(ctx.bytes("data", count))
    inp = reader(ctx, data, bitsize)
    target = ctx.pick("target", range(0, 41))
    env.call(inp, "setBitPosition", target)
    ctx.check(env.call(inp, "getBitPosition") == target, "position set")
    width = ctx.pick("width", [1, 3, 8])
    got, exc = attempt(ctx, inp, "readBits", width)
    if target + width <= bitsize:
        ctx.check(exc is None, "available bits are read", str(exc))
        ctx.check(ctx.eq(got, (bits_value(ctx, data, bitsize) >> (bitsize - target - width)) & ((1 << width) - 1)), "value")
        ctx.reach("read")
    else:
        ctx.check(io_error(exc), "reading behind the end raises", str(exc))
        ctx.reach("behind")


def align(ctx, bitsize):
    env = ctx.env
    data = list(ctx.bytes("data", (bitsize + 7) // 8))
    inp = reader(ctx, data, bitsize)
    position = ctx.pick("position", range(0, bitsize + 1))
    env.call(inp, "setBitPosition", position)
    alignment = ctx.pick("alignment", [1, 2, 3, 5, 8, 16, 24, 32, 64])
    _, exc = attempt(ctx, inp, "alignTo", alignment)
    expect = (position + alignment - 1) // alignment * alignment
    if exc is None:
        ctx.check(env.call(inp, "getBitPosition") == expect, "aligned")
        got, exc = attempt(ctx, inp, "readBits", 1)
    if expect < bitsize:
        ctx.check(exc is None, "bit behind the alignment is available", str(exc))
        ctx.check(ctx.eq(got, (bits_value(ctx, data, bitsize) >> (bitsize - expect - 1)) & 1), "value")
        ctx.reach("read")
    else:
        ctx.check(io_error(exc), "reading behind the end raises", str(exc))


PRIMITIVES = [("Bool", 1), ("Byte", 8), ("UnsignedByte", 8), ("Short", 16), ("UnsignedShort", 16), ("Int", 32),
              ("UnsignedInt", 32), ("Long", 64), ("Float16", 16), ("Float32", 32), ("Float64", 64)]


def primitives(ctx, bitsize, kind):
    env = ctx.env
    data = list(ctx.bytes("data", (bitsize + 7) // 8))
    offset = ctx.pick("offset", [0, 1, 7, 8])
    if offset > bitsize:
        return
    for name, width in PRIMITIVES:
        inp = make(ctx, data, bitsize, kind)
        env.call(inp, "setBitPosition", offset)
        got, exc = attempt(ctx, inp, "read" + name)
        if offset + width <= bitsize:
            ctx.check(exc is None, "read" + name, str(exc))
            ctx.check(env.call(inp, "getBitPosition") == offset + width, "position after read" + name)
            expect = (bits_value(ctx, data, bitsize) >> (bitsize - offset - width)) & ((1 << width) - 1)
            if not name.startswith("Float") and name != "Bool":
                ctx.check(ctx.eq(unsigned(got, width), expect), "value of read" + name)
            ctx.reach("read")
        else:
            ctx.check(io_error(exc), "read" + name + " behind the end raises", str(exc))


def big(ctx, bitsize):
    env = ctx.env
    data = list(ctx.bytes("data", (bitsize + 7) // 8))
    offset = ctx.pick("offset", [0, 1, 7, 8])
    if offset > bitsize:
        return
    for width in sorted({1, 7, 8, 9, 15, 16, 17, 24, 63, 64, bitsize - offset, bitsize - offset + 1} - {0}):
        if not 1 <= width <= 64:
            continue
        inp = reader(ctx, data, bitsize)
        env.call(inp, "setBitPosition", offset)
        got, exc = attempt(ctx, inp, "readBigInteger", width)
        if offset + width <= bitsize:
            ctx.check(exc is None, "readBigInteger", str(exc))
            ctx.check(env.call(inp, "getBitPosition") == offset + width, "position")
            expect = (bits_value(ctx, data, bitsize) >> (bitsize - offset - width)) & ((1 << width) - 1)
            ctx.check(ctx.eq(got, expect), "value")
            ctx.reach("read")
        else:
            ctx.check(io_error(exc), "readBigInteger behind the end raises", str(exc))


def whole(ctx, length):
    """reader of a byte array: all its bits."""
    env = ctx.env
    data = list(ctx.bytes("data", length))
    inp = reader(ctx, data)
    ctx.check(ctx.eq(env.call(inp, "getBufferBitSize"), 8 * length), "bit size")
    for byte in data:
        ctx.check(ctx.eq(env.call(inp, "readBits", 8), byte), "byte")
    _, exc = attempt(ctx, inp, "readBits", 1)
    ctx.check(io_error(exc), "reading behind the end raises", str(exc))
    ctx.reach("end")


def jobs(tier):
    out = []
    for bitsize in range(0, 25):
        for signed in (False, True):
            for kind in ("bits", "buffer"):
                out.append(Job(f"two-reads-{'s' if signed else 'u'}{bitsize}-{kind}", two_reads,
                               {"bitsize": bitsize, "signed": signed, "kind": kind}, must_reach=["behind"]))
        out.append(Job(f"seek-{bitsize}", seek, {"bitsize": bitsize}, must_reach=["behind"]))
        out.append(Job(f"align-{bitsize}", align, {"bitsize": bitsize}, must_reach=["read"] if bitsize else []))
    for bitsize in (0, 1, 7, 8, 9, 15, 16, 17, 20, 23, 24, 31, 32, 33, 36, 39, 40, 60, 63, 64, 65, 71, 72):
        for kind in ("bits", "buffer"):
            out.append(Job(f"prim-{bitsize}-{kind}", primitives, {"bitsize": bitsize, "kind": kind},
                           must_reach=["read"] if bitsize else []))
        out.append(Job(f"big-{bitsize}", big, {"bitsize": bitsize}, must_reach=["read"] if bitsize else []))
    for length in range(0, 4):
        out.append(Job(f"whole-{length}", whole, {"length": length}, must_reach=["end"]))
    return out
