"""P05: Python reader never reads behind the declared end of the stream."""

from .common_py import *

PROPERTY = "P05"
BOUNDS = ("arbitrary 3 byte buffers, every bit size 0..24 (and out of range bit sizes), two consecutive reads of "
          "arbitrary widths 0..65, arbitrary seeks, alignments 1..64; bytes behind the bit size are symbolic")
ASSUMPTIONS = ["pure Python implementation of the runtime"]


def two_reads(ctx, bitsize, signed):
    data = ctx.bytes("data", 3)
    inp = reader(ctx, data, bitsize)
    ctx.check(inp.buffer_bitsize == bitsize, "bit size")
    all_bits = bits_value(ctx, data, 24)
    position = 0
    for step in range(2):
        width = ctx.pick(f"width{step}", range(0, 29) if step == 0 else [0, 1, 2, 7, 8, 9, 15, 16, 23, 24, 64, 65])
        got, exc = ctx.attempt(inp.read_signed_bits if signed else inp.read_bits, width)
        if 1 <= width <= 64 and position + width <= bitsize:
            ctx.check(exc is None, "available bits are read", repr(exc))
            expect = (all_bits >> (24 - position - width)) & ((1 << width) - 1)
            if signed:
                expect = ctx.ite(expect >= (1 << (width - 1)), expect - (1 << width), expect)
            ctx.check(ctx.eq(got, expect), "value is exactly the addressed bits")
            position += width
        else:
            ctx.check(exc is not None and is_runtime_error(exc), "reading behind the end raises", repr(exc))
            ctx.reach("behind")
        ctx.check(inp.bitposition == position, "position")
    ctx.reach("end")


def seek(ctx, bitsize):
    data = ctx.bytes("data", 3)
    inp = reader(ctx, data, bitsize)
    target = ctx.int("target", -5, 40)

    def set_position(value):
        inp.bitposition = value

    _, exc = ctx.attempt(set_position, target)
    ok = ctx.land(target >= 0, target <= bitsize)
    ctx.check(ctx.eq(exc is None, ok), "seek succeeds exactly inside of the stream")
    if exc is not None:
        ctx.check(is_runtime_error(exc), "declared exception", repr(exc))
        ctx.check(inp.bitposition == 0, "position unchanged")
        return
    ctx.check(ctx.eq(inp.bitposition, target), "position set")
    got, exc = ctx.attempt(inp.read_bits, 3)
    fits = target + 3 <= bitsize
    ctx.check(ctx.eq(exc is None, fits), "bits available exactly inside of the stream")
    if exc is None:
        ctx.check(ctx.eq(got, (bits_value(ctx, data, 24) >> (24 - target - 3)) & 7), "value")
        ctx.reach("read")


def align(ctx, bitsize):
    data = ctx.bytes("data", 3)
    inp = reader(ctx, data, bitsize)
    position = ctx.pick("position", range(0, bitsize + 1))
    inp.bitposition = position
    alignment = ctx.pick("alignment", [1, 2, 3, 5, 8, 16, 24, 32, 64])
    _, exc = ctx.attempt(inp.alignto, alignment)
    expect = (position + alignment - 1) // alignment * alignment
    if expect <= bitsize:
        ctx.check(exc is None and inp.bitposition == expect, "aligned")
    else:
        ctx.check(exc is not None and is_runtime_error(exc), "alignment behind the end raises", repr(exc))
        ctx.check(inp.bitposition == position, "position unchanged")
    ctx.reach("end")


def construct(ctx):
    length = ctx.pick("length", range(0, 4))
    data = ctx.bytes("data", length)
    bitsize = ctx.int("bitsize", 0, 64)
    mod = ctx.module("zserio.bitreader")
    inp, exc = ctx.attempt(mod.BitStreamReader, data, bitsize)
    ctx.check(ctx.eq(exc is None, bitsize <= 8 * length), "bit size must fit into the buffer")
    if exc is None:
        ctx.check(ctx.eq(inp.buffer_bitsize, bitsize), "bit size")
    else:
        ctx.check(is_runtime_error(exc), "declared exception", repr(exc))
    buf, exc2 = ctx.attempt(ctx.module("zserio.bitbuffer").BitBuffer, data, bitsize)
    ctx.check(ctx.eq(exc2 is None, bitsize <= 8 * length), "bit buffer size must fit into the buffer")
    if exc2 is None:
        inp = mod.BitStreamReader.from_bitbuffer(buf)
        ctx.check(ctx.eq(inp.buffer_bitsize, bitsize), "bit size from bit buffer")
        got, exc3 = ctx.attempt(inp.read_bits, 5)
        ctx.check(ctx.eq(exc3 is None, bitsize >= 5), "bits of the bit buffer only")
        if exc3 is None:
            ctx.check(ctx.eq(got, bits_value(ctx, data, 5)), "value")
            ctx.reach("read")
    inp = mod.BitStreamReader(data)
    ctx.check(inp.buffer_bitsize == 8 * length, "default bit size")


def floats_and_bools(ctx, bitsize):
    """remaining primitive readers respect the end too."""
    data = ctx.bytes("data", 9)
    inp = reader(ctx, data, bitsize)
    offset = ctx.pick("offset", [0, 1, 7])
    if offset > bitsize:
        return
    inp.bitposition = offset
    kind, width = ctx.pick("kind", [("bool", 1), ("float16", 16), ("float32", 32), ("float64", 64)])
    got, exc = ctx.attempt(getattr(inp, "read_" + kind))
    if offset + width <= bitsize:
        ctx.check(exc is None, "read", repr(exc))
        ctx.check(inp.bitposition == offset + width, "position")
        ctx.reach("read")
    else:
        ctx.check(exc is not None and is_runtime_error(exc), "raises", repr(exc))
        ctx.check(inp.bitposition == offset, "position unchanged")


def jobs(tier):
    out = []
    for bitsize in range(0, 25):
        for signed in (False, True):
            out.append(Job(f"two-reads-{'s' if signed else 'u'}{bitsize}", two_reads,
                           {"bitsize": bitsize, "signed": signed}, must_reach=["end", "behind"]))
        out.append(Job(f"seek-{bitsize}", seek, {"bitsize": bitsize}, must_reach=["read"] if bitsize >= 3 else []))
        out.append(Job(f"align-{bitsize}", align, {"bitsize": bitsize}, must_reach=["end"]))
    for bitsize in (0, 1, 15, 16, 17, 23, 31, 32, 33, 39, 63, 64, 65, 71, 72):
        out.append(Job(f"prim-{bitsize}", floats_and_bools, {"bitsize": bitsize}))
    out.append(Job("construct", construct, must_reach=["read"]))
    return out
