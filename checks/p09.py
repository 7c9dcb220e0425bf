"""P09: Python position, bound and built-in operator helpers."""

from .common_py import *

PROPERTY = "P09"
BOUNDS = ("positions up to 2^40 with alignments 0, 1, 2, 4..64 and up to 2^14 with 14 others; bit sizes up to 2^40; "
          "field widths -70 and -2..69 and 128, 134; numbits of every value 0..2^64; isset of all 64-bit masks; strings of up to 3 code points")
ASSUMPTIONS = ["pure Python implementation of the runtime"]


def align(ctx, alignment):
    mod = ctx.module("zserio.bitposition")
    position = ctx.int("position", 0, (1 << 40) if alignment & (alignment - 1) == 0 else (1 << 14))
    got = mod.alignto(alignment, position)
    if alignment == 0:
        ctx.check(ctx.eq(got, position), "no alignment")
    else:
        ctx.check(ctx.land(got >= position, got < position + alignment), "next position")
        ctx.check(ctx.eq(got % alignment, 0), "multiple of the alignment")
    ctx.observe("got", got)
    ctx.reach("end")


def bytes_bits(ctx):
    mod = ctx.module("zserio.bitposition")
    bits = ctx.int("bits", 0, 1 << 40)
    size = mod.bitsize_to_bytesize(bits)
    ctx.check(ctx.land(size * 8 >= bits, size * 8 - bits < 8), "enough bytes, none spare")
    got, exc = ctx.attempt(mod.bits_to_bytes, bits)
    ctx.check(ctx.eq(exc is None, ctx.eq(bits & 7, 0)), "whole bytes only")
    if exc is None:
        ctx.check(ctx.eq(got * 8, bits), "bytes")
        ctx.check(ctx.eq(mod.bytes_to_bits(got), bits), "inverse")
        ctx.reach("whole")
    else:
        ctx.check(is_runtime_error(exc), "declared exception")
        ctx.reach("partial")


def bounds(ctx):
    mod = ctx.module("zserio.bitfield")
    length = ctx.pick("length", list(range(-2, 70)) + [-70, 128, 134])
    value = ctx.int("value", -(1 << 65), 1 << 65)
    results = [ctx.attempt(getattr(mod, name), length) for name in
               ("bitfield_lowerbound", "bitfield_upperbound", "signed_bitfield_lowerbound",
                "signed_bitfield_upperbound")]
    if 1 <= length <= 64:
        ctx.check(all(exc is None for _, exc in results), "valid length")
        low, high, slow, shigh = [got for got, _ in results]
        ctx.check(ctx.eq(ctx.land(value >= low, value <= high), ctx.land(value >= 0, value < (1 << length))), "unsigned")
        ctx.check(ctx.eq(ctx.land(value >= slow, value <= shigh),
                         ctx.land(value >= -(1 << (length - 1)), value < (1 << (length - 1)))), "signed")
        ctx.reach("valid")
    else:
        ctx.check(all(exc is not None and is_runtime_error(exc) for _, exc in results), "invalid length raises")
        ctx.reach("invalid")


def numbits(ctx):
    """smallest n with 2^n >= number of values (1 for one value, 0 for none)."""
    count = ctx.int("count", 0, 1 << 64)
    got = ctx.module("zserio.builtin").numbits(count)
    got = got if isinstance(got, int) else ctx.pick("n", range(0, 66))
    ctx.check(ctx.implies(ctx.eq(count, 0), got == 0), "no value")
    ctx.check(ctx.implies(ctx.eq(count, 1), got == 1), "one value")
    ctx.check(ctx.implies(count > 1, ctx.land((1 << got) >= count, (1 << max(got - 1, 0)) < count)), "smallest width")
    ctx.reach("end")


class Mask:
    def __init__(self, value):
        self.value = value

    def __and__(self, other):
        return Mask(self.value & other.value)

    def __eq__(self, other):
        return self.value == other.value

    __hash__ = None


def isset(ctx):
    one, two = ctx.int("one", 0, (1 << 64) - 1), ctx.int("two", 0, (1 << 64) - 1)
    got = ctx.module("zserio.builtin").isset(Mask(one), Mask(two))
    ctx.check(ctx.eq(got, ctx.eq(two & ~one, 0)), "all required bits are set")
    ctx.reach("end")


def lengthof(ctx, length):
    cps = [ctx.int(f"c{i}", 0, 0x10FFFF) for i in range(length)]
    for cp in cps:
        ctx.assume(ctx.lor(cp < 0xD800, cp > 0xDFFF))
    text = ctx.make_str(cps)
    got = ctx.module("zserio.builtin").lengthof_string(text)
    total = 0
    for cp in cps:
        total = total + ctx.ite(cp < 0x80, 1, ctx.ite(cp < 0x800, 2, ctx.ite(cp < 0x10000, 3, 4)))
    ctx.check(ctx.eq(got, total), "number of UTF-8 bytes")
    ctx.reach("end")


def jobs(tier):
    out = []
    for alignment in [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64]:
        out.append(Job(f"align-{alignment}", align, {"alignment": alignment}, must_reach=["end"]))
    out.append(Job("bytes-bits", bytes_bits, must_reach=["whole", "partial"]))
    out.append(Job("bounds", bounds, must_reach=["valid", "invalid"]))
    out.append(Job("numbits", numbits, must_reach=["end"]))
    out.append(Job("isset", isset, must_reach=["end"]))
    for length in range(0, 4):
        out.append(Job(f"lengthof-{length}", lengthof, {"length": length}, must_reach=["end"]))
    return out
