"""P03: Python float16/float32/float64 conversions and stream fields."""

from .common_py import *

PROPERTY = "P03"
BOUNDS = "every 16/32/64 bit pattern (floats by their 64 bit pattern), bit offsets 0..7"
ASSUMPTIONS = ["pure Python implementation of the runtime",
               "struct.pack/unpack of '>f' modelled by a bit-vector circuit proved equal to the SMT-LIB floating point "
               "conversion (round to nearest even; NaN quieting as on x86-64)"]


def spec16(ctx, bits32):
    """
    float32 pattern to float16 pattern: nearest, ties away from zero; |x| < 2^-24 is zero; overflow is infinity.
    NaN is mapped to the pattern None (checked separately).
    """
    sign = (bits32 >> 31) << 15
    exp = (bits32 >> 23) & 0xFF
    man = bits32 & 0x7FFFFF
    mag = bits32 & 0x7FFFFFFF
    normal = (mag - (112 << 23) + 0x1000) >> 13
    normal = ctx.ite(normal >= 0x7C00, 0x7C00, normal)
    full = man + (1 << 23)
    sub = 0
    for exponent in range(103, 113):
        sub = ctx.ite(ctx.eq(exp, exponent), (full + (1 << (125 - exponent))) >> (126 - exponent), sub)
    result = ctx.ite(exp >= 113, normal, sub)
    result = ctx.ite(ctx.eq(exp, 255), 0x7C00, result)
    return sign + result


def half_from_float(ctx):
    """every binary64 value."""
    value = ctx.float("value")
    mod = ctx.module("zserio.float")
    packed, exc = ctx.attempt(mod.float_to_uint32, value)
    got, exc16 = ctx.attempt(mod.float_to_uint16, value)
    if exc is not None:
        # finite double too large for float32: struct.pack raises OverflowError in both
        ctx.check(type(exc).__name__ == "OverflowError", "overflow error", repr(exc))
        ctx.check(exc16 is not None, "same overflow")
        ctx.reach("overflow")
        return
    ctx.check(exc16 is None, "accepted", repr(exc16))
    exp = (packed >> 23) & 0xFF
    man = packed & 0x7FFFFF
    is_nan = ctx.land(ctx.eq(exp, 255), man != 0)
    got_nan = ctx.land(ctx.eq((got >> 10) & 0x1F, 31), (got & 0x3FF) != 0)
    ctx.check(ctx.eq(got_nan, is_nan), "NaN exactly for NaN")
    ctx.check(ctx.lor(is_nan, ctx.eq(got, spec16(ctx, packed))), "nearest float16")
    ctx.check(ctx.land(got >= 0, got <= 0xFFFF), "16 bits")
    ctx.observe("bits", got)
    ctx.reach("end")


def half_roundtrip(ctx):
    """uint16 -> float -> uint16 is the identity."""
    bits = ctx.int("bits", 0, 0xFFFF)
    mod = ctx.module("zserio.float")
    value = mod.uint16_to_float(bits)
    back = mod.float_to_uint16(value)
    is_nan = ctx.land(ctx.eq((bits >> 10) & 0x1F, 31), (bits & 0x3FF) != 0)
    # conversion of a signalling NaN quiets it, any other pattern survives
    ctx.check(ctx.lor(is_nan, ctx.eq(back, bits)), "identity")
    ctx.check(ctx.implies(is_nan, ctx.eq(back | 0x200, bits | 0x200)), "NaN payload")
    # the numeric value: exact
    exp = (bits >> 10) & 0x1F
    man = bits & 0x3FF
    out64 = ctx.float_bits(value)
    sign = bits >> 15
    normal = (sign << 63) + ((exp + (1023 - 15)) << 52) + (man << 42)
    ctx.check(ctx.implies(ctx.land(exp >= 1, exp <= 30), ctx.eq(out64, normal)), "exact value of normals")
    ctx.check(ctx.implies(ctx.eq(bits & 0x7FFF, 0), ctx.eq(out64, sign << 63)), "signed zero")
    ctx.check(ctx.implies(ctx.eq(bits & 0x7FFF, 0x7C00), ctx.eq(out64, (sign << 63) + (0x7FF << 52))), "infinity")
    for lead in range(10):  # subnormal with leading one at bit lead
        is_sub = ctx.land(ctx.eq(exp, 0), man >= (1 << lead), man < (2 << lead))
        expect = (sign << 63) + ((1023 - 24 + lead) << 52) + ((man << (52 - lead)) & ((1 << 52) - 1))
        ctx.check(ctx.implies(is_sub, ctx.eq(out64, expect)), "exact value of subnormals")
    ctx.observe("value", out64 if False else back)
    ctx.reach("end")


def single(ctx):
    """uint32 -> float -> uint32 is the identity; the reverse direction is exact for float32 values."""
    bits = ctx.int("bits", 0, 0xFFFFFFFF)
    mod = ctx.module("zserio.float")
    value = mod.uint32_to_float(bits)
    ctx.check(ctx.eq(ctx.float_bits(value), ctx.float_bits(ctx.float_from_bits32(bits))), "IEEE value")
    back = mod.float_to_uint32(value)
    is_nan = ctx.land(ctx.eq((bits >> 23) & 0xFF, 255), (bits & 0x7FFFFF) != 0)
    ctx.check(ctx.lor(is_nan, ctx.eq(back, bits)), "identity")
    ctx.check(ctx.implies(is_nan, ctx.eq(back, bits | (1 << 22))), "NaN stays NaN")
    ctx.observe("back", back)
    ctx.reach("end")


def double(ctx):
    bits = ctx.int("bits", 0, (1 << 64) - 1)
    mod = ctx.module("zserio.float")
    value = mod.uint64_to_float(bits)
    ctx.check(ctx.eq(ctx.float_bits(value), bits), "IEEE value")
    ctx.check(ctx.eq(mod.float_to_uint64(value), bits), "identity")
    ctx.reach("end")


def stream(ctx, width):
    """float fields in the stream: bits of the converted value; read back equals the converted value."""
    offset = ctx.pick("offset", range(0, 8))
    mod = ctx.module("zserio.float")
    bits = ctx.int("bits", 0, (1 << width) - 1)
    value = getattr(mod, f"uint{width}_to_float")(bits)
    out = writer(ctx)
    prefix = 0
    if offset:
        prefix = ctx.int("prefix", 0, (1 << offset) - 1)
        out.write_bits(prefix, offset)
    getattr(out, f"write_float{width}")(value)
    ctx.check(out.bitposition == offset + width, "position")
    stored = bits_value(ctx, out.byte_array, offset + width)
    ctx.check(ctx.eq(stored, (prefix << width) + getattr(mod, f"float_to_uint{width}")(value)), "stored bits")
    inp = reader(ctx, out.byte_array, out.bitposition)
    if offset:
        inp.read_bits(offset)
    got = getattr(inp, f"read_float{width}")()
    ctx.check(ctx.eq(ctx.float_bits(got), ctx.float_bits(value)) if width == 64 else
              ctx.lor(ctx.eq(ctx.float_bits(got), ctx.float_bits(value)), value != value), "read back")
    ctx.check(inp.bitposition == offset + width, "reader position")
    ctx.reach("end")


def jobs(tier):
    return [
        Job("half_from_float", half_from_float, must_reach=["end", "overflow"]),
        Job("half_roundtrip", half_roundtrip, must_reach=["end"]),
        Job("single", single, must_reach=["end"]),
        Job("double", double, must_reach=["end"]),
    ] + [Job(f"stream{width}", stream, {"width": width}, must_reach=["end"]) for width in (16, 32, 64)]
