"""P42: Java float16/float32/float64 conversions and stream fields."""

from .common_java import *
from .p03 import spec16

PROPERTY = "P42"
BOUNDS = "every 16/32/64 bit pattern, bit offsets 0..7"
ASSUMPTIONS = ["floatToIntBits, doubleToLongBits and their inverses modelled by their documentation (NaN canonicalised "
               "by the forward direction)"]
UTIL = RT + "FloatUtil"


def nan32(ctx, bits):
    return ctx.land(ctx.eq((bits >> 23) & 0xFF, 255), (bits & 0x7FFFFF) != 0)


def nan64(ctx, bits):
    return ctx.land(ctx.eq((bits >> 52) & 0x7FF, 0x7FF), (bits & ((1 << 52) - 1)) != 0)


def half_from_float(ctx):
    """every float32 value."""
    bits = ctx.int("bits", 0, 0xFFFFFFFF)
    got = unsigned(ctx.env.static(UTIL, "convertFloatToShort", Float(bits, 32)), 16)
    is_nan = nan32(ctx, bits)
    got_nan = ctx.land(ctx.eq((got >> 10) & 0x1F, 31), (got & 0x3FF) != 0)
    ctx.check(ctx.eq(got_nan, is_nan), "NaN exactly for NaN")
    ctx.check(ctx.lor(is_nan, ctx.eq(got, spec16(ctx, bits))), "nearest float16")
    ctx.observe("bits", got)
    ctx.reach("end")


def half_roundtrip(ctx):
    """float16 pattern -> float -> pattern is the identity and the value is exact."""
    bits = ctx.int("bits", 0, 0xFFFF)
    pattern = ctx.ite(bits >= 0x8000, bits - 0x10000, bits)
    value = ctx.env.static(UTIL, "convertShortToFloat", pattern)
    back = unsigned(ctx.env.static(UTIL, "convertFloatToShort", value), 16)
    exp = (bits >> 10) & 0x1F
    man = bits & 0x3FF
    is_nan = ctx.land(ctx.eq(exp, 31), man != 0)
    ctx.check(ctx.lor(is_nan, ctx.eq(back, bits)), "identity")
    ctx.check(ctx.implies(is_nan, ctx.land(ctx.eq((back >> 10) & 0x1F, 31), (back & 0x3FF) != 0)), "NaN stays NaN")
    raw = unsigned(ctx.env.static("java.lang.Float", "floatToIntBits", value, sig="(F)I"), 32)
    sign = bits >> 15
    normal = (sign << 31) + ((exp + (127 - 15)) << 23) + (man << 13)
    ctx.check(ctx.implies(ctx.land(exp >= 1, exp <= 30), ctx.eq(raw, normal)), "exact value of normals")
    ctx.check(ctx.implies(ctx.eq(bits & 0x7FFF, 0), ctx.eq(raw, sign << 31)), "signed zero")
    ctx.check(ctx.implies(ctx.eq(bits & 0x7FFF, 0x7C00), ctx.eq(raw, (sign << 31) + (0xFF << 23))), "infinity")
    for lead in range(10):  # subnormal with leading one at bit lead
        is_sub = ctx.land(ctx.eq(exp, 0), man >= (1 << lead), man < (2 << lead))
        expect = (sign << 31) + ((127 - 24 + lead) << 23) + ((man << (23 - lead)) & ((1 << 23) - 1))
        ctx.check(ctx.implies(is_sub, ctx.eq(raw, expect)), "exact value of subnormals")
    ctx.observe("back", back)
    ctx.reach("end")


def stream(ctx, width):
    """float fields: bits of the value, read back."""
    env = ctx.env
    offset = ctx.pick("offset", range(0, 8))
    source = 64 if width == 64 else 32
    bits = ctx.int("bits", 0, (1 << source) - 1)
    value = Float(bits, source)
    out = writer(ctx)
    before = prefix(ctx, out, offset)
    env.call(out, f"writeFloat{width}", value)
    ctx.check(env.call(out, "getBitPosition") == offset + width, "position")
    data = env.call(out, "toByteArray")
    stored = bits_value(ctx, data, offset + width)
    is_nan = nan64(ctx, bits) if width == 64 else nan32(ctx, bits)
    expect = {16: lambda: spec16(ctx, bits), 32: lambda: bits, 64: lambda: bits}[width]()
    ctx.check(ctx.lor(is_nan, ctx.eq(stored, (before << width) + expect)), "stored bits")
    ctx.check(ctx.eq(stored >> width, before), "previous bits kept")
    if width == 16:
        ctx.check(ctx.implies(is_nan, ctx.land(ctx.eq((stored >> 10) & 31, 31), (stored & 0x3FF) != 0)), "NaN stored")
    elif width == 32:
        ctx.check(ctx.implies(is_nan, nan32(ctx, stored)), "NaN stored")
    else:
        ctx.check(ctx.implies(is_nan, nan64(ctx, stored)), "NaN stored")
    inp = reader(ctx, data, offset + width)
    if offset:
        env.call(inp, "readBits", offset)
    got = env.call(inp, f"readFloat{width}")
    ctx.check(env.call(inp, "getBitPosition") == offset + width, "reader position")
    if width == 64:
        raw = unsigned(env.static("java.lang.Double", "doubleToLongBits", got, sig="(D)J"), 64)
        ctx.check(ctx.lor(is_nan, ctx.eq(raw, bits)), "read back")
        ctx.check(ctx.implies(is_nan, nan64(ctx, raw)), "NaN read back")
    else:
        raw = unsigned(env.static("java.lang.Float", "floatToIntBits", got, sig="(F)I"), 32)
        ctx.check(ctx.implies(is_nan, nan32(ctx, raw)), "NaN read back")
        if width == 32:
            ctx.check(ctx.lor(is_nan, ctx.eq(raw, bits)), "read back")
    ctx.reach("end")


def jobs(tier):
    return [
        Job("half_from_float", half_from_float, must_reach=["end"]),
        Job("half_roundtrip", half_roundtrip, must_reach=["end"]),
    ] + [Job(f"stream{width}", stream, {"width": width}, must_reach=["end"]) for width in (16, 32, 64)]
