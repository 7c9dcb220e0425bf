"""P45: Java arrays (unpacked)."""

from .arrays_java import *

PROPERTY = "P45"
BOUNDS = ("arrays of 0..3 elements (0..2 for multi-byte varints and strings; full range in the first element, [-200, 200] "
          "in the others for varints, [2^63, 2^64-1] and [0, 3] for bit:64) of every array trait (bit/int widths 1..64, all varints, float64 non-NaN, "
          "float16/32 with every sign and mantissa of one exponent, bool, bytes and strings of 0..2, bit buffers of 0, 3, 8 "
          "or 11 bits, objects with a position dependent size), fixed size / auto / implicit / with element offsets, "
          "starting at bit offsets 0..7; preallocation limits 0, 1, 2 and 1024; truncated by every number of bits")
ASSUMPTIONS = ["elements encoded by the scalar stream operations, which P40-P43 check on their own",
               "String and its UTF-8 conversions modelled on code points (lone surrogates excluded)"]


def roundtrip(ctx, kind, size, mode, offsets):
    item = KINDS[kind]
    env = ctx.env
    values = [item.make(ctx, f"v{i}", i) for i in range(size)]
    want = [canon_value(ctx, value) for value in values]

    def compare(got):
        ctx.check(ctx.eq(item.elements(ctx, got), want), "elements read back")
        if kind == "object":
            ctx.check([env.call(value, "getIndex") for value in env.call(got, "getRawArray")] == list(range(size)),
                      "element index passed to the factory")

    tails = (3,) if mode != "implicit" else tuple(range(0, min(item.constant, 8)))
    array, got = check_array(ctx, False, lambda: item.traits(ctx),
                             lambda full: item.raw(ctx, list(values) if full else None), size,
                             lambda out, index: item.put(env, out, values[index]), mode, offsets, compare, tails,
                             (0, 1, 2, 1024) if size == 3 and mode in ("fixed", "auto") else (1024,))
    ctx.check(env.call(got, "equals", array), "equal arrays")
    ctx.observe("elements", item.elements(ctx, got) if kind != "object" else 0)
    ctx.reach("end")


def truncated(ctx, kind, size, mode):
    """a stream cut anywhere before the end of the array raises and never returns an array."""
    item = KINDS[kind]
    env = ctx.env
    values = [item.make(ctx, f"v{i}", i) for i in range(size)]
    out = writer(ctx)
    env.call(out, "writeBits", 1, 3)
    env.call(new_array(ctx, item.raw(ctx, values), item.traits(ctx), mode, None), "write", out)
    end = position(ctx, out)
    cut = ctx.pick("cut", range(1, end - 3 + 1))
    data = env.call(out, "toByteArray")[:(end - cut + 7) // 8]
    inp = reader(ctx, data, end - cut)
    env.call(inp, "readBits", 3)
    got = new_array(ctx, item.raw(ctx), item.traits(ctx), mode, None)
    _, exc = attempt(ctx, got, "read", inp) if mode == "auto" else attempt(ctx, got, "read", inp, size)
    ctx.check(exc is not None and exc.is_a("java/io/IOException"), "truncated array raises", str(exc))
    ctx.reach("end")


def unequal(ctx, kind, size):
    """arrays are equal exactly if they have the same elements."""
    item = KINDS[kind]
    env = ctx.env
    left = [item.make(ctx, f"a{i}", i) for i in range(size)]
    right = [item.make(ctx, f"b{i}", i) for i in range(size)]

    def build(values):
        return new_array(ctx, item.raw(ctx, list(values)), item.traits(ctx), "auto", None)

    one, two = build(left), build(right)
    same = ctx.choose_path(same_list(ctx, left, right))
    ctx.check(ctx.eq(env.call(one, "equals", two), same), "equality is element equality")
    if same and ((item.constant or 99) <= 16 or kind in ("bytes", "string", "bitbuffer", "object", "varint16")):
        ctx.check(ctx.eq(env.call(one, "hashCode"), env.call(two, "hashCode")), "equal arrays have equal hash codes")
    ctx.check(ctx.lnot(env.call(one, "equals", build(left + [left[0]]))), "different lengths are unequal")
    ctx.reach("end")


def jobs(tier):
    out = []
    all8 = list(range(8))
    for kind in MAIN:
        item = KINDS[kind]
        big = item.constant is None and kind not in ("varuint16", "varint16", "object", "bitbuffer")
        top = 2 if big else 3
        if tier != "quick":
            top += 1
        for size in range(0, top + 1):
            modes = ["fixed", "auto", "fixed-offset", "auto-offset"] + (["implicit"] if item.constant else [])
            for mode in modes:
                offsets = all8 if size == 1 else [0, 3, 7] if item.constant and tier != "quick" else [3]
                out.append(Job(f"roundtrip-{kind}-{size}-{mode}", roundtrip,
                               {"kind": kind, "size": size, "mode": mode, "offsets": offsets}, must_reach=["end"]))
        for mode in ("fixed", "auto"):
            out.append(Job(f"truncated-{kind}-{mode}", truncated,
                           {"kind": kind, "size": 2 if item.constant else 1, "mode": mode}, must_reach=["end"]))
        out.append(Job(f"equality-{kind}", unequal, {"kind": kind, "size": 2}, must_reach=["end"]))
    for width in range(1, 65):
        for kind, mode in ((f"bit:{width}", "auto-offset"), (f"int:{width}", "fixed-offset"), (f"bit:{width}", "fixed")):
            out.append(Job(f"width-{kind}-{mode}", roundtrip, {"kind": kind, "size": 3, "mode": mode, "offsets": [3]},
                           must_reach=["end"]))
    return out
