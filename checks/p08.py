"""P08: Python equality, hash codes and bit buffers."""

from .arrays import *

PROPERTY = "P08"
BOUNDS = ("bit buffers of 0..25 bits with up to 1 spare byte and arbitrary unused bits; hash functions over every seed and "
          "every 64-bit integer, double, strings and bytes of 2 elements, arrays of up to 2 elements of every kind")
ASSUMPTIONS = ["pure Python implementation of the runtime", "NaN is excluded from the equality claims"]


def buffers(ctx, size_a, size_b):
    cls = ctx.module("zserio.bitbuffer").BitBuffer
    one = cls(ctx.bytes("a", (size_a + 7) // 8 + ctx.pick("spare", [0, 1])), size_a)
    two = cls(ctx.bytes("b", (size_b + 7) // 8), size_b)
    same = size_a == size_b and ctx.eq(bits_value(ctx, one.buffer, size_a), bits_value(ctx, two.buffer, size_b))
    equal = ctx.choose_path(one == two)
    ctx.check(ctx.eq(equal, same), "equal exactly if size and used bits are equal")
    ctx.check(ctx.eq(ctx.choose_path(two == one), equal), "symmetric")
    ctx.check(one == one, "reflexive")  # pylint: disable=comparison-with-itself
    ctx.check(ctx.lnot(one == "x"), "unequal to other types")
    left, right = one.__hash__(), two.__hash__()
    ctx.check(ctx.land(left >= 0, left < (1 << 32)), "hash is a 32-bit number")
    if equal:
        ctx.check(ctx.eq(left, right), "equal buffers have equal hash codes")
        ctx.reach("equal")
    ctx.observe("hash", left)


def scalar_hash(ctx, kind):
    mod = ctx.module("zserio.hashcode")
    seed = ctx.int("seed", 0, (1 << 32) - 1)
    if kind in ("int32", "int64"):
        bound = 1 << (32 if kind == "int32" else 64)
        a, b = ctx.int("a", -bound // 2, bound - 1), ctx.int("b", -bound // 2, bound - 1)
    elif kind in ("float32", "float64"):
        a = ctx.float("a")
        b = ctx.float("b")
    elif kind == "bool":
        a, b = ctx.bool("a"), ctx.bool("b")
    elif kind == "bytes":
        a, b = ctx.bytearray("a", 2), ctx.bytearray("b", 2)
    else:
        a, b = ctx.string("a", 2), ctx.string("b", 2)
    if kind == "float32":
        # exact on the field's values: compare equal bit patterns only
        mant = ctx.int("mant", 0, (1 << 23) - 1)
        a = b = ctx.float_from_bits((0x3FF << 52) | (mant << 29))
    func = getattr(mod, "calc_hashcode_" + kind)
    same = a == b
    zeros = False
    if kind == "float64":
        same = ctx.land(same, ctx.lnot(ctx.land(ctx.eq(ctx.float_bits(a) & ((1 << 63) - 1), 0),
                                                ctx.lnot(ctx.eq(ctx.float_bits(a), ctx.float_bits(b))))))
    ctx.assume(same)
    left, right = func(seed, a), func(seed, b)
    ctx.check(ctx.eq(left, right), "equal values have equal hash codes")
    ctx.check(ctx.land(left >= 0, left < (1 << 32)), "hash is a 32-bit number")
    ctx.check(ctx.eq(func(seed, None), mod.calc_hashcode_int32(seed, 0)), "unset value")
    ctx.observe("hash", left)
    ctx.reach("end")


def array_hash(ctx, kind, size):
    item = KINDS[kind]
    array_mod = ctx.module("zserio.array")
    one = [item.make(ctx, f"a{i}", i) for i in range(size)]
    two = [item.make(ctx, f"b{i}", i) for i in range(size)]
    ctx.assume(same_list(ctx, one, two))
    left, right = array_mod.Array(item.traits(ctx), one), array_mod.Array(item.traits(ctx), two)
    ctx.check(ctx.choose_path(left == right), "equal")
    ctx.check(ctx.eq(left.__hash__(), right.__hash__()), "equal arrays have equal hash codes")
    ctx.reach("end")


def zero_sign(ctx):
    """0.0 == -0.0 must have the same hash."""
    mod = ctx.module("zserio.hashcode")
    sign = ctx.int("sign", 0, 1)
    value = ctx.float_from_bits(sign << 63)
    for width in (32, 64):
        func = getattr(mod, f"calc_hashcode_float{width}")
        ctx.check(ctx.eq(func(23, value), func(23, 0.0)), "equal values have equal hash codes",
                  known=("F1", sign == 1))
    ctx.reach("end")


def jobs(tier):
    out = []
    top = 18 if tier == "quick" else 34
    for size in range(0, top):
        out.append(Job(f"buffers-{size}", buffers, {"size_a": size, "size_b": size}, must_reach=["equal"]))
    for one, two in ((0, 1), (7, 8), (8, 9), (8, 16), (9, 10), (15, 16), (16, 17)):
        out.append(Job(f"buffers-{one}-{two}", buffers, {"size_a": one, "size_b": two}))
    for kind in ("int32", "int64", "float32", "float64", "bool", "bytes", "string"):
        out.append(Job(f"hash-{kind}", scalar_hash, {"kind": kind}, must_reach=["end"]))
    for kind in KINDS:
        if kind != "object":
            for size in (0, 1, 2):
                out.append(Job(f"array-{kind}-{size}", array_hash, {"kind": kind, "size": size}, must_reach=["end"]))
    out.append(Job("zero-sign", zero_sign, must_reach=["end"]))
    return out
