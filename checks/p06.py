"""P06: Python arrays (unpacked)."""

from .arrays import *

PROPERTY = "P06"
BOUNDS = ("arrays of 0..3 elements (0..2 for multi-byte varints and strings; full range in the first element, [-200, 200] in the others) of every array trait (bit/int widths 1, 7, "
          "8, 13, 33, 64; all varints; float64 non-NaN; float16/32 with every sign and mantissa of one exponent; bool; bytes and strings of 0..2; bit buffers of 0, 3, 8 "
          "or 11 bits; objects with a position dependent size), fixed size / auto / implicit / with element offsets, "
          "starting at bit offsets 0..7, truncated by every number of bits")
ASSUMPTIONS = ["pure Python implementation of the runtime",
               "elements encoded by the scalar stream operations, which P01-P04 check on their own"]


def roundtrip(ctx, kind, size, mode, offsets):
    item = KINDS[kind]
    array_mod = ctx.module("zserio.array")
    values = [item.make(ctx, f"v{i}", i) for i in range(size)]
    offset, make = start_stream(ctx, offsets)
    indexed = mode.endswith("offset")
    is_auto = mode.startswith("auto")
    is_implicit = mode == "implicit"

    expected = make()
    if is_auto:
        expected.write_varsize(size)
    positions = []
    for value in values:
        if indexed:
            expected.alignto(8)
        positions.append(expected.bitposition)
        item.put(expected, value)
    end = expected.bitposition

    seen = {"set": [], "check": []}
    kwargs = {"is_auto": is_auto, "is_implicit": is_implicit}
    if indexed:
        kwargs["set_offset_method"] = lambda index, position: seen["set"].append((index, position))
        kwargs["check_offset_method"] = lambda index, position: seen["check"].append((index, position))
    array = array_mod.Array(item.traits(ctx), list(values), **kwargs)
    ctx.check(len(array) == size, "length")
    ctx.check(ctx.eq(array.bitsizeof(offset), end - offset), "bitsizeof is the number of bits")
    ctx.check(ctx.eq(array.initialize_offsets(offset), end), "initialize_offsets returns the end position")
    want = list(enumerate(positions))
    if indexed:
        ctx.check(ctx.eq([list(entry) for entry in seen["set"]], [list(entry) for entry in want]),
                  "offset of each element is its byte aligned position")
    out = make()
    array.write(out)
    same_stream(ctx, out, expected, "written")
    if indexed:
        ctx.check(ctx.eq([list(entry) for entry in seen["check"]], [list(entry) for entry in want]),
                  "offsets checked while writing")
        seen["check"].clear()

    tail = 0
    if not is_implicit:
        out.write_bits(5, 3)
        tail = 3
    else:
        element = item.constant
        tail = ctx.pick("tail", range(0, min(element, 8)))
        if tail:
            out.write_bits(0, tail)
    inp = reader(ctx, out.byte_array, end + tail)
    if offset:
        inp.read_bits(offset)
    got = array_mod.Array.from_reader(item.traits(ctx), inp, size if not (is_auto or is_implicit) else 0, **kwargs)
    ctx.check(len(got) == size, "number of elements read")
    ctx.check(same_list(ctx, got.raw_array, values), "elements read back")
    ctx.check(inp.bitposition == end, "reader position behind the array")
    if kind == "object":
        ctx.check([value.index for value in got.raw_array] == list(range(size)), "element index passed to the factory")
    if indexed:
        ctx.check(ctx.eq([list(entry) for entry in seen["check"]], [list(entry) for entry in want]),
                  "offsets checked while reading")
    if not is_implicit:
        ctx.check(ctx.eq(inp.read_bits(3), 5), "following field")
    ctx.check(got == array, "equal arrays")
    ctx.observe("data", out.byte_array)
    ctx.reach("end")


def truncated(ctx, kind, size, mode):
    """a stream cut anywhere before the end of the array raises and never returns an array."""
    item = KINDS[kind]
    array_mod = ctx.module("zserio.array")
    values = [item.make(ctx, f"v{i}", i) for i in range(size)]
    is_auto = mode == "auto"
    out = writer(ctx)
    out.write_bits(1, 3)
    array = array_mod.Array(item.traits(ctx), values, is_auto=is_auto)
    array.write(out)
    end = out.bitposition
    cut = ctx.pick("cut", range(1, end - 3 + 1))
    inp = reader(ctx, out.byte_array, end - cut)
    inp.read_bits(3)
    _, exc = ctx.attempt(array_mod.Array.from_reader, item.traits(ctx), inp, 0 if is_auto else size, is_auto=is_auto)
    ctx.check(exc is not None and is_runtime_error(exc), "truncated array raises", repr(exc))
    ctx.reach("end")


def unequal(ctx, kind, size):
    """arrays are equal exactly if they have the same elements."""
    item = KINDS[kind]
    array_mod = ctx.module("zserio.array")
    left = [item.make(ctx, f"a{i}", i) for i in range(size)]
    right = [item.make(ctx, f"b{i}", i) for i in range(size)]
    one, two = array_mod.Array(item.traits(ctx), left), array_mod.Array(item.traits(ctx), right)
    same = same_list(ctx, left, right)
    if kind.startswith("float"):
        same = ctx.land(*[a == b for a, b in zip(left, right)])
    ctx.check(ctx.eq(ctx.choose_path(one == two), same), "equality is element equality")
    longer = array_mod.Array(item.traits(ctx), left + [left[0]])
    ctx.check(ctx.lnot(one == longer), "different lengths are unequal")
    ctx.reach("end")


def jobs(tier):
    out = []
    all8 = list(range(8))
    for kind in MAIN:
        item = KINDS[kind]
        big = item.constant is None and kind not in ("varuint16", "varint16", "object", "bitbuffer")
        top = 2 if big else 3
        if tier != "quick":
            top += 1
        for size in range(0, top + 1):
            modes = ["fixed", "auto", "fixed-offset", "auto-offset"] + (["implicit"] if item.constant else [])
            for mode in modes:
                offsets = all8 if size < 2 or item.constant else [3]
                out.append(Job(f"roundtrip-{kind}-{size}-{mode}", roundtrip,
                               {"kind": kind, "size": size, "mode": mode, "offsets": offsets}, must_reach=["end"]))
        for mode in ("fixed", "auto"):
            out.append(Job(f"truncated-{kind}-{mode}", truncated,
                           {"kind": kind, "size": 2 if item.constant else 1, "mode": mode}, must_reach=["end"]))
        if kind != "object":
            out.append(Job(f"equality-{kind}", unequal, {"kind": kind, "size": 2}, must_reach=["end"]))
    for width in range(1, 65):
        for kind, mode in ((f"bit:{width}", "auto-offset"), (f"int:{width}", "fixed-offset"), (f"bit:{width}", "fixed")):
            out.append(Job(f"width-{kind}-{mode}", roundtrip, {"kind": kind, "size": 4, "mode": mode, "offsets": [3]},
                           must_reach=["end"]))
    return out
