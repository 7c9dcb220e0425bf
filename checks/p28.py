"""P28: generated Python code refuses what cannot be encoded or decoded."""

from .gen_py import *

PROPERTY = "P28"
BOUNDS = ("the types of schemas/refuse/refuse.zs with and without range checking; every fixed width of 1..64 bits; every "
          "kind of array with a length expression in schemas/matrix_*, one element more or less; arrays of 0..3 elements against every "
          "length; every parameter, selector, enumeration value, bitmask value, union index of 0..127 and integer of "
          "66 bits")
ASSUMPTIONS = SHARED["ASSUMPTIONS"]
PLAIN = Binding("refuse/refuse.zs")
CHECKED = Binding("refuse/refuse.zs", ("-withRangeCheckCode",))


def raises(ctx, func, *args):
    _, exc = ctx.attempt(func, *args)
    return exc is not None and is_runtime_error(exc)


def write_iff(ctx, obj, cond, label):
    """Writing succeeds exactly if the condition holds."""
    _, exc = ctx.attempt(obj.write, writer(ctx))
    ctx.check(exc is None or is_runtime_error(exc), label + ": only zserio exceptions", repr(exc))
    ctx.check(ctx.eq(exc is None, cond), label, repr(exc))


def ints(ctx, label, counts, low=0, high=255):
    return [ctx.int(f"{label}[{i}]", low, high) for i in range(ctx.pick(label + ".len", counts))]


def lengths(ctx, binding):
    size = ctx.int("size", 0, 3)
    fixed, sized = ints(ctx, "fixed", (1, 2, 3)), ints(ctx, "sized", range(4))
    packed = ints(ctx, "packed", range(4), -128, 127)
    obj = binding.cls(ctx, "Lengths")(size, fixed, sized, packed)
    write_iff(ctx, obj, ctx.land(len(fixed) == 2, ctx.eq(size, len(sized)), ctx.eq(size + 1, len(packed))),
              "written exactly if all lengths match")
    ctx.reach("end")


def optional_lengths(ctx, binding):
    size, has = ctx.int("size", 0, 3), ctx.bool("has")
    list_ = ints(ctx, "list", range(4)) if ctx.pick("set", (0, 1)) else None
    texts = ["" for _ in range(ctx.pick("texts.len", range(5)))]
    obj = binding.cls(ctx, "OptionalLengths")(size, list_, has, texts)
    first = True if list_ is None else ctx.eq(size, len(list_))
    write_iff(ctx, obj, ctx.land(first, ctx.lor(ctx.lnot(has), ctx.eq(size + 1, len(texts)))),
              "written exactly if the lengths of the used arrays match")
    ctx.reach("end")


def choice_lengths(ctx, binding):
    size = ctx.pick("size", (0, 1, 2))
    values = ints(ctx, "list", range(5), 0, 7)
    cls = binding.cls(ctx, "LengthsInChoice")
    obj = cls(size, none_=values) if size == 0 else cls(size, list_=values)
    write_iff(ctx, obj, len(values) == (0, 1, 3)[size], "written exactly if the length matches")
    ctx.reach("end")


def parameters(ctx, binding, kind):
    limit, value = ctx.int("limit", 0, 255), ctx.int("value", 0, 255)
    given, flag = ctx.int("given", 0, 255), ctx.bool("flag")
    child = binding.cls(ctx, "Child")(given, flag, value)
    if kind == "struct":
        obj = binding.cls(ctx, "Parameters")(limit, child)
        cond = ctx.land(ctx.eq(given, limit // 2), ctx.eq(flag, limit > 3))
    elif kind == "optional":
        obj = binding.cls(ctx, "OptionalParameters")(limit, child)
        cond = ctx.land(ctx.eq(given, limit), ctx.lnot(flag))
    else:
        cls = binding.cls(ctx, "ParametersInUnion")
        yes = ctx.pick("yes", (0, 1))
        obj = cls(limit, yes_=child) if yes else cls(limit, no_=child)
        cond = ctx.land(ctx.eq(given, limit), ctx.eq(flag, bool(yes)))
    write_iff(ctx, obj, cond, "written exactly if the parameters match")
    ctx.reach("end")


def no_case(ctx, binding):
    tag = ctx.int("tag", 0, 255)
    ctx.assume(ctx.lor(tag < 1, tag > 3))
    cls = binding.cls(ctx, "Pick")
    obj = cls(tag, a_=3)
    ctx.check(raises(ctx, obj.write, writer(ctx)), "writing a choice without matching case is refused")
    ctx.check(raises(ctx, obj.bitsizeof), "its size is undefined")
    ctx.check(raises(ctx, obj.initialize_offsets), "its offsets are undefined")
    ctx.check(raises(ctx, cls.from_reader, reader(ctx, ctx.bytes("data", 3)), tag), "and reading it")
    fruit_cls, fruit = binding.cls(ctx, "PickFruit"), binding.cls(ctx, "Fruit")
    plum = fruit(4)
    ctx.check(raises(ctx, fruit_cls(plum, a_=3).write, writer(ctx)), "enumeration selector without case")
    ctx.check(raises(ctx, fruit_cls.from_reader, reader(ctx, ctx.bytes("data", 3)), plum), "reading it")
    ctx.reach("end")


def undefined_union(ctx, binding):
    cls = binding.cls(ctx, "Either")
    empty = cls()
    ctx.check(empty.choice_tag == -1, "no field is selected")
    for obj in (empty, binding.cls(ctx, "EitherArray")([empty]),
                binding.cls(ctx, "PackedEitherArray")([cls(a_=1), empty]),
                binding.cls(ctx, "Holders")(1, binding.cls(ctx, "Pick")(1, a_=2), empty)):
        _, exc = ctx.attempt(obj.write, writer(ctx))
        ctx.check(exc is not None, "a union without value is not written")
    ctx.check(raises(ctx, lambda: cls(a_=1, b_="x")), "two fields")
    ctx.check(raises(ctx, lambda: cls(b_="x", list_=[])), "two fields")
    index = ctx.int("index", 3, 127)
    data = ctx.bytes("data", 4)
    ctx.check(raises(ctx, cls.from_reader, reader(ctx, ctx.make_bytes([index] + list(data)))),
              "an undefined index is refused")
    ctx.reach("end")


def fruits(ctx, binding):
    cls = binding.cls(ctx, "Fruit")
    values = {1: True, 4: False, 9: True, 200: False}
    single, item, packed, last = [ctx.pick(name, sorted(values)) for name in ("single", "item", "packed", "last")]
    obj = binding.cls(ctx, "Fruits")(cls(single), [cls(item)], [cls(packed), cls(last)])
    write_iff(ctx, obj, all(values[value] for value in (single, item, packed, last)), "removed items are not written")
    ctx.reach("end")


def undefined_enum(ctx, binding):
    cls = binding.cls(ctx, "Fruit")
    value = ctx.int("value", 0, 255)
    got, exc = ctx.attempt(cls.from_reader, reader(ctx, ctx.make_bytes([value])))
    defined = ctx.lor(*[ctx.eq(value, item) for item in (1, 4, 9, 200)])
    ctx.check(ctx.eq(exc is None, defined), "exactly the defined values are read")
    if exc is None:
        ctx.check(ctx.eq(got.value, value), "value")
    for name, number in (("APPLE", 1), ("ZSERIO_REMOVED_PLUM", 4), ("PEAR", 9), ("ZSERIO_REMOVED_FIG", 200)):
        item = cls(number)
        ctx.check(item.value == number and item.name == name and cls.from_name(name) is item, name)
    ctx.check(raises(ctx, cls.from_name, "NONE"), "unknown name")
    ctx.reach("end")


def bitmask_bounds(ctx, binding):
    for name, nbits in (("Rights", 5), ("Wide", 16)):
        value = ctx.int(name, -(1 << 20), 1 << 20)
        got, exc = ctx.attempt(binding.cls(ctx, name).from_value, value)
        inside = ctx.land(value >= 0, value < (1 << nbits))
        ctx.check(ctx.eq(exc is None, inside), name + " holds exactly the values of its type")
        if exc is None:
            ctx.check(ctx.eq(got.value, value), name + " value")
        else:
            ctx.check(is_runtime_error(exc), name + " exception", repr(exc))
    ctx.reach("end")


def bit_range(nbits, signed=False):
    return (-(1 << (nbits - 1)), (1 << (nbits - 1)) - 1) if signed else (0, (1 << nbits) - 1)


RANGES = {
    "Bits8": [bit_range(1), bit_range(7), bit_range(8), bit_range(8, True), bit_range(3, True)],
    "Bits32": [bit_range(16), bit_range(16, True), bit_range(32), bit_range(32, True)],
    "Bits64": [bit_range(64), bit_range(64, True), bit_range(63), bit_range(33, True)],
    "Vars16": [wire.var_range(name) for name in ("varint16", "varuint16", "varsize")],
    "Vars32": [wire.var_range(name) for name in ("varint32", "varuint32")],
    "Vars64": [wire.var_range(name) for name in ("varint64", "varuint64", "varint", "varuint")],
}


def ranges(ctx, binding, name):
    """One field of arbitrary value, the others zero."""
    limits = RANGES[name]
    which = ctx.pick("which", range(len(limits)))
    values = [0] * len(limits)
    values[which] = ctx.int("value", -(1 << 65), (1 << 65) - 1)
    low, high = limits[which]
    write_iff(ctx, binding.cls(ctx, name)(*values), ctx.land(values[which] >= low, values[which] <= high),
              "written exactly if in range")
    ctx.reach("end")


def dynamic_range(ctx, binding):
    width = ctx.pick("width", (1, 2, 7, 8, 9, 31, 32, 33, 63, 64))
    value = ctx.int("value", -(1 << 65), (1 << 65) - 1)
    for signed in (False, True):
        low, high = bit_range(width, signed)
        obj = binding.cls(ctx, "Dynamic")(width - 1, 0 if signed else value, value if signed else 0)
        write_iff(ctx, obj, ctx.land(value >= low, value <= high), "written exactly if in range")
    ctx.reach("end")


def other_ranges(ctx, binding):
    value, has = ctx.int("value", -(1 << 20), 1 << 20), ctx.bool("has")
    fits = lambda limits: ctx.land(value >= limits[0], value <= limits[1])
    kind = ctx.pick("kind", range(6))
    if kind == 0:
        obj, cond = binding.cls(ctx, "OptionalRange")(value, False, None), fits(bit_range(8))
    elif kind == 1:
        obj, cond = binding.cls(ctx, "OptionalRange")(None, has, value), ctx.lor(ctx.lnot(has), fits(bit_range(5, True)))
    elif kind == 2:
        obj, cond = binding.cls(ctx, "RangeChoice")(True, a_=value), fits(bit_range(16))
    elif kind == 3:
        obj, cond = binding.cls(ctx, "RangeChoice")(False, b_=value), fits(bit_range(8))
    elif kind == 4:
        obj, cond = binding.cls(ctx, "RangeUnion")(a_=value), fits(bit_range(16))
    else:
        obj, cond = binding.cls(ctx, "RangeUnion")(b_=value), fits(bit_range(8, True))
    write_iff(ctx, obj, cond, "written exactly if in range")
    ctx.reach("end")


def width_range(ctx, binding, type_):
    """One field of every width of integers with an arbitrary value, the others zero."""
    which = ctx.pick("which", range(len(type_.fields)))
    values = [0] * len(type_.fields)
    values[which] = ctx.int("value", -(1 << 65), (1 << 65) - 1)
    limits = type_.fields[which].type
    write_iff(ctx, binding.cls(ctx, type_.name)(*values), ctx.land(values[which] >= limits.min, values[which] <= limits.max),
              "written exactly if in range")
    ctx.reach("end")


def wrong_length(ctx, binding, type_):
    """An object with one array whose length differs from its length expression is not written."""
    params = type_.make_params(ctx, "p")
    ctx.wrong_lengths = 0
    try:
        value = type_.make(ctx, "v", params)
    except IndexError:
        return  # arguments of an element that has none
    if not ctx.wrong_lengths:
        return
    obj = binding.build(ctx, type_, value)
    _, exc = ctx.attempt(obj.write, writer(ctx))
    ctx.check(exc is not None and is_runtime_error(exc), "an array of a wrong length is not written", repr(exc))
    ctx.reach("end")


def sized_arrays(type_, fields=()):
    """Has an array with a length expression (explored with more than the lengths 0)."""
    if isinstance(type_, Arr):
        return callable(type_.length) or sized_arrays(type_.elem)
    if not isinstance(type_, Compound):
        return False
    fields = [field for _, field in type_.cases if field] if isinstance(type_, Choice) else type_.fields
    return any(sized_arrays(field.type) for field in fields)


def jobs(tier):
    out = []

    def add(job, func, binding=PLAIN, **params):
        suffix = "-checked" if binding is CHECKED else ""
        out.append(Job(job + suffix, func, dict(params, binding=binding), roots=binding.roots(), must_reach=["end"]))

    for func in (lengths, optional_lengths, choice_lengths, no_case, undefined_union, fruits, undefined_enum,
                 bitmask_bounds):
        add(func.__name__, func)
    for kind in ("struct", "optional", "union"):
        add("parameters-" + kind, parameters, kind=kind)
    for binding in (PLAIN, CHECKED):
        for name in RANGES:
            add("range-" + name, ranges, binding, name=name)
        add("dynamic-range", dynamic_range, binding)
        add("other-ranges", other_ranges, binding)
    binding, top = matrix("matrix_structs")
    for checked in ((), ("-withRangeCheckCode",)):
        binding = Binding(binding.schema, checked)
        for name, type_ in top.items():
            if name.startswith(("Bit", "Int")) or name.startswith("Only") and not checked:
                out.append(Job(f"width-{name}{checked}", width_range, {"binding": binding, "type_": type_},
                               roots=binding.roots(), must_reach=["end"]))
    for schema in ("matrix_optionals", "matrix_choices", "matrix_arrays"):
        binding, top = matrix(schema)
        for name, type_ in top.items():
            if sized_arrays(type_) and ("Fixed" in name or "Expr" in name or name.startswith("Byte")) \
                    and not name.endswith(("Nest", "Arr")):
                out.append(Job(f"length-{schema}-{name}", wrong_length, {"binding": binding, "type_": type_},
                               roots=binding.roots(), must_reach=["end"]))
    return out
