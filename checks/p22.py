"""P22: optional, conditional and extended fields of generated Python code."""

from .gen_py import *
from .models_optionals import TOP

PROPERTY = "P22"
BOUNDS = ("10 types of schemas/optionals/optionals.zs; 49 kinds of fields (every built-in type, compounds, arrays), each optional, "
          "conditional, aligned, extended, in packed arrays (schemas/matrix_optionals); every presence combination and field value; arrays and strings of "
          "0..2 elements; every number of extended fields present; arbitrary values in fields whose condition does not "
          "hold; start bit offsets 0 and 3 (all 8 in the thorough tier)")
ASSUMPTIONS = SHARED["ASSUMPTIONS"]
BINDING = Binding("optionals/optionals.zs")
BY_NAME = {type_.name: type_ for type_ in TOP}


def encoded(ctx, obj, size):
    """Bits written by an object of the given size."""
    out = writer(ctx)
    ctx.check(ctx.eq(obj.bitsizeof(0), size), "bitsizeof")
    obj.write(out)
    ctx.check(out.bitposition == size, "number of bits written")
    return bits_value(ctx, out.byte_array, size)


def evolution(ctx, binding, type_, count):
    """A stream with only the first extended fields is read with the others absent and is written back identically."""
    value = type_.make(ctx, "v", {})
    extended = [field for field in type_.fields if field.extended]
    value["$extended"] = count
    ref = encode_ref(ctx, type_, value)
    if count:
        value["$extended"] = count - 1
        before = encode_ref(ctx, type_, value).pos
        value["$extended"] = count
        if ref.pos == (before + 7) // 8 * 8:
            return  # takes no bits at the end of the stream: the same as absent
    got = binding.read(ctx, type_, {}, reader(ctx, ref_bytes(ctx, ref), ref.pos))
    other = binding.read(ctx, type_, {}, reader(ctx, ref_bytes(ctx, ref), ref.pos))
    for number, field in enumerate(extended):
        name = snake(field.name)
        ctx.check(ctx.eq(getattr(got, f"is_{name}_present")(), number < count), f"{name} present")
        item = getattr(got, name)
        if number < count:
            ctx.check(binding.same(ctx, field.type, item, value[field.name]), f"{name} decoded")
        else:
            zero = {Bits: 0, Str: ""}.get(type(field.type))
            if field.optional or field.cond or isinstance(field.type, Struct):
                ctx.check(item is None, f"{name} absent")
            elif zero is not None:
                ctx.check(ctx.eq(item, zero), f"{name} has the default value")
    for field in type_.fields:
        if not field.extended:
            ctx.check(binding.same(ctx, field.type, getattr(got, snake(field.name)), value[field.name]), field.name)
    ctx.check(ctx.eq(encoded(ctx, got, ref.pos), ref.value()), "written back identically")
    ctx.check(ctx.eq(got.initialize_offsets(0), ref.pos), "end position")
    ctx.check(got == other, "objects read twice are equal")
    ctx.check(ctx.eq(got.__hash__(), other.__hash__()), "and have the same hash code")
    if count < len(extended):
        full = {name: item for name, item in value.items() if name != "$extended"}
        for number, field in enumerate(extended):
            setattr(got, snake(field.name), binding.build(ctx, field.type, full[field.name]))
            for index, each in enumerate(extended):
                ctx.check(ctx.eq(getattr(got, f"is_{snake(each.name)}_present")(), number >= count or index < count),
                          "setting an absent field makes all present")
        ref = encode_ref(ctx, type_, full)
        ctx.check(ctx.eq(encoded(ctx, got, ref.pos), ref.value()), "written with all fields after setting")
        ctx.check(ctx.lnot(got == other), "not equal to the object without the fields")
    ctx.reach("end")


def stale(ctx, binding, type_, start):
    """Values in fields whose condition does not hold are ignored; the indicators tell what is used and set."""
    value = type_.make(ctx, "v", {})
    ref = encode_ref(ctx, type_, value, start)
    clean, obj = binding.build(ctx, type_, value), binding.build(ctx, type_, value)
    used = False
    for field in type_.fields:
        name = snake(field.name)
        if field.cond is None and not field.optional:
            continue
        present = value[field.name] is not None
        ctx.check(ctx.eq(getattr(obj, f"is_{name}_used")(), present), f"{name} used")
        ctx.check(ctx.eq(getattr(obj, f"is_{name}_set")(), present), f"{name} set")
        if field.cond is not None and not present:
            used = True
            spare = few_field(field)
            setattr(obj, name, binding.build(ctx, field.type, make_field(ctx, spare, f"stale.{name}", Scope(value, {}))))
            ctx.check(ctx.lnot(getattr(obj, f"is_{name}_used")()), f"{name} unused")
            ctx.check(ctx.eq(getattr(obj, f"is_{name}_set")(), True), f"{name} set although unused")
    if not used:
        return
    obj.initialize_offsets(start)
    clean.initialize_offsets(start)
    ctx.check(obj == clean, "equal whatever unused fields hold")
    ctx.check(clean == obj, "equal whatever unused fields hold")
    ctx.check(ctx.eq(obj.__hash__(), clean.__hash__()), "same hash code whatever unused fields hold")
    out = writer(ctx)
    if start:
        out.write_bits((1 << start) - 1, start)
    ctx.check(ctx.eq(obj.bitsizeof(start), ref.pos - start), "bitsizeof ignores unused fields")
    obj.write(out)
    ctx.check(out.bitposition == ref.pos, "number of bits written")
    ctx.check(ctx.eq(bits_value(ctx, out.byte_array, ref.pos), ref.value()), "bits written")
    for field in type_.fields:
        if field.cond is not None and value[field.name] is None:
            getattr(obj, f"reset_{snake(field.name)}")()
            ctx.check(ctx.lnot(getattr(obj, f"is_{snake(field.name)}_set")()), "reset")
    ctx.reach("end")


def few_field(field):
    """Field with arrays of one element."""
    if isinstance(field.type, Arr):
        field = copy.copy(field)
        field.type = Arr(field.type.elem, lens=(1,))
    return field


def jobs(tier):
    starts = (0, 3) if tier == "quick" else range(8)
    out = roundtrip_jobs(BINDING, TOP, starts)
    for name, number in (("Extended", 3), ("ExtendedText", 2), ("ExtendedOne", 1)):
        for count in range(number + 1):
            out.append(Job(f"evolution-{name}-{count}", evolution, {"binding": BINDING, "type_": BY_NAME[name], "count": count},
                           roots=BINDING.roots(), must_reach=["end"]))
    for name in ("Conditional", "Dependent", "AlignedOptional", "OffsetOptional", "OptionalArrays", "WithFunctions"):
        for start in starts:
            out.append(Job(f"stale-{name}-{start}", stale, {"binding": BINDING, "type_": BY_NAME[name], "start": start},
                           roots=BINDING.roots(), must_reach=["end"]))
    binding, top = matrix("matrix_optionals")
    for type_ in top.values():
        if any(getattr(field, "extended", False) for field in getattr(type_, "fields", ())):
            for count in (0, 1):
                out.append(Job(f"evolution-{type_.name}-{count}", evolution,
                               {"binding": binding, "type_": type_, "count": count}, roots=binding.roots(),
                               must_reach=["end"]))
        elif type_.name.endswith("If"):
            for start in starts:
                out.append(Job(f"stale-{type_.name}-{start}", stale, {"binding": binding, "type_": type_, "start": start},
                               roots=binding.roots(), must_reach=["end"]))
    return out + matrix_jobs("matrix_optionals", tier)
