"""P29: objects of generated Python code: defaults, accessors, equality, hash codes, bitmasks."""

from . import models_arrays, models_choices, models_optionals, models_params, models_structs
from .gen_py import *

PROPERTY = "P29"
BOUNDS = ("all pairs of values of 29 structures, choices and unions of the test schemas, parameters included; arrays and "
          "strings of 0..2 elements; each field set to every value; optional and conditional fields of 49 kinds set and reset; all values of bitmasks of 8, 11 and up to 15 bits")
ASSUMPTIONS = SHARED["ASSUMPTIONS"] + ["equality of -0.0 and 0.0 is excluded (F1)"]
BINDING = Binding("api/api.zs")
STRUCTS, CHOICES = Binding("structs/structs.zs"), Binding("choices/choices.zs")
OPTIONALS, PARAMS = Binding("optionals/optionals.zs"), Binding("params/params.zs")
ARRAYS = Binding("arrays/arrays.zs", ("-allowImplicitArrays",))

U8 = Bits(8)
COLOR = Enum("Color", Bits(8, True), {"NONE": -1, "RED": 0, "BLUE": 7})
MASK = Bitmask("Mask", U8, {"A": 1, "B": 2, "C": 0x40})
INNER = Struct("Inner", [Field("a", U8), Field("b", Bits(3))])
PLAIN = Struct("Plain", [
    Field("a", U8), Field("b", Bits(16, True)), Field("c", Str((1,))), Field("d", Bytes((1,))), Field("e", Bool()),
    Field("f", COLOR), Field("g", MASK), Field("h", INNER), Field("i", Arr(U8, lens=(1,))),
    Field("j", Bits(16), optional=True), Field("k", INNER, optional=True), Field("l", U8, cond=lambda s: s.e),
    Field("m", Ext((11,))), Field("n", Flt(32))])
SMALL = Struct("Plain", [Field("f", few(COLOR, (7,))) if field.name == "f" else field for field in PLAIN.fields])


def equality(ctx, binding, type_, fixed=()):
    """Objects are equal exactly if parameters and used fields are; equal objects have equal hash codes."""
    left_params, right_params = type_.make_params(ctx, "p"), type_.make_params(ctx, "q")
    left, right = type_.make(ctx, "v", left_params), type_.make(ctx, "w", right_params)
    for name in fixed:
        right[name] = left[name]
    if fixed:
        right["e"] = left["e"]
    conds = [ptype.same(ctx, left_params[name], right_params[name]) for name, ptype in type_.params]
    expected = ctx.land(*conds, type_.same(ctx, left, right))
    one, two = binding.build(ctx, type_, left), binding.build(ctx, type_, right)
    equal = bool(one == two)
    ctx.check(ctx.eq(equal, expected), "equal exactly if parameters and fields are equal")
    ctx.check(bool(two == one) == equal, "equality is symmetric")
    ctx.check(bool(one != two) != equal, "inequality is its opposite")
    first = one.__hash__()
    ctx.check(ctx.land(first >= 0, first < (1 << 32)), "32-bit hash code")
    same = binding.build(ctx, type_, left)
    ctx.check(one == same, "objects of the same parameters and fields are equal")
    ctx.check(ctx.eq(first, same.__hash__()), "and have the same hash code")
    ctx.check(not one == 3 and not one == None, "not equal to other types")  # noqa: E711
    ctx.reach("end")


def set_field(ctx, name):
    """Setting a field changes that field only."""
    value = PLAIN.make(ctx, "v", {})
    field = next(field for field in PLAIN.fields if field.name == name)
    if field.name == "e":
        other = {"e": value["e"]}
    elif field.optional and ctx.pick("unset", (0, 1)):
        other = {name: None}
    else:
        other = {name: make_field(ctx, field, "w", Scope(value, {}))}
    if field.cond is not None and value[name] is None:
        return
    obj = BINDING.build(ctx, PLAIN, value)
    setattr(obj, name, BINDING.build(ctx, field.type, other[name]))
    changed = dict(value)
    changed[name] = other[name]
    ctx.check(BINDING.same(ctx, PLAIN, obj, changed), "the getters give what was set")
    ref = encode_ref(ctx, PLAIN, changed)
    out = writer(ctx)
    obj.write(out)
    ctx.check(out.bitposition == ref.pos, "number of bits written")
    ctx.check(ctx.eq(bits_value(ctx, out.byte_array, ref.pos), ref.value()), "bits written")
    if field.optional:
        getattr(obj, f"reset_{name}")()
        ctx.check(getattr(obj, name) is None, "reset")
        changed[name] = None
        ctx.check(BINDING.same(ctx, PLAIN, obj, changed), "reset changes the field only")
    ctx.reach("end")


def indicators(ctx, name):
    """Setting, resetting and the indicators of optional fields of every kind, whatever the value."""
    binding, top = matrix("matrix_optionals")
    type_ = top[name]
    value = type_.make(ctx, "v", {})
    if value["value"] is None:
        return
    obj = binding.build(ctx, type_, {**value, "value": None})
    field = next(field for field in type_.fields if field.name == "value")
    ctx.check(ctx.lnot(obj.is_value_set()), "not set")
    if field.cond is None:
        ctx.check(ctx.lnot(obj.is_value_used()), "not used")
    before = binding.build(ctx, type_, {**value, "value": None})
    ctx.check(obj == before, "equal without the field") if field.cond is None else None
    item = binding.build(ctx, field.type, value["value"])
    obj.value = item
    ctx.check(ctx.eq(obj.is_value_set(), True), "set")
    ctx.check(ctx.eq(obj.is_value_used(), True), "used")
    ctx.check(binding.same(ctx, type_, obj, value), "getter gives what was set")
    twin = binding.build(ctx, type_, value)
    ctx.check(obj == twin, "equal to an object created with the value")
    if field.cond is None:
        ctx.check(ctx.lnot(obj == before), "a field that is set differs from one that is not")
        ctx.check(ctx.lnot(before == obj), "a field that is not set differs from one that is")
    obj.reset_value()
    ctx.check(ctx.lnot(obj.is_value_set()), "not set after reset")
    ctx.check(obj.value is None, "reset")
    obj.value = None
    ctx.check(ctx.lnot(obj.is_value_set()), "None is not a value")
    ctx.reach("end")


def set_branch(ctx):
    """Setting a field of a union selects it."""
    union = models_choices.SIMPLE
    value, other = union.make(ctx, "v", {}), union.make(ctx, "w", {})
    obj = CHOICES.build(ctx, union, value)
    field = union.field(other["branch"])
    setattr(obj, snake(field.name), CHOICES.build(ctx, field.type, other["value"]))
    ctx.check(CHOICES.same(ctx, union, obj, other), "the field set is selected")
    ref = encode_ref(ctx, union, other)
    out = writer(ctx)
    obj.write(out)
    ctx.check(ctx.eq(bits_value(ctx, out.byte_array, ref.pos), ref.value()), "bits written")
    ctx.reach("end")


def defaults(ctx):
    """Objects created without values."""
    color, mask = BINDING.cls(ctx, "Color"), BINDING.cls(ctx, "Mask")
    obj = BINDING.cls(ctx, "Initialized")()
    expected = {"number": 5, "negative": -300, "constant": 1001, "yes": True, "text": "text\tA", "real": 1.5,
                "wide": -0.25, "color": color.BLUE, "mask": mask.Values.A | mask.Values.C, "variable": 31,
                "bits": 5, "octal": 2, "maybe": 77, "conditional": 9}
    for name, value in expected.items():
        ctx.check(getattr(obj, name) == value, f"initial value of {name}", getattr(obj, name))
    cls = BINDING.cls(ctx, "Zeros")
    one, two = cls(), cls()
    expected = {"number": 0, "negative": 0, "flag": False, "text": "", "real": 0.0, "blob": b"", "variable": 0,
                "list": [], "packed_list": [], "maybe": None, "words": None, "inner": None, "rest": None,
                "conditional": None}
    for name, value in expected.items():
        got = getattr(one, "list" if name == "list" else name)
        ctx.check(got == value and (value is not None or got is None), f"default value of {name}", got)
    for name in ("maybe", "words", "inner", "rest", "conditional"):
        ctx.check(not getattr(one, f"is_{name}_used")() and not getattr(one, f"is_{name}_set")(), f"{name} is unset")
    byte = ctx.int("byte", 0, 255)
    one.blob.append(byte)
    one.list.append(byte)
    one.packed_list.append(1)
    ctx.check(two.blob == b"" and two.list == [] and two.packed_list == [], "objects share no state")
    third = cls()
    ctx.check(third.blob == b"" and third.list == [] and third.packed_list == [], "new objects start with defaults")
    ctx.check(two == third, "default objects are equal")
    ctx.check(ctx.eq(two.__hash__(), third.__hash__()), "default objects have equal hash codes")
    inner = BINDING.cls(ctx, "Inner")()
    ctx.check(inner.a == 3 and inner.b == 0, "inner defaults")
    ctx.reach("end")


def bitmasks(ctx, name, nbits, base):
    """Operators of bitmasks are those of their values."""
    cls = BINDING.cls(ctx, name)
    left, right = ctx.int("left", 0, (1 << nbits) - 1), ctx.int("right", 0, (1 << nbits) - 1)
    one, two = cls.from_value(left), cls.from_value(right)
    full = (1 << base) - 1
    ctx.check(ctx.eq((one | two).value, left | right), "or")
    ctx.check(ctx.eq((one & two).value, left & right), "and")
    ctx.check(ctx.eq((one ^ two).value, left ^ right), "xor")
    ctx.check(ctx.eq((~one).value, left ^ full), "complement")
    ctx.check(ctx.eq(bool(one == two), left == right), "equality")
    if one == two:
        ctx.check(ctx.eq(one.__hash__(), two.__hash__()), "hash code")
    ctx.check(ctx.eq(one.value, left), "operators do not change their operands")
    ctx.check(cls().value == 0, "default")
    items = {"Mask": {"A": 1, "B": 2, "C": 0x40}, "Vars": {"LOW": 1, "HIGH": 0x7000}, "Odd": {"X": 1, "Y": 1024}}
    for item, value in items[name].items():
        ctx.check(getattr(cls.Values, item).value == value, item)
    ctx.reach("end")


def jobs(tier):
    out = []
    pick = {type_.name: type_ for module in (models_structs, models_choices, models_optionals, models_params)
            for type_ in module.TOP}
    arrays = {type_.name: type_ for type_ in models_arrays.PLAIN}
    targets = [(STRUCTS, pick, ("Unsigned", "Signed", "Variable", "Floats", "Symbols", "Nested", "Holder", "Empty")),
               (CHOICES, pick, ("Plain", "WithDefault", "ByKind", "ByFlag", "ByBool", "Simple", "Checked", "EmptyDefault")),
               (OPTIONALS, pick, ("Conditional", "Dependent", "Extended", "AlignedOptional")),
               (PARAMS, pick, ("Leaf", "UsesStruct", "UsesEnum", "Row")),
               (ARRAYS, arrays, ("Fixed", "AutoLists", "Symbols", "Compounds"))]
    for binding, types, names in targets:
        for name in names:
            out.append(Job(f"equality-{binding.package}-{name}", equality, {"binding": binding, "type_": types[name]},
                           roots=binding.roots(), must_reach=["end"]))
    out.append(Job("equality-Plain", equality, {"binding": BINDING, "type_": SMALL, "fixed": ("b", "d", "f", "g", "h", "i", "k", "l", "m", "n")}, roots=BINDING.roots(),
                   must_reach=["end"]))
    for field in PLAIN.fields:
        out.append(Job(f"set-{field.name}", set_field, {"name": field.name}, roots=BINDING.roots(), must_reach=["end"]))
    binding, top = matrix("matrix_structs")
    for name, type_ in top.items():
        if name.endswith("Plain"):
            out.append(Job(f"equality-{name}", equality, {"binding": binding, "type_": type_}, roots=binding.roots(),
                           must_reach=["end"]))
    binding, top = matrix("matrix_optionals")
    for name in top:
        if name.endswith(("Opt", "If")) and not name.endswith(("ExtOpt", "ExtIf")):
            out.append(Job(f"indicators-{name}", indicators, {"name": name}, roots=binding.roots(), must_reach=["end"]))
    out.append(Job("set-branch", set_branch, {}, roots=CHOICES.roots(), must_reach=["end"]))
    out.append(Job("defaults", defaults, {}, roots=BINDING.roots(), must_reach=["end"]))
    for name, nbits, base in (("Mask", 8, 8), ("Odd", 11, 11), ("Vars", 15, 15)):
        out.append(Job(f"bitmask-{name}", bitmasks, {"name": name, "nbits": nbits, "base": base}, roots=BINDING.roots(),
                       must_reach=["end"]))
    return out
