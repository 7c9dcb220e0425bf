"""P11: objects of generated Python code and their JSON text."""

from . import models_structs, models_choices, models_optionals, models_params, models_arrays, models_constraints
from .gen_py import *
from .jsonref import RefJson, Number, Object
from .p10 import cps_of, letters
from .p20 import BINDING as STRUCTS
from .p21 import BINDING as CHOICES
from .p22 import BINDING as OPTIONALS
from .p24 import BINDING as ARRAYS
from .p25 import BINDING as PARAMS
from .p26 import BINDING as CONSTRAINTS

PROPERTY = "P11"
ASSUMPTIONS = SHARED["ASSUMPTIONS"] + ["text of floating point numbers: any text whose value by float() is the number"]
INFO = ("-withTypeInfoCode",)


def with_info(binding):
    return Binding(binding.schema, INFO + tuple(binding.options))


TARGETS = [(with_info(STRUCTS), models_structs.TOP, None), (with_info(CHOICES), models_choices.TOP, None),
           (with_info(OPTIONALS), models_optionals.TOP, None), (with_info(PARAMS), models_params.TOP, None),
           (with_info(ARRAYS), models_arrays.PLAIN, None)]
BOUNDS = (f"{sum(len(top) for _, top, _ in TARGETS)} types of the test schemas; one number at a time "
          "over its full range, the others one digit, strings of 0..2 arbitrary ASCII characters or 0..1 of any below U+0800; "
          "every indentation of 0..2 or none, names or numbers for enumerations and bitmasks; texts of up to 6 characters and numbers of up to 4 digits for them")


class Narrow:
    """One number of the value has its full range, the others ten values."""

    def __init__(self, focus):
        self.focus, self.count = focus, 0

    def next(self):
        self.count += 1
        return self.count - 1 == self.focus

    def peek(self):
        return self.count == self.focus

    def items(self, items):
        return items if self.next() else items[-1:]

    def number(self, ctx, label, low, high):
        if high - low < 10:
            return ctx.int(label, low, high)
        if self.next():
            return ctx.decimal_int(label, low, high)
        if low <= 0:
            return ctx.int(label, 0, min(high, 9))
        return ctx.int(label, low, low + 9)

    def character(self, ctx, label, high):
        if self.next():
            return ctx.int(label, 0, high)
        return ctx.int(label, 0x5D, 0x7F)


def mask_text(ctx, type_, value):
    """(number first, names) of a bitmask written as a string (forks)."""
    names, covered = [], 0
    for name, item in type_.items.items():
        inside = ctx.eq(value & item, item) if item else ctx.eq(value, 0)
        if ctx.choose_path(inside):
            names.append(name)
            covered |= item
    text = " | ".join(names)
    if not names:
        return True, " /* no match */"
    if ctx.choose_path(ctx.eq(value, covered)):
        return False, text
    return True, f" /* partial match: {text} */"


def same_json(ctx, type_, got, value, symbols):
    """The JSON value denotes the value."""
    if value is None:
        return got is None
    if isinstance(type_, Arr):
        return type(got) is list and len(got) == len(value) and ctx.land(
            True, *[same_json(ctx, type_.elem, a, b, symbols) for a, b in zip(got, value)])
    if isinstance(type_, (Bytes, Ext)):
        size = None
        if isinstance(type_, Ext):
            value, size = value
        keys = ["buffer"] + (["bitSize"] if size is not None else [])
        if not isinstance(got, Object) or ["".join(map(chr, key)) for key, _ in got] != keys:
            return False
        conds = [len(got[0][1]) == len(value)]
        conds += [ctx.eq(a.int_value(ctx), b) for a, b in zip(got[0][1], value)]
        if size is not None:
            conds.append(ctx.eq(got[1][1].int_value(ctx), size))
        return ctx.land(*conds)
    if isinstance(type_, Compound):
        if isinstance(type_, Struct):
            fields = [(field, value[field.name]) for field in type_.fields]
        else:
            fields = [] if value["branch"] is None else [(type_.field(value["branch"]), value["value"])]
        if not isinstance(got, Object) or ["".join(map(chr, key)) for key, _ in got] != [field.name for field, _ in fields]:
            return False
        return ctx.land(True, *[same_json(ctx, field.type, item, content, symbols)
                                for (_, item), (field, content) in zip(got, fields)])
    if isinstance(type_, Str):
        return type(got) is tuple and got[0] == "s" and len(got[1]) == len(value) and ctx.eq(got[1], value)
    if isinstance(type_, Bool):
        return got is bool(ctx.choose_path(value))
    if isinstance(type_, Flt):
        return isinstance(got, Number) and got.is_float and ctx.eq(
            ctx.float_bits(ctx.parse_float(got.cps)), value)
    if isinstance(type_, Enum) and symbols:
        name = next(name for name, item in type_.items.items() if item == value)
        return type(got) is tuple and got == ("s", [ord(char) for char in name])
    if isinstance(type_, Bitmask) and symbols:
        prefixed, text = mask_text(ctx, type_, value)
        if type(got) is not tuple or got[0] != "s":
            return False
        rest = got[1]
        if prefixed:
            count = len(rest) - len(text)
            if count < 1:
                return False
            ref = RefJson(ctx, rest[:count])
            if not ctx.choose_path(ctx.eq(ref.number().int_value(ctx), value)) or ref.pos != count:
                return False
            rest = rest[count:]
        return len(rest) == len(text) and ctx.eq(rest, [ord(char) for char in text])
    return isinstance(got, Number) and not got.is_float and ctx.eq(got.int_value(ctx), value)


def layout(ctx, spaces, indent):
    """White space between the tokens: one line per item and closing bracket, indented by the nesting level."""
    level, before = 0, None
    for index, (space, kind) in enumerate(spaces):
        text = "".join(map(chr, space))
        closing = kind in "]}"
        if closing:
            level -= 1
        if before == ":":
            expected = " "
        elif kind in ":,":
            expected = ""
        elif indent is None:
            expected = " " if before == "," else ""
        elif index == 0:
            expected = ""
        else:
            expected = "\n" + " " * (indent * level)
        if text != expected:
            return False
        if kind in "[{":
            level += 1
        before = kind
    return True


def json_roundtrip(ctx, binding, type_, formats, focus):
    """The text denotes the object and gives an equal object again."""
    ctx.narrow = Narrow(ctx.pick("focus", focus))
    params = type_.make_params(ctx, "p")
    value = type_.make(ctx, "v", params)
    if ctx.narrow.focus and ctx.narrow.count <= ctx.narrow.focus:
        ctx.assume(False)
    ctx.narrow = None
    obj = binding.build(ctx, type_, value)
    symbols, indent = ctx.pick("format", formats)
    json = ctx.module("zserio.json")
    if symbols:
        text = ctx.module("zserio.debugstring").to_json_string(obj, indent=indent)
    else:
        out = json.JsonWriter(enumerable_format=json.JsonEnumerableFormat.NUMBER, indent=indent)
        ctx.module("zserio.walker").Walker(out).walk(obj)
        text = out.get_io().getvalue()
    ref = RefJson(ctx, cps_of(text))
    got = ref.value()
    ctx.check(ref.pos == len(ref.cps), "nothing after the JSON object")
    ctx.check(same_json(ctx, type_, got, value, symbols), "the JSON text denotes the object")
    ctx.check(layout(ctx, ref.spaces, indent), "line breaks and indentation")
    args = [binding.build(ctx, ptype, params[name]) for name, ptype in type_.params]
    again = ctx.module("zserio.debugstring").from_json_string(binding.cls(ctx, type_.name), text, *args)
    ctx.check(binding.same(ctx, type_, again, value), "the object read from the text")
    ctx.check(again == obj, "the object read from the text is equal")
    ctx.reach("end")


SYMBOLS = next(type_ for type_ in models_structs.TOP if type_.name == "Symbols")


def symbol(name):
    return next(field for field in SYMBOLS.fields if field.name == name)


def read_field(ctx, binding, name, cps):
    """Reads an object with this field only: (object, exception)."""
    text = ctx.make_str([ord(char) for char in f'{{"{name}":'] + cps + [ord("}")])
    from_json = ctx.module("zserio.debugstring").from_json_string
    return ctx.attempt(lambda: from_json(binding.cls(ctx, SYMBOLS.name), text))


def refused(ctx, exc, also=()):
    ctx.check(exc is not None and type(exc).__name__ in ("PythonRuntimeException",) + tuple(also), "an invalid value is refused",
              repr(exc))


def enum_name(ctx, binding, count):
    """Exactly the names of the items are accepted for an enumeration."""
    field = symbol("dir")
    cps = [ctx.int(f"c[{index}]", 32, 126) for index in range(count)]
    for cp in cps:
        ctx.assume(ctx.land(cp != 34, cp != 92))
    obj, exc = read_field(ctx, binding, "dir", [34] + cps + [34])
    for name, item in field.type.items.items():
        if len(name) == count and ctx.choose_path(ctx.eq(cps, [ord(char) for char in name])):
            ctx.check(exc is None and ctx.eq(obj.dir.value, item), "the item of the name", repr(exc))
            ctx.reach("named")
            return
    refused(ctx, exc)
    ctx.reach("refused")


def enum_number(ctx, binding, name, prefix, count):
    """Exactly the values of the items are accepted for an enumeration."""
    field = symbol(name)
    digits = [ctx.int(f"digit[{index}]", 48, 57) for index in range(count)]
    if not prefix.strip("-"):
        ctx.assume(digits[0] > 48)
    obj, exc = read_field(ctx, binding, name, [ord(char) for char in prefix] + digits)
    value = ctx.decimal([ord(char) for char in prefix.strip("-")] + digits)
    if prefix.startswith("-"):
        value = -value
    for item in field.type.items.values():
        if ctx.choose_path(ctx.eq(value, item)):
            ctx.check(exc is None and ctx.eq(getattr(obj, name).value, item), "the item of the value", repr(exc))
            ctx.reach("valid")
            return
    refused(ctx, exc, ["ValueError"])
    ctx.reach("refused")


def mask_string(ctx, binding, count, alphabet):
    """A bitmask is read from names joined by |, or from a number which may be followed by a comment."""
    cps = letters(ctx, count, alphabet)
    obj, exc = read_field(ctx, binding, "wide", [34] + cps + [34])
    items = {name: item for name, item in symbol("wide").type.items.items()}

    def is_(cp, char):
        return ctx.choose_path(ctx.eq(cp, ord(char)))

    if cps and ctx.choose_path(ctx.land(cps[0] >= 48, cps[0] <= 57)):
        end = 1
        while end < count and ctx.choose_path(ctx.land(cps[end] >= 48, cps[end] <= 57)):
            end += 1
        value = ctx.decimal(cps[:end])
        if ctx.choose_path(value < 4096):
            ctx.check(exc is None and ctx.eq(obj.wide.value, value), "the bitmask of the number", repr(exc))
            ctx.reach("number")
        else:
            refused(ctx, exc, ["ValueError"])
        return
    value, part, parts = 0, [], []
    for cp in cps:
        if is_(cp, "|"):
            parts.append(part)
            part = []
        else:
            part.append(cp)
    for part in parts + [part]:
        while part and is_(part[0], " "):
            part = part[1:]
        while part and is_(part[-1], " "):
            part = part[:-1]
        for name, item in items.items():
            if len(part) == len(name) and all(is_(cp, char) for cp, char in zip(part, name)):
                value |= item
                break
        else:
            refused(ctx, exc)
            ctx.reach("refused")
            return
    if exc is not None:
        # a text starting with white space is no list of names
        ctx.check(is_(cps[0], " "), "a list of names is accepted", repr(exc))
        refused(ctx, exc)
        return
    ctx.check(ctx.eq(obj.wide.value, value), "the bitmask of the names")
    ctx.reach("names")


def mask_number(ctx, binding):
    value = ctx.decimal_int("value", -5, 1 << 13)
    text = ctx.module("zserio.json").JsonEncoder().encode_value(value)
    obj, exc = read_field(ctx, binding, "wide", cps_of(text))
    if ctx.choose_path(ctx.land(value >= 0, value < 4096)):
        ctx.check(exc is None and ctx.eq(obj.wide.value, value), "the bitmask of the number", repr(exc))
        ctx.reach("valid")
    else:
        refused(ctx, exc, ["ValueError"])
        ctx.reach("refused")


def reading_jobs(binding, deep):
    out = []
    roots = binding.roots()
    for count in range(0, 7):
        out.append(Job(f"enum-name{count}", enum_name, {"binding": binding, "count": count}, roots=roots,
                       must_reach=["named", "refused"] if count in (4, 5) else ["refused"]))
    for name, prefix, count, reach in (("dir", "", 1, True), ("dir", "", 2, False), ("dir", "-", 1, False),
                                       ("level", "-", 2, False), ("level", "-1", 2, True), ("level", "81", 2, True),
                                       ("level", "8", 2, False)):
        out.append(Job(f"enum-number-{name}{prefix}{count}", enum_number,
                       {"binding": binding, "name": name, "prefix": prefix, "count": count}, roots=roots,
                       must_reach=["valid", "refused"] if reach else ["refused"]))
    for count in range(0, 7 if deep else 5):
        out.append(Job(f"mask-string{count}", mask_string, {"binding": binding, "count": count, "alphabet": "AB| 1x"},
                       roots=roots, must_reach=["refused"] + (["number", "names"] if count else [])))
        if count:
            out.append(Job(f"mask-digits{count}", mask_string,
                           {"binding": binding, "count": count, "alphabet": "0123456789 /"}, roots=roots,
                           must_reach=["number"]))
    out.append(Job("mask-number", mask_number, {"binding": binding}, roots=roots, must_reach=["valid", "refused"]))
    return out


def jobs(tier):
    out = reading_jobs(with_info(STRUCTS), tier == "thorough")
    deep = tier == "thorough"
    formats = [(True, 2), (False, None)] if not deep else [(True, 4), (True, None), (True, 0), (False, 2), (False, None)]
    for binding, top, skip in TARGETS:
        for type_ in top:
            for focus in range(0, 12):
                out.append(Job(f"{binding.package}-{type_.name}-{focus}", json_roundtrip,
                               {"binding": binding, "type_": type_, "formats": formats,
                                "focus": [focus]},
                               roots=binding.roots(), must_reach=[] if focus else ["end"]))
    return out
