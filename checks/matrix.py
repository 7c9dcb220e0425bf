"""
Systematic combinations of language features: one description gives the zserio text and the reference model.

A carrier is a compound with a field under test; it is used at top level, as an element of an array, of a packed array
(directly and within another structure). python3-vt -m checks.matrix writes schemas/matrix_*/matrix_*.zs.
"""

import os

from .model import *

PRELUDE = """
enum uint8 Color { NONE = 0, RED = 3, BLUE = 200 };
enum varint Far { LOW = -9223372036854775808, ZERO = 0, HIGH = 9223372036854775807 };
enum int:9 Odd { MINUS = -256, PLUS = 255 };
enum bit:64 Huge { ZERO = 0, TOP = 0xFFFFFFFFFFFFFFFF };
bitmask uint16 Mask { A, B, C = 0x8000 };
bitmask varuint Far2 { LOW = 1, HIGH = 0x8000000000000000 };

struct Point { int16 x; bit:5 y; };
struct Texty { string text; bool flag; };
struct Maybe { optional uint8 a; bit:2 b; };
struct Sized(uint8 size) { bit:4 list[size]; };
union Either { uint16 number; string text; Point point; };
choice Pick(uint8 tag) on tag { case 0: uint16 number; case 1: Point point; default: ; };
"""

U8, U16, U32, U64 = Bits(8), Bits(16), Bits(32), Bits(64)
COLOR = Enum("Color", U8, {"NONE": 0, "RED": 3, "BLUE": 200})
FAR = Enum("Far", Var("varint"), {"LOW": -(1 << 63), "ZERO": 0, "HIGH": (1 << 63) - 1})
ODD = Enum("Odd", Bits(9, True), {"MINUS": -256, "PLUS": 255})
HUGE = Enum("Huge", Bits(64), {"ZERO": 0, "TOP": (1 << 64) - 1})
MASK = Bitmask("Mask", U16, {"A": 1, "B": 2, "C": 0x8000})
FAR2 = Bitmask("Far2", Var("varuint"), {"LOW": 1, "HIGH": 1 << 63})
POINT = Struct("Point", [Field("x", Bits(16, True)), Field("y", Bits(5))])
FEW_POINT = Struct("Point", [Field("x", few(Bits(16, True), (-1, 300))), Field("y", few(Bits(5), (0, 31)))])
TEXTY = Struct("Texty", [Field("text", Str((0, 1))), Field("flag", Bool())])
MAYBE = Struct("Maybe", [Field("a", few(U8, (0, 255)), optional=True), Field("b", Bits(2))])
FEW_MAYBE = Struct("Maybe", [Field("a", few(U8, (9,)), optional=True), Field("b", few(Bits(2), (2,)))])
SIZED = Struct("Sized", [Field("list", Arr(Bits(4), lambda s: s.size))], [("size", U8)])
EITHER = Union("Either", [Field("number", few(U16, (0, 999))), Field("text", Str((0, 1))), Field("point", FEW_POINT)])
PICK = Choice("Pick", [("tag", U8)], lambda s: s.tag, [
    ((0,), Field("number", few(U16, (0, 999)))), ((1,), Field("point", FEW_POINT)), (None, None)])
TINY_POINT = Struct("Point", [Field("x", few(Bits(16, True), (-1,))), Field("y", few(Bits(5), (0, 31)))])
TINY_EITHER = Union("Either", [Field("number", few(U16, (999,))), Field("text", Str((1,))), Field("point", TINY_POINT)])
TINY_PICK = Choice("Pick", [("tag", U8)], lambda s: s.tag, [
    ((0,), Field("number", few(U16, (999,)))), ((1,), Field("point", TINY_POINT)), (None, None)])


class Kind:
    """Type of a field under test: text before and after the name, model, model for packed arrays, constraint."""

    def __init__(self, text, type_, *, post="", small=None, cond=None, test=None, args=None):
        self.text, self.type, self.post, self.small = text, type_, post, small or type_
        self.cond, self.test, self.args = cond, test, args


def two(elem, **kwargs):
    return Arr(elem, lambda s: 2, lens=(2,), **kwargs)


NUMBERS = {
    "Byte": Kind("uint8", U8, cond="{0} < 100", test=lambda v: v < 100),
    "Word": Kind("uint16", U16, small=few(U16, (7, 999, 65535)), cond="{0} != 999", test=lambda v: v != 999),
    "Long": Kind("uint64", U64, small=few(U64, (1, 2, 1 << 63)), cond="{0} < 5000000000", test=lambda v: v < 5000000000),
    "Signed": Kind("int32", Bits(32, True), small=few(Bits(32, True), (-70000, -1, 5)), cond="{0} > -100", test=lambda v: v > -100),
    "Odd": Kind("int:5", Bits(5, True), cond="({0} & 1) == 1", test=lambda v: (v & 1) == 1),
    "Eleven": Kind("bit:11", Bits(11), small=few(Bits(11), (0, 2047)), cond="{0} >= 1000", test=lambda v: v >= 1000),
    "Var": Kind("varint32", Var("varint32"), small=few(Var("varint32"), (-1, 63, 100000)), cond="{0} <= 63", test=lambda v: v <= 63),
    "Varu": Kind("varuint", Var("varuint"), small=few(Var("varuint"), (5, 127, 1 << 40)), cond="{0} == 5", test=lambda v: v == 5),
    "Dyn": Kind("bit<width + 3>", Dyn(lambda s: s.width + 3, widths=(3, 4)), small=few(Dyn(lambda s: s.width + 3, widths=(3, 4)), (0, 6)), cond="{0} > 3", test=lambda v: v > 3),
    "DynSigned": Kind("int<width + 3>", Dyn(lambda s: s.width + 3, True, widths=(3, 4)), small=few(Dyn(lambda s: s.width + 3, True, widths=(3, 4)), (-2, 3)), cond="{0} < 3", test=lambda v: v < 3),
}
SYMBOLS = {
    "Enum": Kind("Color", COLOR, cond="{0} != Color.RED", test=lambda v: v != 3),
    "FarEnum": Kind("Far", FAR, cond="{0} == Far.LOW", test=lambda v: v == -(1 << 63)),
    "OddEnum": Kind("Odd", ODD, cond="{0} == Odd.PLUS", test=lambda v: v == 255),
    "HugeEnum": Kind("Huge", HUGE, cond="{0} == Huge.TOP", test=lambda v: v == (1 << 64) - 1),
    "Mask": Kind("Mask", MASK, small=few(MASK, (0, 3, 0x8001)), cond="({0} & Mask.A) == Mask.A", test=lambda v: (v & 1) == 1),
    "FarMask": Kind("Far2", FAR2, small=few(FAR2, (0, 1, 1 << 63)), cond="{0} != Far2.LOW", test=lambda v: v != 1),
}
OTHERS = {
    "Bool": Kind("bool", Bool(), cond="{0}", test=lambda v: v),
    "Half": Kind("float16", Flt(16), small=few(Flt(16), (1023 << 52,))),
    "Float": Kind("float32", Flt(32), small=few(Flt(32), (1023 << 52,))),
    "Double": Kind("float64", Flt(64), small=few(Flt(64), (1023 << 52,))),
    "Str": Kind("string", Str((0, 1)), cond="lengthof({0}) > 0", test=lambda v: len(v) > 0),
    "Blob": Kind("bytes", Bytes((0, 2))),
    "Extern": Kind("extern", Ext((0, 11))),
}
COMPOUNDS = {
    "Point": Kind("Point", POINT, small=FEW_POINT, cond="{0}.y > 0", test=lambda v: v.y > 0),
    "Texty": Kind("Texty", TEXTY, cond="lengthof({0}.text) != 0", test=lambda v: len(v.text) != 0),
    "Maybe": Kind("Maybe", MAYBE, cond="{0}.b != 3", test=lambda v: v.b != 3),
    "Sized": Kind("Sized(width)", SIZED, args=lambda s: {"size": s.width}),
    "Either": Kind("Either", EITHER, small=TINY_EITHER),
    "Pick": Kind("Pick(width)", PICK, small=TINY_PICK, args=lambda s: {"tag": s.width}),
}
ARRAYS = {
    "AutoWord": Kind("uint16", Arr(U16), post="[]", small=Arr(few(U16, (5, 600)), lens=(1, 2)), cond="lengthof({0}) != 1", test=lambda v: len(v) != 1),
    "FixedOdd": Kind("int:5", two(Bits(5, True)), post="[2]", small=two(few(Bits(5, True), (-16, 15))), cond="{0}[1] > 0", test=lambda v: v[1] > 0),
    "ExprByte": Kind("uint8", Arr(U8, lambda s: s.width, lens=(0, 1)), post="[width]"),
    "AutoStr": Kind("string", Arr(Str((0, 1)), lens=(0, 2)), post="[]", small=Arr(Str((1,)), lens=(0, 1))),
    "AutoBool": Kind("bool", Arr(Bool()), post="[]", small=Arr(Bool(), lens=(1,))),
    "FixedFloat": Kind("float32", two(Flt(32)), post="[2]", small=two(few(Flt(32), (1023 << 52,)))),
    "AutoBlob": Kind("bytes", Arr(Bytes((0, 1)), lens=(0, 2)), post="[]", small=Arr(Bytes((1,)), lens=(1,))),
    "AutoEnum": Kind("Color", Arr(COLOR, lens=(0, 2)), post="[]", small=Arr(few(COLOR, (3,)), lens=(0, 2))),
    "AutoMask": Kind("Mask", Arr(MASK, lens=(0, 2)), post="[]", small=Arr(few(MASK, (3, 5)), lens=(1,))),
    "AutoVar": Kind("varuint32", Arr(few(Var("varuint32"), (5, 128, 1 << 20)), lens=(0, 2)), post="[]",
                    small=Arr(few(Var("varuint32"), (5, 128)), lens=(2,))),
    "AutoPoint": Kind("Point", Arr(POINT, lens=(0, 2)), post="[]", small=Arr(FEW_POINT, lens=(1,))),
    "FixedMaybe": Kind("Maybe", two(MAYBE), post="[2]", small=two(FEW_MAYBE)),
    "AutoSized": Kind("Sized(@index)", Arr(SIZED, lens=(0, 2)), post="[]", args=lambda s, i: {"size": i}),
    "AutoEither": Kind("Either", Arr(EITHER, lens=(0, 2)), post="[]", small=Arr(TINY_EITHER, lens=(1,))),
    "PackWord": Kind("packed uint16", Arr(few(U16, (5, 600, 601)), packed=True, lens=(0, 1, 2)), post="[]",
                     small=Arr(few(U16, (5, 600)), packed=True, lens=(2,))),
    "PackFixed": Kind("packed int8", two(Bits(8, True), packed=True), post="[2]",
                      small=two(few(Bits(8, True), (-3, 3)), packed=True)),
    "PackPoint": Kind("packed Point", Arr(FEW_POINT, packed=True, lens=(0, 2)), post="[]",
                      small=Arr(FEW_POINT, packed=True, lens=(1,))),
    "PackMaybe": Kind("packed Maybe", Arr(MAYBE, packed=True, lens=(2,)), post="[]", small=Arr(MAYBE, packed=True, lens=(1,))),
    "PackEnum": Kind("packed Far", Arr(FAR, packed=True, lens=(0, 2, 3)), post="[]", small=Arr(few(FAR, (0,)), packed=True, lens=(2,))),
    "PackMask": Kind("packed Far2", Arr(few(FAR2, (0, 1 << 63, 255)), packed=True, lens=(2, 3)), post="[]",
                     small=Arr(few(FAR2, (0, 1)), packed=True, lens=(2,))),
}
ALL = {**NUMBERS, **SYMBOLS, **OTHERS, **COMPOUNDS, **ARRAYS}
SINGLE = {**NUMBERS, **SYMBOLS, **OTHERS, **COMPOUNDS}


class Text:
    """Text of a schema under construction with the models of its types."""

    def __init__(self, package):
        self.package, self.parts = package, [f"/* generated by python3-vt -m checks.matrix */\npackage {package};\n", PRELUDE]
        self.top = {}

    def add(self, text, *models):
        self.parts.append(text)
        for model in models:
            self.top[model.name] = model

    def text(self):
        return "\n".join(self.parts)

    # ---- carriers

    def struct(self, name, lines, fields, params=(), ptext=""):
        body = "\n".join("    " + line for line in lines)
        model = Struct(name, fields, params)
        self.add(f"struct {name}{ptext}\n{{\n{body}\n}};\n", model)
        return model

    def wrap(self, name, model, small, contexts, arg="", args=None, prefix=(), prefix_fields=()):
        """Structures using a carrier in arrays; arg: text of its arguments."""
        made = []
        lines, fields = list(prefix), list(prefix_fields)
        pack = {"arr": ("", False), "pack": ("packed ", True)}
        for context in contexts:
            wrapper = f"{name}{context.capitalize()}"
            if context in pack:
                text, packed = pack[context]
                made.append(self.struct(
                    wrapper, lines + ["bit:3 gap;", f"{text}{model.name}{arg} items[2];"],
                    fields + [Field("gap", Bits(3)), Field("items", two(small, packed=packed), args=args)]))
            elif context == "nest":
                outer = self.struct(f"{name}Outer", lines + [f"{model.name}{arg} inner;", "bit:2 t;"],
                                    fields + [Field("inner", small, args=args), Field("t", few(Bits(2), (0, 3)))])
                del self.top[outer.name]
                made.append(self.struct(
                    wrapper, ["bit:3 gap;", f"packed {outer.name} items[2];"],
                    [Field("gap", few(Bits(3), (5,))), Field("items", two(outer, packed=True))]))
        return made


def uses_width(kind):
    return not getattr(kind, "declared", False) and "width" in kind.text + kind.post


def carrier(schema, name, kind, *, presence="", before=(), extra="", align=0, offset=None, constraint=False, contexts=(),
            extended=False):
    """
    Structure with one field of the kind; presence: "", "optional", "if"; before: lines and fields put before; returns
    the model. The variants with few values are used in arrays.
    """
    def build(small):
        lines, fields = [], []
        for line, field in before:
            lines.append(line)
            fields.append(field)
        if uses_width(kind):
            lines.append("bit:1 width;")
            fields.append(Field("width", Bits(1)))
        if presence == "if":
            lines.append("bool has;")
            fields.append(Field("has", Bool()))
        if align:
            lines.append(f"align({align}):")
        if offset:
            lines.append(f"{offset[0]}:")
        text = ("extend " if extended else "") + ("optional " if presence == "optional" else "")
        text += f"{kind.text} value{kind.post}"
        if presence == "if":
            text += " if has"
        if constraint:
            text += " : " + kind.cond.format("value")
        lines.append(text + ";")
        fields.append(Field("value", kind.small if small else kind.type, optional=presence == "optional",
                            cond=(lambda s: s.has) if presence == "if" else None, align=align,
                            offset=offset[1] if offset else None, indexed=bool(offset and len(offset) > 2),
                            constraint=(lambda s: kind.test(s.value)) if constraint else None, args=kind.args,
                            extended=extended))
        if not extended:
            lines.append("bit:1 tail;")
            fields.append(Field("tail", few(Bits(1), (0, 1)) if small else Bits(1)))
        return lines, fields

    lines, fields = build(False)
    model = schema.struct(name, lines, fields)
    if contexts:
        schema.wrap(name, model, Struct(name, build(True)[1]), contexts)
    return model


# ---- schemas

def optionals():
    """P22: every kind, optional, conditional, with alignment, extended."""
    schema = Text("matrix_optionals")
    gap = ("bit:3 gap;", Field("gap", few(Bits(3), (5,))))
    for name, kind in ALL.items():
        carrier(schema, f"{name}Opt", kind, presence="optional", contexts=("pack",))
        carrier(schema, f"{name}If", kind, presence="if", contexts=("pack",))
        carrier(schema, f"{name}OptAlign", kind, presence="optional", before=[gap], align=16)
        carrier(schema, f"{name}Ext", kind, before=[gap], extended=True)
        carrier(schema, f"{name}ExtOpt", kind, before=[gap], extended=True, presence="optional", align=32)
        carrier(schema, f"{name}ExtIf", kind, before=[gap], extended=True, presence="if")
    return schema


def constraints():
    """P26: every kind with a constraint, plain, optional and conditional, in arrays, choices and unions."""
    schema = Text("matrix_constraints")
    for name, kind in ALL.items():
        if kind.cond is None:
            continue
        carrier(schema, f"{name}Plain", kind, constraint=True, contexts=("arr", "pack"))
        carrier(schema, f"{name}Opt", kind, presence="optional", constraint=True, contexts=("pack",))
        carrier(schema, f"{name}If", kind, presence="if", constraint=True, contexts=("nest",))
        carrier(schema, f"{name}Ext", kind, extended=True, constraint=True)
        branches(schema, name, kind, constraint=True)
    return schema


def branches(schema, name, kind, *, constraint=False, contexts=("pack",)):
    """A choice and a union with a branch of the kind."""
    if uses_width(kind) or "@index" in kind.text:
        return
    cond = " : " + kind.cond.format("value") if constraint else ""
    test = (lambda s: kind.test(s.value)) if constraint else None

    def fields(small):
        value = Field("value", kind.small if small else kind.type, constraint=test, args=kind.args)
        return value, Field("other", few(Bits(7), (0, 127)) if small else Bits(7))

    def models(small):
        value, other = fields(small)
        choice = Choice(f"{name}Choice", [("tag", U8)], lambda s: s.tag, [((1,), value), ((2, 3), other), (None, None)])
        union = Union(f"{name}Union", [other, value])
        return choice, union

    choice, union = models(False)
    schema.add(f"choice {choice.name}(uint8 tag) on tag\n{{\n    case 1:\n        {kind.text} value{kind.post}{cond};\n"
               f"    case 2:\n    case 3:\n        bit:7 other;\n    default:\n        ;\n}};\n", choice)
    schema.add(f"union {union.name}\n{{\n    bit:7 other;\n    {kind.text} value{kind.post}{cond};\n}};\n", union)
    small_choice, small_union = models(True)
    for context in contexts:
        packed = context == "pack"
        text = "packed " if packed else ""
        schema.struct(f"{name}Choice{context.capitalize()}",
                      ["uint8 tags[2];", f"{text}{choice.name}(tags[@index]) items[2];"],
                      [Field("tags", two(few(U8, (0, 1, 2)))),
                       Field("items", two(small_choice, packed=packed), args=lambda s, i: {"tag": s.raw_("tags")[i]})])
        schema.struct(f"{name}Union{context.capitalize()}", ["bit:2 gap;", f"{text}{union.name} items[2];"],
                      [Field("gap", few(Bits(2), (2,))), Field("items", two(small_union, packed=packed))])


def choices():
    """P21: every kind as a branch, every kind of selector."""
    schema = Text("matrix_choices")
    for name, kind in ALL.items():
        branches(schema, name, kind)
    selectors = {
        "Byte": ("uint8", U8, [(0,), (255,)]), "Signed": ("int8", Bits(8, True), [(-128, 5), (127,)]),
        "Long": ("uint64", U64, [((1 << 64) - 1,), (0, 1)]), "SignedLong": ("int64", Bits(64, True), [(-(1 << 63) + 1,), (5,)]),
        "Odd": ("bit:3", Bits(3), [(7, 0), (1,)]), "Var": ("varint16", Var("varint16"), [(-5,), (100, 5)]),
        "Varu": ("varuint", Var("varuint"), [(1 << 63,), (3,)]), "Bool": ("bool", Bool(), [("true",), ("false",)]),
        "Enum": ("Color", COLOR, [("RED", "NONE"), ("BLUE",)]), "Far": ("Far", FAR, [("LOW",), ("HIGH", "ZERO")]),
        "Mask": ("Mask", MASK, [("A",), ("C", "B")]),
    }
    for name, (text, type_, groups) in selectors.items():
        for default in ("", "none", "field"):
            if default and name == "Bool":
                continue
            lines, cases = [], []
            for number, group in enumerate(groups):
                lines += [f"    case {value}:" for value in group]
                field = Field(f"f{number}", Bits(5 + 3 * number))
                lines.append(f"        bit:{5 + 3 * number} f{number};")
                values = tuple(type_.items[value] if isinstance(type_, (Enum, Bitmask)) else
                               {"true": True, "false": False}.get(value, value) for value in group)
                cases.append((values, field))
            if default == "none":
                lines.append("    default:\n        ;")
                cases.append((None, None))
            elif default == "field":
                lines.append("    default:\n        varint16 other;")
                cases.append((None, Field("other", Var("varint16"))))
            model = Choice(f"On{name}{default.capitalize()}", [("sel", type_)], lambda s: s.sel, cases)
            body = "\n".join(lines)
            schema.add(f"choice {model.name}({text} sel) on sel\n{{\n{body}\n}};\n", model)
    return schema


def arrays():
    """P24: arrays of every kind of element, automatic, fixed, with an expression and packed."""
    schema = Text("matrix_arrays")
    for name, kind in SINGLE.items():
        if uses_width(kind) and kind.args is None:
            continue
        before = [("bit:1 width;", Field("width", Bits(1)))] if uses_width(kind) else []
        args = (lambda kind: lambda s, i: kind.args(s))(kind) if kind.args else None
        for packed in ("", "packed "):
            elem = kind.small if packed else kind.type
            tag = "Pack" if packed else ""
            wide = (0, 1, 2, 3) if name in ("Byte", "Odd", "Bool", "Enum") else (0, 1, 2)
            variants = {"Auto": ("[]", Arr(elem, packed=bool(packed), lens=wide), []),
                        "Fixed": ("[2]", two(elem, packed=bool(packed)), []),
                        "Expr": ("[size + 1]", Arr(elem, lambda s: s.size + 1, packed=bool(packed), lens=(1, 2)),
                                 [("bit:1 size;", Field("size", Bits(1)))])}
            for variant, (post, type_, more) in variants.items():
                full = Kind(packed + kind.text.replace("(width)", "(width)"), type_, post=post, args=args)
                lines = before if uses_width(kind) else []
                carrier(schema, f"{name}{variant}{tag}", Kind(full.text, type_, post=post, args=args) if not lines else
                        _plain(full), before=lines + more,
                        contexts=("arr",) if variant == "Auto" and not packed and name in ("Odd", "Str", "Maybe") else ())
    for name, kind in ARRAYS.items():
        carrier(schema, f"{name}In", kind, contexts=("pack", "nest"))
    return schema


class _plain(Kind):  # pylint: disable=invalid-name
    """Kind whose width field is declared by the caller."""

    def __init__(self, kind):
        super().__init__(kind.text, kind.type, post=kind.post, small=kind.small, args=kind.args)
        self.declared = True


HEAVY = ("Dyn", "DynSigned", "Maybe", "Pick")


def layout():
    """P23: alignments and offsets with every kind, in arrays and packed arrays."""
    schema = Text("matrix_layout")
    gap = ("bit:3 gap;", Field("gap", few(Bits(3), (5,))))

    def where(text, type_):
        return (f"{text} where;", Field("where", type_, nopack=True))

    own = ("where", lambda s: (s.values_(), "where"))
    sizes = [("uint32", U32), ("uint16", U16), ("uint64", U64), ("bit:29", Bits(29)), ("bit:12", Bits(12))]
    for number, (name, kind) in enumerate(ALL.items()):
        presence = ("", "optional", "if")[number % 3]
        later = ("", "optional", "if")[(number + 1) % 3]
        align = (8, 16, 32, 64, 128)[number % 5]
        size = sizes[number % len(sizes)]
        array = name in ARRAYS
        carrier(schema, f"{name}Align", kind, presence=presence, before=[gap], align=align, contexts=("arr", "pack"))
        carrier(schema, f"{name}Off", kind, presence=later, before=[where(*size), gap], offset=own,
                contexts=("pack",) if array or name in HEAVY else ("arr", "pack", "nest"))
        if number % 4 == 0:
            carrier(schema, f"{name}Both", kind, presence=presence, before=[where(*size), gap], offset=own, align=align,
                    contexts=("pack",))
        if array and "Arr" in type(kind.type).__name__ and callable(kind.type.length) and not uses_width(kind) \
                and kind.type.lens == (2,):
            text, type_ = sizes[number % 3]
            carrier(schema, f"{name}Index", kind, presence=later,
                    before=[(f"{text} offsets[2];", Field("offsets", two(type_), nopack=True)), gap],
                    offset=("offsets[@index]", lambda s: s.raw_("offsets"), True), contexts=("arr", "pack"))
    return schema


def params():
    """P25: every kind of parameter and argument in every context."""
    schema = Text("matrix_params")
    kinds = {"Byte": ("uint8", U8), "Signed": ("int16", Bits(16, True)), "Long": ("uint64", U64), "Odd": ("bit:3", Bits(3)),
             "Var": ("varuint32", Var("varuint32")), "Bool": ("bool", Bool()), "Enum": ("Color", COLOR), "Mask": ("Mask", MASK),
             "Half": ("float16", Flt(16)), "Str": ("string", Str((0, 1))), "Point": ("Point", FEW_POINT)}
    uses = {"Byte": ("p > 100", lambda s: s.p > 100), "Signed": ("p < 0", lambda s: s.p < 0),
            "Long": ("p == 0x8000000000000000", lambda s: s.p == 1 << 63), "Odd": ("p == 5", lambda s: s.p == 5),
            "Var": ("p >= 300", lambda s: s.p >= 300), "Bool": ("!p", lambda s: s.p == 0),
            "Enum": ("p == Color.RED", lambda s: s.p == 3), "Mask": ("(p & Mask.B) == Mask.B", lambda s: (s.p & 2) == 2),
            "Str": ("lengthof(p) == 0", lambda s: len(s.p) == 0), "Point": ("p.x > 0", lambda s: s.p.x > 0),
            "Half": ("p > 1.5", lambda s: s.p > (1023 << 52 | 1 << 51))}
    for name, (text, type_) in kinds.items():
        if name == "Half":
            continue  # comparison of floats is not modelled
        small = {"Byte": few(U8, (100, 101)), "Signed": few(Bits(16, True), (-1, 0)), "Long": few(U64, (1 << 63, 7)),
                 "Odd": few(Bits(3), (5, 6)), "Var": few(Var("varuint32"), (299, 300)), "Mask": few(MASK, (2, 4)),
                 "Str": Str((0, 1)), "Point": FEW_POINT, "Bool": few(Bool(), (True, False)),
                 "Enum": few(COLOR, (3, 200))}[name]
        cond, test = uses[name]

        def leaf(some, name=name, type_=type_, test=test):
            return Struct(f"{name}Leaf", [Field("a", few(U16, (5, 600)) if some else U16, cond=test), Field("b", Bits(3))],
                          [("n", Bits(8, high=254)), ("p", type_)])

        model = leaf(False)
        schema.add(f"struct {model.name}(uint8 n, {text} p)\n{{\n    uint16 a if {cond};\n    bit:3 b;\n}};\n", model)
        some = leaf(True)
        some.fields[1].type = few(Bits(3), (0, 7))
        schema.struct(f"{name}Single", [f"{text} source;", f"{model.name}(7, source) value;", f"{model.name}(8, source) more;"],
                      [Field("source", type_), Field("value", model, args=lambda s: {"n": 7, "p": s.raw_("source")}),
                       Field("more", some, args=lambda s: {"n": 8, "p": s.raw_("source")})])
        for tag, pack in (("", ""), ("Pack", "packed ")):
            schema.struct(f"{name}Each{tag}", [f"{text} sources[2];", f"{pack}{model.name}(@index, sources[1 - @index]) items[2];"],
                          [Field("sources", two(small)),
                           Field("items", two(some, packed=bool(pack)),
                                 args=lambda s, i: {"n": i, "p": s.raw_("sources")[1 - i]})])
            schema.struct(f"{name}Opt{tag}", [f"optional {text} source;", f"bit:2 g;",
                                              f"{pack}{model.name}(3, source) items[2] if isset(g, 0);"]
                          if False else [f"{text} source;", f"optional {pack}{model.name}(3, source) items[];"],
                          [Field("source", small), Field("items", Arr(some, packed=bool(pack)), optional=True,
                                                         args=lambda s, i: {"n": 3, "p": s.raw_("source")})])
        # parameters passed through two levels, within packed arrays
        outer = f"{name}Outer"
        schema.struct(outer, [f"{model.name}(n + 1, p) inner;", "bit:2 t;"],
                      [Field("inner", some, args=lambda s: {"n": s.n + 1, "p": s.raw_("p")}), Field("t", few(Bits(2), (1,)))],
                      [("n", few(U8, (3,))), ("p", small)], f"(uint8 n, {text} p)")
        outer_model = schema.top[outer]
        schema.struct(f"{name}Deep", [f"{text} source;", f"packed {outer}(@index, source) items[2];"],
                      [Field("source", small), Field("items", two(outer_model, packed=True),
                                                     args=lambda s, i: {"n": i, "p": s.raw_("source")})])
        schema.add(f"choice {name}Branch(uint8 n, {text} p) on n\n{{\n    case 1:\n        {model.name}(n, p) value;\n"
                   f"    default:\n        {model.name}(n * 2, p) list[n];\n}};\n",
                   Choice(f"{name}Branch", [("n", few(U8, (0, 1, 2))), ("p", small)], lambda s: s.n,
                          [((1,), Field("value", some, args=lambda s: {"n": s.n, "p": s.raw_("p")})),
                           (None, Field("list", Arr(some, lambda s: s.n, lens=(0, 2)),
                                        args=lambda s, i: {"n": s.n * 2, "p": s.raw_("p")}))]))
    # element index as the first, the second and a computed argument
    schema.struct("Indexed", ["uint8 a if one == 0;", "bit:4 b if two == 1;", "uint8 c;"],
                  [Field("a", few(U8, (1, 9)), cond=lambda s: s.one == 0), Field("b", few(Bits(4), (1, 9)), cond=lambda s: s.two == 1),
                   Field("c", few(U8, (1, 9)))], [("one", Bits(32)), ("two", Bits(32))], "(uint32 one, uint32 two)")
    model = schema.top["Indexed"]
    for tag, pack in (("", ""), ("Pack", "packed ")):
        for name, text, args in (("First", "@index, 5", lambda s, i: {"one": i, "two": 5}),
                                 ("Second", "5, @index", lambda s, i: {"one": 5, "two": i}),
                                 ("Twice", "@index, @index", lambda s, i: {"one": i, "two": i}),
                                 ("Sum", "@index + gap, 2 - @index", lambda s, i: {"one": i + s.gap, "two": 2 - i})):
            schema.struct(f"Index{name}{tag}", ["bit:2 gap;", f"{pack}Indexed({text}) items[3];"],
                          [Field("gap", few(Bits(2), (0, 1)) if pack else Bits(2)),
                           Field("items", Arr(model, lambda s: 3, packed=bool(pack), lens=(3,)), args=args)])
    mask = schema.top["MaskLeaf"]
    schema.struct("MaskLiteral", ["MaskLeaf(1, Mask.A | Mask.B) value;", "MaskLeaf(2, Mask.A) more;"],
                  [Field("value", mask, args=lambda s: {"n": 1, "p": 3}), Field("more", mask, args=lambda s: {"n": 2, "p": 1})])
    return schema


def numbers():
    """P20: every width of fixed integers, every variable integer, every kind."""
    schema = Text("matrix_structs")
    for signed, text in ((False, "bit"), (True, "int")):
        step = 4 if signed else 16
        for low in range(1, 65, step):
            widths = range(low, low + step)
            schema.struct(f"{text.capitalize()}{low}", [f"{text}:{width} f{width};" for width in widths],
                          [Field(f"f{width}", Bits(width, signed)) for width in widths])
    for name in ("varint16", "varint32", "varint64", "varint", "varuint16", "varuint32", "varuint64", "varuint", "varsize"):
        schema.struct(f"Only{name.capitalize()}", ["bit:3 gap;", f"{name} value;"], [Field("gap", Bits(3)), Field("value", Var(name))])
    for name, kind in ALL.items():
        carrier(schema, f"{name}Plain", kind)
    return schema


SCHEMAS = {"matrix_optionals": optionals, "matrix_constraints": constraints, "matrix_choices": choices,
           "matrix_arrays": arrays, "matrix_layout": layout, "matrix_params": params, "matrix_structs": numbers}


def main():
    root = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "schemas")
    for name, make in SCHEMAS.items():
        folder = os.path.join(root, name)
        os.makedirs(folder, exist_ok=True)
        with open(os.path.join(folder, name + ".zs"), "w", encoding="utf-8") as file:
            file.write(make().text())


if __name__ == "__main__":
    main()
