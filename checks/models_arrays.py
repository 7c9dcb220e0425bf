"""Models of schemas/arrays/arrays.zs."""

from .model import *

U8, U16, U32 = Bits(8), Bits(16), Bits(32)
COLOR = Enum("Color", U8, {"NONE": 0, "RED": 3, "BLUE": 200})
MASK = Bitmask("Mask", U16, {"A": 1, "B": 2, "C": 0x8000})
POINT = Struct("Point", [Field("x", Bits(16, True)), Field("y", Bits(5))])
MIXED = Struct("Mixed", [Field("id", U32), Field("name", Str((0, 1))), Field("flag", Bool()),
                         Field("delta", Var("varint16"))])
DYN = Struct("Dyn", [Field("width", OneOf(3, (0, 3, 7))), Field("value", Dyn(lambda s: s.width + 2, widths=range(2, 10)))])


def n(count):
    return {"length": lambda s: count, "lens": (count,)}


PLAIN = [
    Struct("Fixed", [Field("octets", Arr(U8, **n(3))), Field("flags", Arr(Bool(), **n(2))),
                     Field("odd", Arr(Bits(5, True), **n(2)))]),
    Struct("Sized", [Field("size", Bits(2, high=2)), Field("list", Arr(U16, lambda s: s.size)),
                     Field("half", Bits(2, high=1)),
                     Field("other", Arr(Var("varuint16"), lambda s: s.size + s.half, lens=(0, 1, 2, 3)))]),
    Struct("AutoLists", [Field("bits", Arr(Bits(13), lens=(0, 1, 2, 3))), Field("texts", Arr(Str((0, 1))))]),
    Struct("AutoOthers", [Field("floats", Arr(Flt(32))), Field("blobs", Arr(Bytes((0, 1)), lens=(0, 1, 2))),
                          Field("exts", Arr(Ext((3, 8)), lens=(0, 1)))]),
    Struct("Symbols", [Field("colors", Arr(COLOR)), Field("masks", Arr(MASK))]),
    Struct("Compounds", [Field("gap", Bits(1)), Field("points", Arr(POINT)), Field("mixed", Arr(MIXED, **n(1)))]),
    Struct("ImplicitBits", [Field("head", Bits(3)), Field("rest", Arr(Bits(8, True), "implicit", lens=(0, 1, 3)))]),
    Struct("ImplicitBytes", [Field("head", U8), Field("rest", Arr(U16, "implicit", lens=(0, 1, 2)))]),
]


def packed(tier):
    """Models with packed arrays; the quick tier explores some values only of some fields."""
    def some(type_, options):
        return type_ if tier == "thorough" else few(type_, options)

    point = Struct("Point", [Field("x", Bits(16, True, -90, 300)), Field("y", some(Bits(5), (0, 31)))])
    mixed = Struct("Mixed", [Field("id", some(U32, (7, 9, 1 << 31))), Field("name", Str((1,))), Field("flag", Bool()),
                             Field("delta", few(Var("varint16"), (-1, 63, 64)))])
    optional = Struct("WithOptional", [Field("number", some(Bits(16, True), (-5, 6, 900)), optional=True),
                                       Field("tag", Bits(2)), Field("extra", U8, cond=lambda s: s.tag == 1)])
    inner = Struct("WithInner", [
        Field("point", Struct("Point", [Field("x", few(Bits(16, True), (-1, 99))), Field("y", some(Bits(5), (31,)))])),
        Field("gap", Bits(3)), Field("list", Arr(some(Bits(16, low=7, high=260), (7, 260)), lens=(0, 2)))])
    enums = Struct("WithEnum", [Field("color", COLOR), Field("mask", MASK)])
    pick = Choice("Pick", [("tag", U8)], lambda s: s.tag, [
        ((0,), Field("number", U16)), ((1,), Field("point", point)), (None, None)])
    either = Union("Either", [Field("number", U16), Field("text", Str((0, 1))), Field("point", point)])
    return [
        Struct("PackedNumbers", [Field("gap", Bits(3)), Field("list", Arr(U16, packed=True, lens=(0, 1, 2)))]),
        Struct("PackedFixed", [Field("gap", Bits(1)), Field("list", Arr(Bits(8, True), packed=True, **n(2)))]),
        Struct("PackedVars", [Field("list", Arr(Var("varuint32", 0, 1 << 16 if tier == "quick" else None), packed=True, lens=(0, 2)))]),
        Struct("PackedColors", [Field("colors", Arr(COLOR, packed=True, lens=(0, 1, 2, 3)))]),
        Struct("PackedPoints", [Field("points", Arr(point, packed=True))]),
        Struct("PackedMixed", [Field("mixed", Arr(mixed, packed=True, lens=(0, 2)))]),
        Struct("PackedOptional", [Field("list", Arr(optional, packed=True))]),
        Struct("PackedInner", [Field("list", Arr(inner, packed=True, lens=(0, 2)))]),
        Struct("PackedEnums", [Field("list", Arr(enums, packed=True))]),
        Struct("PackedChoices", [Field("tags", Arr(Bits(8))),
                                 Field("list", Arr(pick, lambda s: len(s.raw_("tags")), packed=True),
                                       args=lambda s, i: {"tag": s.raw_("tags")[i]})]),
        Struct("PackedUnions", [Field("list", Arr(either, packed=True))]),
        Struct("PackedDyn", [Field("list", Arr(DYN, packed=True))]),
        Struct("PackedUnpackable", [Field("list", Arr(Str((0, 1)), packed=True)), Field("flags", Arr(Bool(), packed=True))]),
    ]


IMPLICIT = ("ImplicitBits", "ImplicitBytes")
