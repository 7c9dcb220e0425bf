"""Models of schemas/optionals/optionals.zs."""

from .model import *

U8, U16 = Bits(8), Bits(16)
INNER = Struct("Inner", [Field("a", Bits(3)), Field("b", U8, optional=True)])

TOP = [
    Struct("Auto", [Field("number", U8, optional=True), Field("flag", Bool(), optional=True),
                    Field("text", Str((0, 1)), optional=True), Field("inner", INNER, optional=True),
                    Field("tail", Var("varuint16"), optional=True)]),
    Struct("Conditional", [Field("mask", U8), Field("first", U16, cond=lambda s: (s.mask & 1) != 0),
                           Field("second", INNER, cond=lambda s: s.mask > 0x80),
                           Field("third", Bits(8, True), cond=lambda s: (s.mask == 5) | (s.mask == 6)),
                           Field("fourth", Bool(), cond=lambda s: s.mask == 9)]),
    Struct("Dependent", [Field("has", Bool()), Field("limit", U8, cond=lambda s: s.has),
                         Field("list", Arr(U8, lambda s: s.limit),
                               cond=lambda s: bool(s.has) and s.limit < 3),
                         Field("after", Bits(3), cond=lambda s: s.has == 0)]),
    Struct("AlignedOptional", [Field("head", Bits(3)), Field("has", Bool()),
                               Field("value", U8, cond=lambda s: s.has, align=16), Field("middle", Bits(5)),
                               Field("other", U16, optional=True, align=8), Field("tail", Bits(1))]),
    Struct("OffsetOptional", [Field("where", Bits(32)), Field("has", Bool()),
                              Field("value", Bits(16, True), cond=lambda s: s.has,
                                    offset=lambda s: (s.values_(), "where")), Field("tail", Bits(3))]),
    Struct("OptionalArrays", [Field("fixedList", Arr(U8, lambda s: 2, lens=(2,)), optional=True),
                              Field("autoList", Arr(Bits(16, True), lens=(0, 1)), optional=True),
                              Field("more", Bool()),
                              Field("packedList", Arr(U16, packed=True), cond=lambda s: s.more)]),
    Struct("Extended", [Field("base", Bits(5)), Field("one", U16, extended=True),
                        Field("two", U8, extended=True, optional=True), Field("three", INNER, extended=True)]),
    Struct("ExtendedText", [Field("base", U8), Field("text", Str(), extended=True),
                            Field("list", Arr(U8), extended=True)]),
    Struct("ExtendedOne", [Field("base", U8), Field("flag", Bool()), Field("value", Bits(16, True), cond=lambda s: s.flag,
                                                                            extended=True)]),
    Struct("WithFunctions", [Field("count8", U8), Field("count16", U16, cond=lambda s: s.count8 == 0xFF)]),
]
