"""Models of schemas/choices/choices.zs."""

from .model import *

KIND = Enum("Kind", Bits(8), {"NUMBER": 1, "TEXT": 4, "NOTHING": 5, "OTHER": 200})
FLAG = Bitmask("Flag", Bits(8), {"ONE": 1, "TWO": 2})
PAIR = Struct("Pair", [Field("left", Bits(4)), Field("right", Bits(8))])
PLAIN = Choice("Plain", [("selector", Bits(8))], lambda s: s.selector, [
    ((0,), Field("small", Bits(8))), ((1, 7), Field("number", Bits(16, True))), ((8,), None),
    ((16,), Field("pair", PAIR))])
WITH_DEFAULT = Choice("WithDefault", [("selector", Bits(8, True))], lambda s: s.selector, [
    ((-1,), Field("minus", Bits(3))), ((0,), Field("zero", Bool())), (None, Field("other", Var("varuint32")))])
SIMPLE = Union("Simple", [Field("value8", Bits(8)), Field("value16", Bits(16, True)), Field("text", Str((0, 1))),
                          Field("pair", PAIR), Field("list", Arr(Bits(8), lens=(0, 2)))])

TOP = [
    PLAIN,
    WITH_DEFAULT,
    Choice("EmptyDefault", [("selector", Bits(16))], lambda s: s.selector, [
        ((0xFFFF,), Field("text", Str())), (None, None)]),
    Choice("ByKind", [("kind", KIND)], lambda s: s.kind, [
        ((1,), Field("number", Bits(32, True))), ((4,), Field("text", Str())), ((5,), None),
        ((200,), Field("other", Bits(5)))]),
    Choice("ByFlag", [("flag", FLAG)], lambda s: s.flag, [
        ((1,), Field("one", Bits(8))), ((2,), Field("two", Bits(16))), (None, Field("rest", Bool()))]),
    Choice("ByBool", [("big", Bool())], lambda s: s.big, [
        ((True,), Field("wide", Bits(32), constraint=lambda s: s.wide > 1000)),
        ((False,), Field("narrow", Bits(8)))]),
    Choice("ByExpression", [("a", Bits(8)), ("b", Bits(8))], lambda s: s.a + s.b, [
        ((10,), Field("ten", Bits(8))), ((300,), Field("many", Bits(16))), (None, Field("rest", Bits(1)))]),
    Choice("ByUnion", [("a", Bits(32)), ("b", Bits(32))], lambda s: s.a | s.b, [
        ((0,), Field("none", Bits(8))), ((0xFFFFFFFF,), Field("every", Bits(16))), (None, Field("rest", Bits(1)))]),
    Choice("ByLong", [("number", Bits(64, True))], lambda s: s.number, [
        ((-(1 << 63) + 1,), Field("low", Bits(8))), ((-5,), None), ((5000000000,), Field("high", Bits(16))),
        (None, Field("rest", Bits(1)))]),
    SIMPLE,
    Union("Checked", [Field("low", Bits(8), constraint=lambda s: s.low < 10),
                      Field("high", Bits(16), constraint=lambda s: s.high >= 10)]),
    Struct("ChoiceHolder", [Field("tag", Bits(8)), Field("gap", Bits(3)),
                            Field("plain", PLAIN, args=lambda s: {"selector": s.tag}), Field("simple", SIMPLE),
                            Field("tail", Bits(1))]),
    Struct("ChoiceArray", [Field("size", Bits(2, high=2)), Field("tags", Arr(Bits(8, True), lambda s: s.size)),
                           Field("items", Arr(WITH_DEFAULT, lambda s: s.size),
                                 args=lambda s, i: {"selector": s.raw_("tags")[i]})]),
    Struct("UnionArray", [Field("items", Arr(SIMPLE))]),
]
