"""Models of schemas/constraints/constraints.zs."""

from .model import *

U8, U16 = Bits(8), Bits(16)
SHADE = Enum("Shade", U8, {"DARK": 1, "LIGHT": 2})
SIMPLE = Struct("Simple", [
    Field("low", U8, constraint=lambda s: s.low < 100),
    Field("range", Bits(16, True), constraint=lambda s: (s.range >= -5) & (s.range <= s.low)),
    Field("odd", Bits(5), constraint=lambda s: ((s.odd & 1) == 1) | (s.low == 0))])
BOUNDED = Struct("Bounded", [Field("value", U16, constraint=lambda s: s.value < 1000)])
HOLDER = Struct("Holder", [Field("value", U8, constraint=lambda s: s.value < s.limit), Field("tail", U8)],
                [("limit", U8)])

TOP = [
    SIMPLE,
    Struct("Conditional", [
        Field("has", Bool()),
        Field("value", U16, cond=lambda s: s.has, constraint=lambda s: s.value > 0x1000),
        Field("other", Bits(8, True), optional=True, constraint=lambda s: s.other != 0)]),
    Struct("Flag", [Field("ok", Bool(), constraint=lambda s: s.ok), Field("a", U8),
                    Field("b", U8, constraint=lambda s: s.a + s.b == 200)]),
    Struct("Strings", [Field("text", Str((0, 1)), constraint=lambda s: len(s.text) > 0),
                       Field("list", Arr(U8, lens=(0, 1, 2, 3)), constraint=lambda s: len(s.list) == 2)]),
    Struct("EnumLimit", [Field("shade", SHADE, constraint=lambda s: s.shade == 2)]),
    Choice("Pick", [("big", Bool())], lambda s: s.big, [
        ((True,), Field("wide", U16, constraint=lambda s: s.wide > 255)),
        ((False,), Field("narrow", U8, constraint=lambda s: s.narrow != 0))]),
    Union("Either", [Field("small", U8, constraint=lambda s: s.small < 10),
                     Field("large", U16, constraint=lambda s: s.large >= 10)]),
    HOLDER,
    Struct("UsesHolder", [Field("limit", U8), Field("holder", HOLDER, args=lambda s: {"limit": s.limit})]),
    Struct("InArray", [Field("items", Arr(SIMPLE, lambda s: 1, lens=(1,)))]),
    Struct("InPacked", [Field("items", Arr(BOUNDED, packed=True))]),
]
CONSTRAINTS = [("Simple", "Simple.low"), ("Simple", "Simple.range"), ("Simple", "Simple.odd"),
               ("Conditional", "Conditional.value"), ("Conditional", "Conditional.other"), ("Flag", "Flag.ok"),
               ("Flag", "Flag.b"), ("Strings", "Strings.text"), ("Strings", "Strings.list"),
               ("EnumLimit", "EnumLimit.shade"), ("Pick", "Pick.wide"), ("Pick", "Pick.narrow"),
               ("Either", "Either.small"), ("Either", "Either.large"), ("Holder", "Holder.value"),
               ("UsesHolder", "Holder.value"), ("InArray", "Simple.odd"), ("InPacked", "Bounded.value")]
