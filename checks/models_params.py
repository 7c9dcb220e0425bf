"""Models of schemas/params/params.zs."""

from .model import *

U8, U16 = Bits(8), Bits(16)
MODE = Enum("Mode", U8, {"OFF": 0, "ON": 5})
LEAF = Struct("Leaf", [Field("value", Dyn(lambda s: (s.width & 7) + 1, widths=range(1, 9))),
                       Field("extra", U16, cond=lambda s: s.wide)], [("width", U8), ("wide", Bool())])
MIDDLE = Struct("Middle", [Field("wide", Bool()), Field("leaf", LEAF, args=lambda s: {"width": s.base, "wide": s.wide}),
                           Field("other", LEAF, args=lambda s: {"width": s.base + 1, "wide": True})],
                [("base", Bits(8, high=254))])
CONFIG = Struct("Config", [Field("limit", Bits(4)), Field("mode", MODE)])
USES_STRUCT = Struct("UsesStruct", [Field("value", Dyn(lambda s: s.config.limit + 1, widths=range(1, 17))),
                                    Field("onlyOn", U8, cond=lambda s: s.config.mode == 5)], [("config", CONFIG)])
USES_ENUM = Struct("UsesEnum", [Field("a", U8, cond=lambda s: s.mode == 5), Field("b", Bits(3))], [("mode", MODE)])
ELEMENT = Struct("Element", [Field("data", Arr(U8, lambda s: s.size)),
                             Field("mark", Bits(4), cond=lambda s: s.position == 1)],
                 [("size", Bits(8, high=2)), ("position", Bits(32))])
ROW = Struct("Row", [Field("cells", Arr(U8, lambda s: s.a + s.b, lens=range(0, 6)))],
             [("a", Bits(2)), ("b", Bits(8, True, low=0, high=2))])
GENERIC8 = Struct("Generic_uint8", [Field("value", U8), Field("tag", Bits(3))])
GENERIC_TEXT = Struct("Generic_string", [Field("value", Str()), Field("tag", Bits(3))])
GENERIC_CONFIG = Struct("Generic_Config", [Field("value", CONFIG), Field("tag", Bits(3))])

TOP = [
    LEAF,
    MIDDLE,
    Struct("Top", [Field("width", Bits(3)), Field("middle", MIDDLE, args=lambda s: {"base": s.width}),
                   Field("literal", LEAF, args=lambda s: {"width": 3, "wide": False})]),
    USES_STRUCT,
    Struct("StructParam", [Field("config", CONFIG), Field("body", USES_STRUCT, args=lambda s: {"config": s.raw_("config")})]),
    USES_ENUM,
    Struct("EnumParam", [Field("mode", MODE), Field("body", USES_ENUM, args=lambda s: {"mode": s.mode})]),
    Struct("IndexParam", [Field("size", Bits(2, high=2)), Field("sizes", Arr(Bits(8, high=2), lambda s: s.size)),
                          Field("items", Arr(ELEMENT, lambda s: s.size),
                                args=lambda s, i: {"size": s.raw_("sizes")[i], "position": i})]),
    Struct("Table", [Field("rows", Bits(2)), Field("row", Arr(ROW, lambda s: s.rows, lens=range(0, 4)),
                                                   args=lambda s, i: {"a": s.rows, "b": 2})]),
    ROW,
    Struct("FunctionParam", [Field("raw", U8),
                             Field("leaf", LEAF, args=lambda s: {"width": (s.raw & 3) * 2, "wide": s.raw > 3})]),
    Struct("Template", [Field("small", GENERIC8), Field("text", GENERIC_TEXT), Field("config", GENERIC_CONFIG)]),
]
