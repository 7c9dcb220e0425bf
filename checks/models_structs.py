"""Model of schemas/structs/structs.zs."""

from .model import *

U8, U16, U32, U64 = Bits(8), Bits(16), Bits(32), Bits(64)
DIRECTION = Enum("Direction", Bits(3), {"NORTH": 0, "EAST": 2, "SOUTH": 3, "WEST": 7})
LEVEL = Enum("Level", Var("varint16"), {"LOW": -100, "MID": 0, "HIGH": 8191})
RIGHTS = Bitmask("Rights", Bits(8), {"READ": 1, "WRITE": 2, "ADMIN": 0x80})
WIDE = Bitmask("Wide", Bits(12), {"A": 1, "B": 0x800})
LEAF = Struct("Leaf", [Field("id", Bits(7)), Field("weight", Var("varuint16"))])
EMPTY = Struct("Empty", [])

TOP = [
    Struct("Unsigned", [Field("flag", Bool()), Field("a", U8), Field("b", U16), Field("c", Bits(5)), Field("d", U32),
                        Field("e", U64), Field("f", Bits(33)), Field("g", U16)]),
    Struct("Signed", [Field("c", Bits(3, True)), Field("a", Bits(8, True)), Field("b", Bits(16, True)),
                      Field("d", Bits(32, True)), Field("e", Bits(64, True)), Field("f", Bits(63, True)),
                      Field("g", Bits(1, True))]),
    Struct("Variable", [Field("shift", Bits(2)), Field("a", Var("varuint16")), Field("b", Var("varint16")),
                        Field("c", Var("varsize"))]),
    Struct("VariableWide", [Field("shift", Bits(2)), Field("a", Var("varint")), Field("b", Var("varuint"))]),
    Struct("VariableMid", [Field("a", Var("varint32")), Field("b", Var("varuint32"))]),
    Struct("VariableLong", [Field("a", Var("varint64")), Field("b", Var("varuint64"))]),
    Struct("Floats", [Field("shift", Bits(4)), Field("a", Flt(16)), Field("b", Flt(32)), Field("c", Flt(64))]),
    Struct("Texts", [Field("shift", Bits(1)), Field("a", Str((0, 1, 2), 0x7FF)), Field("b", Bytes((0, 1, 3))),
                     Field("c", Ext((0, 3, 8, 13)))]),
    Struct("Symbols", [Field("dir", DIRECTION), Field("rights", RIGHTS), Field("level", LEVEL), Field("wide", WIDE)]),
    Struct("Dynamic", [Field("width", OneOf(6, (0, 1, 6, 7, 8, 30, 31, 32, 62, 63))), Field("a", Dyn(lambda s: s.width + 1)),
                       Field("b", Dyn(lambda s: s.width + 1, True)), Field("bias", Bits(8)),
                       Field("c", Dyn(lambda s: (s.bias & 3) + 2, True, range(2, 6)))]),
    Struct("Nested", [Field("left", LEAF), Field("gap", Bits(3)), Field("right", LEAF), Field("dir", DIRECTION)]),
    Struct("Holder", [Field("nothing", EMPTY), Field("tail", U8), Field("nothing2", EMPTY)]),
    EMPTY,
]
