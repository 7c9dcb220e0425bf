"""Models of schemas/layout/layout.zs."""

from .model import *

U8, U16, U32, U64 = Bits(8), Bits(16), Bits(32), Bits(64)


def own(name):
    return lambda s: (s.values_(), name)


def of(holder, name):
    return lambda s: (s.raw_(holder), name)


ALIGNED = Struct("Aligned", [Field("a", Bits(11)), Field("b", U8, align=32), Field("c", Bits(3)),
                             Field("d", Bits(1), align=16), Field("e", U16, align=64)])
ONE = Struct("OneOffset", [Field("head", Bits(3)), Field("offset", U32), Field("middle", Bits(5)),
                           Field("body", U16, offset=own("offset")), Field("tail", Bool())])
HEADER = Struct("Header", [Field("bodyOffset", U16), Field("tailOffset", U32)])
BODY = Struct("Body", [Field("flag", Bits(1)), Field("data", U8, offset=of("header", "bodyOffset")),
                       Field("rest", Bits(2)), Field("tail", Bits(6), offset=of("header", "tailOffset"))],
              [("header", HEADER)])
ITEM = Struct("Item", [Field("a", Bits(2)), Field("b", Var("varuint16"))])


def indexed(name):
    return lambda s: s.raw_(name)


TOP = [
    ALIGNED,
    ONE,
    Struct("TwoOffsets", [Field("first", U16), Field("second", U64), Field("a", Var("varuint16"), offset=own("second")),
                          Field("b", Bits(3), offset=own("first")), Field("tail", Bits(7))]),
    Struct("ForeignOffsets", [Field("header", HEADER), Field("gap", Bits(3)),
                              Field("body", Str(), offset=of("header", "bodyOffset")),
                              Field("tail", Bits(4), offset=of("header", "tailOffset"))]),
    Struct("ParamOffsets", [Field("start", Bits(4)), Field("header", HEADER),
                            Field("body", BODY, args=lambda s: {"header": s.raw_("header")})]),
    Struct("IndexedBits", [Field("offsets", Arr(U32)), Field("spacer", Bits(1)),
                           Field("data", Arr(Bits(5), like="offsets"), offset=indexed("offsets"), indexed=True),
                           Field("tail", Bits(1))]),
    Struct("IndexedStrings", [Field("count", Bits(8, high=2)), Field("offsets", Arr(U16, lambda s: s.count)),
                              Field("data", Arr(Str((0, 1)), lambda s: s.count), offset=indexed("offsets"),
                                    indexed=True)]),
    Struct("IndexedItems", [Field("offsets", Arr(U32, lambda s: 2, lens=(2,))), Field("flag", Bool()),
                            Field("data", Arr(ITEM, lambda s: 2, lens=(2,)), offset=indexed("offsets"),
                                  indexed=True)]),
    Struct("IndexedPacked", [Field("offsets", Arr(U32, lambda s: 2, lens=(2,))), Field("gap", Bits(3)),
                             Field("data", Arr(U16, lambda s: 2, packed=True, lens=(2,)), offset=indexed("offsets"),
                                   indexed=True)]),
    Struct("AlignedNested", [Field("a", Bits(7)), Field("b", ALIGNED)]),
    Struct("OffsetArray", [Field("gap", Bits(3)), Field("items", Arr(ONE))]),
    Struct("AlignOffset", [Field("offset", U32), Field("a", Bits(1)),
                           Field("b", Bits(9), align=32, offset=own("offset"))]),
]
OFFSETS = {"OneOffset": 1, "TwoOffsets": 2, "ForeignOffsets": 2, "ParamOffsets": 2, "IndexedStrings": 2,
           "IndexedItems": 2, "IndexedPacked": 2, "IndexedBits": 2, "OffsetArray": 2, "AlignOffset": 1}
