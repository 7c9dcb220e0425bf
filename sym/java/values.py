"""Values of the Java interpreter. int, long and the small types are Python integers or SymInt in their signed range."""

import struct
import z3

from .. import terms as T
from ..core import Explorer, Unsupported
from ..pyproxy import SymBool, SymInt, mkint, mkbool, concrete, coerce, signed_width, land, lor, lnot, ite
from ..pystr import SymStr

RANGE = {"I": (-(1 << 31), (1 << 31) - 1), "J": (-(1 << 63), (1 << 63) - 1), "S": (-32768, 32767), "B": (-128, 127),
         "C": (0, 65535), "Z": (0, 1)}


def wrap(value, bits):
    """Value modulo 2^bits in the signed range."""
    half = 1 << (bits - 1)
    if type(value) is int:
        return value if -half <= value < half else ((value + half) & ((1 << bits) - 1)) - half
    if isinstance(value, SymInt):
        if value.lo >= -half and value.hi < half:
            return value
        return mkint(T.resize(value.t, bits), -half, half - 1)
    if isinstance(value, SymBool):
        return wrap(mkint(coerce(value)[0], 0, 1), bits)
    return wrap(int(value), bits)


def unsigned(value, bits):
    """Value modulo 2^bits in the unsigned range."""
    return value & ((1 << bits) - 1)


def truth(value):
    """Decides a condition (forks)."""
    if isinstance(value, SymBool):
        return Explorer.current.branch(value.c)
    return bool(value)


def divide(left, right, bits):
    """Java division and remainder (truncating)."""
    if type(left) is int and type(right) is int:
        quot = abs(left) // abs(right)
        if (left < 0) != (right < 0):
            quot = -quot
        return wrap(quot, bits), left - quot * right
    lcv, rcv = coerce(left), coerce(right)
    if lcv[1] >= 0 and rcv[1] > 0:
        return left // right, left % right
    if rcv[1] == rcv[2] and rcv[1] > 0 and rcv[1] & (rcv[1] - 1) == 0:
        size, shift = rcv[1], rcv[1].bit_length() - 1
        quot = (left + ite(left < 0, size - 1, 0)) >> shift
        return quot, left - (quot << shift)
    width = max(T.size(lcv[0]), T.size(rcv[0])) + 1
    a, b = T.resize(lcv[0], width), T.resize(rcv[0], width)
    mag = max(abs(lcv[1]), abs(lcv[2]))
    rem = max(abs(rcv[1]), abs(rcv[2])) - 1
    quot = mkint(T.memo(("jdiv", T.tid(a), T.tid(b)), lambda: a / b, a, b), -mag, mag)
    low = 0 if lcv[1] >= 0 else -min(rem, mag)
    return wrap(quot, bits), mkint(T.memo(("jrem", T.tid(a), T.tid(b)), lambda: z3.SRem(a, b), a, b), low,
                                   min(rem, mag) if lcv[2] > 0 else 0)


class JThrow(Exception):
    """A Java exception in flight."""

    def __init__(self, obj):
        super().__init__(obj.cls.name)
        self.obj = obj


class JObject:
    __slots__ = ("cls", "fields", "native", "ident")

    def __init__(self, cls):
        self.cls = cls
        self.fields = {}
        self.native = None
        self.ident = 0

    def __repr__(self):
        return f"<{self.cls.name}>"


class JArray:
    """Array; kind is the descriptor of its elements."""
    __slots__ = ("kind", "items")

    def __init__(self, kind, items):
        self.kind, self.items = kind, items

    def __repr__(self):
        return f"<{self.kind}[{len(self.items)}]>"


class JBox:
    """java.lang.Integer etc."""
    __slots__ = ("kind", "value")

    def __init__(self, kind, value):
        self.kind, self.value = kind, value

    def __repr__(self):
        return f"<{self.kind} {self.value}>"


BOXES = {"I": "java/lang/Integer", "J": "java/lang/Long", "S": "java/lang/Short", "B": "java/lang/Byte",
         "C": "java/lang/Character", "Z": "java/lang/Boolean", "F": "java/lang/Float", "D": "java/lang/Double"}
UNBOX = {name: kind for kind, name in BOXES.items()}


class JBig:
    """java.math.BigInteger."""
    __slots__ = ("v",)

    def __init__(self, value):
        self.v = value

    def __repr__(self):
        return f"<BigInteger {self.v}>"


class JClass:
    """java.lang.Class."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class JLambda:
    __slots__ = ("iface", "name", "desc", "kind", "target", "captured", "inst")

    def __init__(self, iface, name, desc, kind, target, captured, inst):
        self.iface, self.name, self.desc = iface, name, desc
        self.kind, self.target, self.captured, self.inst = kind, target, captured, inst


class Opaque:
    """Text whose content does not matter (messages)."""

    def __repr__(self):
        return "<text>"


class JFloat:
    """float (bits 32) or double (bits 64) by its bit pattern, an unsigned integer."""
    __slots__ = ("bits", "width")

    def __init__(self, bits, width):
        self.bits, self.width = bits, width

    def fp(self):
        term = coerce(self.bits)[0]
        term = T.resize(term, self.width)
        return z3.fpBVToFP(term, z3.Float32() if self.width == 32 else z3.Float64())

    def concrete(self):
        if type(self.bits) is not int:
            return None
        return struct.unpack(">f" if self.width == 32 else ">d", self.bits.to_bytes(self.width // 8, "big"))[0]

    @staticmethod
    def of(value, width):
        """From a Python float."""
        if width == 32:
            try:
                raw = struct.pack(">f", value)
            except OverflowError:
                raw = struct.pack(">f", float("inf") if value > 0 else float("-inf"))
        else:
            raw = struct.pack(">d", value)
        return JFloat(int.from_bytes(raw, "big"), width)

    @staticmethod
    def of_term(term, width):
        from ..pyproxy import unsigned_term

        return JFloat(unsigned_term(z3.simplify(z3.fpToIEEEBV(term))), width)

    def __repr__(self):
        return f"<fp{self.width} {self.bits}>"


class JIntDouble(JFloat):
    """double nearest to an integer of any size."""
    __slots__ = ("number",)

    def __init__(self, number):
        super().__init__(None, 64)
        self.number = number

    def fp(self):
        return z3.fpSignedToFP(z3.RNE(), coerce(self.number)[0], z3.Float64())

    def concrete(self):
        return None

    def against(self, value):
        """Integer with which the number compares like the double with the value, or None."""
        return int(value) if value is not None and value == value and abs(value) < 1 << 53 and value == int(value) else None


class LCmp:
    """Result of lcmp / fcmp before it is compared with zero."""
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b

    def compare(self, op):
        a, b = self.a, self.b
        return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[op] if op not in ("eq", "ne") else \
            (a == b if op == "eq" else a != b)

    def number(self):
        if truth(self.a < self.b):
            return -1
        return 0 if truth(self.a == self.b) else 1
