"""P49: the compiler's evaluation of integer expressions (constants, bounds, big number flag)."""

from sym import zcompiler
from sym.java.engine import JavaEngine

from .common_java import Job as _Job

PROPERTY = "P49"
BOUNDS = ("every operator on operands that are constants, intervals or unknown; numbers in [-2^65, 2^65] for negation, numbits (bounds in [-9, 1033]), "
          "bitwise operators, numbits and conditionals, sums and differences with bounds in "
          "[-4096, 4096], [-7, 7] for products, [-15, 15] for quotients, [-30, 30] for remainders, shifted numbers in [-2^64, 2^64] by 7 counts in 0..70 within 11 intervals of counts; any nesting "
          "follows, the operands being arbitrary intervals around the number; some nestings in [-5, 5] besides")
ASSUMPTIONS = ["BigInteger modelled by unbounded integers"]
ENGINE = JavaEngine(lambda: [zcompiler.compiler_classes()])
NAME = "zserio.ast.ExpressionIntegerValue"
BIG = "Ljava/math/BigInteger;"


def Job(name, func, params=None, **kwargs):
    return _Job(name, func, params, engine=ENGINE, **kwargs)


COUNTS = [(0, 0), (0, 7), (3, 5), (31, 33), (1, 63), (0, 64), (64, 70), (0, 255), (0, (1 << 31) - 1),
          (0, (1 << 32) - 1), (-1, 3)]
NUMBERS = [0, 1, 4, 33, 63, 64, 70]


class Operand:
    """An expression value object together with one number the expression can take."""

    def __init__(self, ctx, name, low, high, kinds, count=False):
        env = ctx.env
        self.kind = ctx.pick(name + "_kind", kinds)
        if count:
            lower, upper = ctx.pick(name + "_bounds", COUNTS)
            inside = [number for number in NUMBERS if lower <= number <= upper]
            self.number = ctx.pick(name, inside)
            if self.kind == "interval":
                self.obj, self.big = env.new(NAME, lower, upper, sig=f"({BIG}{BIG})"), False
            elif self.kind == "constant":
                self.obj, self.big = env.new(NAME, self.number, sig=f"({BIG})"), False
            else:
                self.obj, self.big = env.new(NAME), False
            return
        self.number = ctx.int(name, low, high)
        if self.kind == "constant":
            self.obj = env.new(NAME, self.number, sig=f"({BIG})")
            self.big = ctx.lor(self.number > (1 << 63) - 1, self.number < -(1 << 63))
        elif self.kind == "interval":
            lower, upper = ctx.int(name + "_low", low, high), ctx.int(name + "_high", low, high)
            ctx.assume(ctx.land(lower <= self.number, self.number <= upper))
            self.obj = env.new(NAME, lower, upper, sig=f"({BIG}{BIG})")
            self.big = ctx.lor(upper > (1 << 63) - 1, lower < -(1 << 63))
        else:
            self.obj = env.new(NAME)
            self.big = False


def describe(ctx, obj):
    call = ctx.env.call
    return [call(obj, "getValue"), call(obj, "getLowerBound"), call(obj, "getUpperBound"), call(obj, "needsBigInteger")]


def sound(ctx, obj, number, known, bounds=True):
    value, lower, upper, big = describe(ctx, obj)
    if value is not None:
        ctx.check(known and ctx.eq(value, number), "constant folded exactly")
    elif known is True:
        ctx.check(False, "constant expression is folded")
    if lower is not None and bounds:
        ctx.check(lower <= number, "lower bound")
    if upper is not None and bounds:
        ctx.check(number <= upper, "upper bound")
    ctx.observe("result", [value, lower, upper, big])
    return big


def quotient(ctx, left, right):
    """Division truncated towards zero."""
    result = ctx.int("quotient", -(1 << 16), 1 << 16)
    rest = left - result * right
    magnitude = ctx.ite(right < 0, -right, right)
    ctx.assume(ctx.ite(left < 0, ctx.land(rest <= 0, -rest < magnitude), ctx.land(rest >= 0, rest < magnitude)))
    return result, rest


def num_bits(ctx, value):
    result = 1
    for count in range(1, 66):
        result = ctx.ite(value > (1 << count), count + 1, result)
    return result


def apply(ctx, operator, left, right):
    """(result object, number of the result)."""
    env = ctx.env
    a = left.number
    if operator == "negate":
        return env.call(left.obj, operator), -a
    if operator == "not":
        return env.call(left.obj, operator), -a - 1
    if operator == "numbits":
        ctx.assume(a >= 0)
        return env.call(left.obj, operator), num_bits(ctx, a)
    b = right.number
    if operator in ("shiftLeft", "shiftRight"):
        return env.call(left.obj, operator, right.obj), a << b if operator == "shiftLeft" else a >> b
    if operator in ("divide", "remainder"):
        ctx.assume(b != 0)
        result, rest = quotient(ctx, a, b)
        return env.call(left.obj, operator, right.obj), result if operator == "divide" else rest
    number = {"add": lambda: a + b, "subtract": lambda: a - b, "multiply": lambda: a * b, "and": lambda: a & b,
              "or": lambda: a | b, "xor": lambda: a ^ b,
              "conditional": lambda: ctx.ite(ctx.bool("condition"), a, b)}[operator]()
    return env.call(left.obj, operator, right.obj), number


UNARY = ("negate", "not", "numbits")
ALL = ["constant", "interval", "unknown"]


def operation(ctx, operator, low, high, kinds=ALL, bounds=True):
    left = Operand(ctx, "a", low, high, kinds)
    right = None if operator in UNARY else Operand(ctx, "b", low, high, ALL, operator.startswith("shift"))
    result, number = apply(ctx, operator, left, right)
    known = left.kind == "constant" and (right is None or right.kind == "constant") and operator != "conditional"
    big = sound(ctx, result, number, known, bounds)
    flags = left.big if right is None or operator in ("shiftLeft", "shiftRight") else ctx.lor(left.big, right.big)
    if operator not in ("numbits", "negate") and not (operator == "conditional" and left.kind == right.kind == "constant"):
        ctx.check(ctx.implies(flags, big), "big numbers stay big")
    ctx.reach("end")


def relational(ctx):
    left, right = Operand(ctx, "a", -(1 << 65), 1 << 65, ALL), Operand(ctx, "b", -(1 << 65), 1 << 65, ALL)
    value, lower, upper, big = describe(ctx, ctx.env.call(left.obj, "relationalOperator", right.obj))
    ctx.check(value is None and lower is None and upper is None, "no number")
    ctx.check(ctx.eq(big, ctx.lor(left.big, right.big)), "big number flag")
    ctx.reach("end")


class Result:
    def __init__(self, obj, number, kind, big):
        self.obj, self.number, self.kind, self.big = obj, number, kind, big


def nested(ctx, first, second, low, high):
    """(a first b) second c: bounds of bounds."""
    left = Operand(ctx, "a", low, high, ["constant", "interval"])
    right = None if first in UNARY else Operand(ctx, "b", low, high, ["constant", "interval"])
    obj, number = apply(ctx, first, left, right)
    third = None if second in UNARY else Operand(ctx, "c", low, high, ["constant", "interval"])
    inner = Result(obj, number, None, None)
    swap = third is not None and ctx.pick("swap", [False, True])
    obj, number = apply(ctx, second, third, inner) if swap else apply(ctx, second, inner, third)
    known = left.kind == "constant" and (right is None or right.kind == "constant") and \
        (third is None or third.kind == "constant") and "conditional" not in (first, second)
    sound(ctx, obj, number, known)
    ctx.reach("end")


def jobs(tier):
    out = []
    wide = 1 << 65
    for operator in UNARY + ("add", "subtract", "and", "or", "xor", "conditional"):
        if operator == "numbits":
            out.append(Job("numbits", operation, {"operator": operator, "low": -9, "high": (1 << 10) + 9},
                           must_reach=["end"]))
            out.append(Job("numbits-constant", operation, {"operator": operator, "low": -wide, "high": wide,
                                                           "kinds": ["constant", "unknown"]}, must_reach=["end"]))
            continue
        narrow = operator in ("add", "subtract")
        out.append(Job(operator, operation, {"operator": operator, "low": -wide, "high": wide, "bounds": not narrow},
                       must_reach=["end"]))
        if narrow:
            most = (1 << 12) if tier == "quick" else 1 << 20
            out.append(Job(operator + "-bounds", operation, {"operator": operator, "low": -most, "high": most},
                           must_reach=["end"]))
    for operator in ("multiply", "divide", "remainder"):
        most = {"multiply": 7, "divide": 15, "remainder": 30}[operator] if tier == "quick" else 100
        out.append(Job(operator, operation, {"operator": operator, "low": -most, "high": most}, must_reach=["end"]))
    for operator in ("shiftLeft", "shiftRight"):
        for kind in ALL:
            out.append(Job(f"{operator}-{kind}", operation,
                           {"operator": operator, "low": -(1 << 64), "high": 1 << 64, "kinds": [kind]}, must_reach=["end"]))
    out.append(Job("relational", relational, must_reach=["end"]))
    for first, second in (("negate", "multiply"), ("negate", "divide"), ("and", "remainder"),
                          ("conditional", "negate"), ("subtract", "conditional"), ("remainder", "add")):
        out.append(Job(f"nested-{first}-{second}", nested, {"first": first, "second": second, "low": -5, "high": 5},
                       must_reach=["end"]))
    return out
