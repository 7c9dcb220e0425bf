"""P27: expressions of the schema in generated Python code."""

from .exprs import Evaluator, functions
from .gen_py import *

PROPERTY = "P27"
BOUNDS = ("240 functions of schemas/exprs/exprs.zs: every pair of integer operators, all comparisons, boolean and ternary "
          "combinations, literals, constants, lengthof, valueof, numbits, isset, array elements, members, nested calls and "
          "parameters; every value of the operands; divisors other than 0, shift amounts 0..31; lists of 2 elements, texts "
          "of 2 ASCII characters")
ASSUMPTIONS = SHARED["ASSUMPTIONS"][:2]
BINDING = Binding("exprs/exprs.zs")
COLOR = Enum("Color", Bits(8), {"RED": 1, "GREEN": 7, "BLUE": 200})
MASK = Bitmask("Mask", Bits(8), {"LOW": 1, "HIGH": 0x80})
S8 = Bits(8, True)
INNER = Struct("Inner", [Field("x", S8), Field("y", S8), Field("kind", COLOR)])
MODEL = Struct("Exprs", [Field("a", S8), Field("b", S8), Field("c", S8), Field("u", Bits(3)), Field("w", Bits(2)),
                         Field("big", Bits(32)), Field("p", Bool()), Field("q", Bool()), Field("r", Bool()),
                         Field("color", COLOR), Field("mask", MASK), Field("list", Arr(Bits(8), lens=(2,))),
                         Field("text", Str((2,))), Field("inner", INNER),
                         Field("items", Arr(INNER, lambda s: 2, lens=(2,)))], [("par", Bits(8))])


def narrow(text):
    """The model with the fields the expression does not need held constant."""
    fields = []
    for field in MODEL.fields:
        if not re.search(rf"\b{field.name}\b", text) and field.name != "inner" and field.name != "items":
            field = copy.copy(field)
            field.type = Constant(field.type)
        fields.append(field)
    if "inner" not in text:
        fields[-2] = Field("inner", CONSTANT_INNER)
    if "items" not in text:
        fields[-1] = Field("items", Arr(CONSTANT_INNER, lambda s: 2, lens=(2,)))
    elif "kind" not in text:
        fields[-1] = Field("items", Arr(Struct("Inner", INNER.fields[:2] + CONSTANT_INNER.fields[2:]), lambda s: 2, lens=(2,)))
    return Struct("Exprs", fields, MODEL.params)


def Constant(type_):
    out = copy.copy(type_)
    value = {Bool: True, Enum: 7, Str: [0x41, 0x42], Arr: [1, 2]}.get(type(type_), 1)
    out.make = lambda ctx, label, scope, args=None: list(value) if isinstance(value, list) else value
    return out


CONSTANT_INNER = Struct("Inner", [Field(field.name, Constant(field.type)) for field in INNER.fields])


def function(ctx, name, text):
    funcs = {item: body for item, _, body in functions()}
    need = text
    for other in re.findall(r"\bf\d+\b", text):
        need += " " + funcs[other]
    model = narrow(need)
    params = model.make_params(ctx, "p") if "par" in text else {"par": 1}
    value = model.make(ctx, "v", params)
    values = dict(value, **params)
    want = Evaluator(ctx, values, funcs).run(text)
    got = getattr(BINDING.build(ctx, model, value), snake(name))()
    if hasattr(got, "value"):
        got = got.value
    ctx.check(ctx.eq(got, want), "value of " + text, got)
    ctx.observe("got", got)
    ctx.reach("end")


def jobs(tier):
    return [Job(f"{name}: {text}", function, {"name": name, "text": text}, roots=BINDING.roots(), must_reach=["end"])
            for name, _, text in functions()]
