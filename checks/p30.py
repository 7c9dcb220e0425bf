"""P30: generated Python code reading arbitrary streams."""

from . import (models_arrays, models_choices, models_constraints, models_layout, models_optionals, models_params,
               models_structs)
from .gen_py import *

PROPERTY = "P30"
ASSUMPTIONS = SHARED["ASSUMPTIONS"]
BINDINGS = {name: Binding(f"{name}/{name}.zs", options) for name, options in (
    ("structs", ()), ("choices", ()), ("optionals", ()), ("params", ()), ("layout", ()), ("constraints", ()),
    ("arrays", ("-allowImplicitArrays",)))}
MODELS = {"structs": models_structs.TOP, "choices": models_choices.TOP, "optionals": models_optionals.TOP,
          "params": models_params.TOP, "layout": models_layout.TOP, "constraints": models_constraints.TOP,
          "arrays": models_arrays.PLAIN}
# type: bytes of the stream; exact: the bits read are the bits written
TARGETS = {
    "structs": {"Unsigned": 28, "Signed": 25, "Variable": 5, "VariableMid": 8, "Texts": 4, "Symbols": 5, "Nested": 7,
                "Dynamic": 7},
    "choices": {"Plain": 3, "WithDefault": 4, "ByKind": 5, "Simple": 4, "Checked": 3, "ChoiceHolder": 4,
                "ChoiceArray": 5, "UnionArray": 5},
    "optionals": {"Auto": 4, "Conditional": 5, "Dependent": 5, "AlignedOptional": 6, "OffsetOptional": 8,
                  "Extended": 6, "ExtendedText": 4},
    "params": {"Leaf": 3, "Middle": 5, "UsesStruct": 3, "IndexParam": 5},
    "layout": {"Aligned": 14, "OneOffset": 9, "ParamOffsets": 10, "IndexedItems": 13, "OffsetArray": 12},
    "constraints": {"Simple": 4, "Conditional": 5, "Either": 3},
    "arrays": {"Fixed": 5, "Sized": 6, "AutoLists": 5, "Symbols": 5, "Compounds": 10, "ImplicitBits": 4,
               "ImplicitBytes": 5},
}
EXACT = {"Unsigned", "Signed", "Dynamic", "Conditional", "Dependent", "Leaf", "UsesStruct", "Simple",
         "Fixed", "ImplicitBits", "ImplicitBytes"}
BOUNDS = (f"{sum(len(types) for types in TARGETS.values())} types of the test schemas, every stream of up to the stated number "
          "of bytes (3 to 28), every parameter value; no packed arrays (P07)")


def arbitrary(ctx, binding, type_, count, exact):
    """A stream is rejected, or read to an object that survives being written and read again."""
    params = type_.make_params(ctx, "p")
    data = ctx.bytes("data", count)
    args = [binding.build(ctx, ptype, params[name]) for name, ptype in type_.params]
    cls = binding.cls(ctx, type_.name)
    inp = reader(ctx, data)
    obj, exc = ctx.attempt(cls.from_reader, inp, *args)
    if exc is not None:
        expected = is_runtime_error(exc) or isinstance(exc, UnicodeDecodeError) or type(exc).__name__ == "ValueError"
        ctx.check(expected, "a stream that cannot be read raises a defined exception", repr(exc))
        ctx.reach("rejected")
        return
    end = inp.bitposition
    ctx.check(end <= 8 * count, "reading stays inside the stream")
    again = cls.from_reader(reader(ctx, data), *args)
    ctx.check(again == obj, "reading is deterministic")
    out = writer(ctx)
    ctx.check(ctx.eq(obj.initialize_offsets(0), obj.bitsizeof(0)), "offsets and size")
    obj.write(out)
    ctx.check(ctx.eq(out.bitposition, obj.bitsizeof(0)), "size")
    if exact:
        ctx.check(ctx.eq(out.bitposition, end), "the bits read are written again")
        if end:
            ctx.check(ctx.eq(bits_value(ctx, out.byte_array, end), bits_value(ctx, data, end)),
                      "the bits read are written again")
    got = cls.from_reader(reader(ctx, ctx.make_bytes(list(out.byte_array)), out.bitposition), *args)
    ctx.check(got == obj, "the object is read back equal")
    ctx.reach("accepted")


def jobs(tier):
    out = []
    for package, types in TARGETS.items():
        models = {type_.name: type_ for type_ in MODELS[package]}
        for name, count in types.items():
            out.append(Job(f"{package}-{name}", arbitrary,
                           {"binding": BINDINGS[package], "type_": models[name],
                            "count": count if tier == "quick" or count > 20 else count + 1,
                            "exact": name in EXACT and (package, name) != ("choices", "Simple")},
                           roots=BINDINGS[package].roots(), must_reach=["accepted"]))
    return out
