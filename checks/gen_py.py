"""Binding of the reference model to Python code generated by the real compiler."""

import copy
import os
import re

from sym.zcompiler import generate, BuildError  # noqa: F401
from .common_py import *
from .model import *

SHARED = {"ASSUMPTIONS": ["pure Python implementation of the runtime",
                          "code generated by the compiler built from /repo's current sources",
                          "float fields hold numbers with the exponent of 1.0 (conversions: P03)"]}


def snake(name):
    name = re.sub(r"([A-Z]+)([A-Z][a-z])", r"\1_\2", name)
    return re.sub(r"([a-z0-9])([A-Z])", r"\1_\2", name).lower()


class Binding:
    """Conversions between neutral values and objects of one generated package."""

    def __init__(self, schema, options=()):
        self.schema, self.options = schema, tuple(options)
        self.package = schema.split("/")[0]

    def roots(self):
        return [generate(self.schema, "python", self.options), PY_RUNTIME]

    def cls(self, ctx, name):
        return getattr(ctx.module(f"{self.package}.{snake(name)}"), name)

    def build(self, ctx, type_, value, cache=None):
        """Object of the generated code for a neutral value; a value reached twice gives one object."""
        cache = {} if cache is None else cache
        if value is None:
            return None
        if isinstance(type_, Flt):
            return ctx.float_from_bits(value)
        if isinstance(type_, Str):
            return ctx.make_str(value)
        if isinstance(type_, Bytes):
            return ctx.make_bytearray(value)
        if isinstance(type_, Ext):
            return ctx.module("zserio.bitbuffer").BitBuffer(ctx.make_bytes(value[0]), value[1])
        if isinstance(type_, Enum):
            return self.cls(ctx, type_.name)(value)
        if isinstance(type_, Bitmask):
            return self.cls(ctx, type_.name).from_value(value)
        if isinstance(type_, Arr):
            return [self.build(ctx, type_.elem, item, cache) for item in value]
        if isinstance(type_, Compound):
            if id(value) in cache:
                return cache[id(value)]
            cls = self.cls(ctx, type_.name)
            params = [self.build(ctx, ptype, value["$params"][name], cache) for name, ptype in type_.params]
            kwargs = {}
            if isinstance(type_, Struct):
                for field in type_.fields:
                    kwargs[snake(field.name) + "_"] = self.build(ctx, field.type, value[field.name], cache)
            elif value["branch"] is not None:
                field = type_.field(value["branch"])
                kwargs[snake(field.name) + "_"] = self.build(ctx, field.type, value["value"], cache)
            obj = cls(*params, **kwargs)
            cache[id(value)] = obj
            return obj
        return value

    def same(self, ctx, type_, got, value):
        """Condition: the object read by the generated code represents the neutral value."""
        if value is None or got is None:
            return value is None and got is None
        if isinstance(type_, Flt):
            return ctx.eq(ctx.float_bits(got), value)
        if isinstance(type_, Str):
            return ctx.eq(got, ctx.make_str(value))
        if isinstance(type_, Bytes):
            return len(got) == len(value) and ctx.eq(list(got), list(value))
        if isinstance(type_, Ext):
            return got.bitsize == value[1] and ctx.eq(bits_value(ctx, got.buffer, value[1]),
                                                      bits_value(ctx, value[0], value[1]))
        if isinstance(type_, (Enum, Bitmask)):
            return ctx.eq(got.value, value)
        if isinstance(type_, Arr):
            if len(got) != len(value):
                return False
            return ctx.land(*[self.same(ctx, type_.elem, a, b) for a, b in zip(got, value)]) if value else True
        if isinstance(type_, Struct):
            conds = [True]
            for field in type_.fields:
                conds.append(self.same(ctx, field.type, getattr(got, snake(field.name)), value[field.name]))
            return ctx.land(*conds)
        if isinstance(type_, Compound):
            if value["branch"] is None:
                return got.choice_tag == -1
            field = type_.field(value["branch"])
            tag = getattr(got, "CHOICE_" + snake(field.name).upper())
            return ctx.land(got.choice_tag == tag,
                            self.same(ctx, field.type, getattr(got, snake(field.name)), value["value"]))
        return ctx.eq(got, value)

    def read(self, ctx, type_, params, inp):
        args = [self.build(ctx, ptype, params[name]) for name, ptype in type_.params]
        return self.cls(ctx, type_.name).from_reader(inp, *args)


def encode_ref(ctx, type_, value, start=0, wrong=None):
    """Reference stream: start bits of prefix (ones), then the value; offsets of the value are filled in."""
    out = None
    for _ in range(2):
        out = RefWriter(ctx)
        out.wrong = wrong
        out.put((1 << start) - 1, start)
        type_.encode(ctx, out, value, None)
    return out


def ref_bytes(ctx, out):
    """Bytes of the reference stream, zero padded."""
    pad = -out.pos % 8
    value = ctx.concat_bits(out.chunks + ([(0, pad)] if pad else []))
    count = (out.pos + 7) // 8
    return ctx.make_bytes([(value >> (8 * (count - 1 - i))) & 255 for i in range(count)])


def ends_open(ctx, type_, value, start, pos):
    """Without its last bit the stream ends where an extended field begins: the field is absent."""
    count = sum(getattr(field, "extended", False) for field in getattr(type_, "fields", ()))
    if not count:
        return False
    last = {**value, "$extended": count - 1}
    return pos - 1 <= (encode_ref(ctx, type_, last, start).pos + 7) // 8 * 8


def roundtrip(ctx, binding, type_, start=0, implicit=False):
    """Encoding, size, offsets and decoding of every value of the type agree with the reference."""
    params = type_.make_params(ctx, "p")
    value = type_.make(ctx, "v", params)
    obj = binding.build(ctx, type_, value)
    ref = encode_ref(ctx, type_, value, start)
    size = ref.pos - start
    ctx.check(ctx.eq(obj.bitsizeof(start), size), "bitsizeof is the size of the encoding")
    ctx.check(ctx.eq(obj.initialize_offsets(start), ref.pos), "initialize_offsets returns the end position")
    ctx.check(binding.same(ctx, type_, obj, value), "fields and offsets before writing")
    out = writer(ctx)
    if start:
        out.write_bits((1 << start) - 1, start)
    obj.write(out)
    ctx.check(out.bitposition == ref.pos, "number of bits written")
    ctx.check(ctx.eq(bits_value(ctx, out.byte_array, ref.pos), ref.value()), "bits written")
    ctx.check(binding.same(ctx, type_, obj, value), "writing does not change the object")
    data = RefWriter(ctx)
    data.chunks, data.pos = list(ref.chunks), ref.pos
    if not implicit:
        data.put(5, 3)
    inp = reader(ctx, ref_bytes(ctx, data), data.pos)
    if start:
        inp.read_bits(start)
    got = binding.read(ctx, type_, params, inp)
    ctx.check(binding.same(ctx, type_, got, value), "decoded value")
    ctx.check(inp.bitposition == ref.pos, "reader position")
    if size and not implicit and not ends_open(ctx, type_, value, start, ref.pos):
        short = reader(ctx, ref_bytes(ctx, ref), ref.pos - 1)
        if start:
            short.read_bits(start)
        _, exc = ctx.attempt(binding.read, ctx, type_, params, short)
        ctx.check(exc is not None and is_runtime_error(exc), "truncated stream is rejected", repr(exc))
    ctx.observe("data", out.byte_array)
    ctx.reach("end")


def wrong_offset(ctx, binding, type_, start, number):
    """A wrong offset is refused when writing and when reading."""
    params = type_.make_params(ctx, "p")
    value = type_.make(ctx, "v", params)
    ref = encode_ref(ctx, type_, value, start, (number, ctx.int("wrong", 0, 0xFFFF)))
    if number >= len(ref.offsets):
        return
    obj = binding.build(ctx, type_, value)
    out = writer(ctx)
    if start:
        out.write_bits((1 << start) - 1, start)
    _, exc = ctx.attempt(obj.write, out)
    ctx.check(exc is not None and is_runtime_error(exc), "writing a wrong offset is refused", repr(exc))
    inp = reader(ctx, ref_bytes(ctx, ref), ref.pos)
    if start:
        inp.read_bits(start)
    _, exc = ctx.attempt(binding.read, ctx, type_, params, inp)
    ctx.check(exc is not None and is_runtime_error(exc), "reading a wrong offset is refused", repr(exc))
    ctx.reach("end")


def violated(ctx, binding, type_, name):
    """A value violating the constraint is refused when writing and when reading."""
    ctx.violate, ctx.violated = name, False
    params = type_.make_params(ctx, "p")
    value = type_.make(ctx, "v", params)
    if not ctx.violated:
        return
    ref = encode_ref(ctx, type_, value)
    _, exc = ctx.attempt(binding.build(ctx, type_, value).write, writer(ctx))
    ctx.check(exc is not None and is_runtime_error(exc), "writing a violated constraint is refused", repr(exc))
    _, exc = ctx.attempt(binding.read, ctx, type_, params, reader(ctx, ref_bytes(ctx, ref), ref.pos))
    ctx.check(exc is not None and is_runtime_error(exc), "reading a violated constraint is refused", repr(exc))
    ctx.reach("end")


def roundtrip_jobs(binding, top, starts, implicit=()):
    return [Job(f"{type_.name}-{start}", roundtrip,
                {"binding": binding, "type_": type_, "start": start, "implicit": type_.name in implicit},
                roots=binding.roots(), must_reach=["end"])
            for type_ in top for start in starts]


def refused(ctx, obj, label, *exceptions):
    """Writing raises a zserio exception."""
    _, exc = ctx.attempt(obj.write, writer(ctx))
    ctx.check(exc is not None and is_runtime_error(exc), label, repr(exc))


_MATRIX = {}


def matrix(name):
    """Binding and models of a schema of feature combinations."""
    from . import matrix as combos  # pylint: disable=import-outside-toplevel
    if name not in _MATRIX:
        schema = combos.SCHEMAS[name]()
        path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "schemas", name, name + ".zs")
        with open(path, encoding="utf-8") as file:
            assert file.read() == schema.text(), "run python3-vt -m checks.matrix"
        _MATRIX[name] = (Binding(f"{name}/{name}.zs"), schema.top)
    return _MATRIX[name]


def any_base(ctx, binding, type_):
    """Sizes and offsets at any byte position, not only near the start of the stream."""
    params = type_.make_params(ctx, "p")
    value = type_.make(ctx, "v", params)
    obj = binding.build(ctx, type_, value)
    unit = ctx.int("unit", 0, (1 << 36) - 1)
    base = unit << 10  # a multiple of every alignment used
    ref = encode_ref(ctx, type_, value)
    ctx.check(ctx.eq(obj.bitsizeof(base), ref.pos), "bitsizeof at any position")
    ctx.check(ctx.eq(obj.initialize_offsets(base), base + ref.pos), "initialize_offsets returns the end position")
    for holder, key in ref.offsets:
        holder[key] = holder[key] + (unit << 7)
    ctx.check(binding.same(ctx, type_, obj, value), "offsets at any position")
    ctx.reach("end")


def any_base_jobs(binding, top):
    return [Job(f"base-{type_.name}", any_base, {"binding": binding, "type_": type_}, roots=binding.roots(),
                must_reach=["end"]) for type_ in top]


def violated_jobs(binding, top):
    """Every carrier and structure of carriers with a constraint."""
    out = []
    for type_ in top.values():
        for name in constraint_names(type_):
            out.append(Job(f"violated-{type_.name}-{name}", violated, {"binding": binding, "type_": type_, "name": name},
                           roots=binding.roots(), must_reach=["end"]))
    return out


def constraint_names(type_):
    if isinstance(type_, Arr):
        return constraint_names(type_.elem)
    if not isinstance(type_, Compound):
        return set()
    fields = [field for _, field in type_.cases if field] if isinstance(type_, Choice) else type_.fields
    out = {f"{type_.name}.{field.name}" for field in fields if field.constraint}
    for field in fields:
        out |= constraint_names(field.type)
    return out


def matrix_jobs(name, tier, starts=(0,), only=lambda name: True):
    binding, top = matrix(name)
    pick = [type_ for type_ in top.values() if only(type_.name)]
    return roundtrip_jobs(binding, pick, starts if tier == "quick" else (0, 1, 3, 7))
