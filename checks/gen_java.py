"""Binding of the reference model to Java code generated by the real compiler."""

from sym.java.engine import Float, JavaEngine, JavaError, generated_classes, runtime_classes
from sym.job import Job as _Job

from .common_java import IO, attempt, bits_value, declared, reader, writer
from .gen_py import constraint_names, encode_ref, ends_open
from .model import *

ASSUMPTIONS = ["code generated by the compiler and compiled by javac from /repo's current sources",
               "JDK library classes used (String, BigInteger, collections, arrays) behave as documented",
               "float fields hold numbers with the exponent of 1.0 (conversions: P42)"]


def camel(name):
    return name[0].upper() + name[1:]


class Binding:
    """Conversions between neutral values and objects of one generated package."""

    def __init__(self, schema, options=()):
        self.schema, self.options = schema, tuple(options)
        self.package = schema.split("/")[0]
        self.engine = JavaEngine(self.dirs)

    def dirs(self):
        return [runtime_classes(), generated_classes(self.schema, self.options)]

    def name(self, type_):
        return f"{self.package}.{type_.name}"

    def build(self, ctx, type_, value, cache=None):
        """Object of the generated code for a neutral value; a value reached twice gives one object."""
        cache = {} if cache is None else cache
        env = ctx.env
        if value is None:
            return None
        if isinstance(type_, Flt):
            if type_.nbits == 64:
                return Float(value, 64)
            return Float((((value >> 63) & 1) << 31) | (127 << 23) | ((value >> 29) & 0x7FFFFF), 32)
        if isinstance(type_, Str):
            return ctx.make_str(value)
        if isinstance(type_, Bytes):
            return list(value)
        if isinstance(type_, Ext):
            return env.new(IO + "BitBuffer", list(value[0]), value[1], sig="([BJ)")
        if isinstance(type_, Enum):
            return env.static(self.name(type_), "toEnum", value)
        if isinstance(type_, Bitmask):
            return env.new(self.name(type_), value)
        if isinstance(type_, Arr):
            return [self.build(ctx, type_.elem, item, cache) for item in value]
        if isinstance(type_, Compound):
            if id(value) in cache:
                return cache[id(value)]
            params = [self.build(ctx, ptype, value["$params"][name], cache) for name, ptype in type_.params]
            obj = self.create(ctx, type_, params)
            if isinstance(type_, Struct):
                for field in type_.fields:
                    item = self.build(ctx, field.type, value[field.name], cache)
                    if item is not None:
                        env.call(obj, "set" + camel(field.name), item)
            elif value["branch"] is not None:
                field = type_.field(value["branch"])
                env.call(obj, "set" + camel(field.name), self.build(ctx, field.type, value["value"], cache))
            cache[id(value)] = obj
            return obj
        return value

    def create(self, ctx, type_, params):
        name = self.name(type_)
        cls = ctx.env.vm.load(name.replace(".", "/"))
        if not params:
            return ctx.env.new(name, sig="()")
        found = [item for (method, _), item in cls.methods.items() if method == "<init>" and
                 len(item.params) == len(params) and "BitStreamReader" not in item.desc]
        return ctx.env.new(name, *params, sig=found[0].desc if len(found) == 1 else None)

    @staticmethod
    def narrow_bytes(elem):
        """Are arrays of the type Java byte arrays?"""
        return isinstance(elem, Bits) and elem.nbits < (9 if elem.signed else 8) or isinstance(elem, Dyn)

    def same(self, ctx, type_, got, value):
        """Condition: the object read by the generated code represents the neutral value."""
        env = ctx.env
        if value is None or got is None:
            return value is None and got is None
        if isinstance(type_, Flt):
            bits = self.build(ctx, type_, value)
            return ctx.eq(got.bits, bits.bits)
        if isinstance(type_, Str):
            return ctx.eq(got, ctx.make_str(value))
        if isinstance(type_, Bytes):
            return len(got) == len(value) and ctx.eq(list(got), list(value))
        if isinstance(type_, Ext):
            return ctx.land(ctx.eq(env.call(got, "getBitSize"), value[1]),
                            ctx.eq(bits_value(ctx, env.call(got, "getBuffer"), value[1]), bits_value(ctx, value[0], value[1])))
        if isinstance(type_, (Enum, Bitmask)):
            return ctx.eq(env.call(got, "getValue"), value)
        if isinstance(type_, Arr):
            if len(got) != len(value):
                return False
            if isinstance(type_.elem, Bits) and self.narrow_bytes(type_.elem):
                return ctx.land(*[ctx.eq(a, b & 0xFF) for a, b in zip(got, value)]) if value else True
            return ctx.land(*[self.same(ctx, type_.elem, a, b) for a, b in zip(got, value)]) if value else True
        if isinstance(type_, Struct):
            conds = [True]
            for field in type_.fields:
                conds.append(self.same(ctx, field.type, self.get(ctx, got, field), value[field.name]))
            return ctx.land(*conds)
        if isinstance(type_, Compound):
            tag = env.call(got, "choiceTag")
            if value["branch"] is None:
                return ctx.eq(tag, -1)
            field = type_.field(value["branch"])
            want = env.get_static(self.name(type_), "CHOICE_" + field.name)
            if not ctx.choose_path(ctx.eq(tag, want)):
                return False
            return self.same(ctx, field.type, self.get(ctx, got, field), value["value"])
        return ctx.eq(got, value)

    @staticmethod
    def get(ctx, obj, field):
        return ctx.env.call(obj, "get" + camel(field.name))

    def read(self, ctx, type_, params, inp):
        args = [self.build(ctx, ptype, params[name]) for name, ptype in type_.params]
        name = self.name(type_)
        cls = ctx.env.vm.load(name.replace(".", "/"))
        found = [item for (method, _), item in cls.methods.items() if method == "<init>" and
                 item.desc.startswith("(Lzserio/runtime/io/BitStreamReader;") and len(item.params) == 1 + len(args)]
        return ctx.env.new(name, inp, *args, sig=found[0].desc)


def ref_bytes(ctx, out):
    """Bytes of the reference stream, zero padded."""
    pad = -out.pos % 8
    value = ctx.concat_bits(out.chunks + ([(0, pad)] if pad else []))
    count = (out.pos + 7) // 8
    return [(value >> (8 * (count - 1 - i))) & 255 for i in range(count)]


def skip(ctx, inp, start):
    if start:
        ctx.env.call(inp, "setBitPosition", start)
    return inp


def started(ctx, start):
    out = writer(ctx)
    for _ in range(start):
        ctx.env.call(out, "writeBits", 1, 1)
    return out


FEW_BIG = (200, (1 << 64) - 1)


def roundtrip(ctx, binding, type_, start=0, implicit=False, few=False):
    """Encoding, size, offsets and decoding of every value of the type agree with the reference."""
    env = ctx.env
    ctx.few_big = FEW_BIG if few else None
    params = type_.make_params(ctx, "p")
    value = type_.make(ctx, "v", params)
    obj = binding.build(ctx, type_, value)
    ref = encode_ref(ctx, type_, value, start)
    size = ref.pos - start
    ctx.check(ctx.eq(env.call(obj, "bitSizeOf", start), size), "bitSizeOf is the size of the encoding")
    ctx.check(ctx.eq(env.call(obj, "initializeOffsets", start), ref.pos), "initializeOffsets returns the end position")
    ctx.check(binding.same(ctx, type_, obj, value), "fields and offsets before writing")
    out = started(ctx, start)
    env.call(obj, "write", out)
    ctx.check(ctx.eq(env.call(out, "getBitPosition"), ref.pos), "number of bits written")
    data = env.call(out, "toByteArray")
    ctx.check(len(data) == (ref.pos + 7) // 8, "number of bytes written")
    ctx.check(ctx.eq(bits_value(ctx, data, ref.pos), ref.value()), "bits written")
    ctx.check(binding.same(ctx, type_, obj, value), "writing does not change the object")
    longer = RefWriter(ctx)
    longer.chunks, longer.pos = list(ref.chunks), ref.pos
    if not implicit:
        longer.put(5, 3)
    inp = skip(ctx, reader(ctx, ref_bytes(ctx, longer), longer.pos), start)
    got = binding.read(ctx, type_, params, inp)
    ctx.check(binding.same(ctx, type_, got, value), "decoded value")
    ctx.check(ctx.eq(env.call(inp, "getBitPosition"), ref.pos), "reader position")
    ctx.check(env.call(got, "equals", obj), "equal to the original")
    twin = binding.read(ctx, type_, params, skip(ctx, reader(ctx, ref_bytes(ctx, longer), longer.pos), start))
    ctx.check(env.call(got, "equals", twin), "equal to the object read again")
    ctx.check(ctx.eq(env.call(got, "hashCode"), env.call(twin, "hashCode")), "with the same hash code")
    if size and ref.content == ref.pos and not implicit and not ends_open(ctx, type_, value, start, ref.pos):
        short = skip(ctx, reader(ctx, ref_bytes(ctx, ref)[:(ref.pos + 6) // 8], ref.pos - 1), start)
        _, exc = ctx.attempt(binding.read, ctx, type_, params, short)
        ctx.check(exc is not None and isinstance(exc, JavaError) and declared(exc), "truncated stream is rejected", repr(exc))
    ctx.observe("data", data)
    ctx.reach("end")


def refuses(ctx, label, func, *args):
    _, exc = ctx.attempt(func, *args)
    ctx.check(isinstance(exc, JavaError) and declared(exc), label, repr(exc))


def wrong_offset(ctx, binding, type_, start, number):
    """A wrong offset is refused when writing and when reading."""
    params = type_.make_params(ctx, "p")
    value = type_.make(ctx, "v", params)
    ref = encode_ref(ctx, type_, value, start, (number, ctx.int("wrong", 0, 0xFFFF)))
    if number >= len(ref.offsets):
        return
    obj = binding.build(ctx, type_, value)
    refuses(ctx, "writing a wrong offset is refused", ctx.env.call, obj, "write", started(ctx, start))
    inp = skip(ctx, reader(ctx, ref_bytes(ctx, ref), ref.pos), start)
    refuses(ctx, "reading a wrong offset is refused", binding.read, ctx, type_, params, inp)
    ctx.reach("end")


def violated(ctx, binding, type_, name):
    """A value violating the constraint is refused when writing and when reading."""
    ctx.violate, ctx.violated = name, False
    params = type_.make_params(ctx, "p")
    value = type_.make(ctx, "v", params)
    if not ctx.violated:
        return
    ref = encode_ref(ctx, type_, value)
    refuses(ctx, "writing a violated constraint is refused", ctx.env.call, binding.build(ctx, type_, value), "write",
            writer(ctx))
    refuses(ctx, "reading a violated constraint is refused", binding.read, ctx, type_, params,
            reader(ctx, ref_bytes(ctx, ref), ref.pos))
    ctx.reach("end")


def any_base(ctx, binding, type_, limit):
    """Sizes and offsets at any byte position, not only near the start of the stream."""
    params = type_.make_params(ctx, "p")
    value = type_.make(ctx, "v", params)
    obj = binding.build(ctx, type_, value)
    unit = ctx.int("unit", 0, limit)
    base = unit << 10  # a multiple of every alignment used
    ref = encode_ref(ctx, type_, value)
    ctx.check(ctx.eq(ctx.env.call(obj, "bitSizeOf", base), ref.pos), "bitSizeOf at any position")
    ctx.check(ctx.eq(ctx.env.call(obj, "initializeOffsets", base), base + ref.pos), "initializeOffsets returns the end position")
    for holder, key in ref.offsets:
        holder[key] = holder[key] + (unit << 7)
    ctx.check(binding.same(ctx, type_, obj, value), "offsets at any position")
    ctx.reach("end")


MAX_VALIDATE = 500
SLOW = {"Dynamic", "VariableWide", "VariableLong", "OptionalArrays", "PackedEnums", "PackedVars", "PackedUnions", "PackedChoices",
        "PackFixedIndexPack", "PackFixedIndexArr", "IndexedPacked", "AutoEitherOffPack", "EitherOffPack", "MaybeAutoArr"}


def make_job(binding, name, func, params, must_reach=("end",)):
    job = _Job(name, func, {"binding": binding, **params}, engine=binding.engine, must_reach=list(must_reach), max_samples=3)
    job.weight = 2 if params["type_"].name in SLOW else 1
    return job


def starts(tier, every=range(8), quick=(0, 3)):
    return quick if tier == "quick" else every


def roundtrip_jobs(binding, top, starts, implicit=(), few=False):
    binding.dirs()
    return [make_job(binding, f"{type_.name}-{start}", roundtrip,
                     {"type_": type_, "start": start, "implicit": type_.name in implicit, "few": few})
            for type_ in top for start in starts if not (type_.name in SLOW and start == 0 and 3 in starts and len(starts) == 2)]


def matrix_jobs(name, tier, starts=(0,), options=()):
    """Round trips of a schema of feature combinations."""
    binding, top = matrix(name, options)
    types = [type_ for type_ in top.values() if tier != "quick" or not type_.name.endswith("Nest")]
    return roundtrip_jobs(binding, types, starts, few=tier == "quick")


def wrong_jobs(binding, top, offsets, starts=(0, 5)):
    return [make_job(binding, f"wrong-{type_.name}-{number}-{start}", wrong_offset,
                     {"type_": type_, "start": start, "number": number})
            for type_ in top for number in range(offsets.get(type_.name, 0)) for start in starts]


OFFSET_NAMES = ("where", "offsets", "offset", "bodyOffset", "tailOffset", "first", "second")


def offset_widths(type_):
    """Widths of the fields which hold offsets."""
    if isinstance(type_, Arr):
        return offset_widths(type_.elem)
    out = set()
    for field in type_.fields if isinstance(type_, Struct) else ():
        inner = field.type.elem if isinstance(field.type, Arr) else field.type
        out |= {inner.nbits} if field.name in OFFSET_NAMES and isinstance(inner, Bits) else offset_widths(inner)
    for _, inner in getattr(type_, "params", None) or ():
        out |= offset_widths(inner)
    return out


def any_base_jobs(binding, top):
    """Positions which the offsets of the type can hold, in streams of less than 2^31 bytes."""
    out = []
    for type_ in top:
        width = min(offset_widths(type_) | {31})
        out.append(make_job(binding, f"base-{type_.name}", any_base, {"type_": type_, "limit": 3 << (width - 9)}))
    return out


def violated_jobs(binding, top):
    return [make_job(binding, f"violated-{type_.name}-{name}", violated, {"type_": type_, "name": name})
            for type_ in top for name in sorted(constraint_names(type_))]


_MATRIX = {}


def matrix(name, options=()):
    """Binding and models of a schema of feature combinations."""
    from . import matrix as combos  # pylint: disable=import-outside-toplevel
    if name not in _MATRIX:
        _MATRIX[name] = (Binding(f"{name}/{name}.zs", options), combos.SCHEMAS[name]().top)
    return _MATRIX[name]
