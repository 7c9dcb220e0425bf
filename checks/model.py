"""
Reference model of zserio schemas: values, wire encoding, and offsets, written from doc/ZserioEncodingGuide.md and
doc/ZserioLanguageOverview.md. Used as the oracle for code generated by the real compiler (any language).

Neutral values: integers, booleans and enum/bitmask values are (symbolic) numbers; a float is its float64 bit pattern;
a string is a list of code points, bytes a list of bytes, an extern field (bytes, bit size); a structure is a dict
(None: field not present); a choice or union is (branch name or None, value); an array is a list.
"""

import copy

from . import wire


class RefWriter:
    """Bit stream as a list of (value, number of bits)."""

    def __init__(self, ctx):
        self.ctx, self.chunks, self.pos = ctx, [], 0
        self.content = 0  # end of the last value, before padding
        self.offsets, self.wrong = [], None

    def put(self, value, nbits):
        if nbits:
            self.chunks.append((value, nbits))
            self.pos += nbits
            self.content = self.pos

    def align(self, bits):
        content = self.content
        self.put(0, -self.pos % bits)
        self.content = content

    def offset(self, holder, key):
        """Sets the offset stored in the holder to the current byte, or to another value if it is to be wrong."""
        number = len(self.offsets)
        assert self.pos % 8 == 0
        self.offsets.append((holder, key))
        if self.wrong is not None and number == self.wrong[0]:
            self.ctx.assume(self.wrong[1] != self.pos // 8)
            holder[key] = self.wrong[1]
        else:
            holder[key] = self.pos // 8

    def var(self, name, value):
        size = var_bytes(self.ctx, name, value)
        self.put(wire.var_encode(self.ctx, name, value, size), 8 * size)

    def value(self):
        return self.ctx.concat_bits(self.chunks)


def var_bytes(ctx, name, value):
    """Concrete encoded size (forks)."""
    size = wire.var_size(ctx, name, value)
    if isinstance(size, int):
        return size
    for count in range(1, wire.VARNUMS[name][0]):
        if ctx.choose_path(ctx.eq(size, count)):
            return count
    return wire.VARNUMS[name][0]


def concretize(ctx, value, low, high):
    """Concrete number in the range (forks); the value is assumed to be there."""
    if isinstance(value, int):
        return value
    ctx.assume(ctx.land(value >= low, value <= high))
    for number in range(low, high):
        if ctx.choose_path(ctx.eq(value, number)):
            return number
    return high


def bit_length(ctx, values):
    """Number of bits of the largest magnitude (forks)."""
    low, high = 0, 66
    while low < high:
        mid = (low + high) // 2
        if ctx.choose_path(ctx.land(*[ctx.land(value < (1 << mid), value > -(1 << mid)) for value in values])):
            high = mid
        else:
            low = mid + 1
    return low


def number(ctx, label, low, high):
    """Any number of the range; checks of the JSON form narrow all but one of them (ctx.narrow)."""
    narrow = getattr(ctx, "narrow", None)
    return ctx.int(label, low, high) if narrow is None else narrow.number(ctx, label, low, high)


def character(ctx, label, high):
    narrow = getattr(ctx, "narrow", None)
    return ctx.int(label, 0, high) if narrow is None else narrow.character(ctx, label, high)


class Delta:
    """Packing of one integral field."""

    def __init__(self, ctx):
        self.ctx, self.values, self.sizes, self.index = ctx, [], [], 0
        self.packed, self.width = False, 0

    def add(self, value, size):
        self.values.append(value)
        self.sizes.append(size)

    def put(self, out, put_unpacked):
        if self.index == 0:
            if len(self.values) > 1:
                self.width = bit_length(self.ctx, [b - a for a, b in zip(self.values, self.values[1:])])
                delta_bits = self.width + 1 if self.width else 0
                self.packed = (self.width <= 62 and
                               6 + self.sizes[0] + (len(self.values) - 1) * delta_bits < sum(self.sizes))
            out.put(int(self.packed), 1)
            if self.packed:
                out.put(self.width, 6)
        if self.index == 0 or not self.packed:
            put_unpacked()
        elif self.width:
            out.put(self.values[self.index] - self.values[self.index - 1], self.width + 1)
        self.index += 1


class Node:
    """Packing state of a compound element: one Delta per packable field, nested nodes for nested compounds."""

    def __init__(self, ctx):
        self.ctx, self.children = ctx, {}
        self.delta = Delta(ctx)

    def child(self, name):
        if name not in self.children:
            self.children[name] = Node(self.ctx)
        return self.children[name]


class Scope:
    """Names visible to the expressions of a compound: fields, parameters."""

    def __init__(self, values, params, index=None):
        self.__dict__.update(_values=values, _params=params, index=index)

    def __getattr__(self, name):
        if name in self._values:
            value = self._values[name]
        else:
            value = self._params[name]
        return Scope(value, value.get("$params", {})) if isinstance(value, dict) else value

    def values_(self):
        return self._values

    def raw_(self, name):
        return self._values[name] if name in self._values else self._params[name]


class Type:
    packable = False
    fixed = None

    def make(self, ctx, label, scope):
        raise NotImplementedError

    def encode(self, ctx, out, value, scope):
        raise NotImplementedError

    def collect(self, ctx, value, node, scope, pos_free=True):
        """Registers the value of a packed array element."""
        if self.packable:
            probe = RefWriter(ctx)
            self.encode(ctx, probe, value, scope)
            node.delta.add(self.number(value), probe.pos)

    def put_packed(self, ctx, out, value, node, scope):
        if self.packable:
            node.delta.put(out, lambda: self.encode(ctx, out, value, scope))
        else:
            self.encode(ctx, out, value, scope)

    def number(self, value):
        return value

    def same(self, ctx, left, right):
        return ctx.eq(left, right)


class Bits(Type):
    """bit:n, uintN, int:n, intN"""

    packable = True

    def __init__(self, nbits, signed=False, low=None, high=None):
        self.nbits, self.signed = nbits, signed
        self.fixed = nbits
        self.min = -(1 << (nbits - 1)) if signed else 0
        self.max = (1 << (nbits - 1)) - 1 if signed else (1 << nbits) - 1
        self.low = self.min if low is None else low
        self.high = self.max if high is None else high

    def make(self, ctx, label, scope):
        few = getattr(ctx, "few_big", None)
        if few and (self.low, self.high) == (0, (1 << 64) - 1):
            return ctx.pick(label, few)
        return number(ctx, label, self.low, self.high)

    def encode(self, ctx, out, value, scope):
        out.put(value, self.nbits)


class Dyn(Type):
    """bit<expr>, int<expr>"""

    packable = True

    def __init__(self, width, signed=False, widths=range(1, 65)):
        self.width, self.signed, self.widths = width, signed, widths

    def make(self, ctx, label, scope):
        nbits = concretize(ctx, self.width(scope), min(self.widths), max(self.widths))
        return Bits(nbits, self.signed).make(ctx, label, scope)

    def encode(self, ctx, out, value, scope):
        out.put(value, concretize(ctx, self.width(scope), min(self.widths), max(self.widths)))


class OneOf(Bits):
    """Bit field explored for some values only (forks)."""

    def __init__(self, nbits, options, signed=False):
        super().__init__(nbits, signed)
        self.options = list(options)

    def make(self, ctx, label, scope):
        return ctx.pick(label, self.options)


def few(type_, options):
    """The type explored for some values only (forks)."""
    out = copy.copy(type_)
    out.make = lambda ctx, label, scope: ctx.pick(label, list(options))
    return out


class Var(Type):
    packable = True

    def __init__(self, name, low=None, high=None):
        self.name = name
        self.min, self.max = wire.var_range(name)
        self.low = self.min if low is None else low
        self.high = self.max if high is None else high

    def make(self, ctx, label, scope):
        return number(ctx, label, self.low, self.high)

    def encode(self, ctx, out, value, scope):
        out.var(self.name, value)


class Bool(Type):
    def make(self, ctx, label, scope):
        return ctx.bool(label)

    def encode(self, ctx, out, value, scope):
        out.put(ctx.ite(value, 1, 0), 1)


class Flt(Type):
    """Values exactly representable with the exponent of 1.0 (conversions have their own property)."""

    def __init__(self, nbits):
        self.nbits = nbits
        self.mant, self.exp = {16: (10, 15), 32: (23, 127), 64: (52, 1023)}[nbits]

    def make(self, ctx, label, scope):
        sign, frac = ctx.int(label + ".sign", 0, 1), ctx.int(label, 0, (1 << self.mant) - 1)
        return (sign << 63) | (1023 << 52) | (frac << (52 - self.mant))

    def encode(self, ctx, out, value, scope):
        frac = (value >> (52 - self.mant)) & ((1 << self.mant) - 1)
        out.put((value >> 63) & 1, 1)
        out.put(self.exp, self.nbits - 1 - self.mant)
        out.put(frac, self.mant)


class Str(Type):
    def __init__(self, lens=(0, 2), high=0x7F):
        self.lens, self.high = lens, high

    def make(self, ctx, label, scope):
        count = ctx.pick(label + ".len", self.lens)
        return [character(ctx, f"{label}[{i}]", self.high) for i in range(count)]

    def encode(self, ctx, out, value, scope):
        body = []
        for cp in value:
            if self.high < 0x80 or ctx.choose_path(cp < 0x80):
                body.append(cp)
            else:
                assert self.high <= 0x7FF
                body += [0xC0 | (cp >> 6), 0x80 | (cp & 0x3F)]
        out.var("varsize", len(body))
        for byte in body:
            out.put(byte, 8)


class Bytes(Type):
    def __init__(self, lens=(0, 2)):
        self.lens = lens

    def make(self, ctx, label, scope):
        return [number(ctx, f"{label}[{i}]", 0, 255) for i in range(ctx.pick(label + ".len", self.lens))]

    def encode(self, ctx, out, value, scope):
        out.var("varsize", len(value))
        for byte in value:
            out.put(byte, 8)


class Ext(Type):
    """extern; value (bytes, bit size), unused low bits of the last byte are zero."""

    def __init__(self, sizes=(0, 3, 8)):
        self.sizes = sizes

    def make(self, ctx, label, scope):
        size = ctx.pick(label + ".bits", self.sizes)
        data = [number(ctx, f"{label}[{i}]", 0, 255) for i in range(size // 8)]
        if size % 8:
            data.append(ctx.int(f"{label}[{size // 8}]", 0, (1 << (size % 8)) - 1) << (8 - size % 8))
        return (data, size)

    def encode(self, ctx, out, value, scope):
        data, size = value
        out.var("varsize", size)
        for byte in data[:size // 8]:
            out.put(byte, 8)
        if size % 8:
            out.put(data[-1] >> (8 - size % 8), size % 8)

    def same(self, ctx, left, right):
        return left[1] == right[1] and ctx.eq(list(left[0]), list(right[0]))


class Enum(Type):
    packable = True

    def __init__(self, name, base, items):
        self.name, self.base, self.items = name, base, dict(items)

    def make(self, ctx, label, scope):
        narrow = getattr(ctx, "narrow", None)
        items = sorted(self.items.values())
        return ctx.pick(label, items if narrow is None else narrow.items(items))

    def encode(self, ctx, out, value, scope):
        self.base.encode(ctx, out, value, scope)


class Bitmask(Type):
    packable = True

    def __init__(self, name, base, items):
        self.name, self.base, self.items = name, base, dict(items)

    def make(self, ctx, label, scope):
        narrow = getattr(ctx, "narrow", None)
        if narrow is not None and not narrow.peek():
            return narrow.items(sorted(self.items.values()))[0]
        return self.base.make(ctx, label, scope)

    def encode(self, ctx, out, value, scope):
        self.base.encode(ctx, out, value, scope)


class Field:
    """
    cond: presence expression; align: alignment of the field in bits; offset: function of the scope giving (container,
    key) of the number holding the byte offset; indexed: the offsets are an array with one entry per element;
    constraint: condition; args: arguments of a parameterized type (params by name); default: literal of the schema.
    """

    def __init__(self, name, type_, *, optional=False, cond=None, align=0, offset=None, indexed=False,
                 constraint=None, args=None, extended=False, default=None, nopack=False):
        self.name, self.type, self.optional, self.cond = name, type_, optional, cond
        self.align, self.offset, self.indexed, self.constraint = align, offset, indexed, constraint
        self.args, self.extended, self.default, self.nopack = args, extended, default, nopack


class Compound(Type):
    packable_compound = True

    def __init__(self, name, params=()):
        self.name, self.params = name, [(param, type_) for param, type_ in params]

    def make_params(self, ctx, label):
        return {name: type_.make(ctx, f"{label}.{name}", None) for name, type_ in self.params}

    def packs(self):
        return True


def field_scope(field, scope):
    """Parameter values of a field's type."""
    return field.args(scope) if field.args else {}


class Struct(Compound):
    def __init__(self, name, fields, params=()):
        super().__init__(name, params)
        self.fields = fields

    def make(self, ctx, label, scope):
        """scope: dict of parameters."""
        values = {"$params": scope or {}, "$type": self}
        inner = Scope(values, scope or {})
        for field in self.fields:
            path = f"{label}.{field.name}"
            present = True
            if field.cond is not None:
                present = ctx.choose_path(field.cond(inner))
            elif field.optional:
                present = ctx.pick(path + ".set", [0, 1])
            if not present:
                values[field.name] = None
                continue
            values[field.name] = make_field(ctx, field, path, inner)
            if field.constraint is not None:
                constrain(ctx, f"{self.name}.{field.name}", field.constraint(inner))
        return values

    def present(self, field, value):
        return value[field.name] is not None

    def encode(self, ctx, out, value, scope, node=None, done=None):
        inner = Scope(value, value["$params"])
        extended = value.get("$extended")
        for field in self.fields:
            if field.extended:
                if extended is not None:
                    if extended == 0:
                        break
                    extended -= 1
                out.align(8)
            item = value[field.name]
            if field.optional and field.cond is None:
                out.put(0 if item is None else 1, 1)
            if item is None:
                continue
            if field.align:
                out.align(field.align)
            if field.offset is not None and not field.indexed:
                out.align(8)
                out.offset(*field.offset(inner))
            encode_field(ctx, out, field, item, inner, node)

    def collect(self, ctx, value, node, scope, pos_free=True):
        inner = Scope(value, value["$params"])
        for field in self.fields:
            item = value[field.name]
            if item is not None and not isinstance(field.type, Arr) and not field.nopack:
                field.type.collect(ctx, item, node.child(field.name), inner)

    def put_packed(self, ctx, out, value, node, scope):
        self.encode(ctx, out, value, scope, node)

    def same(self, ctx, left, right):
        conds = []
        for field in self.fields:
            a, b = left[field.name], right[field.name]
            if a is None or b is None:
                conds.append(a is None and b is None)
            else:
                conds.append(field.type.same(ctx, a, b))
        return ctx.land(*conds)


def make_field(ctx, field, path, inner):
    if isinstance(field.type, Arr):
        return field.type.make(ctx, path, inner, field.args)
    if isinstance(field.type, Compound):
        return field.type.make(ctx, path, field_scope(field, inner))
    return field.type.make(ctx, path, inner)


def encode_field(ctx, out, field, item, inner, node):
    if field.nopack:
        node = None  # fields used as offsets are not packed
    if isinstance(field.type, Arr):
        offsets = field.offset(inner) if field.indexed else None
        field.type.encode(ctx, out, item, inner, packed=node is not None, offsets=offsets)
    elif node is not None:
        field.type.put_packed(ctx, out, item, node.child(field.name), inner)
    else:
        field.type.encode(ctx, out, item, inner)


def constrain(ctx, name, cond):
    """Constraints hold, except the one named by the job, which is violated."""
    target = getattr(ctx, "violate", None)
    if target == name and ctx.pick("violate", (1, 0)):
        ctx.violated = True
        ctx.assume(ctx.lnot(cond))
    else:
        ctx.assume(cond)


class Choice(Compound):
    """cases: list of (values or None for default, Field or None for an empty case); select: function of the scope."""

    def __init__(self, name, params, select, cases):
        super().__init__(name, params)
        self.select, self.cases = select, cases

    def find(self, ctx, params):
        """(case index, field); index None: no match (forks)."""
        selector = self.select(Scope({}, params))
        for index, (values, field) in enumerate(self.cases):
            if values is None:
                continue
            if ctx.choose_path(ctx.lor(*[ctx.eq(selector, value) for value in values])):
                return index, field
        for index, (values, field) in enumerate(self.cases):
            if values is None:
                return index, field
        return None, None

    def make(self, ctx, label, scope):
        index, field = self.find(ctx, scope)
        if index is None:
            ctx.assume(False)
        value = {"$params": scope, "$type": self, "branch": field.name if field else None, "value": None}
        if field:
            inner = Scope({}, scope)
            value["value"] = make_field(ctx, field, f"{label}.{field.name}", inner)
            value[field.name] = value["value"]
            if field.constraint is not None:
                constrain(ctx, f"{self.name}.{field.name}", field.constraint(Scope(value, scope)))
        return value

    def field(self, branch):
        for _, field in self.cases:
            if field is not None and field.name == branch:
                return field
        return None

    def encode(self, ctx, out, value, scope, node=None):
        field = self.field(value["branch"])
        if field is not None:
            if field.align:
                out.align(field.align)
            encode_field(ctx, out, field, value["value"], Scope({}, value["$params"]), node)

    def collect(self, ctx, value, node, scope, pos_free=True):
        field = self.field(value["branch"])
        if field is not None and not isinstance(field.type, Arr):
            field.type.collect(ctx, value["value"], node.child(field.name), Scope({}, value["$params"]))

    def put_packed(self, ctx, out, value, node, scope):
        self.encode(ctx, out, value, scope, node)

    def same(self, ctx, left, right):
        if left["branch"] != right["branch"]:
            return False
        field = self.field(left["branch"])
        return True if field is None else field.type.same(ctx, left["value"], right["value"])


class Union(Compound):
    def __init__(self, name, fields, params=()):
        super().__init__(name, params)
        self.fields = fields

    def make(self, ctx, label, scope):
        index = ctx.pick(label + ".tag", range(len(self.fields)))
        field = self.fields[index]
        value = {"$params": scope or {}, "$type": self, "branch": field.name, "tag": index}
        value["value"] = make_field(ctx, field, f"{label}.{field.name}", Scope({}, scope or {}))
        value[field.name] = value["value"]
        if field.constraint is not None:
            constrain(ctx, f"{self.name}.{field.name}", field.constraint(Scope(value, scope or {})))
        return value

    def field(self, branch):
        return next(field for field in self.fields if field.name == branch)

    def encode(self, ctx, out, value, scope, node=None):
        if node is None:
            out.var("varsize", value["tag"])
        else:
            node.child("$tag").delta.put(out, lambda: out.var("varsize", value["tag"]))
        field = self.field(value["branch"])
        if field.align:
            out.align(field.align)
        encode_field(ctx, out, field, value["value"], Scope({}, value["$params"]), node)

    def collect(self, ctx, value, node, scope, pos_free=True):
        node.child("$tag").delta.add(value["tag"], 8)
        field = self.field(value["branch"])
        if not isinstance(field.type, Arr):
            field.type.collect(ctx, value["value"], node.child(field.name), Scope({}, value["$params"]))

    def put_packed(self, ctx, out, value, node, scope):
        self.encode(ctx, out, value, scope, node)

    same = Choice.same


class Arr(Type):
    """
    length: None for an auto length (varsize prefix), "implicit", or a function of the scope; lens: lengths explored;
    like: name of the array whose length the explored values share;
    args: parameters of the elements: function of (scope, index).
    """

    def __init__(self, elem, length=None, packed=False, lens=(0, 1, 2), like=None):
        self.elem, self.length, self.packed, self.lens, self.like = elem, length, packed, lens, like

    def count(self, ctx, label, scope):
        if callable(self.length):
            count = concretize(ctx, self.length(scope), min(self.lens), max(self.lens))
            if getattr(ctx, "wrong_lengths", None) == 0:
                change = ctx.pick(label + ".wrong", (0, -1, 1))
                if change and count + change >= 0:
                    ctx.wrong_lengths = 1
                    return count + change
            return count
        if self.like:
            return len(scope.raw_(self.like))
        return ctx.pick(label + ".len", self.lens)

    def make(self, ctx, label, scope, args=None):
        out = []
        for i in range(self.count(ctx, label, scope)):
            inner = scope
            if isinstance(self.elem, Compound):
                inner = args(scope, i) if args else {}
            out.append(self.elem.make(ctx, f"{label}[{i}]", inner))
        return out

    def packs(self):
        return self.elem.packable or isinstance(self.elem, Compound)

    def encode(self, ctx, out, value, scope, packed=False, offsets=None):
        if self.length is None:
            out.var("varsize", len(value))
        packed = (packed or self.packed) and self.packs() and self.length != "implicit"
        node = Node(ctx)
        if packed:
            for item in value:
                self.elem.collect(ctx, item, node, scope)
        for index, item in enumerate(value):
            if offsets is not None:
                out.align(8)
                out.offset(offsets, index)
            if packed:
                self.elem.put_packed(ctx, out, item, node, scope)
            else:
                self.elem.encode(ctx, out, item, scope)

    def same(self, ctx, left, right):
        if len(left) != len(right):
            return False
        return ctx.land(*[self.elem.same(ctx, a, b) for a, b in zip(left, right)]) if left else True
