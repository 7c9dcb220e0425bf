"""
Loads the real Python source of /repo (and Python code generated by the real compiler) for symbolic execution.

The source files are compiled unmodified; only the builtins and a few standard library modules seen by them are
replaced by shims which understand the proxies of pyproxy/pystr.
"""

import ast
import builtins
import collections
import importlib
import os
import sys
import types

import z3

from .core import Explorer, PathCut, Unsupported
from . import pyproxy as px
from .pyproxy import SymInt, SymBool, SymBytes, SymByteArray, SymFloat, concrete, as_int, mkint, mkbool, byte_items
from .pystr import SymStr, sym_ord, sym_chr, str_items, mkstr, hex_digit

LOOP_LIMIT = 4096


# ------------------------------------------------------------------------------------------------ type shims
class _TypeShim(type):
    """Metaclass of the shims standing in for builtin types."""

    def __instancecheck__(cls, obj):
        return isinstance(obj, cls._accepts)

    def __subclasscheck__(cls, sub):
        if sub is cls:
            return True
        try:
            return any(issubclass(sub, item) for item in cls._accepts)
        except TypeError:
            return False

    def __eq__(cls, other):
        return other is cls or other in cls._accepts

    def __hash__(cls):
        return id(cls)


class _IntShim(_TypeShim):
    def __call__(cls, value=0, base=None):
        if isinstance(value, SymInt):
            return value
        if isinstance(value, SymBool):
            return as_int(value)
        if isinstance(value, SymStr):
            return parse_int(value, 10 if base is None else base)
        if isinstance(value, SymFloat):
            raise Unsupported("int(float)")
        if base is not None:
            return builtins.int(value, base)
        return builtins.int(value)


class IntShim(metaclass=_IntShim):
    _accepts = (int, SymInt, SymBool)

    @staticmethod
    def from_bytes(data, byteorder="big", *, signed=False):
        items = byte_items(data)
        if items is None:
            items = list(data)
        if byteorder == "little":
            items = items[::-1]
        if all(not isinstance(item, SymInt) for item in items):
            return builtins.int.from_bytes(builtins.bytes(items), "big", signed=signed)
        terms = []
        for item in items:
            if isinstance(item, SymInt):
                terms.append(px.resize(item.t, 8) if item.t.size() >= 8 else z3.SignExt(8 - item.t.size(), item.t))
            else:
                terms.append(z3.BitVecVal(item, 8))
        term = z3.Concat(*terms) if len(terms) > 1 else terms[0]
        width = term.size()
        if signed:
            return mkint(term, -(1 << (width - 1)), (1 << (width - 1)) - 1)
        return px.unsigned_term(z3.simplify(term))

    @staticmethod
    def to_bytes(value, *args, **kwargs):
        return value.to_bytes(*args, **kwargs)

    @staticmethod
    def bit_length(value):
        return value.bit_length()


def parse_int(text, base):
    if base != 10:
        raise Unsupported("int(str, base)")
    cps = list(text.strip().cps) if isinstance(text.strip(), SymStr) else None
    if cps is None:
        return builtins.int(text.strip())
    pos, negative = 0, False
    if cps[0] == 45:
        pos, negative = 1, True
    elif cps[0] == 43:
        pos = 1
    if pos >= len(cps):
        raise ValueError("invalid literal for int()")
    result = 0
    known = Explorer.current.path_state.get("digit values", {})
    for cp in cps[pos:]:
        if id(cp) in known:
            digit = known[id(cp)][1]
        elif isinstance(cp, SymInt):
            if not px.land(cp >= 48, cp <= 57):
                if px.lor(cp > 127, cp == 95):
                    raise Unsupported("int() of unusual digits")
                raise ValueError("invalid literal for int()")
            digit = cp - 48
            digit = mkint(digit.t, 0, 9) if isinstance(digit, SymInt) else digit
        else:
            digit = builtins.int(chr(cp))
        result = result * 10 + digit
    return -result if negative else result


class _FloatShim(_TypeShim):
    def __call__(cls, value=0.0):
        if isinstance(value, SymFloat):
            return value
        if isinstance(value, (SymInt, SymBool)):
            return px.as_float(as_int(value))
        if isinstance(value, SymStr):
            return parse_float(value)
        return builtins.float(value)


class FloatShim(metaclass=_FloatShim):
    _accepts = (float, SymFloat)

    @staticmethod
    def fromhex(text):
        return builtins.float.fromhex(text)


class _BytesShim(_TypeShim):
    def __call__(cls, value=b"", encoding=None, errors="strict"):
        if isinstance(value, SymStr):
            if encoding == "ascii":
                for cp in value.cps:
                    if cp > 127:
                        raise UnicodeEncodeError("ascii", "?", 0, 1, "ordinal not in range(128)")
                return SymBytes([as_int(cp) for cp in value.cps])
            return value.encode(encoding, errors)
        if encoding is not None:
            return builtins.bytes(value, encoding, errors)
        if isinstance(value, SymInt):
            value = concrete(value)
        items = byte_items(value)
        if items is None:
            if isinstance(value, builtins.int):
                return builtins.bytes(value)
            scratch = SymByteArray()
            for item in value:
                scratch.append(item)
            items = scratch.items
        if all(not isinstance(item, SymInt) for item in items):
            return builtins.bytes(items)
        return SymBytes(items)


class BytesShim(metaclass=_BytesShim):
    _accepts = (bytes, SymBytes)

    @staticmethod
    def fromhex(text):
        return builtins.bytes.fromhex(text)


class _ByteArrayShim(_TypeShim):
    def __call__(cls, value=b"", encoding=None, errors="strict"):
        return SymByteArray(byte_items(_BytesShim.__call__(BytesShim, value, encoding, errors)))

    def __instancecheck__(cls, obj):
        return isinstance(obj, (bytearray, SymByteArray))


class ByteArrayShim(metaclass=_ByteArrayShim):
    _accepts = (bytearray, SymByteArray)


# bytes must not accept a bytearray
def _bytes_instancecheck(cls, obj):
    return isinstance(obj, bytes) or (isinstance(obj, SymBytes) and not isinstance(obj, SymByteArray))


_BytesShim.__instancecheck__ = _bytes_instancecheck


class _MemoryViewShim(_TypeShim):
    def __call__(cls, value):
        return value if isinstance(value, SymBytes) else builtins.memoryview(value)


class MemoryViewShim(metaclass=_MemoryViewShim):
    _accepts = (memoryview,)


class _StrShim(_TypeShim):
    def __call__(cls, value="", encoding=None, errors="strict"):
        if isinstance(value, SymStr):
            return value
        if isinstance(value, SymBytes) and encoding is not None:
            return value.decode(encoding, errors)
        if encoding is not None:
            return builtins.str(value, encoding, errors)
        if isinstance(value, (SymInt, SymBool)):
            return int_to_str(as_int(value))
        return builtins.str(value)


class StrShim(metaclass=_StrShim):
    _accepts = (str, SymStr)

    @staticmethod
    def join(sep, parts):
        return sep.join(parts)


def int_to_str(value):
    """Decimal representation with fresh digit variables constrained to be the canonical digits of the value."""
    if not isinstance(value, SymInt):
        return builtins.str(value)
    explorer = Explorer.current
    text = explorer.path_state.get("decimals", {}).get(value.t.get_id())
    if text is not None:
        return mkstr(text[1])
    sign = []
    if value < 0:
        sign = [45]
        value = -value
    if not isinstance(value, SymInt):
        return mkstr(sign + [ord(char) for char in builtins.str(value)])
    digits = 1
    while value >= 10 ** digits:
        digits += 1
    serial = explorer.path_state["digits"] = explorer.path_state.get("digits", 0) + 1
    known = explorer.path_state.setdefault("digit values", {})
    total = 0
    out = []
    for pos in range(digits):
        # digit = value // 10^k % 10 through a fresh variable: unique because of the bounds
        var = z3.BitVec(f"$digit{serial}_{digits}_{pos}", 5)
        explorer.assume(z3.And(var >= (1 if pos == 0 and digits > 1 else 0), var <= 9))
        digit = mkint(var, 0, 9)
        total = total * 10 + digit
        out.append(digit + 48)
        known[id(out[-1])] = (out[-1], digit)
    explorer.assume(px.cond_of(total == value))
    return mkstr(sign + out)


def decimal_int(digits, negative):
    """Symbolic number formed by decimal digits; int_to_str gives these digits again."""
    explorer = Explorer.current
    known = explorer.path_state.setdefault("digit values", {})
    cps, value = [], 0
    for digit in digits:
        value = value * 10 + digit
        cps.append(digit + 48)
        known[id(cps[-1])] = (cps[-1], digit)
    if negative:
        value = -value
        cps.insert(0, 45)
    if isinstance(value, SymInt):
        explorer.path_state.setdefault("decimals", {})[value.t.get_id()] = (value, cps)
    return value


FLOAT_SHAPES = ("d.d", "dd.ddd", "de+dd", "d.de-ddd")


def float_to_str(value):
    """
    JSON text of a float: NaN, Infinity or some decimal text of a few shapes; the only thing known about its digits is
    that float() of the text is the value again (float.__repr__ guarantees it).
    """
    explorer = Explorer.current
    if value.is_nan():
        return "NaN"
    sign = ""
    if mkbool(z3.Extract(63, 63, value.b) == 1):
        sign = "-"
    if mkbool(z3.Extract(62, 52, value.b) == 0x7FF):
        return sign + "Infinity"
    texts = explorer.path_state.setdefault("floats", [])
    for text, known in texts:
        if known is value:
            return mkstr(text)
    serial = len(texts)
    shape = serial % len(FLOAT_SHAPES)
    cps = [ord(char) for char in sign]
    for pos, char in enumerate(FLOAT_SHAPES[shape]):
        if char == "d":
            var = explorer.fresh_bv(f"$float{serial}_{pos}", 5)
            explorer.assume(z3.And(var >= (1 if pos == 0 else 0), var <= 9))
            cps.append(mkint(var, 0, 9) + 48)
        else:
            cps.append(ord(char))
    texts.append((cps, value))
    return mkstr(cps)


def parse_float(text):
    """float() of a text made by float_to_str, or of any text (forks over its characters)."""
    cps = text.cps
    for known, value in Explorer.current.path_state.get("floats", []):
        if len(known) == len(cps) and all(a is b or (isinstance(a, builtins.int) and a == b)
                                          for a, b in zip(known, cps)):
            return value
    return builtins.float("".join(chr(concrete(cp, limit=64, why="float()")) for cp in cps))


def fstring(*parts):
    """Value of an f-string: symbolic strings are kept, other symbolic values are formatted by their classes."""
    out = []
    for part in parts:
        if isinstance(part, str):
            out.append(part)
            continue
        value, conversion, spec = part
        if isinstance(value, SymStr) and conversion in (-1, 115) and not spec:
            out.append(value)
            continue
        if conversion != -1:
            value = {115: builtins.str, 114: builtins.repr, 97: builtins.ascii}[conversion](value)
        out.append(builtins.format(value, spec))
    if any(isinstance(item, SymStr) for item in out):
        return mkstr([cp for item in out for cp in str_items(item)])
    return "".join(out)


class _FStrings(ast.NodeTransformer):
    """f-strings become calls of fstring()."""

    def visit_JoinedStr(self, node):  # pylint: disable=invalid-name
        args = []
        for item in node.values:
            if isinstance(item, ast.Constant):
                args.append(item)
            else:
                spec = self.visit(item.format_spec) if item.format_spec else ast.Constant("")
                args.append(ast.Tuple([self.visit(item.value), ast.Constant(item.conversion), spec], ast.Load()))
        call = ast.Call(ast.Name("__fstring__", ast.Load()), args, [])
        return ast.copy_location(call, node)


class _BoolShim(_TypeShim):
    def __call__(cls, value=False):
        if isinstance(value, SymBool):
            return value
        if isinstance(value, SymInt):
            return value != 0
        return builtins.bool(value)


class BoolShim(metaclass=_BoolShim):
    _accepts = (bool, SymBool)


class _RangeShim(_TypeShim):
    def __call__(cls, *args):
        if any(isinstance(arg, (SymInt, SymBool)) for arg in args):
            return _sym_range(*args)
        return builtins.range(*args)


class RangeShim(metaclass=_RangeShim):
    _accepts = (range,)


def _sym_range(*args):
    start, stop, step = 0, None, 1
    if len(args) == 1:
        stop = args[0]
    elif len(args) == 2:
        start, stop = args
    else:
        start, stop, step = args
    step = concrete(step)
    value = start
    limit = getattr(Explorer.current, "loop_limit", LOOP_LIMIT)
    count = 0
    while (value < stop) if step > 0 else (value > stop):
        yield value
        value = value + step
        count += 1
        if count > limit:
            raise PathCut(f"loop bound {limit}")


_SHIM_OF = {SymInt: IntShim, SymBool: BoolShim, SymBytes: BytesShim, SymByteArray: ByteArrayShim, SymStr: StrShim,
            SymFloat: FloatShim, int: IntShim, bool: BoolShim, bytes: BytesShim, bytearray: ByteArrayShim,
            str: StrShim, float: FloatShim}


class _TypeTypeShim(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, type)

    def __call__(cls, *args):
        if len(args) == 1:
            real = builtins.type(args[0])
            return _SHIM_OF.get(real, real)
        return builtins.type(*args)


class TypeShim(metaclass=_TypeTypeShim):
    pass


_REAL_OF = {IntShim: (int, SymInt, SymBool), BoolShim: (bool, SymBool), StrShim: (str, SymStr),
            FloatShim: (float, SymFloat), BytesShim: (bytes, SymBytes), ByteArrayShim: (bytearray, SymByteArray)}


def _sorted(values, *, key=None, reverse=False):
    return builtins.sorted(values, key=key, reverse=reverse)


def _minmax(kind):
    def func(*args, **kwargs):
        seq = list(args[0]) if len(args) == 1 else list(args)
        if kwargs or not any(isinstance(item, SymInt) for item in seq):
            return (builtins.min if kind == "min" else builtins.max)(*args, **kwargs)
        best = seq[0]
        for item in seq[1:]:
            best = px.ite(item < best if kind == "min" else item > best, item, best)
        return best
    return func


def _sum(values, start=0):
    total = start
    for value in values:
        total = total + value
    return total


def _len(obj):
    return builtins.len(obj)


def _abs(value):
    return value.__abs__()


def _divmod(left, right):
    if isinstance(left, SymInt) or isinstance(right, SymInt):
        return px._divmod(left, right)
    return builtins.divmod(left, right)


def _round(value, ndigits=None):
    if isinstance(value, SymInt):
        return value
    return builtins.round(value) if ndigits is None else builtins.round(value, ndigits)


def _hash(obj):
    return builtins.hash(obj)


# ------------------------------------------------------------------------------------------------ module shims
def _struct_shim():
    import struct as real

    mod = types.ModuleType("struct")
    mod.error = real.error
    mod.calcsize = real.calcsize

    def pack(fmt, *values):
        if not any(isinstance(value, (SymInt, SymFloat, SymBool)) for value in values):
            return real.pack(fmt, *values)
        if len(values) != 1 or fmt[0] not in "><!=" or len(fmt) != 2:
            raise Unsupported("struct.pack " + fmt)
        value, kind = values[0], fmt[1]
        order = "little" if fmt[0] == "<" else "big"
        if kind in "fd":
            value = px.as_float(value)
            if value is None:
                raise real.error("required argument is not a float")
            if kind == "d":
                bits = value.b
            else:
                bits, overflow = px.f64_to_f32_bits(value.b)
                if mkbool(overflow):
                    raise OverflowError("float too large to pack with f format")
            term = px.unsigned_term(z3.simplify(bits))
            return term.to_bytes(bits.size() // 8, order)
        sizes = {"B": 1, "H": 2, "I": 4, "L": 4, "Q": 8, "b": 1, "h": 2, "i": 4, "l": 4, "q": 8}
        if kind in sizes:
            try:
                return value.to_bytes(sizes[kind], order, signed=kind.islower())
            except OverflowError as exc:
                raise real.error(str(exc)) from exc
        raise Unsupported("struct.pack " + fmt)

    def unpack(fmt, data):
        if not isinstance(data, SymBytes):
            return real.unpack(fmt, data)
        if all(not isinstance(item, SymInt) for item in data.items):
            return real.unpack(fmt, builtins.bytes(data.items))
        if fmt[0] not in "><!=" or len(fmt) != 2:
            raise Unsupported("struct.unpack " + fmt)
        order = "little" if fmt[0] == "<" else "big"
        kind = fmt[1]
        if real.calcsize(fmt) != len(data):
            raise real.error("unpack requires a buffer")
        raw = IntShim.from_bytes(data, order)
        if kind in "fd":
            width = 64 if kind == "d" else 32
            bits = px.resize(raw.t, width) if raw.t.size() >= width else z3.SignExt(width - raw.t.size(), raw.t)
            if kind == "f":
                bits = px.f32_to_f64_bits(bits)
            return (SymFloat(z3.simplify(bits)),)
        return (IntShim.from_bytes(data, order, signed=kind.islower()),)

    mod.pack = pack
    mod.unpack = unpack
    mod.unpack_from = lambda fmt, data, offset=0: unpack(fmt, data[offset:offset + real.calcsize(fmt)])
    return mod


class SymStringIO:
    """io.StringIO with symbolic content."""

    def __init__(self, initial="", newline="\n"):
        self._cps = list(str_items(initial))
        self._pos = 0

    def write(self, text):
        items = str_items(text)
        self._cps[self._pos:self._pos + len(items)] = items
        self._pos += len(items)
        return len(items)

    def read(self, size=-1):
        end = len(self._cps) if size is None or size < 0 else min(self._pos + size, len(self._cps))
        out = self._cps[self._pos:end]
        self._pos = end
        return mkstr(out)

    def getvalue(self):
        return mkstr(self._cps)

    def seek(self, pos, whence=0):
        self._pos = pos if whence == 0 else len(self._cps) + pos

    def tell(self):
        return self._pos

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return False


def _io_shim():
    import io as real

    mod = types.ModuleType("io")
    for name in dir(real):
        if not name.startswith("__"):
            setattr(mod, name, getattr(real, name))
    mod.StringIO = SymStringIO
    return mod


def _json_shim():
    """json.JSONEncoder(ensure_ascii=False).encode() over symbolic values (model of the CPython C encoder)."""
    import json as real

    mod = types.ModuleType("json")
    for name in dir(real):
        if not name.startswith("__"):
            setattr(mod, name, getattr(real, name))

    class JSONEncoder(real.JSONEncoder):
        def encode(self, o):
            if isinstance(o, SymBool):
                return "true" if o else "false"
            if isinstance(o, SymInt):
                return int_to_str(o)
            if isinstance(o, SymFloat):
                return float_to_str(o)
            if isinstance(o, SymStr):
                if self.ensure_ascii:
                    raise Unsupported("json ensure_ascii")
                out = [34]
                for cp in o.cps:
                    if cp == 34:
                        out += [92, 34]
                    elif cp == 92:
                        out += [92, 92]
                    elif cp == 10:
                        out += [92, 110]
                    elif cp == 13:
                        out += [92, 114]
                    elif cp == 9:
                        out += [92, 116]
                    elif cp == 12:
                        out += [92, 102]
                    elif cp == 8:
                        out += [92, 98]
                    elif cp < 32:
                        out += [92, 117, 48, 48, hex_digit(cp >> 4), hex_digit(cp & 15)]
                    else:
                        out.append(cp)
                out.append(34)
                return mkstr(out)
            return super().encode(o)

    mod.JSONEncoder = JSONEncoder
    return mod


def _enum_shim():
    """The real enum module; EnumMeta lookup by a symbolic value becomes a linear search."""
    import enum as real

    mod = types.ModuleType("enum")
    for name in dir(real):
        if not name.startswith("__"):
            setattr(mod, name, getattr(real, name))

    class EnumMeta(real.EnumMeta):
        def __call__(cls, value, *args, **kwargs):
            if isinstance(value, SymInt) and not args and (not kwargs or list(kwargs) == ["names"]):
                for member in real.EnumMeta.__iter__(cls):
                    if isinstance(member._value_, int) and value == member._value_:
                        return member
                raise ValueError(f"{value} is not a valid {cls.__name__}")
            return super().__call__(value, *args, **kwargs)

    class Enum(real.Enum, metaclass=EnumMeta):
        pass

    mod.EnumMeta = EnumMeta
    mod.EnumType = EnumMeta
    mod.Enum = Enum
    return mod


def _math_shim():
    import math as real

    mod = types.ModuleType("math")
    for name in dir(real):
        if not name.startswith("__"):
            setattr(mod, name, getattr(real, name))

    def wrap(name):
        func = getattr(real, name)

        def call(value, *rest):
            if isinstance(value, SymFloat):
                if name == "isnan":
                    return value.is_nan()
                if name == "isinf":
                    return mkbool(z3.Extract(62, 0, value.b) == (0x7FF << 52))
                if name == "isfinite":
                    return mkbool(z3.Extract(62, 52, value.b) != 0x7FF)
                raise Unsupported("math." + name)
            if isinstance(value, SymInt):
                raise Unsupported("math." + name)
            return func(value, *rest)
        return call

    for name in ("isnan", "isinf", "isfinite", "log2", "log", "ceil", "floor", "sqrt", "copysign", "frexp", "ldexp"):
        setattr(mod, name, wrap(name))
    return mod


# ------------------------------------------------------------------------------------------------ loader
def make_builtins(importer):
    table = dict(vars(builtins))
    table.update(int=IntShim, float=FloatShim, bytes=BytesShim, bytearray=ByteArrayShim, str=StrShim, bool=BoolShim,
                 range=RangeShim, ord=sym_ord, chr=sym_chr, min=_minmax("min"), max=_minmax("max"), sum=_sum,
                 abs=_abs, divmod=_divmod, round=_round, memoryview=MemoryViewShim,
                 __import__=importer, __fstring__=fstring)

    def isinstance_shim(obj, cls):
        if builtins.type(cls) is tuple:
            return any(isinstance_shim(obj, item) for item in cls)
        return builtins.isinstance(obj, cls)

    table["isinstance"] = isinstance_shim
    table["type"] = _type_func
    return table


def _type_func(*args):
    if len(args) == 1:
        real = builtins.type(args[0])
        return _SHIM_OF.get(real, real)
    return builtins.type(*args)


class Loader:
    """Loads packages from the given roots with shimmed builtins; everything else comes from the real interpreter."""

    def __init__(self, roots):
        self.roots = [os.path.abspath(root) for root in roots]
        self.modules = {}
        self.code_files = set()
        self.shims = {}
        self.builtins = make_builtins(self._import)

    def _shim(self, name):
        if name not in self.shims:
            makers = {"struct": _struct_shim, "io": _io_shim, "json": _json_shim, "enum": _enum_shim,
                      "math": _math_shim}
            self.shims[name] = makers[name]() if name in makers else None
        return self.shims[name]

    def _find(self, name):
        rel = name.replace(".", "/")
        for root in self.roots:
            path = os.path.join(root, rel, "__init__.py")
            if os.path.isfile(path):
                return path, True
            path = os.path.join(root, rel + ".py")
            if os.path.isfile(path):
                return path, False
            if os.path.isdir(os.path.join(root, rel)):
                return None, True
        return None, None

    def load(self, name):
        """Loads (or returns) a module by its dotted name."""
        if name in self.modules:
            return self.modules[name]
        path, is_pkg = self._find(name)
        if is_pkg is None:
            raise ModuleNotFoundError(name)
        if "." in name:
            self.load(name.rpartition(".")[0])
        module = types.ModuleType(name)
        module.__builtins__ = self.builtins
        module.__package__ = name if is_pkg else name.rpartition(".")[0]
        if is_pkg:
            module.__path__ = []
        self.modules[name] = module
        if path is not None:
            module.__file__ = path
            self.code_files.add(path)
            with open(path, encoding="utf-8") as file:
                source = file.read()
            try:
                tree = ast.fix_missing_locations(_FStrings().visit(ast.parse(source, path)))
                exec(compile(tree, path, "exec"), module.__dict__)  # pylint: disable=exec-used
            except BaseException:
                self.modules.pop(name, None)
                raise
        if "." in name:
            parent, _, leaf = name.rpartition(".")
            setattr(self.modules[parent], leaf, module)
        return module

    def _import(self, name, globals_=None, locals_=None, fromlist=(), level=0):
        if level:
            package = (globals_ or {}).get("__package__", "")
            for _ in range(level - 1):
                package = package.rpartition(".")[0]
            name = package + ("." + name if name else "")
        if self._find(name.split(".")[0])[1] is not None:
            module = self.load(name)
            if fromlist:
                for item in fromlist:
                    if not hasattr(module, item) and self._find(name + "." + item)[1] is not None:
                        self.load(name + "." + item)
                return module
            return self.load(name.split(".")[0])
        shim = self._shim(name)
        if shim is not None:
            return shim
        return builtins.__import__(name, None, None, fromlist, 0)


class FunctionTracer:
    """Records which functions of the code under test were executed (sys.monitoring)."""

    TOOL = 3

    def __init__(self, files_prefixes):
        self.prefixes = tuple(files_prefixes)
        self.functions = set()
        self.active = False

    def start(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(self.TOOL, "symtrace")
        except ValueError:
            return
        mon.register_callback(self.TOOL, mon.events.PY_START, self._on_start)
        mon.set_events(self.TOOL, mon.events.PY_START)
        self.active = True

    def _on_start(self, code, _offset):
        if code.co_filename.startswith(self.prefixes):
            self.functions.add(f"{os.path.basename(code.co_filename)}:{code.co_qualname}")
        return sys.monitoring.DISABLE

    def stop(self):
        if self.active:
            mon = sys.monitoring
            mon.set_events(self.TOOL, 0)
            mon.free_tool_id(self.TOOL)
            self.active = False
