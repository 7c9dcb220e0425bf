"""Harness contexts: the same harness runs symbolically (SymCtx) and concretely on the real code (ConcreteCtx)."""

import struct

from .core import Explorer, PathInfeasible, PathStop, Unsupported


class ReplayDone(BaseException):
    """Concrete run hit a failed check."""

    def __init__(self, label, detail=""):
        super().__init__(label)
        self.label = label
        self.detail = detail


class AssumeFailed(BaseException):
    """Concrete input does not satisfy the harness assumptions."""


def _names(prefix, count):
    return [f"{prefix}[{i}]" for i in range(count)]


class BaseCtx:
    symbolic = False

    def __init__(self):
        self.observations = []
        self.known = {}
        self.known_hits = {}

    # values -------------------------------------------------------------------------------------------------
    def bytes(self, name, count):
        raise NotImplementedError

    def pick(self, name, options):
        """Nondeterministic choice of one of the options (forks)."""
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.index(name, len(options))]

    def index(self, name, count):
        raise NotImplementedError

    def string(self, name, count, low=0, high=0x10FFFF):
        """String of count code points; surrogates excluded when the range allows them."""
        cps = []
        for item in _names(name, count):
            cp = self.int(item, low, high)
            if low <= 0xD800 and high >= 0xDFFF:
                self.assume(self.lor(cp < 0xD800, cp > 0xDFFF))
            cps.append(cp)
        return self.make_str(cps)

    def decimal_int(self, name, low, high):
        """Any number of the range, given by its sign and decimal digits (forks on their number)."""
        negative = low < 0 and bool(self.index(name + ".sign", 2))
        size = self.pick(name + ".size", range(1, len(str(max(abs(low) if negative else 0, 0 if negative else high))) + 1))
        digits = [self.int(f"{name}.d{i}", 1 if i == 0 and (negative or size > 1) else 0, 9) for i in range(size)]
        value = self.join_digits(digits, negative)
        self.assume(value >= low if negative else value <= high)
        return value

    def observe(self, label, value):
        self.observations.append((label, value))

    def attempt(self, func, *args, **kwargs):
        """Calls func; returns (value, None) or (None, exception)."""
        try:
            return func(*args, **kwargs), None
        except Exception as exc:  # pylint: disable=broad-except
            return None, exc

    def implies(self, cond, other):
        return self.lor(self.lnot(cond), other)


class ConcreteCtx(BaseCtx):
    """Runs a harness on real values."""

    def __init__(self, inputs, env):
        super().__init__()
        self.inputs = inputs
        self.env = env
        self.reached = set()

    def _raw(self, name, default=0):
        return self.inputs.get(name, default)

    def int(self, name, low, high):
        raw = self._raw(name)
        from .pyproxy_width import input_width

        width, signed = input_width(low, high)
        if signed and raw >> (width - 1):
            raw -= 1 << width
        if raw < low or raw > high:
            if name not in self.inputs:
                raw = low
            else:
                raise AssumeFailed(name)
        return raw

    def bool(self, name):
        return bool(self._raw(name))

    def bytes(self, name, count):
        return bytes(self._raw(item) for item in _names(name, count))

    def bytearray(self, name, count):
        return bytearray(self.bytes(name, count))

    def float(self, name):
        return struct.unpack(">d", self._raw(name).to_bytes(8, "big"))[0]

    def index(self, name, count):
        value = self._raw(name)
        if value >= count:
            raise AssumeFailed(name)
        return value

    def make_str(self, cps):
        return "".join(chr(cp) for cp in cps)

    def make_bytes(self, items):
        return bytes(items)

    def make_bytearray(self, items):
        return bytearray(items)

    def join_digits(self, digits, negative):
        value = int("".join(str(digit) for digit in digits))
        return -value if negative else value

    def parse_float(self, cps):
        return float("".join(chr(cp) for cp in cps))

    def decimal(self, cps):
        """Number denoted by decimal digits (code points)."""
        return int("".join(chr(cp) for cp in cps))

    def bytes_value(self, items):
        return int.from_bytes(bytes(items), "big")

    def concat_bits(self, chunks):
        out = 0
        for value, nbits in chunks:
            out = (out << nbits) | (int(value) & ((1 << nbits) - 1))
        return out

    def float_bits(self, value):
        return int.from_bytes(struct.pack(">d", value), "big")

    def float_from_bits(self, bits):
        return struct.unpack(">d", bits.to_bytes(8, "big"))[0]

    def float_from_bits32(self, bits):
        return struct.unpack(">f", bits.to_bytes(4, "big"))[0]

    # logic --------------------------------------------------------------------------------------------------
    def land(self, *values):
        return all(bool(value) for value in values)

    def lor(self, *values):
        return any(bool(value) for value in values)

    def lnot(self, value):
        return not value

    def ite(self, cond, left, right):
        return left if cond else right

    def eq(self, left, right):
        return left == right

    def seq_eq(self, left, right):
        return list(left) == list(right)

    def bits_str_eq(self, left, right):
        return left == right

    def assume(self, cond):
        if not cond:
            raise AssumeFailed("assume")

    def check(self, cond, label, detail="", known=None):
        if known is not None and known[0] in self.known and known[1]:
            if not cond:
                self.known_hits[known[0]] = dict(self.inputs)
            return
        if not cond:
            raise ReplayDone(label, str(detail))

    def reach(self, label):
        self.reached.add(label)

    def choose_path(self, cond):
        return bool(cond)

    def module(self, name):
        return self.env.module(name)


class SymCtx(BaseCtx):
    """Runs a harness on symbolic values."""

    symbolic = True

    def __init__(self, explorer, env, known=None):
        super().__init__()
        self.explorer = explorer
        self.env = env
        self.known = known or {}

    def int(self, name, low, high):
        import z3
        from . import pyproxy as px
        from .pyproxy_width import input_width

        if low == high:
            return low
        width, signed = input_width(low, high)
        var = self.explorer.fresh_bv(name, width)
        if signed:
            value = px.SymInt(var, -(1 << (width - 1)), (1 << (width - 1)) - 1)
            full = (value.lo, value.hi) == (low, high)
        else:
            value = px.SymInt(z3.ZeroExt(1, var), 0, (1 << width) - 1)
            full = (0, (1 << width) - 1) == (low, high)
        if not full:
            self.assume(px.land(value >= low, value <= high))
            value = px.mkint(value.t, low, high)
        return value

    def bool(self, name):
        from . import pyproxy as px

        return px.SymBool(self.explorer.fresh_bv(name, 1) == 1)

    def bytes(self, name, count):
        from . import pyproxy as px

        return px.SymBytes([self.int(item, 0, 255) for item in _names(name, count)])

    def bytearray(self, name, count):
        from . import pyproxy as px

        return px.SymByteArray([self.int(item, 0, 255) for item in _names(name, count)])

    def float(self, name):
        from . import pyproxy as px

        return px.SymFloat(self.explorer.fresh_bv(name, 64))

    def index(self, name, count):
        from . import pyproxy as px

        return px.concrete(self.int(name, 0, count - 1), why=name)

    def make_str(self, cps):
        from .pystr import mkstr

        return mkstr(cps)

    def make_bytes(self, items):
        from . import pyproxy as px

        return px.SymBytes(items)

    def make_bytearray(self, items):
        from . import pyproxy as px

        return px.SymByteArray(items)

    def join_digits(self, digits, negative):
        from .pyload import decimal_int

        return decimal_int(digits, negative)

    def parse_float(self, cps):
        from .pyload import FloatShim
        from .pystr import mkstr

        return FloatShim(mkstr(cps))

    def decimal(self, cps):
        from .pyload import IntShim
        from .pystr import mkstr

        return IntShim(mkstr(cps))

    def bytes_value(self, items):
        from . import pyproxy as px

        return px.bytes_value(list(items))

    def concat_bits(self, chunks):
        """Number formed by (value, number of bits) pairs, first pair most significant."""
        import z3
        from . import pyproxy as px

        if not chunks:
            return 0
        if all(isinstance(value, int) for value, _ in chunks):
            return ConcreteCtx.concat_bits(self, chunks)
        terms = []
        for value, nbits in chunks:
            value = px.as_int(value)
            if isinstance(value, int):
                terms.append(z3.BitVecVal(value, nbits))
                continue
            terms.append(px.resize(value.t, nbits) if value.t.size() >= nbits
                         else z3.SignExt(nbits - value.t.size(), value.t))
        return px.unsigned_term(z3.Concat(*terms) if len(terms) > 1 else terms[0])

    def float_bits(self, value):
        from . import pyproxy as px

        if isinstance(value, px.SymFloat):
            return px.unsigned_term(value.b)
        return int.from_bytes(struct.pack(">d", value), "big")

    def float_from_bits(self, bits):
        from . import pyproxy as px

        if isinstance(bits, int):
            return struct.unpack(">d", bits.to_bytes(8, "big"))[0]
        return px.SymFloat(px.resize(bits.t, 64))

    def float_from_bits32(self, bits):
        from . import pyproxy as px

        if isinstance(bits, int):
            return struct.unpack(">f", bits.to_bytes(4, "big"))[0]
        return px.SymFloat(px.f32_to_f64_bits(px.resize(bits.t, 32)))

    # logic --------------------------------------------------------------------------------------------------
    def land(self, *values):
        from . import pyproxy as px

        return px.land(*values)

    def lor(self, *values):
        from . import pyproxy as px

        return px.lor(*values)

    def lnot(self, value):
        from . import pyproxy as px

        return px.lnot(value)

    def ite(self, cond, left, right):
        from . import pyproxy as px

        return px.ite(cond, left, right)

    def eq(self, left, right):
        """Deep equality without forking where possible."""
        from . import pyproxy as px

        if isinstance(left, (list, tuple)) and isinstance(right, (list, tuple)):
            if len(left) != len(right):
                return False
            return px.land(*[self.eq(a, b) for a, b in zip(left, right)])
        result = left == right
        return result

    def seq_eq(self, left, right):
        from . import pyproxy as px

        return px.seq_eq(list(left), list(right))

    def assume(self, cond):
        from . import pyproxy as px

        self.explorer.assume(px.cond_of(cond))

    def check(self, cond, label, detail="", known=None):
        from . import pyproxy as px

        cond = px.cond_of(cond)
        if known is not None and known[0] in self.known:
            import z3

            pred = px.cond_of(known[1])
            pred = z3.BoolVal(pred) if isinstance(pred, bool) else pred
            full = z3.BoolVal(cond) if isinstance(cond, bool) else cond
            if known[0] not in self.explorer.__dict__.setdefault("known_models", {}):
                hit = z3.And(pred, z3.Not(full))
                if self.explorer.pos == len(self.explorer.trace) and self.explorer._check(hit) == z3.sat:
                    self.explorer.known_models[known[0]] = self.explorer.assignment(self.explorer._last_model)
                    self.explorer._model = None
            cond = z3.Or(full, pred)
        self.explorer.check(cond, label, detail)

    def reach(self, label):
        self.explorer.stats.reached.add(label)

    def choose_path(self, cond):
        """Forks on the condition."""
        return bool(cond)

    def module(self, name):
        return self.env.module(name)
