"""
Proxy values through which the real Python code is executed symbolically.

SymInt    exact (unbounded Python semantics) integer: signed bit-vector term of adaptive width plus a proven interval
SymBool   SMT boolean; truth testing forks the path
SymBytes / SymByteArray   byte sequence of concrete length with symbolic elements
SymStr    string of concrete length with symbolic code points
SymFloat  IEEE 754 binary64 value represented by its bit pattern
"""

import z3

from . import terms as T
from .core import Explorer, Unsupported, PathCut

MAX_WIDTH = 2048


def signed_width(low, high):
    """Minimal two's complement width holding [low, high]."""
    width = 1
    if high > 0:
        width = max(width, high.bit_length() + 1)
    if low < 0:
        width = max(width, (-low - 1).bit_length() + 1)
    return width


resize = T.resize


class SymBool:
    """Symbolic boolean."""

    __slots__ = ("c",)

    def __init__(self, cond):
        self.c = cond

    def __bool__(self):
        return Explorer.current.branch(self.c)

    def __eq__(self, other):
        term = as_bool_term(other)
        if term is None:
            return as_int(self) == other
        return mkbool(self.c == term)

    def __ne__(self, other):
        return lnot(self == other)

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, other):
        term = as_bool_term(other)
        if term is None:
            return as_int(self) & other
        return mkbool(z3.And(self.c, term))

    __rand__ = __and__

    def __or__(self, other):
        term = as_bool_term(other)
        if term is None:
            return as_int(self) | other
        return mkbool(z3.Or(self.c, term))

    __ror__ = __or__

    def __xor__(self, other):
        term = as_bool_term(other)
        if term is None:
            return as_int(self) ^ other
        return mkbool(z3.Xor(self.c, term))

    __rxor__ = __xor__

    def __invert__(self):
        return ~as_int(self)

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __format__(self, spec):
        return str(bool(self))

    def __repr__(self):
        return f"<SymBool {self.c}>"

    def __str__(self):
        return str(bool(self))


def mkbool(cond):
    """Wraps a z3 boolean, folding constants."""
    if isinstance(cond, bool):
        return cond
    cond = T.simplify(cond)
    return cond if cond is True or cond is False else SymBool(cond)


def as_bool_term(value):
    """z3 Bool of a bool or SymBool; None for anything else."""
    if isinstance(value, bool):
        return z3.BoolVal(value)
    if isinstance(value, SymBool):
        return value.c
    return None


def cond_of(value):
    """Truth of a value as bool or z3 Bool without forking."""
    if isinstance(value, SymBool):
        return value.c
    if isinstance(value, SymInt):
        return T.nonzero(value.t)
    return bool(value)


def lnot(value):
    """Logical negation without forking."""
    if isinstance(value, SymBool):
        cond = T.negation(value.c)
        return cond if cond is True or cond is False else SymBool(cond)
    return not value


def land(*values):
    """Logical conjunction without forking."""
    terms = []
    for value in values:
        cond = cond_of(value)
        if cond is False:
            return False
        if cond is True:
            continue
        terms.append(cond)
    if not terms:
        return True
    return mkbool(T.conj(terms) if len(terms) > 1 else terms[0])


def lor(*values):
    """Logical disjunction without forking."""
    return lnot(land(*[lnot(mkbool(cond_of(value))) for value in values]))


def mkint(term, low, high):
    """SymInt normalised to the minimal width of its interval; a plain int if constant."""
    if low == high:
        return low
    width = signed_width(low, high)
    if width > MAX_WIDTH:
        raise Unsupported("integer wider than %d bits" % MAX_WIDTH)
    term = resize(term, width)
    if T.is_const(term):
        return term.as_signed_long()
    return SymInt(term, low, high)


def unsigned_term(term):
    """SymInt from an unsigned bit-vector term."""
    width = T.size(term)
    if T.is_const(term):
        return term.as_long()
    return SymInt(T.zero_ext(1, term), 0, (1 << width) - 1)


def coerce(value):
    """(term, low, high) of an integer-like value or None."""
    if isinstance(value, SymInt):
        return value.t, value.lo, value.hi
    if isinstance(value, SymBool):
        return T.ite(value.c, T.const(1, 2), T.const(0, 2)), 0, 1
    if isinstance(value, int):
        value = int(value)
        return T.const(value, signed_width(value, value)), value, value
    return None


def as_int(value):
    """Integer view of SymBool/SymInt/int."""
    if isinstance(value, SymBool):
        return mkint(coerce(value)[0], 0, 1)
    return value


def concrete(value, limit=300, why="integer"):
    """Forks over the feasible values of an integer."""
    if isinstance(value, SymBool):
        return int(bool(value))
    if not isinstance(value, SymInt):
        return value
    raw = Explorer.current.concretise(value.t, limit, why)
    width = value.t.size()
    return raw - (1 << width) if raw >> (width - 1) else raw


def _lin_of(value):
    """Linear form (atoms: id -> (coefficient, atom), constant)."""
    if isinstance(value, SymInt):
        if value.lin is not None:
            return value.lin
        return {T.tid(value.t): (1, value)}, 0
    if isinstance(value, SymBool):
        return None
    return {}, int(value)


def _lin_combine(left, right, sign):
    """left + sign * right; also tells whether an atom cancelled out."""
    atoms, cancelled = dict(left[0]), False
    for key, (coef, atom) in right[0].items():
        old = atoms.get(key)
        if old is None:
            atoms[key] = (sign * coef, atom)
        elif old[0] + sign * coef == 0:
            del atoms[key]
            cancelled = True
        else:
            atoms[key] = (old[0] + sign * coef, atom)
    return (atoms, left[1] + sign * right[1]), cancelled


def _lin_build(lin):
    """Value of a linear form."""
    atoms, const = lin
    result = const
    for coef, atom in sorted(atoms.values(), key=lambda entry: entry[0], reverse=True):
        part = atom if abs(coef) == 1 else SymInt(atom.t, atom.lo, atom.hi) * abs(coef)
        if not isinstance(part, SymInt):
            result = result + (part if coef > 0 else -part)
        elif not isinstance(result, SymInt):
            if result == 0 and coef > 0:
                result = part
            elif coef > 0:
                result = part._plain_add(coerce(result))
            else:
                result = _sym(coerce(result))._plain_sub(coerce(part))
        else:
            result = result._plain_add(coerce(part)) if coef > 0 else result._plain_sub(coerce(part))
    if isinstance(result, SymInt) and result.lin is None and \
            not (len(atoms) == 1 and const == 0 and next(iter(atoms.values()))[0] == 1):
        result.lin = lin
    return result


def _linear(left, right, sign, cv):
    """left + sign * right with cancellation of equal parts (v + d - v is d)."""
    lin_left, lin_right = _lin_of(left), _lin_of(right)
    if lin_left is None or lin_right is None or len(lin_left[0]) + len(lin_right[0]) > 8:
        return left._plain_add(cv) if sign > 0 else left._plain_sub(cv)
    lin, cancelled = _lin_combine(lin_left, lin_right, sign)
    if cancelled:
        return _lin_build(lin)
    result = left._plain_add(cv) if sign > 0 else left._plain_sub(cv)
    if isinstance(result, SymInt) and result.lin is None and result is not left and result is not right:
        result.lin = lin
    return result


def _cancelled(left, right):
    """left - right if a common part cancels out, else None."""
    lin_left, lin_right = _lin_of(left), _lin_of(right)
    if lin_left is None or lin_right is None or len(lin_left[0]) + len(lin_right[0]) > 8:
        return None
    lin, cancelled = _lin_combine(lin_left, lin_right, -1)
    return _lin_build(lin) if cancelled else None


class SymInt:
    """Symbolic integer with Python's unbounded semantics."""

    __slots__ = ("t", "lo", "hi", "lin")

    def __init__(self, term, low, high):
        self.t = term
        self.lo = low
        self.hi = high
        self.lin = None

    # -- arithmetic
    def __add__(self, other):
        cv = coerce(other)
        if cv is None:
            return _float_arith("add", self, other)
        return _linear(self, other, 1, cv)

    def _plain_add(self, cv):
        low, high = self.lo + cv[1], self.hi + cv[2]
        width = max(signed_width(low, high), T.size(self.t), T.size(cv[0]))
        return mkint(T.binary("add", resize(self.t, width), resize(cv[0], width)), low, high)

    __radd__ = __add__

    def __sub__(self, other):
        cv = coerce(other)
        if cv is None:
            return _float_arith("sub", self, other)
        return _linear(self, other, -1, cv)

    def _plain_sub(self, cv):
        low, high = self.lo - cv[2], self.hi - cv[1]
        width = max(signed_width(low, high), T.size(self.t), T.size(cv[0]))
        return mkint(T.binary("sub", resize(self.t, width), resize(cv[0], width)), low, high)

    def __rsub__(self, other):
        cv = coerce(other)
        if cv is None:
            return _float_arith("sub", other, self)
        return SymInt.__sub__(_sym(cv), self)

    def __mul__(self, other):
        cv = coerce(other)
        if cv is None:
            if isinstance(other, (str, bytes, list, tuple, SymBytes, SymStr)):
                return other * concrete(self, why="repeat count")
            return _float_arith("mul", self, other)
        prods = [a * b for a in (self.lo, self.hi) for b in (cv[1], cv[2])]
        low, high = min(prods), max(prods)
        width = max(signed_width(low, high), T.size(self.t), T.size(cv[0]))
        if width > MAX_WIDTH:
            raise Unsupported("multiplication width")
        if cv[1] == cv[2]:
            const = cv[1]
            if const > 0 and const & (const - 1) == 0:
                return self << (const.bit_length() - 1)
        return mkint(T.binary("mul", resize(self.t, width), resize(cv[0], width)), low, high)

    __rmul__ = __mul__

    def __floordiv__(self, other):
        return _divmod(self, other)[0]

    def __rfloordiv__(self, other):
        return _divmod(other, self)[0]

    def __mod__(self, other):
        return _divmod(self, other)[1]

    def __rmod__(self, other):
        if isinstance(other, str):
            return other % (str(self),)
        return _divmod(other, self)[1]

    def __divmod__(self, other):
        return _divmod(self, other)

    def __rdivmod__(self, other):
        return _divmod(other, self)

    def __truediv__(self, other):
        return _float_arith("div", self, other)

    def __rtruediv__(self, other):
        return _float_arith("div", other, self)

    def __pow__(self, other, modulo=None):
        exp = concrete(other, why="exponent")
        if modulo is not None or exp < 0:
            raise Unsupported("pow")
        result = 1
        for _ in range(exp):
            result = result * self
        return result

    def __rpow__(self, other):
        if other == 2:
            return 1 << self
        return other ** concrete(self, why="exponent")

    def __neg__(self):
        low, high = -self.hi, -self.lo
        width = max(signed_width(low, high), T.size(self.t))
        return mkint(-resize(self.t, width), low, high)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        if self.hi <= 0:
            return -self
        high = max(-self.lo, self.hi)
        width = max(signed_width(0, high), T.size(self.t))
        term = resize(self.t, width)
        return mkint(z3.If(term < 0, -term, term), 0, high)

    def __invert__(self):
        return mkint(~self.t, -self.hi - 1, -self.lo - 1)

    # -- bitwise
    def _bitop(self, other, kind):
        cv = coerce(other)
        if cv is None:
            return NotImplemented
        width = max(T.size(self.t), T.size(cv[0]))
        left, right = resize(self.t, width), resize(cv[0], width)
        term = T.binary(kind, left, right)
        a_nonneg, b_nonneg = self.lo >= 0, cv[1] >= 0
        if kind == "and":
            if a_nonneg and b_nonneg:
                low, high = 0, min(self.hi, cv[2])
            elif a_nonneg:
                low, high = 0, self.hi
            elif b_nonneg:
                low, high = 0, cv[2]
            else:
                low, high = -(1 << (width - 1)), (1 << (width - 1)) - 1
        elif a_nonneg and b_nonneg:
            low, high = 0, (1 << max(self.hi.bit_length(), cv[2].bit_length())) - 1
            if kind == "or":
                low = max(self.lo, cv[1])
        else:
            low, high = -(1 << (width - 1)), (1 << (width - 1)) - 1
        return mkint(term, low, high)

    def __and__(self, other):
        return self._bitop(other, "and")

    __rand__ = __and__

    def __or__(self, other):
        return self._bitop(other, "or")

    __ror__ = __or__

    def __xor__(self, other):
        return self._bitop(other, "xor")

    __rxor__ = __xor__

    def __lshift__(self, other):
        return _lshift(self, other)

    def __rlshift__(self, other):
        return _lshift(other, self)

    def __rshift__(self, other):
        return _rshift(self, other)

    def __rrshift__(self, other):
        return _rshift(other, self)

    # -- comparisons
    def _cmp(self, other, kind):
        cv = coerce(other)
        if cv is None:
            if isinstance(other, (float, SymFloat)):
                return _float_cmp(kind, self, other)
            return NotImplemented
        if kind == "lt":
            if self.hi < cv[1]:
                return True
            if self.lo >= cv[2]:
                return False
        elif kind == "le":
            if self.hi <= cv[1]:
                return True
            if self.lo > cv[2]:
                return False
        else:
            if self.hi < cv[1] or self.lo > cv[2]:
                return False
        if self.lin is not None or isinstance(other, SymInt) and other.lin is not None:
            diff = _cancelled(self, other)
            if diff is not None:
                if not isinstance(diff, SymInt):
                    return {"lt": diff < 0, "le": diff <= 0, "eq": diff == 0}[kind]
                left = {"lt": diff < 0, "le": diff <= 0, "eq": diff == 0}[kind]
                return left
        width = max(T.size(self.t), T.size(cv[0]))
        left, right = resize(self.t, width), resize(cv[0], width)
        return mkbool(T.binary(kind, left, right))

    def __lt__(self, other):
        return self._cmp(other, "lt")

    def __le__(self, other):
        return self._cmp(other, "le")

    def __gt__(self, other):
        result = self._cmp(other, "le")
        return result if result is NotImplemented else lnot(result)

    def __ge__(self, other):
        result = self._cmp(other, "lt")
        return result if result is NotImplemented else lnot(result)

    def __eq__(self, other):
        return self._cmp(other, "eq")

    def __ne__(self, other):
        result = self._cmp(other, "eq")
        return result if result is NotImplemented else lnot(result)

    def __bool__(self):
        return Explorer.current.branch(T.nonzero(self.t))

    def __hash__(self):
        return hash(concrete(self, why="hash key"))

    def __index__(self):
        return concrete(self, why="index")

    def __int__(self):
        return concrete(self, why="int()")

    def __float__(self):
        return float(concrete(self, why="float()"))

    def __format__(self, spec):
        if Explorer.current is not None and getattr(Explorer.current, "exact_str", False):
            return format(concrete(self, why="format"), spec)
        return "<sym>"

    def __str__(self):
        return self.__format__("")

    def __repr__(self):
        return f"<SymInt [{self.lo},{self.hi}] {self.t}>"

    # -- int methods
    def bit_length(self):
        """Forks over the possible lengths (binary search): later code usually needs the length as a number."""
        low, high = 0, max(self.hi.bit_length() if self.hi > 0 else 0, (-self.lo).bit_length() if self.lo < 0 else 0)
        if self.lo > 0:
            low = self.lo.bit_length()
        elif self.hi < 0:
            low = (-self.hi).bit_length()
        while low < high:
            mid = (low + high) // 2
            if land(self < (1 << mid), self > -(1 << mid)):
                high = mid
            else:
                low = mid + 1
        return low

    def bit_count(self):
        value = abs(self)
        result = 0
        for bit in range(value.hi.bit_length()):
            result = result + ((value >> bit) & 1)
        return result

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        length = concrete(length, why="to_bytes length")
        if signed:
            low, high = -(1 << (8 * length - 1)) if length else 0, (1 << (8 * length - 1)) - 1 if length else 0
        else:
            low, high = 0, (1 << (8 * length)) - 1
        value = self
        if self.lo < 0 and not signed:
            if value < 0:
                raise OverflowError("can't convert negative int to unsigned")
        if (self.lo < low and signed) or self.hi > high:
            if lor(value < low, value > high):
                raise OverflowError("int too big to convert")
        width = max(8 * length, 1)
        term = resize(self.t, width) if T.size(self.t) >= width else z3.SignExt(width - T.size(self.t), self.t)
        items = []
        for i in range(length):
            items.append(_byte(T.extract(8 * i + 7, 8 * i, term)))
        if byteorder == "big":
            items.reverse()
        return SymBytes(items)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def conjugate(self):
        return self

    def as_integer_ratio(self):
        return (self, 1)

    def is_integer(self):
        return True

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __round__(self, ndigits=None):
        return self


def bytes_value(items):
    """Unsigned big endian value of a list of bytes (flat concatenation)."""
    if not items:
        return 0
    if all(isinstance(item, int) for item in items):
        return int.from_bytes(bytes(items), "big")
    parts = []
    for item in items:
        if isinstance(item, int):
            parts.append(T.const(item, 8))
        elif item.t.size() >= 8:
            parts.append(T.extract(7, 0, item.t))
        else:
            parts.append(T.zero_ext(8 - T.size(item.t), item.t))
    if len(parts) == 1:
        return unsigned_term(parts[0])
    return unsigned_term(z3.Concat(*parts))


def _byte(term8):
    term8 = T.plain(term8)
    if T.is_const(term8):
        return term8.as_long()
    return SymInt(T.zero_ext(1, term8), 0, 255)


def _sym(cv):
    """SymInt from coerced triple, even if constant."""
    return SymInt(cv[0], cv[1], cv[2])


def _divmod(left, right):
    lcv, rcv = coerce(left), coerce(right)
    if lcv is None or rcv is None:
        return _float_arith("divmod", left, right)
    if rcv[1] <= 0 <= rcv[2]:
        if mkbool(rcv[0] == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
    if rcv[1] == rcv[2]:
        const = rcv[1]
        if const > 0 and const & (const - 1) == 0:
            left_sym = _sym(lcv)
            shift = const.bit_length() - 1
            return _rshift(left_sym, shift), left_sym & (const - 1)
        if const < 0 and lcv[1] < 0 or const < 0:
            pass
    width = max(T.size(lcv[0]), T.size(rcv[0])) + 1
    a, b = resize(lcv[0], width), resize(rcv[0], width)
    if lcv[1] >= 0 and rcv[1] > 0:
        quot, rem = z3.UDiv(a, b), z3.URem(a, b)
        return (mkint(quot, lcv[1] // rcv[2], lcv[2] // rcv[1]), mkint(rem, 0, min(rcv[2] - 1, lcv[2])))
    tq = a / b  # signed division truncating towards zero
    tr = z3.SRem(a, b)
    adjust = z3.And(tr != 0, (tr < 0) != (b < 0))
    quot = z3.If(adjust, tq - 1, tq)
    rem = z3.If(adjust, tr + b, tr)
    mag = max(abs(lcv[1]), abs(lcv[2]))
    high = max(rcv[2] - 1, 0)
    low = min(rcv[1] + 1, 0)
    return mkint(quot, -mag - 1, mag + 1), mkint(rem, low, high)


def _lshift(value, amount):
    vcv, acv = coerce(value), coerce(amount)
    if vcv is None or acv is None:
        return NotImplemented
    if acv[1] < 0:
        if mkbool(acv[0] < 0):
            raise ValueError("negative shift count")
    max_shift = acv[2]
    if max_shift > 1024 and acv[1] != acv[2]:
        return _lshift(value, concrete(amount, why="shift amount"))
    if acv[1] == acv[2]:
        shift = acv[1]
        low, high = vcv[1] << shift, vcv[2] << shift
        if shift == 0:
            return mkint(vcv[0], low, high)
        return mkint(T.memo(("s", T.tid(vcv[0]), shift), lambda: z3.Concat(vcv[0], z3.BitVecVal(0, shift)), vcv[0]), low, high)
    min_shift = max(acv[1], 0)
    cands = [vcv[1] << min_shift, vcv[1] << max_shift, vcv[2] << min_shift, vcv[2] << max_shift]
    low, high = min(cands), max(cands)
    width = max(signed_width(low, high), T.size(vcv[0]), T.size(acv[0]))
    if width > MAX_WIDTH:
        raise Unsupported("shift width")
    return mkint(resize(vcv[0], width) << resize(acv[0], width), low, high)


def _rshift(value, amount):
    vcv, acv = coerce(value), coerce(amount)
    if vcv is None or acv is None:
        return NotImplemented
    if acv[1] < 0:
        if mkbool(acv[0] < 0):
            raise ValueError("negative shift count")
    if acv[1] == acv[2]:
        shift = acv[1]
        low, high = vcv[1] >> shift, vcv[2] >> shift
        width = T.size(vcv[0])
        if shift >= width:
            shift = width - 1
        return mkint(T.extract(width - 1, shift, vcv[0]), low, high)
    min_shift, max_shift = max(acv[1], 0), acv[2]
    cands = [vcv[1] >> min_shift, vcv[1] >> max_shift, vcv[2] >> min_shift, vcv[2] >> max_shift]
    width = max(T.size(vcv[0]), T.size(acv[0]))
    # bvashr saturates for amounts >= width, exactly like Python
    return mkint(resize(vcv[0], width) >> resize(acv[0], width), min(cands), max(cands))


def ite(cond, left, right):
    """If-then-else over integers/bools without forking (for oracles)."""
    cond = cond_of(cond)
    if cond is True:
        return left
    if cond is False:
        return right
    lb, rb = as_bool_term(left), as_bool_term(right)
    if lb is not None and rb is not None:
        return mkbool(T.ite(cond, lb, rb))
    lcv, rcv = coerce(left), coerce(right)
    low, high = min(lcv[1], rcv[1]), max(lcv[2], rcv[2])
    width = max(T.size(lcv[0]), T.size(rcv[0]), signed_width(low, high))
    return mkint(T.ite(cond, resize(lcv[0], width), resize(rcv[0], width)), low, high)


# ---------------------------------------------------------------------------------------------- byte sequences
def _index_list(items, key, what):
    """items[key] for int, SymInt or slice keys. Returns element or list."""
    if isinstance(key, slice):
        parts = []
        for part in (key.start, key.stop, key.step):
            parts.append(concrete(part, why=what + " slice bound") if isinstance(part, (SymInt, SymBool)) else part)
        return items[slice(*parts)]
    if isinstance(key, (SymInt, SymBool)):
        key = concrete(key, why=what + " index")
    return items[key]


def byte_items(value):
    """List of byte elements of any bytes-like value or None."""
    if isinstance(value, SymBytes):
        return value.items
    if isinstance(value, (bytes, bytearray, memoryview)):
        return list(bytes(value))
    return None


def seq_eq(left, right):
    """Elementwise equality of two lists without forking."""
    if len(left) != len(right):
        return False
    return land(*[mkbool(_eq_term(a, b)) for a, b in zip(left, right)])


def _eq_term(a, b):
    result = a == b
    if result is NotImplemented:
        return False
    return cond_of(result)


class SymBytes:
    """Immutable byte sequence."""

    __slots__ = ("items",)
    mutable = False

    def __init__(self, items=()):
        self.items = list(items)

    def __len__(self):
        return len(self.items)

    def __getitem__(self, key):
        result = _index_list(self.items, key, "bytes")
        if isinstance(key, slice):
            return type(self)(result)
        return result

    def __iter__(self):
        return iter(list(self.items))

    def __eq__(self, other):
        items = byte_items(other)
        if items is None:
            return NotImplemented
        return seq_eq(self.items, items)

    def __ne__(self, other):
        result = self.__eq__(other)
        return result if result is NotImplemented else lnot(result)

    def __lt__(self, other):
        raise Unsupported("bytes ordering")

    __gt__ = __le__ = __ge__ = __lt__

    def __hash__(self):
        return hash(bytes(concrete(item) for item in self.items))

    def __add__(self, other):
        items = byte_items(other)
        if items is None:
            raise TypeError("can't concat to bytes")
        return type(self)(self.items + items)

    def __radd__(self, other):
        items = byte_items(other)
        if items is None:
            raise TypeError("can't concat to bytes")
        return type(self)(items + self.items)

    def __mul__(self, count):
        return type(self)(self.items * concrete(count))

    __rmul__ = __mul__

    def __contains__(self, item):
        return bool(lor(*[mkbool(_eq_term(element, item)) for element in self.items])) if self.items else False

    def __bytes__(self):
        return bytes(concrete(item) for item in self.items)

    def __repr__(self):
        return f"<{type(self).__name__} {len(self.items)}>"

    def __str__(self):
        return "<symbytes>"

    def __format__(self, spec):
        return "<symbytes>"

    def decode(self, encoding="utf-8", errors="strict"):
        from .pystr import utf8_decode

        encoding = encoding.lower().replace("_", "-")
        if errors == "strict" and encoding in ("unicode-escape", "unicodeescape"):
            from .pystr import unicode_unescape

            return unicode_unescape(self.items)
        if encoding not in ("utf-8", "utf8") or errors != "strict":
            raise Unsupported("decode")
        return utf8_decode(self.items)

    def hex(self):
        raise Unsupported("hex")

    def tobytes(self):
        return SymBytes(self.items)

    def join(self, parts):
        out = []
        for index, part in enumerate(parts):
            if index:
                out += self.items
            out += byte_items(part)
        return type(self)(out)

    def startswith(self, prefix):
        items = byte_items(prefix)
        return seq_eq(self.items[:len(items)], items)

    def endswith(self, suffix):
        items = byte_items(suffix)
        return seq_eq(self.items[len(self.items) - len(items):], items) if len(items) <= len(self.items) else False

    def ljust(self, width, fill=b" "):
        return type(self)(self.items + byte_items(fill) * max(0, width - len(self.items)))

    def rjust(self, width, fill=b" "):
        return type(self)(byte_items(fill) * max(0, width - len(self.items)) + self.items)


class SymByteArray(SymBytes):
    """Mutable byte sequence."""

    __slots__ = ()
    mutable = True
    __hash__ = None

    def _checked(self, value):
        if isinstance(value, SymBool):
            return as_int(value)
        if isinstance(value, SymInt):
            if value.lo < 0 or value.hi > 255:
                if lor(value < 0, value > 255):
                    raise ValueError("byte must be in range(0, 256)")
                value = mkint(value.t, max(value.lo, 0), min(value.hi, 255))
            return value
        if not isinstance(value, int):
            raise TypeError("an integer is required")
        if value < 0 or value > 255:
            raise ValueError("byte must be in range(0, 256)")
        return int(value)

    def __setitem__(self, key, value):
        if isinstance(key, slice):
            parts = [concrete(part) if isinstance(part, (SymInt, SymBool)) else part
                     for part in (key.start, key.stop, key.step)]
            items = byte_items(value)
            if items is None:
                items = [self._checked(item) for item in value]
            self.items[slice(*parts)] = items
            return
        self.items[concrete(key) if isinstance(key, (SymInt, SymBool)) else key] = self._checked(value)

    def __delitem__(self, key):
        del self.items[key]

    def __iadd__(self, other):
        self.extend(other)
        return self

    def append(self, value):
        self.items.append(self._checked(value))

    def extend(self, other):
        items = byte_items(other)
        if items is None:
            items = [self._checked(item) for item in other]
        self.items.extend(items)

    def insert(self, index, value):
        self.items.insert(index, self._checked(value))

    def pop(self, index=-1):
        return self.items.pop(index)

    def clear(self):
        self.items.clear()

    def reverse(self):
        self.items.reverse()

    def copy(self):
        return SymByteArray(self.items)


# ---------------------------------------------------------------------------------------------- floats
FP64 = z3.Float64()
FP32 = z3.Float32()
RNE = z3.RNE()


class SymFloat:
    """IEEE 754 binary64 held as a 64-bit pattern."""

    __slots__ = ("b",)

    def __init__(self, bits64):
        self.b = bits64

    @property
    def fp(self):
        return z3.fpBVToFP(self.b, FP64)

    def is_nan(self):
        return mkbool(z3.And(z3.Extract(62, 52, self.b) == 0x7FF, z3.Extract(51, 0, self.b) != 0))

    def __eq__(self, other):
        return _float_cmp("eq", self, other)

    def __ne__(self, other):
        result = _float_cmp("eq", self, other)
        return result if result is NotImplemented else lnot(result)

    def __lt__(self, other):
        return _float_cmp("lt", self, other)

    def __le__(self, other):
        return _float_cmp("le", self, other)

    def __gt__(self, other):
        return _float_cmp("gt", self, other)

    def __ge__(self, other):
        return _float_cmp("ge", self, other)

    def __bool__(self):
        return bool(mkbool(z3.Extract(62, 0, self.b) != 0))

    def __neg__(self):
        return SymFloat(self.b ^ z3.BitVecVal(1 << 63, 64))

    def __abs__(self):
        return SymFloat(self.b & z3.BitVecVal((1 << 63) - 1, 64))

    def __hash__(self):
        raise Unsupported("float hash")

    def __float__(self):
        raise Unsupported("float()")

    def __format__(self, spec):
        return "<symfloat>"

    def __str__(self):
        return "<symfloat>"

    def __add__(self, other):
        return _float_arith("add", self, other)

    def __radd__(self, other):
        return _float_arith("add", other, self)

    def __sub__(self, other):
        return _float_arith("sub", self, other)

    def __mul__(self, other):
        return _float_arith("mul", self, other)

    def __truediv__(self, other):
        return _float_arith("div", self, other)


def float_bits(value):
    """Bits of a concrete float/int as z3 value."""
    import struct

    return z3.BitVecVal(int.from_bytes(struct.pack(">d", float(value)), "big"), 64)


def as_float(value):
    if isinstance(value, SymFloat):
        return value
    if isinstance(value, (int, float)):
        return SymFloat(float_bits(value))
    if isinstance(value, SymInt):
        if value.t.size() > 54:
            raise Unsupported("int to float")
        return SymFloat(z3.fpToIEEEBV(z3.fpSignedToFP(RNE, value.t, FP64)))
    return None


def float_cmp_bits(kind, a, b):
    """Comparison of two binary64 patterns by pure bit-vector reasoning."""
    def nan(x):
        return z3.And(z3.Extract(62, 52, x) == 0x7FF, z3.Extract(51, 0, x) != 0)

    def zero(x):
        return z3.Extract(62, 0, x) == 0

    def key(x):  # total order key for non-NaN
        return z3.If(z3.Extract(63, 63, x) == 1, ~x, x | z3.BitVecVal(1 << 63, 64))

    ordered = z3.And(z3.Not(nan(a)), z3.Not(nan(b)))
    both_zero = z3.And(zero(a), zero(b))
    if kind == "eq":
        return z3.And(ordered, z3.Or(a == b, both_zero))
    if kind == "lt":
        return z3.And(ordered, z3.Not(both_zero), z3.ULT(key(a), key(b)))
    if kind == "le":
        return z3.And(ordered, z3.Or(both_zero, z3.ULE(key(a), key(b))))
    if kind == "gt":
        return float_cmp_bits("lt", b, a)
    return float_cmp_bits("le", b, a)


def _float_cmp(kind, left, right):
    a, b = as_float(left), as_float(right)
    if a is None or b is None:
        return NotImplemented
    return mkbool(float_cmp_bits(kind, a.b, b.b))


def _float_arith(kind, left, right):
    if kind == "div" and isinstance(left, (int, SymInt)) and isinstance(right, (int, SymInt)):
        raise Unsupported("int true division")
    if not isinstance(left, (int, float, SymInt, SymFloat)) or not isinstance(right, (int, float, SymInt, SymFloat)):
        return NotImplemented
    a, b = as_float(left), as_float(right)
    ops = {"add": z3.fpAdd, "sub": z3.fpSub, "mul": z3.fpMul, "div": z3.fpDiv}
    if kind not in ops:
        raise Unsupported("float " + kind)
    return SymFloat(z3.fpToIEEEBV(ops[kind](RNE, a.fp, b.fp)))


def f64_to_f32_bits(bits):
    """binary64 -> binary32 pattern, round to nearest even (what CPython's struct '>f' does); pure bit-vector circuit.

    Returns (pattern, overflow) where overflow is true for finite values which round to infinity.
    """
    sign = z3.Extract(63, 63, bits)
    exp = z3.Extract(62, 52, bits)
    man = z3.Extract(51, 0, bits)
    is_special = exp == 0x7FF
    is_nan = z3.And(is_special, man != 0)
    # work with 16-bit signed exponent
    e = z3.ZeroExt(5, exp)
    unb = e - 1023
    # normal result: keep 23 bits, 29 dropped
    kept = z3.Extract(51, 29, man)
    rnd = z3.Extract(28, 28, man)
    sticky = z3.Extract(27, 0, man) != 0
    lsb = z3.Extract(29, 29, man)
    inc = z3.And(rnd == 1, z3.Or(sticky, lsb == 1))
    exp32 = z3.Extract(7, 0, unb + 127)
    base = z3.Concat(exp32, kept)  # 31 bits
    normal = z3.If(inc, base + 1, base)
    # subnormal result: unb < -126; significand 1.man (53 bits) shifted right
    full = z3.Concat(z3.BitVecVal(1, 1), man)  # 53 bits
    shift = z3.BitVecVal(-126, 16) - unb  # >= 1
    ext = z3.Concat(full, z3.BitVecVal(0, 27))  # 80 bits; 24 bit kept part at the top incl. hidden bit
    sh80 = z3.ZeroExt(64, shift)
    too_big = shift > 25
    shifted = z3.LShR(ext, sh80)
    lost = (z3.If(too_big, ext, ext & ((z3.BitVecVal(1, 80) << sh80) - 1))) != 0
    top = z3.Extract(79, 56, shifted)  # 24 bits: hidden position + 23
    s_rnd = z3.Extract(55, 55, shifted)
    s_sticky = z3.Or(z3.Extract(54, 0, shifted) != 0, lost)
    s_inc = z3.And(s_rnd == 1, z3.Or(s_sticky, z3.Extract(56, 56, shifted) == 1))
    sub = z3.ZeroExt(7, top)
    sub = z3.If(s_inc, sub + 1, sub)
    sub = z3.If(z3.Or(too_big, exp == 0), z3.BitVecVal(0, 31), sub)
    overflow = z3.And(z3.Not(is_special),
                      z3.Or(unb > 127, z3.And(unb == 127, normal == z3.BitVecVal(0x7F800000, 31))))
    special = z3.Concat(z3.BitVecVal(0xFF, 8), z3.If(is_nan, z3.BitVecVal(1 << 22, 23) | kept, z3.BitVecVal(0, 23)))
    mag = z3.If(is_special, special, z3.If(unb < -126, sub, normal))
    return z3.Concat(sign, mag), overflow


def f32_to_f64_bits(bits):
    """binary32 -> binary64 pattern (exact; signalling NaNs become quiet as on x86-64); pure bit-vector circuit."""
    sign = z3.Extract(31, 31, bits)
    exp = z3.Extract(30, 23, bits)
    man = z3.Extract(22, 0, bits)
    # normalise subnormals
    norm = man
    shift = z3.BitVecVal(0, 11)
    for step in (16, 8, 4, 2, 1):
        top_zero = z3.Extract(22, 23 - step, norm) == 0
        norm = z3.If(top_zero, norm << step, norm)
        shift = z3.If(top_zero, shift + step, shift)
    # norm has its leading one at bit 22; drop it
    sub_exp = z3.BitVecVal(1023 - 126 - 1, 11) - shift
    sub_man = z3.Concat(z3.Extract(21, 0, norm), z3.BitVecVal(0, 30))
    sub = z3.If(man == 0, z3.BitVecVal(0, 63), z3.Concat(sub_exp, sub_man))
    quiet = z3.If(man == 0, man, man | z3.BitVecVal(1 << 22, 23))
    special = z3.Concat(z3.BitVecVal(0x7FF, 11), quiet, z3.BitVecVal(0, 29))
    normal = z3.Concat(z3.ZeroExt(3, exp) + (1023 - 127), man, z3.BitVecVal(0, 29))
    return z3.Concat(sign, z3.If(exp == 0xFF, special, z3.If(exp == 0, sub, normal)))
