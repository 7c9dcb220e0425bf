"""
Memoised construction of solver terms.

Paths are re-executed from the start, so that the same terms are built again and again.  Every constructor is looked up
by the identities of its operands first.  An entry keeps its operands alive, so identities are not reused.
"""

import z3

_MEMO = {}
_CONST = {}
LIMIT = 1000000


def clear():
    """Forgets everything (between jobs)."""
    _MEMO.clear()
    _CONST.clear()


def tid(term):
    """Identity of a term (hash consing: equal terms have equal identities)."""
    try:
        return term._tid
    except AttributeError:
        term._tid = ident = term.get_id()
        return ident


def size(term):
    """Width of a bit-vector term."""
    try:
        return term._size
    except AttributeError:
        term._size = width = term.size()
        return width


def const(value, width):
    """Bit-vector constant."""
    key = (value, width)
    term = _CONST.get(key)
    if term is None:
        term = _CONST[key] = z3.BitVecVal(value, width)
        term._size = width
        term._value = True
    return term


def is_const(term):
    """Is a constant?"""
    try:
        return term._value
    except AttributeError:
        term._value = result = z3.is_bv_value(term)
        return result


def memo(key, build, *keep):
    """Result of build(), remembered under the key."""
    hit = _MEMO.get(key)
    if hit is not None:
        return hit[0]
    if len(_MEMO) > LIMIT:
        _MEMO.clear()
    result = build()
    _MEMO[key] = (result, keep)
    return result


def simplify(term):
    """True, False or the simplified condition."""
    key = ("?", tid(term))
    hit = _MEMO.get(key)
    if hit is not None:
        return hit[0]
    result = z3.simplify(term)
    if z3.is_true(result):
        result = True
    elif z3.is_false(result):
        result = False
    _MEMO[key] = (result, term)
    if result is not True and result is not False:
        _MEMO[("?", tid(result))] = (result, result)
    return result


def negation(cond):
    """Simplified negation of a condition."""
    key = ("!", tid(cond))
    hit = _MEMO.get(key)
    if hit is not None:
        return hit[0]
    result = simplify(z3.Not(cond))
    _MEMO[key] = (result, cond)
    return result


_OPS = {
    "add": lambda a, b: a + b,
    "sub": lambda a, b: a - b,
    "mul": lambda a, b: a * b,
    "and": lambda a, b: a & b,
    "or": lambda a, b: a | b,
    "xor": lambda a, b: a ^ b,
    "lt": lambda a, b: a < b,
    "le": lambda a, b: a <= b,
    "eq": lambda a, b: a == b,
}


def binary(kind, left, right):
    """Bit-vector operation or comparison."""
    key = (kind, tid(left), tid(right))
    hit = _MEMO.get(key)
    if hit is not None:
        return hit[0]
    result = _OPS[kind](left, right)
    _MEMO[key] = (result, left, right)
    return result


def resize(term, width):
    """Sign extends or truncates a bit-vector term."""
    cur = size(term)
    if cur == width:
        return term
    key = ("r", tid(term), width)
    hit = _MEMO.get(key)
    if hit is not None:
        return hit[0]
    result = z3.SignExt(width - cur, term) if cur < width else z3.Extract(width - 1, 0, term)
    result._size = width
    _MEMO[key] = (result, term)
    return result


def zero_ext(count, term):
    """Zero extension."""
    return memo(("z", count, tid(term)), lambda: z3.ZeroExt(count, term), term)


def extract(high, low, term):
    """Bits of a term."""
    return memo(("x", high, low, tid(term)), lambda: z3.Extract(high, low, term), term)


def ite(cond, left, right):
    """Choice."""
    return memo(("i", tid(cond), tid(left), tid(right)), lambda: z3.If(cond, left, right), cond, left, right)


def conj(terms):
    """Conjunction."""
    return memo(("&",) + tuple(tid(term) for term in terms), lambda: z3.And(*terms), *terms)


def nonzero(term):
    """term != 0"""
    return memo(("n", tid(term)), lambda: term != 0, term)


def plain(term):
    """Simplified bit-vector term."""
    return memo(("$", tid(term)), lambda: z3.simplify(term), term)
