"""Symbolic strings: concrete length, symbolic code points."""

import z3

from .core import Explorer, Unsupported
from .pyproxy import (SymInt, SymBool, SymBytes, SymFloat, mkbool, mkint, land, lor, lnot, concrete, seq_eq, byte_items,
                      _index_list, cond_of, as_int)


def str_items(value):
    """Code points of a str/SymStr or None."""
    if isinstance(value, SymStr):
        return value.cps
    if isinstance(value, str):
        return [ord(char) for char in value]
    return None


def mkstr(cps):
    """str when all code points are concrete, otherwise SymStr."""
    if all(not isinstance(cp, SymInt) for cp in cps):
        return "".join(chr(cp) for cp in cps)
    return SymStr(cps)


def char_in(cp, chars):
    return lor(*[mkbool(cond_of(cp == other)) for other in chars]) if chars else False


class SymStr:
    """Immutable string with symbolic code points."""

    __slots__ = ("cps",)

    def __init__(self, cps):
        self.cps = list(cps)

    def __len__(self):
        return len(self.cps)

    def __bool__(self):
        return bool(self.cps)

    def __getitem__(self, key):
        result = _index_list(self.cps, key, "string")
        if isinstance(key, slice):
            return mkstr(result)
        return mkstr([result])

    def __iter__(self):
        for cp in list(self.cps):
            yield mkstr([cp])

    def __eq__(self, other):
        items = str_items(other)
        if items is None:
            return NotImplemented
        return seq_eq(self.cps, items)

    def __ne__(self, other):
        result = self.__eq__(other)
        return result if result is NotImplemented else lnot(result)

    def _lt(self, other, strict):
        items = str_items(other)
        if items is None:
            raise TypeError("unorderable")
        for a, b in zip(self.cps, items):
            if a == b:
                continue
            return a < b
        return len(self.cps) < len(items) if strict else len(self.cps) <= len(items)

    def __lt__(self, other):
        return self._lt(other, True)

    def __le__(self, other):
        return self._lt(other, False)

    def __gt__(self, other):
        return lnot(self._lt(other, False))

    def __ge__(self, other):
        return lnot(self._lt(other, True))

    def __hash__(self):
        return hash("".join(chr(concrete(cp, limit=2000, why="string hash")) for cp in self.cps))

    def __add__(self, other):
        items = str_items(other)
        if items is None:
            raise TypeError("can only concatenate str")
        return mkstr(self.cps + items)

    def __radd__(self, other):
        items = str_items(other)
        if items is None:
            raise TypeError("can only concatenate str")
        return mkstr(items + self.cps)

    def __mul__(self, count):
        return mkstr(self.cps * concrete(count))

    __rmul__ = __mul__

    def __contains__(self, other):
        items = str_items(other)
        n = len(items)
        if n == 0:
            return True
        for start in range(len(self.cps) - n + 1):
            if seq_eq(self.cps[start:start + n], items):
                return True
        return False

    def __str__(self):
        return "<symstr>"

    def __repr__(self):
        return f"<SymStr {len(self.cps)}>"

    def __format__(self, spec):
        return "<symstr>"

    def encode(self, encoding="utf-8", errors="strict"):
        if encoding.lower().replace("_", "-") not in ("utf-8", "utf8") or errors != "strict":
            raise Unsupported("encode")
        return utf8_encode(self.cps)

    def join(self, parts):
        out = []
        for index, part in enumerate(parts):
            if index:
                out += self.cps
            out += str_items(part)
        return mkstr(out)

    def startswith(self, prefix, start=0, end=None):
        if isinstance(prefix, tuple):
            return any(self.startswith(item, start, end) for item in prefix)
        cps = self.cps[start:end]
        items = str_items(prefix)
        return seq_eq(cps[:len(items)], items) if len(items) <= len(cps) else False

    def endswith(self, suffix, start=0, end=None):
        cps = self.cps[start:end]
        items = str_items(suffix)
        if len(items) > len(cps):
            return False
        return seq_eq(cps[len(cps) - len(items):], items)

    def find(self, sub, start=0, end=None):
        items = str_items(sub)
        stop = len(self.cps) if end is None else min(end, len(self.cps))
        for pos in range(start, stop - len(items) + 1):
            if seq_eq(self.cps[pos:pos + len(items)], items):
                return pos
        return -1

    def index(self, sub, start=0, end=None):
        pos = self.find(sub, start, end)
        if pos < 0:
            raise ValueError("substring not found")
        return pos

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            out, cur = [], []
            for cp in self.cps:
                if is_space(cp):
                    if cur:
                        out.append(mkstr(cur))
                    cur = []
                else:
                    cur.append(cp)
            if cur:
                out.append(mkstr(cur))
            return out
        out, pos = [], 0
        n = len(str_items(sep))
        while maxsplit != 0:
            nxt = self.find(sep, pos)
            if nxt < 0:
                break
            out.append(mkstr(self.cps[pos:nxt]))
            pos = nxt + n
            maxsplit -= 1
        out.append(mkstr(self.cps[pos:]))
        return out

    def strip(self, chars=None):
        return _lstrip(_lstrip(self.cps, chars)[::-1], chars, rev=True)

    def lstrip(self, chars=None):
        return mkstr(_lstrip(self.cps, chars))

    def rstrip(self, chars=None):
        return mkstr(_lstrip(self.cps[::-1], chars)[::-1])

    def replace(self, old, new, count=-1):
        olds, news = str_items(old), str_items(new)
        out, pos = [], 0
        while pos < len(self.cps):
            if count != 0 and olds and len(self.cps) - pos >= len(olds) and \
                    seq_eq(self.cps[pos:pos + len(olds)], olds):
                out += news
                pos += len(olds)
                count -= 1
            else:
                out.append(self.cps[pos])
                pos += 1
        return mkstr(out)

    def isdigit(self):
        if not self.cps:
            return False
        for cp in self.cps:
            if isinstance(cp, SymInt):
                if lnot(cp < 128):
                    return mkstr([concrete(cp, 2000)]).isdigit()
                if lnot(land(cp >= 48, cp <= 57)):
                    return False
            elif not chr(cp).isdigit():
                return False
        return True

    def isspace(self):
        return bool(self.cps) and all(is_space(cp) for cp in self.cps)

    def _map_ascii(self, low, high, delta):
        out = []
        for cp in self.cps:
            if isinstance(cp, SymInt):
                if lnot(cp < 128):
                    raise Unsupported("case mapping of non-ASCII")
                if land(cp >= low, cp <= high):
                    cp = cp + delta
            else:
                cp = ord(chr(cp).lower()) if delta > 0 else ord(chr(cp).upper())
            out.append(cp)
        return mkstr(out)

    def lower(self):
        return self._map_ascii(65, 90, 32)

    def upper(self):
        return self._map_ascii(97, 122, -32)


def _lstrip(cps, chars, rev=False):
    pos = 0
    members = None if chars is None else str_items(chars)
    while pos < len(cps):
        if not (is_space(cps[pos]) if members is None else char_in(cps[pos], members)):
            break
        pos += 1
    result = cps[pos:]
    return mkstr(result[::-1]) if rev else result


SPACES = [9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xA0, 0x1680] + list(range(0x2000, 0x200B)) + [
    0x2028, 0x2029, 0x202F, 0x205F, 0x3000]


def is_space(cp):
    return bool(char_in(cp, SPACES))


def sym_ord(value):
    """ord() for str and SymStr."""
    if isinstance(value, SymStr):
        if len(value.cps) != 1:
            raise TypeError("ord() expected a character")
        return value.cps[0]
    if isinstance(value, SymBytes):
        return value.items[0]
    return ord(value)


def sym_chr(value):
    """chr() for int and SymInt."""
    if isinstance(value, SymInt):
        if lor(value < 0, value > 0x10FFFF):
            raise ValueError("chr() arg not in range(0x110000)")
        return SymStr([value])
    return chr(as_int(value))


def utf8_encode(cps):
    """CPython strict UTF-8 encoder."""
    out = []
    for cp in cps:
        if cp < 0x80:
            out.append(_nar(cp, 0x7F))
        elif cp < 0x800:
            out += [0xC0 | _nar(cp >> 6, 0x1F), 0x80 | (cp & 0x3F)]
        elif land(cp >= 0xD800, cp <= 0xDFFF):
            raise UnicodeEncodeError("utf-8", "?", 0, 1, "surrogates not allowed")
        elif cp < 0x10000:
            out += [0xE0 | _nar(cp >> 12, 0xF), 0x80 | ((cp >> 6) & 0x3F), 0x80 | (cp & 0x3F)]
        else:
            out += [0xF0 | _nar(cp >> 18, 0x7), 0x80 | ((cp >> 12) & 0x3F), 0x80 | ((cp >> 6) & 0x3F),
                    0x80 | (cp & 0x3F)]
    if all(not isinstance(item, SymInt) for item in out):
        return bytes(out)
    return SymBytes(out)


def _nar(value, mask):
    return value & mask


def utf8_decode(items):
    """CPython strict UTF-8 decoder."""
    out = []
    pos = 0
    end = len(items)

    def fail(reason):
        raise UnicodeDecodeError("utf-8", b"?", 0, 1, reason)

    while pos < end:
        b0 = items[pos]
        if b0 < 0x80:
            out.append(b0 if not isinstance(b0, SymInt) else b0 & 0x7F)
            pos += 1
            continue
        if b0 < 0xC2:
            fail("invalid start byte")
        if b0 < 0xE0:
            need = 2
        elif b0 < 0xF0:
            need = 3
        elif b0 < 0xF5:
            need = 4
        else:
            fail("invalid start byte")
        low, high = 0x80, 0xBF
        if need == 3:
            if b0 == 0xE0:
                low = 0xA0
            elif b0 == 0xED:
                high = 0x9F
        elif need == 4:
            if b0 == 0xF0:
                low = 0x90
            elif b0 == 0xF4:
                high = 0x8F
        value = b0 & {2: 0x1F, 3: 0x0F, 4: 0x07}[need]
        for k in range(1, need):
            if pos + k >= end:
                fail("unexpected end of data")
            bk = items[pos + k]
            if not land(bk >= low, bk <= high):
                fail("invalid continuation byte")
            low, high = 0x80, 0xBF
            value = (value << 6) | (bk & 0x3F)
        out.append(value)
        pos += need
    return mkstr(out)


def hex_digit(value):
    """Lower case hexadecimal digit (code point) of 0..15 (forks)."""
    if not isinstance(value, SymInt):
        return ord("0123456789abcdef"[value])
    if value < 10:
        return mkint((value + 48).t, 48, 57)
    return mkint((value + 87).t, 97, 102)


def hex_value(cp):
    """Value of a hexadecimal digit or None (forks)."""
    if not isinstance(cp, SymInt):
        return int(chr(cp), 16) if chr(cp) in "0123456789abcdefABCDEF" else None
    for low, high, base in ((48, 57, 48), (97, 102, 87), (65, 70, 55)):
        if land(cp >= low, cp <= high):
            value = cp - base
            return mkint(value.t, low - base, high - base) if isinstance(value, SymInt) else value
    return None


def unicode_unescape(items):
    """bytes.decode("unicode-escape") of exactly one \\uXXXX escape."""
    if len(items) != 6 or not (items[0] == 92) or not (items[1] == 117):
        raise Unsupported("unicode-escape")
    value = 0
    for item in items[2:]:
        digit = hex_value(item)
        if digit is None:
            raise UnicodeDecodeError("unicodeescape", b"\\u", 0, 1, "truncated \\uXXXX escape")
        value = value * 16 + digit
    return mkstr([value])
