"""
Reference JSON reader (RFC 8259 and the zserio extensions NaN, Infinity, -Infinity), over lists of code points which may
be symbolic. Used as the oracle of the JSON checks.
"""

ESCAPES = {ord(k): ord(v) for k, v in {"\\": "\\", '"': '"', "b": "\b", "f": "\f", "n": "\n", "r": "\r",
                                       "t": "\t"}.items()}


class JsonError(Exception):
    pass


class Number:
    """Text of a number: sign, integer digits, and the text of the fraction and the exponent."""

    def __init__(self, cps, negative, digits, is_float):
        self.cps, self.negative, self.digits, self.is_float = cps, negative, digits, is_float

    def int_value(self, ctx):
        value = ctx.decimal(self.digits)
        return -value if self.negative else value


class Object(list):
    """List of (key code points, value)."""


class RefJson:
    def __init__(self, ctx, cps):
        self.ctx, self.cps, self.pos = ctx, list(cps), 0
        self.spaces = []  # (white space before a token, kind of the token)

    # forks on symbolic code points
    def is_(self, char, at=0):
        pos = self.pos + at
        return pos < len(self.cps) and self.ctx.choose_path(self.ctx.eq(self.cps[pos], ord(char)))

    def within(self, low, high, at=0):
        pos = self.pos + at
        if pos >= len(self.cps):
            return False
        cp = self.cps[pos]
        return self.ctx.choose_path(self.ctx.land(cp >= ord(low), cp <= ord(high)))

    def skip(self):
        start = self.pos
        while self.pos < len(self.cps) and any(self.is_(char) for char in " \n\t\r"):
            self.pos += 1
        return self.cps[start:self.pos]

    def token(self, char):
        start = self.pos
        spaces = self.skip()
        if not self.is_(char):
            self.pos = start
            return False
        self.pos += 1
        self.spaces.append((spaces, char))
        return True

    def literal(self, text):
        if all(self.is_(char, at) for at, char in enumerate(text)):
            self.pos += len(text)
            return True
        return False

    def scalar(self):
        """A scalar at the position: None, True, False, a Number, ("s", code points) or ("f", name)."""
        for text, value in (("null", None), ("true", True), ("false", False), ("NaN", ("f", "NaN")),
                            ("Infinity", ("f", "Infinity")), ("-Infinity", ("f", "-Infinity"))):
            if self.is_(text[0]) and not (text[0] == "-" and not self.is_("I", 1)):
                if self.literal(text):
                    return value
                raise JsonError("literal")
        if self.is_('"'):
            return ("s", self.string())
        return self.number()

    def string(self):
        self.pos += 1
        out = []
        while True:
            if self.pos >= len(self.cps):
                raise JsonError("end of string")
            cp = self.cps[self.pos]
            self.pos += 1
            if self.ctx.choose_path(self.ctx.eq(cp, 34)):
                return out
            if not self.ctx.choose_path(self.ctx.eq(cp, 92)):
                out.append(cp)
                continue
            if self.pos >= len(self.cps):
                raise JsonError("end of escape")
            cp = self.cps[self.pos]
            self.pos += 1
            for escape, value in ESCAPES.items():
                if self.ctx.choose_path(self.ctx.eq(cp, escape)):
                    out.append(value)
                    break
            else:
                if not self.ctx.choose_path(self.ctx.eq(cp, ord("u"))):
                    raise JsonError("escape")
                value = 0
                for _ in range(4):
                    value = value * 16 + self.hex()
                out.append(value)

    def hex(self):
        for low, high, base in (("0", "9", 48), ("a", "f", 87), ("A", "F", 55)):
            if self.within(low, high):
                self.pos += 1
                return self.cps[self.pos - 1] - base
        raise JsonError("hexadecimal digit")

    def digits(self):
        start = self.pos
        while self.within("0", "9"):
            self.pos += 1
        return self.cps[start:self.pos]

    def number(self):
        start, is_float = self.pos, False
        negative = self.is_("-")
        if negative:
            self.pos += 1
        digits = self.digits()
        if not digits or (len(digits) > 1 and self.ctx.choose_path(self.ctx.eq(digits[0], ord("0")))):
            raise JsonError("number")
        if self.is_("."):
            is_float = True
            self.pos += 1
            if not self.digits():
                raise JsonError("fraction")
        if self.is_("e") or self.is_("E"):
            is_float = True
            self.pos += 1
            if self.is_("+") or self.is_("-"):
                self.pos += 1
            if not self.digits():
                raise JsonError("exponent")
        return Number(self.cps[start:self.pos], negative, digits, is_float)

    def value(self):
        """Any JSON value: scalars as scalar(), lists, and Objects."""
        if self.token("{"):
            out = Object()
            if self.token("}"):
                return out
            while True:
                spaces = self.skip()
                if not self.is_('"'):
                    raise JsonError("key")
                self.spaces.append((spaces, "k"))
                key = self.string()
                if not self.token(":"):
                    raise JsonError("colon")
                out.append((key, self.value()))
                if self.token("}"):
                    return out
                if not self.token(","):
                    raise JsonError("comma")
        if self.token("["):
            out = []
            if self.token("]"):
                return out
            while True:
                out.append(self.value())
                if self.token("]"):
                    return out
                if not self.token(","):
                    raise JsonError("comma")
        self.spaces.append((self.skip(), "v"))
        return self.scalar()
