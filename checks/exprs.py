"""
Expression functions of schemas/exprs/exprs.zs and their meaning.

The meaning is computed here from the text: parsed with the precedence table of Java (the language overview: "semantics
and precedence rules the same as in Java") and evaluated with Java's integer semantics.  Divisors are assumed not to be
zero and shift amounts to be 0..31; no value leaves 63 bits.
"""

import re

INT_OPS = ("+", "-", "*", "/", "%", "<<", ">>", "&", "^", "|")
CMP_OPS = ("<", "<=", ">", ">=", "==", "!=")
LEVELS = [("||",), ("&&",), ("|",), ("^",), ("&",), ("==", "!="), ("<", "<=", ">", ">="), ("<<", ">>"), ("+", "-"),
          ("*", "/", "%")]
TOKEN = re.compile(r"\s*(\d\w*|[A-Za-z_]\w*|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&^|~!<>?:().,\[\]])")


def functions():
    """(name, return type, text) of every function."""
    out = []

    def add(kind, *texts):
        for text in texts:
            out.append((f"f{len(out)}", kind, text))

    for first in INT_OPS:
        for second in INT_OPS:
            left = "u" if first in ("/", "%", "<<", ">>") else "b"
            right = "w" if second in ("/", "%", "<<", ">>") or first in ("<<", ">>", "/", "%") else "c"
            add("int64", f"a {first} {left} {second} {right}")
    for text in ("a / b", "a % b", "a / b * b + a % b", "-a / b", "a - b % c", "a / b / c", "a % b % w", "(a + b) / c",
                 "(a - b) * c", "a - (b - c)", "-a - -b", "- -a", "~a", "~a & b", "-(a + b)", "+a", "~(a | b) ^ c",
                 "a * (b + c)", "(a & 7) << u", "a >> (u & 3)", "-a >> 1", "a << 1 << 2", "a & ~b | c"):
        add("int64", text)
    add("int64", "0x1F + a", "101b * a", "017 + a", "1000000 - a", "LIMIT - a", "LIMIT * 2 + a", "-5 - a", "a + NEGATIVE",
        "4294967296 + a", "9223372036854775000 + a", "-9223372036854775000 + a")
    for op in CMP_OPS:
        add("bool", f"a {op} b", f"a + b {op} c", f"a {op} b * c", f"a {op} b == p", f"p != a {op} b" if op[0] in "<>" else f"p != (a {op} b)")
    add("bool", "p == q == r", "p != q == r", "p == q != r", "a < b == b < c", "a < b != c > a", "p == !q", "!p == q",
        "!p != !q", "!p && q", "!p || !q && r", "p && q || r", "p || q && r", "!(p || q)", "a < b && b < c",
        "a < b || a == b && p", "!(a < b) && !p", "p == (a < b)", "(a & b) == c", "(a | 1) != 0", "a % 2 == 0", "a == -b",
        "a == b == true", "p == true", "false || p")
    add("int64", "p ? a : b", "p ? a : q ? b : c", "a + (p ? b : c)", "p || q ? a : b", "a < b ? a : b", "p ? a + 1 : b - 1",
        "(p ? q ? a : b : c) * 2", "a == b ? 1 : 0", "!p ? a : -a")
    add("bool", "p ? q : r", "p ? a < b : q", "a > 0 ? p : !p")
    add("int64", "lengthof(list)", "lengthof(text)", "lengthof(list) * 2 - a", "valueof(color)", "valueof(mask)",
        "valueof(color) + valueof(mask)", "valueof(mask & Mask.HIGH)", "valueof(mask | Mask.LOW)", "valueof(~mask)",
        "numbits(big)", "numbits(big) + 1", "numbits(u)", "list[1]", "list[0] - list[1]", "list[u & 1] * a",
        "inner.x", "inner.x - inner.y", "inner.sum()", "inner.sum() * 2 + inner.scaled()", "items[1].x - items[0].x",
        "items[u & 1].sum()", "par + a", "par * inner.x", "f0() + 1", "f0() - f1()", "valueof(inner.kind)")
    add("bool", "isset(mask, LOW)", "isset(mask, HIGH)", "isset(mask, Mask.LOW | Mask.HIGH)", "color == Color.RED",
        "color != Color.RED", "mask == Mask.LOW", "(mask & Mask.LOW) == Mask.LOW", "isset(mask, LOW) && p", "!isset(mask, HIGH)",
        "inner.kind == Color.GREEN", "inner.kind == color", "mask != (Mask.LOW | Mask.HIGH)", "par == 0 || p",
        "lengthof(list) > 1 && list[1] == 3")
    return out


def schema():
    lines = ["/* generated by python3-vt -m checks.exprs */", "package exprs;", "", "const uint8 LIMIT = 40;",
             "const int32 NEGATIVE = -3;", "",
             "enum uint8 Color { RED = 1, GREEN = 7, BLUE = 200 };", "bitmask uint8 Mask { LOW = 1, HIGH = 0x80 };", "",
             "struct Inner\n{\n    int8 x;\n    int8 y;\n    Color kind;\n\n    function int32 sum()\n    {\n"
             "        return x + y;\n    }\n\n    function int32 scaled()\n    {\n        return sum() * LIMIT;\n    }\n};", "",
             "struct Exprs(uint8 par)", "{", "    int8 a;", "    int8 b;", "    int8 c;", "    bit:3 u;", "    bit:2 w;",
             "    uint32 big;", "    bool p;", "    bool q;", "    bool r;", "    Color color;", "    Mask mask;",
             "    uint8 list[];", "    string text;", "    Inner inner;", "    Inner items[2];"]
    for name, kind, text in functions():
        lines += ["", f"    function {kind} {name}()", "    {", f"        return {text};", "    }"]
    return "\n".join(lines + ["};", ""])


# parser ---------------------------------------------------------------------------------------------------------


def tokens(text):
    out, pos = [], 0
    while pos < len(text.rstrip()):
        match = TOKEN.match(text, pos)
        out.append(match.group(1))
        pos = match.end()
    return out


class Parser:
    def __init__(self, text):
        self.toks, self.pos = tokens(text), 0
        self.tree = self.ternary()
        assert self.pos == len(self.toks), text

    def peek(self):
        return self.toks[self.pos] if self.pos < len(self.toks) else None

    def take(self, tok=None):
        assert tok is None or self.peek() == tok, (self.toks, self.pos)
        self.pos += 1
        return self.toks[self.pos - 1]

    def ternary(self):
        cond = self.binary(0)
        if self.peek() != "?":
            return cond
        self.take("?")
        left = self.ternary()
        self.take(":")
        return ("?", cond, left, self.ternary())

    def binary(self, level):
        if level == len(LEVELS):
            return self.unary()
        left = self.binary(level + 1)
        while self.peek() in LEVELS[level]:
            op = self.take()
            left = (op, left, self.binary(level + 1))
        return left

    def unary(self):
        if self.peek() in ("-", "+", "!", "~"):
            op = self.take()
            return ("u" + op, self.unary())
        return self.postfix()

    def postfix(self):
        tok = self.take()
        if tok == "(":
            tree = self.ternary()
            self.take(")")
        elif tok in ("lengthof", "valueof", "numbits", "isset"):
            self.take("(")
            args = [self.ternary()]
            while self.peek() == ",":
                self.take()
                args.append(self.ternary())
            self.take(")")
            tree = (tok, *args)
        elif tok[0].isdigit():
            if tok[:2] == "0x":
                tree = ("num", int(tok, 0))
            elif tok[-1] == "b":
                tree = ("num", int(tok[:-1], 2))
            else:
                tree = ("num", int(tok, 8 if tok[0] == "0" and len(tok) > 1 else 10))
        else:
            tree = ("id", tok)
        while self.peek() in (".", "[", "("):
            op = self.take()
            if op == ".":
                tree = (".", tree, self.take())
            elif op == "[":
                tree = ("[", tree, self.ternary())
                self.take("]")
            else:
                self.take(")")
                tree = ("call", tree)
        return tree


# evaluation -----------------------------------------------------------------------------------------------------

CONSTS = {"LIMIT": 40, "NEGATIVE": -3, "true": True, "false": False, "RED": 1, "GREEN": 7, "BLUE": 200, "LOW": 1,
          "HIGH": 0x80}
INNER = {"sum": "x + y", "scaled": "sum() * LIMIT"}


class Evaluator:
    """values: dict of the fields and parameters (structures are dicts, text is the list of code points)."""

    def __init__(self, ctx, values, funcs):
        self.ctx, self.values, self.funcs = ctx, values, funcs

    def run(self, text):
        return self.ev(Parser(text).tree)

    def num(self, value):
        return self.ctx.ite(value, 1, 0) if isinstance(value, bool) else value

    def ev(self, tree):
        ctx, op = self.ctx, tree[0]
        if op == "num":
            return tree[1]
        if op == "id":
            name = tree[1]
            if name in self.values:
                return self.values[name]
            return CONSTS[name]
        if op == ".":
            if tree[1][0] == "id" and tree[1][1] in ("Color", "Mask"):
                return CONSTS[tree[2]]
            return self.ev(tree[1])[tree[2]]
        if op == "call":
            if tree[1][0] == "id":
                return Evaluator(ctx, self.values, self.funcs).run(self.funcs[tree[1][1]])
            return Evaluator(ctx, self.ev(tree[1][1]), INNER).run(INNER[tree[1][2]])
        if op == "[":
            items, index = self.ev(tree[1]), self.ev(tree[2])
            for i in range(len(items)):
                if ctx.choose_path(ctx.eq(index, i)):
                    return items[i]
            ctx.assume(False)
        if op == "lengthof":
            items = self.ev(tree[1])
            return len(items)
        if op == "valueof":
            value = self.ev(tree[1])
            return value & 255
        if op == "isset":
            value, mask = self.ev(tree[1]), self.ev(tree[2])
            return ctx.eq(value & mask, mask)
        if op == "numbits":
            value = self.ev(tree[1])
            result = 0
            for bits in range(1, 33):
                low = 1 if bits == 1 else (1 << (bits - 1)) + 1
                result = ctx.ite(value >= low, bits, result)
            return result
        if op == "?":
            cond = self.ev(tree[1])
            return self.ev(tree[2]) if ctx.choose_path(cond) else self.ev(tree[3])
        if op == "&&":
            return self.ev(tree[2]) if ctx.choose_path(self.ev(tree[1])) else False
        if op == "||":
            return True if ctx.choose_path(self.ev(tree[1])) else self.ev(tree[2])
        if op == "u!":
            return ctx.lnot(self.ev(tree[1]))
        if op[0] == "u":
            value = self.ev(tree[1])
            return {"u-": lambda: 0 - value, "u+": lambda: value, "u~": lambda: -1 - value}[op]()
        left, right = self.ev(tree[1]), self.ev(tree[2])
        if op == "==":
            return ctx.eq(left, right)
        if op == "!=":
            return ctx.lnot(ctx.eq(left, right))
        if op in ("/", "%"):
            ctx.assume(ctx.lnot(ctx.eq(right, 0)))
            negative = ctx.lnot(ctx.eq(left < 0, right < 0))
            top = ctx.ite(left < 0, 0 - left, left)
            bottom = ctx.ite(right < 0, 0 - right, right)
            quotient = top // bottom
            quotient = ctx.ite(negative, 0 - quotient, quotient)
            return quotient if op == "/" else left - quotient * right
        if op in ("<<", ">>"):
            ctx.assume(ctx.land(right >= 0, right <= 31))
            return left << right if op == "<<" else left >> right
        return {"+": lambda: left + right, "-": lambda: left - right, "*": lambda: left * right,
                "&": lambda: left & right, "^": lambda: left ^ right, "|": lambda: left | right,
                "<": lambda: left < right, "<=": lambda: left <= right, ">": lambda: left > right,
                ">=": lambda: left >= right}[op]()


if __name__ == "__main__":
    import os

    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "schemas/exprs/exprs.zs")
    with open(path, "w", encoding="utf-8") as file:
        file.write(schema())
