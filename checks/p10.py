"""P10: Python JSON text: values, tokens and documents."""

from .common_py import *
from .jsonref import RefJson, JsonError, Number

PROPERTY = "P10"
BOUNDS = ("strings of 0..2 code points (3 below U+0100 in the thorough tier), integers of 64 bits signed and unsigned; "
          "strings of up to 3 raw characters or escapes; numbers of up to 5 characters; texts of up to 5 characters in any "
          "chunks; documents of up to 7 characters")
ASSUMPTIONS = ["json.JSONEncoder(ensure_ascii=False) modelled for integers and strings",
               "surrogate code points are excluded"]


def surrogate(ctx, cp):
    return ctx.land(cp >= 0xD800, cp <= 0xDFFF)


def decode(ctx, text, pos=0):
    return ctx.module("zserio.json").JsonDecoder.decode_value(text, pos)


def encode(ctx, value):
    return ctx.module("zserio.json").JsonEncoder().encode_value(value)


def cps_of(text):
    return [ord(char) for char in text] if isinstance(text, str) else list(text.cps)


def string_roundtrip(ctx, count, high):
    cps = [ctx.int(f"s[{i}]", 0, high) for i in range(count)]
    for cp in cps:
        if high > 0xD800:
            ctx.assume(ctx.lnot(surrogate(ctx, cp)))
    text = encode(ctx, ctx.make_str(cps))
    ref = RefJson(ctx, cps_of(text))
    ctx.check(ref.is_('"'), "starts with a quotation mark")
    out = ref.string()
    ctx.check(ctx.land(len(out) == count, ctx.eq(out, cps)), "the JSON string denotes the string")
    ctx.check(ref.pos == len(text), "nothing after the JSON string")
    end = ctx.int("end", 0, 0x7F)
    result = decode(ctx, ctx.make_str([32] + cps_of(text) + [end]), 1)
    ctx.check(result.success, "decoded")
    ctx.check(ctx.eq(result.value, ctx.make_str(cps)), "decoded string")
    ctx.check(ctx.eq(result.num_read_chars, len(text)), "characters read")
    ctx.observe("text", text)
    ctx.reach("end")


def int_roundtrip(ctx, low, high):
    value = ctx.decimal_int("value", low, high)
    text = encode(ctx, value)
    ref = RefJson(ctx, cps_of(text))
    number = ref.number()
    ctx.check(ctx.land(ref.pos == len(text), not number.is_float), "a JSON integer")
    ctx.check(ctx.eq(number.int_value(ctx), value), "the JSON integer denotes the value")
    ctx.check(len(number.digits) == 1 or ctx.lnot(ctx.eq(number.digits[0], 48)), "no leading zero")
    end = ctx.pick("end", [None, "any"])
    if end:
        end = ctx.int("end.char", 0, 0x7F)
        ctx.assume(ctx.lnot(ctx.lor(ctx.land(end >= 48, end <= 57), ctx.eq(end, 46), ctx.eq(end, 69), ctx.eq(end, 101))))
    result = decode(ctx, ctx.make_str([91] + cps_of(text) + ([] if end is None else [end])), 1)
    ctx.check(result.success, "decoded")
    ctx.check(ctx.eq(result.value, value), "decoded integer")
    ctx.check(ctx.eq(result.num_read_chars, len(text)), "characters read")
    ctx.reach("end")


def literals(ctx):
    value = ctx.pick("value", [None, True, False])
    text = encode(ctx, value)
    ctx.check(text == {None: "null", True: "true", False: "false"}[value], "literal text")
    end = ctx.int("end", 0, 0x7F)
    result = decode(ctx, ctx.make_str(cps_of(text) + [end]))
    ctx.check(result.success and result.value is value and result.num_read_chars == len(text), "decoded literal")
    for text in ("NaN", "Infinity", "-Infinity"):
        result = decode(ctx, ctx.make_str(cps_of(text) + [end]))
        ctx.check(result.success and result.num_read_chars == len(text) and
                  repr(result.value) == repr(float(text)), "decoded " + text)
    ctx.reach("end")


def decode_string(ctx, shape):
    """shape: raw character, simple escape, unicode escape; followed by anything."""
    cps, expected = [34], []
    for index, kind in enumerate(shape):
        if kind == "r":
            cp = ctx.int(f"raw{index}", 32, 0x10FFFF)
            ctx.assume(ctx.land(ctx.lnot(surrogate(ctx, cp)), cp != 34, cp != 92))
            cps.append(cp)
            expected.append(cp)
        elif kind == "e":
            char = ctx.pick(f"esc{index}", '"\\bfnrt')
            cps += [92, ord(char)]
            expected.append(ord({"b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t"}.get(char, char)))
        else:
            value = 0
            cps += [92, 117]
            for k in range(4):
                digit = ctx.int(f"hex{index}{k}", 0, 21 if len(shape) == 1 else 9)
                cps.append(ctx.ite(digit < 10, digit + 48, ctx.ite(digit < 16, digit + 87, digit + 49))
                           if len(shape) == 1 else digit + 48)
                value = value * 16 + ctx.ite(digit < 16, digit, digit - 6)
            ctx.assume(ctx.lnot(surrogate(ctx, value)))
            expected.append(value)
    cps.append(34)
    end = ctx.int("end", 0, 0x10FFFF)
    ctx.assume(ctx.lnot(surrogate(ctx, end)))
    result = decode(ctx, ctx.make_str([58] + cps + [end]), 1)
    ctx.check(result.success, "decoded")
    ctx.check(ctx.eq(result.value, ctx.make_str(expected)), "decoded string")
    ctx.check(ctx.eq(result.num_read_chars, len(cps)), "characters read")
    for cut in range(1, len(cps)):
        result = decode(ctx, ctx.make_str(cps[:cut]))
        ctx.check(ctx.land(not result.success, ctx.eq(result.num_read_chars, cut)),
                  "an incomplete string is no value and uses the whole text")
    ctx.reach("end")


def decode_any(ctx, count, alphabet):
    """Any text: JSON values have their value, other texts fail; nothing else happens."""
    if alphabet is None:
        cps = [ctx.int(f"c[{i}]", 0, 0x7F) for i in range(count)]
    else:
        cps = letters(ctx, count, alphabet)
    result = decode(ctx, ctx.make_str(cps))
    used = result.num_read_chars
    ctx.check(ctx.land(used >= 0, used <= count + (count == 0)), "characters read")
    if not result.success:
        ctx.check(result.value is None, "no value")
    ref = RefJson(ctx, cps)
    try:
        value = ref.scalar()
    except JsonError:
        value = JsonError
    follow = ref.pos < len(cps) and isinstance(value, Number) and any(
        ref.is_(char) for char in "0123456789.eE+-")
    if value is JsonError:
        first = cps[0]
        loose = ctx.lor(ctx.land(first >= 48, first <= 57), ctx.eq(first, 45), ctx.eq(first, 46), ctx.eq(first, 69),
                        ctx.eq(first, 101))
        ctx.check(ctx.lor(loose, not result.success), "not a value")
    elif not follow:
        ctx.check(result.success, "decoded")
        ctx.check(ctx.eq(used, ref.pos), "characters of the value")
        if isinstance(value, Number):
            ctx.check(type(result.value).__name__ != "bool", "a number")
            if value.is_float:
                text = "".join(chr(int(cp)) for cp in value.cps)
                ctx.check(isinstance(result.value, float) and result.value == float(text), "decoded float")
            else:
                ctx.check(ctx.eq(result.value, value.int_value(ctx)), "decoded integer")
            ctx.reach("number")
        elif isinstance(value, tuple) and value[0] == "s":
            ctx.check(ctx.eq(result.value, ctx.make_str(value[1])), "decoded string")
        elif isinstance(value, tuple):
            ctx.check(repr(result.value) == repr(float(value[1])), "decoded float")
        else:
            ctx.check(result.value is value, "decoded literal")
    ctx.reach("end")


def letters(ctx, count, alphabet):
    """Any text over the alphabet."""
    out = []
    for i in range(count):
        cp = ctx.int(f"c[{i}]", 0, 127)
        ctx.assume(ctx.lor(*[ctx.eq(cp, ord(char)) for char in alphabet]))
        out.append(cp)
    return out


class ChunkIo:
    """Text stream delivering its text in the given chunks."""

    def __init__(self, ctx, cps, whole):
        self.ctx, self.cps, self.pos, self.whole = ctx, cps, 0, whole

    def read(self, size=-1):
        count = left = len(self.cps) - self.pos
        if left > 1 and not self.whole:
            count = self.ctx.pick(f"chunk{self.pos}", range(1, left + 1))
        if size is not None and size >= 0:
            count = min(count, size)
        self.pos += count
        return self.ctx.make_str(self.cps[self.pos - count:self.pos])


def tokens_of(ctx, cps, whole):
    """Tokens (name, value, line, column), ending with the end of the file or None for an exception."""
    tokenizer = ctx.module("zserio.json").JsonTokenizer(ChunkIo(ctx, cps, whole))
    out = []
    for _ in range(len(cps) + 1):
        _, exc = ctx.attempt(tokenizer.next)
        if exc is not None:
            ctx.check(type(exc).__name__ == "JsonParserException", "only parser exceptions", repr(exc))
            out.append(None)
            return out
        out.append((tokenizer.get_token().name, tokenizer.get_value(), tokenizer.get_line(), tokenizer.get_column()))
        if out[-1][0] == "END_OF_FILE":
            return out
    ctx.check(False, "end of the file is reached")
    return out


def same_token(ctx, left, right):
    if left is None or right is None:
        return left is None and right is None
    if left[0] != right[0] or type(left[1]) is not type(right[1]):
        return False
    if isinstance(left[1], float):
        return repr(left[1]) == repr(right[1]) and left[2:] == right[2:]
    return ctx.land(True if left[1] is None else ctx.eq(left[1], right[1]), left[2] == right[2], left[3] == right[3])


NAMES = {"{": "BEGIN_OBJECT", "}": "END_OBJECT", "[": "BEGIN_ARRAY", "]": "END_ARRAY", ":": "KEY_SEPARATOR",
         ",": "ITEM_SEPARATOR"}


def tokens_ref(ctx, cps):
    """Reference tokens for as long as the text is unambiguous."""
    ref, out, line, column = RefJson(ctx, cps), [], 1, 1
    while True:
        spaces = ref.skip()
        for index, cp in enumerate(spaces):
            if ctx.choose_path(ctx.eq(cp, 10)):
                if index == 0 or not ctx.choose_path(ctx.eq(spaces[index - 1], 13)):
                    line += 1
                column = 1
            elif ctx.choose_path(ctx.eq(cp, 13)):
                line, column = line + 1, 1
            else:
                column += 1
        if ref.pos == len(cps):
            return out + [("END_OF_FILE", None)]
        for char, name in NAMES.items():
            if ref.is_(char):
                ref.pos += 1
                out.append((name, None, line, column))
                column += 1
                break
        else:
            start = ref.pos
            try:
                value = ref.scalar()
            except JsonError:
                return out
            if isinstance(value, Number) and any(ref.is_(char) for char in "0123456789.eE+-"):
                return out
            out.append(("VALUE", value, line, column))
            column += ref.pos - start


def chunks(ctx, count, alphabet):
    cps = letters(ctx, count, alphabet)
    whole = tokens_of(ctx, cps, True)
    parts = tokens_of(ctx, cps, False)
    ctx.check(len(whole) == len(parts) and ctx.land(*[same_token(ctx, a, b) for a, b in zip(whole, parts)]),
              "tokens do not depend on the chunks", f"{whole} {parts}")
    for got, want in zip(whole, tokens_ref(ctx, cps)):
        ctx.check(got is not None and got[0] == want[0], "token", f"{got} {want}")
        if got is None or want[0] == "END_OF_FILE":
            break
        ctx.check(ctx.land(got[2] == want[2], got[3] == want[3]), "line and column", f"{got} {want}")
        if want[0] == "VALUE":
            value = want[1]
            if isinstance(value, Number):
                ok = (isinstance(got[1], float) and got[1] == float("".join(chr(int(cp)) for cp in value.cps))
                      if value.is_float else ctx.eq(got[1], value.int_value(ctx)))
            elif isinstance(value, tuple):
                ok = ctx.eq(got[1], ctx.make_str(value[1])) if value[0] == "s" else True
            else:
                ok = got[1] is value
            ctx.check(ok, "token value")
    ctx.reach("end")


class Events:
    def __init__(self):
        self.log = []

    def begin_object(self):
        self.log.append("{")

    def end_object(self):
        self.log.append("}")

    def begin_array(self):
        self.log.append("[")

    def end_array(self):
        self.log.append("]")

    def visit_key(self, key):
        self.log.append(("k", key))

    def visit_value(self, value):
        self.log.append(("v", value))


def flatten(value, out):
    from .jsonref import Object

    if isinstance(value, Object):
        out.append("{")
        for key, item in value:
            out.append(("k", key))
            flatten(item, out)
        out.append("}")
    elif isinstance(value, list):
        out.append("[")
        for item in value:
            flatten(item, out)
        out.append("]")
    else:
        out.append(("v", value))
    return out


def documents(ctx, count, alphabet, prefix):
    """The events of the parser for any text over the alphabet."""
    cps = [ord(char) for char in prefix]
    cps += letters(ctx, count, alphabet)
    observer = Events()
    parser = ctx.module("zserio.json").JsonParser(ChunkIo(ctx, cps, True), observer)
    ref = RefJson(ctx, cps)
    ref.skip()
    if ref.pos == len(cps):
        ctx.check(parser.parse() is True and not observer.log, "no element")
        ctx.reach("end")
        return
    done, exc = ctx.attempt(parser.parse)
    try:
        expected = flatten(ref.value(), [])
        end = ref.pos
        ref.skip()
        at_end = ref.pos == len(cps)
    except JsonError:
        ctx.check(exc is not None and type(exc).__name__ == "JsonParserException", "a malformed text is refused", repr(exc))
        ctx.reach("refused")
        return
    if exc is not None:
        ctx.check(type(exc).__name__ == "JsonParserException", "only parser exceptions", repr(exc))
        # the parser looks one token ahead
        ctx.check(not at_end, "a well-formed text is accepted", repr(exc))
        if ref.pos < len(cps):
            try:
                if any(ref.is_(char) for char in NAMES):
                    ctx.check(False, "a well-formed element is accepted", repr(exc))
                ref.scalar()
                ctx.check(ref.pos < len(cps), "a well-formed element is accepted", repr(exc))
            except JsonError:
                pass
        ctx.reach("ahead")
        return
    ctx.check(done is at_end, "tells the end of the text")
    log = observer.log
    if not at_end and end < len(cps) and any(
            ctx.choose_path(ctx.eq(cps[end], ord(char))) for char in "0123456789.eE+-"):
        return
    ctx.check(len(log) == len(expected), "number of events", f"{log} {expected}")
    for got, want in zip(log, expected):
        if isinstance(want, str):
            ctx.check(got == want, "event", f"{got} {want}")
            continue
        ctx.check(got[0] == want[0], "event", f"{got} {want}")
        value = want[1]
        if want[0] == "k":
            ctx.check(ctx.eq(got[1], ctx.make_str(value)), "key")
        elif isinstance(value, Number):
            ctx.check(ctx.eq(got[1], value.int_value(ctx)), "number")
        elif isinstance(value, tuple):
            ctx.check(ctx.eq(got[1], ctx.make_str(value[1])), "string")
        else:
            ctx.check(got[1] is value, "literal")
    ctx.reach("parsed")
    ctx.reach("end")


def jobs(tier):
    deep = tier == "thorough"
    out = []
    for count, high in [(0, 255), (1, 0x10FFFF), (2, 0x10FFFF if deep else 0xFFFF)] + ([(3, 255)] if deep else []):
        out.append(Job(f"string{count}", string_roundtrip, {"count": count, "high": high}, must_reach=["end"]))
    out.append(Job("int_signed", int_roundtrip, {"low": -(1 << 63), "high": (1 << 63) - 1}, must_reach=["end"]))
    out.append(Job("int_unsigned", int_roundtrip, {"low": 0, "high": (1 << 64) - 1}, must_reach=["end"]))
    out.append(Job("literals", literals, must_reach=["end"]))
    for shape in ["", "r", "e", "u", "re", "er", "eu", "ue", "ur", "uu", "rur"] + (["eee", "uru", "ure"] if deep else []):
        out.append(Job(f"decode_{shape or 'empty'}", decode_string, {"shape": shape}, must_reach=["end"]))
    for count in range(0, 5 if deep else 4):
        if count:
            out.append(Job(f"any{count}", decode_any, {"count": count, "alphabet": None}, must_reach=["end"]))
    for count in range(1, 6 if deep else 5):
        out.append(Job(f"number{count}", decode_any, {"count": count, "alphabet": "05-+.eE,"}, must_reach=["end"]))
    for name, alphabet in (("space", " \n\r\t1{"), ("punct", '{}[]:," '), ("number", "1-.e,"), ("text", 'x"\\nt, '),
                           ("literal", "nul,N ")):
        for count in range(1, 6 if deep else 5):
            if name in ("number", "space", "punct") and count == 4 and not deep:
                continue
            out.append(Job(f"chunks_{name}{count}", chunks, {"count": count, "alphabet": alphabet}, must_reach=["end"]))
    for count in range(1, 7 if deep else 5):
        out.append(Job(f"document{count}", documents, {"count": count, "alphabet": '[]{}:,"1 ', "prefix": ""},
                       must_reach=["end"] if count < 1 else ["refused"]))
    for prefix in ('{"a":', '{"a":1', '[1,', '{"a":{"":[', '[[1],', '1 '):
        out.append(Job(f"document_{prefix}", documents, {"count": 4 if deep else 3, "alphabet": '[]{}:,"1 ', "prefix": prefix},
                       must_reach=["ahead" if prefix == "1 " else "refused"]))
    return out
