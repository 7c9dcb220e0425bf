"""Kinds of the operand stack entries before each instruction (I, J, F, D, A)."""

import struct

from .classfile import parse_descriptor


def _kind(desc):
    return desc if desc in "JFD" else ("I" if desc in "IZBSC" else "A")


_LOADS = "IJFDA"
_ARRAY = "IJFDAIII"
_SIMPLE = {}


def _simple(ops, pops, pushes):
    for op in ops:
        _SIMPLE[op] = (pops, pushes)


_simple([0, 132, 167, 177, 200, 116, 117, 118, 119, 145, 146, 147], 0, "")
_simple([1], 0, "A")
_simple(range(2, 9), 0, "I")
_simple([9, 10], 0, "J")
_simple([11, 12, 13], 0, "F")
_simple([14, 15], 0, "D")
_simple([16, 17], 0, "I")
_simple([87, 172, 173, 174, 175, 176, 191, 194, 195, 170, 171, 198, 199], 1, "")
_simple(range(153, 159), 1, "")
_simple(range(159, 167), 2, "")
for _i, _k in enumerate("IJFD"):
    _simple([96 + _i, 100 + _i, 104 + _i, 108 + _i, 112 + _i], 2, _k)
for _op, _k in ((120, "I"), (121, "J"), (122, "I"), (123, "J"), (124, "I"), (125, "J"), (126, "I"), (127, "J"), (128, "I"),
                (129, "J"), (130, "I"), (131, "J")):
    _simple([_op], 2, _k)
for _op, _k in zip(range(133, 145), "JFDIFDIJDIJF"):
    _simple([_op], 1, _k)
_simple(range(148, 153), 2, "I")
_simple([188, 189], 1, "A")
_simple([190, 193], 1, "I")
_simple([192], 1, "A")
_simple([187], 0, "A")


def stack_kinds(method):
    """Offset -> stack as a string."""
    code, cls = method.code, method.owner
    result = {}
    work = [(0, "")] + [(target, "A") for _a, _b, target, _k in method.handlers]
    while work:
        pos, stack = work.pop()
        while pos not in result:
            result[pos] = stack
            op = code[pos]
            nxt, targets, stop = pos + _length(code, pos), [], False
            if 153 <= op <= 166 or op in (198, 199):
                targets.append(pos + struct.unpack_from(">h", code, pos + 1)[0])
            elif op == 167:
                targets.append(pos + struct.unpack_from(">h", code, pos + 1)[0])
                stop = True
            elif op == 200:
                targets.append(pos + struct.unpack_from(">i", code, pos + 1)[0])
                stop = True
            elif op in (170, 171):
                targets += _switch_targets(code, pos)
                stop = True
            elif 172 <= op <= 177 or op == 191:
                stop = True
            stack = _effect(cls, code, pos, op, stack)
            work += [(target, stack) for target in targets]
            if stop:
                break
            pos = nxt
    return result


def _switch_targets(code, start):
    pos = start + 1
    pos += (4 - pos % 4) % 4
    read = lambda p: struct.unpack_from(">i", code, p)[0]
    out = [start + read(pos)]
    if code[start] == 170:
        low, high = read(pos + 4), read(pos + 8)
        out += [start + read(pos + 12 + 4 * i) for i in range(high - low + 1)]
    else:
        out += [start + read(pos + 12 + 8 * i) for i in range(read(pos + 4))]
    return out


def _length(code, start):
    op = code[start]
    if op in (16, 18, 188) or 21 <= op <= 25 or 54 <= op <= 58:
        return 2
    if op in (17, 19, 20, 132, 187, 189, 192, 193, 198, 199) or 153 <= op <= 168 or 178 <= op <= 184:
        return 3
    if op in (185, 186, 200, 201):
        return 5
    if op == 197:
        return 4
    if op == 196:
        return 6 if code[start + 1] == 132 else 4
    if op in (170, 171):
        pos = start + 1
        pos += (4 - pos % 4) % 4
        read = lambda p: struct.unpack_from(">i", code, p)[0]
        end = pos + 12 + 4 * (read(pos + 8) - read(pos + 4) + 1) if op == 170 else pos + 8 + 8 * read(pos + 4)
        return end - start
    return 1


def _effect(cls, code, pos, op, stack):
    if op in _SIMPLE:
        pops, pushes = _SIMPLE[op]
        return (stack[:-pops] if pops else stack) + pushes
    if op in (18, 19, 20):
        index = code[pos + 1] if op == 18 else struct.unpack_from(">H", code, pos + 1)[0]
        return stack + {"int": "I", "long": "J", "float": "F", "double": "D"}.get(cls.pool[index][0], "A")
    if 21 <= op <= 25:
        return stack + _LOADS[op - 21]
    if 26 <= op <= 45:
        return stack + _LOADS[(op - 26) // 4]
    if 46 <= op <= 53:
        return stack[:-2] + _ARRAY[op - 46]
    if 54 <= op <= 78:
        return stack[:-1]
    if 79 <= op <= 86:
        return stack[:-3]
    wide = lambda index: stack[index] in "JD"
    if op == 88:
        return stack[:-1] if wide(-1) else stack[:-2]
    if op == 89:
        return stack + stack[-1]
    if op == 90:
        return stack[:-2] + stack[-1] + stack[-2:]
    if op == 91:
        cut = -2 if wide(-2) else -3
        return stack[:cut] + stack[-1] + stack[cut:]
    if op == 92:
        return stack + (stack[-1] if wide(-1) else stack[-2:])
    if op == 93:
        return stack[:-2] + stack[-1] + stack[-2:] if wide(-1) else stack[:-3] + stack[-2:] + stack[-3:]
    if op == 94:
        if wide(-1):
            cut = -2 if wide(-2) else -3
            return stack[:cut] + stack[-1] + stack[cut:]
        cut = -3 if wide(-3) else -4
        return stack[:cut] + stack[-2:] + stack[cut:]
    if op == 95:
        return stack[:-2] + stack[-1] + stack[-2]
    if 178 <= op <= 186:
        index = struct.unpack_from(">H", code, pos + 1)[0]
        if op == 186:
            desc = cls.name_and_type(cls.pool[index][1][1])[1]
        else:
            desc = cls.member(index)[2]
        if op == 178:
            return stack + _kind(desc)
        if op == 179:
            return stack[:-1]
        if op == 180:
            return stack[:-1] + _kind(desc)
        if op == 181:
            return stack[:-2]
        params, ret = parse_descriptor(desc)
        count = len(params) + (op not in (184, 186))
        stack = stack[:len(stack) - count]
        return stack if ret == "V" else stack + _kind(ret)
    if op == 196:
        inner = code[pos + 1]
        if inner == 132:
            return stack
        return stack + _LOADS[inner - 21] if inner <= 25 else stack[:-1]
    if op == 197:
        return stack[:len(stack) - code[pos + 3]] + "A"
    raise ValueError(f"opcode {op}")
