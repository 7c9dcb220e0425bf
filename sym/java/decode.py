"""Decoding of bytecode into (handler, argument) lists."""

import struct

import z3

from ..core import Explorer, Unsupported
from .classfile import parse_descriptor
from .values import *

RET = -1


def _norm(value):
    """Number on the stack."""
    return value.number() if isinstance(value, LCmp) else value


# ------------------------------------------------------------------------------------------------------------ handlers
def h_nop(f, a):
    return None


def h_const(f, a):
    f.stack.append(a)


def h_load(f, a):
    f.stack.append(f.locals[a])


def h_store(f, a):
    value = f.stack.pop()
    f.locals[a] = value.number() if isinstance(value, LCmp) else value


def h_iinc(f, a):
    f.locals[a[0]] = wrap(f.locals[a[0]] + a[1], 32)


def _index(f, arr, index):
    if arr is None:
        f.vm.throw("java/lang/NullPointerException", "array")
    size = len(arr.items)
    if isinstance(index, SymInt):
        if truth(lor(index < 0, index >= size)):
            f.vm.throw("java/lang/ArrayIndexOutOfBoundsException", "index")
        index = concrete(index, why="array index")
    if index < 0 or index >= size:
        f.vm.throw("java/lang/ArrayIndexOutOfBoundsException", f"Index {index} out of bounds for length {size}")
    return index


def h_aload(f, a):
    index = f.stack.pop()
    arr = f.stack.pop()
    f.stack.append(arr.items[_index(f, arr, index)])


def h_astore(f, a):
    value = f.stack.pop()
    index = f.stack.pop()
    arr = f.stack.pop()
    index = _index(f, arr, index)
    if arr.kind == "B":
        value = wrap(value, 8)
    elif arr.kind == "S":
        value = wrap(value, 16)
    elif arr.kind == "C":
        value = unsigned(value, 16)
    elif arr.kind == "Z":
        value = value & 1
    arr.items[index] = value


def h_pop(f, a):
    f.stack.pop()


def h_dup(f, a):
    f.stack.append(f.stack[-1])


def _wide(value_type):
    return value_type in "JD"


def h_dup_x1(f, a):
    s = f.stack
    s.insert(-2, s[-1])


def h_swap(f, a):
    s = f.stack
    s[-1], s[-2] = s[-2], s[-1]


class Wide:
    """Category of stack entries is not tracked by type: numbers of 64 bits are marked by the decoder."""


def h_dup_x2(f, a):
    s = f.stack
    s.insert(-2 if a else -3, s[-1])


def h_dup2(f, a):
    s = f.stack
    if a:
        s.append(s[-1])
    else:
        s.extend(s[-2:])


def h_dup2_x1(f, a):
    s = f.stack
    if a:
        s.insert(-2, s[-1])
    else:
        s[-3:-3] = s[-2:]


def h_dup2_x2(f, a):
    s = f.stack
    top, below = a
    if top:
        s.insert(-2 if below else -3, s[-1])
    else:
        pos = -3 if below else -4
        s[pos:pos] = s[-2:]


def h_pop2(f, a):
    f.stack.pop()
    if not a:
        f.stack.pop()


def h_add(f, bits):
    s = f.stack
    b = s.pop()
    s[-1] = wrap(s[-1] + b, bits)


def h_sub(f, bits):
    s = f.stack
    b = s.pop()
    s[-1] = wrap(s[-1] - b, bits)


def h_mul(f, bits):
    s = f.stack
    b = s.pop()
    s[-1] = wrap(s[-1] * b, bits)


def _div(f, bits, which):
    s = f.stack
    b = s.pop()
    a = s.pop()
    if truth(b == 0):
        f.vm.throw("java/lang/ArithmeticException", "/ by zero")
    s.append(divide(a, b, bits)[which])


def h_div(f, bits):
    _div(f, bits, 0)


def h_rem(f, bits):
    _div(f, bits, 1)


def h_neg(f, bits):
    s = f.stack
    s[-1] = wrap(-s[-1], bits)


def h_shl(f, bits):
    s = f.stack
    n = s.pop() & (bits - 1)
    s[-1] = wrap(s[-1] << n, bits)


def h_shr(f, bits):
    s = f.stack
    n = s.pop() & (bits - 1)
    s[-1] = s[-1] >> n


def h_ushr(f, bits):
    s = f.stack
    n = s.pop() & (bits - 1)
    s[-1] = wrap(unsigned(s[-1], bits) >> n, bits)


def h_and(f, bits):
    s = f.stack
    b = s.pop()
    s[-1] = s[-1] & b


def h_or(f, bits):
    s = f.stack
    b = s.pop()
    s[-1] = s[-1] | b


def h_xor(f, bits):
    s = f.stack
    b = s.pop()
    s[-1] = s[-1] ^ b


def h_narrow(f, bits):
    s = f.stack
    s[-1] = wrap(_norm(s[-1]), bits)


def h_i2c(f, a):
    s = f.stack
    s[-1] = unsigned(s[-1], 16)


def h_lcmp(f, a):
    s = f.stack
    b = s.pop()
    s[-1] = LCmp(s[-1], b)


def _compare(op, a, b):
    if op == "eq":
        return a == b
    if op == "ne":
        return a != b
    if op == "lt":
        return a < b
    if op == "ge":
        return a >= b
    if op == "gt":
        return a > b
    return a <= b


def h_if(f, a):
    op, target = a
    value = f.stack.pop()
    if isinstance(value, (LCmp, FCmp)):
        cond = value.compare(op)
    else:
        cond = _compare(op, value, 0)
    return target if truth(cond) else None


def h_if_icmp(f, a):
    op, target = a
    s = f.stack
    b = _norm(s.pop())
    return target if truth(_compare(op, _norm(s.pop()), b)) else None


def same(a, b):
    """Identity of references."""
    if a is b:
        return True
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, JClass) and isinstance(b, JClass):
        return a.name == b.name
    return False


def h_if_acmp(f, a):
    op, target = a
    b = f.stack.pop()
    equal = same(f.stack.pop(), b)
    return target if equal == (op == "eq") else None


def h_ifnull(f, a):
    want, target = a
    return target if (f.stack.pop() is None) == want else None


def h_goto(f, a):
    return a


def h_switch(f, a):
    value = _norm(f.stack.pop())
    table, default = a
    if type(value) is int:
        return table.get(value, default)
    for key, target in table.items():
        if truth(value == key):
            return target
    return default


def h_return(f, a):
    f.ret = f.stack.pop() if a else None
    if isinstance(f.ret, LCmp):
        f.ret = f.ret.number()
    if a in ("B", "S", "Z", "C"):
        pass
    return RET


def h_getstatic(f, a):
    f.stack.append(f.vm.statics[f.vm.static_owner(a[0], a[1])])


def h_putstatic(f, a):
    f.vm.statics[f.vm.static_owner(a[0], a[1])] = f.stack.pop()


def h_getfield(f, a):
    obj = f.stack.pop()
    if obj is None:
        f.vm.throw("java/lang/NullPointerException", a)
    f.stack.append(obj.fields[a])


def h_putfield(f, a):
    value = _norm(f.stack.pop())
    obj = f.stack.pop()
    if obj is None:
        f.vm.throw("java/lang/NullPointerException", a[0])
    desc = a[1]
    if desc == "B":
        value = wrap(value, 8)
    elif desc == "S":
        value = wrap(value, 16)
    obj.fields[a[0]] = value


def _args(f, count):
    s = f.stack
    if not count:
        return []
    args = s[-count:]
    del s[-count:]
    for i, value in enumerate(args):
        if isinstance(value, LCmp):
            args[i] = value.number()
    return args


def h_invokevirtual(f, a):
    owner, name, desc, count, ret = a
    result = f.vm.invoke_virtual(owner, name, desc, _args(f, count + 1))
    if ret != "V":
        f.stack.append(result)


class Pending:
    """Result of new for a class the interpreter models itself; replaced when its constructor is called."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


def h_invokespecial(f, a):
    owner, name, desc, count, ret = a
    args = _args(f, count + 1)
    if isinstance(args[0], Pending):
        pending = args[0]
        result = f.vm.natives[pending.name, "<new>"](f.vm, desc, args[1:])
        f.stack[:] = [result if item is pending else item for item in f.stack]
        f.locals[:] = [result if item is pending else item for item in f.locals]
        return
    result = f.vm.invoke_special(owner, name, desc, args)
    if ret != "V":
        f.stack.append(result)


def h_invokestatic(f, a):
    owner, name, desc, count, ret = a
    result = f.vm.invoke_static(owner, name, desc, _args(f, count))
    if ret != "V":
        f.stack.append(result)


def h_invokedynamic(f, a):
    kind, info, count = a
    args = _args(f, count)
    if kind == "concat":
        recipe, constants, params = info
        f.stack.append(concat(f.vm, recipe, constants, params, args))
        return
    iface, name, desc, ref_kind, target, inst = info
    f.stack.append(JLambda(iface, name, desc, ref_kind, target, args, inst))


def text_of(vm, value, desc="L"):
    """Text of a value, or None if it is not concrete."""
    if isinstance(value, Opaque):
        return None
    if value is None:
        return "null"
    if isinstance(value, str):
        return value
    if isinstance(value, bool):
        return "true" if value else "false"
    if isinstance(value, int):
        if desc == "Z":
            return "true" if value else "false"
        return chr(value) if desc == "C" else str(value)
    if isinstance(value, JBox):
        return text_of(vm, value.value, value.kind)
    if isinstance(value, JBig) and type(value.v) is int:
        return str(value.v)
    return None


def concat(vm, recipe, constants, params, args):
    out, index, const = [], 0, 0
    for char in recipe:
        if char == "\x01":
            text = text_of(vm, args[index], params[index])
            index += 1
        elif char == "\x02":
            text = constants[const]
            const += 1
        else:
            text = char
        if text is None:
            return Opaque()
        out.append(text)
    return "".join(out)


def h_new(f, a):
    if (a, "<new>") in f.vm.natives:
        f.stack.append(Pending(a))
        return
    cls = f.vm.load(a)
    f.vm.init(cls)
    f.stack.append(f.vm.new(a))


def h_newarray(f, a):
    f.stack.append(f.vm.array(a, f.stack.pop()))


def h_multi(f, a):
    desc, dims = a
    sizes = [f.stack.pop() for _ in range(dims)][::-1]

    def make(level, kind):
        arr = f.vm.array(kind[1:], sizes[level])
        if level + 1 < dims:
            arr.items = [make(level + 1, kind[1:]) for _ in arr.items]
        return arr
    f.stack.append(make(0, desc))


def h_arraylength(f, a):
    arr = f.stack.pop()
    if arr is None:
        f.vm.throw("java/lang/NullPointerException", "length")
    f.stack.append(len(arr.items))


def h_athrow(f, a):
    obj = f.stack.pop()
    if obj is None:
        f.vm.throw("java/lang/NullPointerException", "throw")
    raise JThrow(obj)


def h_checkcast(f, a):
    value = f.stack[-1]
    if value is not None and not isinstance(value, (JLambda, Pending)) and not f.vm.is_instance(value, a):
        f.vm.throw("java/lang/ClassCastException", a)


def h_instanceof(f, a):
    f.stack[-1] = int(f.vm.is_instance(f.stack[-1], a))


# floats -------------------------------------------------------------------------------------------------------------
class FCmp:
    """fcmpl/fcmpg: -1, 0, 1 or the given value if unordered."""
    __slots__ = ("a", "b", "nan")

    def __init__(self, a, b, nan):
        self.a, self.b, self.nan = a, b, nan

    def compare(self, op):
        x, y = self.a.concrete(), self.b.concrete()
        if isinstance(self.a, JIntDouble) and self.a.against(y) is not None:
            return LCmp(self.a.number, self.a.against(y)).compare(op)
        if x is not None and y is not None:
            number = self.nan if x != x or y != y else (x > y) - (x < y)
            return _compare(op, number, 0)
        a, b = self.a.fp(), self.b.fp()
        unordered = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        cond = {"eq": z3.fpEQ(a, b), "ne": z3.And(z3.Not(unordered), z3.Not(z3.fpEQ(a, b))), "lt": z3.fpLT(a, b),
                "le": z3.fpLEQ(a, b), "gt": z3.fpGT(a, b), "ge": z3.fpGEQ(a, b)}[op]
        if _compare(op, self.nan, 0):
            cond = z3.Or(unordered, cond)
        return mkbool(cond)


def h_fcmp(f, nan):
    b = f.stack.pop()
    f.stack[-1] = FCmp(f.stack[-1], b, nan)


_FOPS = {"add": (lambda x, y: x + y, z3.fpAdd), "sub": (lambda x, y: x - y, z3.fpSub), "mul": (lambda x, y: x * y, z3.fpMul),
         "div": (None, z3.fpDiv)}


def h_farith(f, a):
    op, width = a
    b = f.stack.pop()
    x, y = f.stack[-1].concrete(), b.concrete()
    if x is not None and y is not None and _FOPS[op][0] is not None:
        f.stack[-1] = JFloat.of(_FOPS[op][0](x, y), width)
    else:
        f.stack[-1] = JFloat.of_term(_FOPS[op][1](z3.RNE(), f.stack[-1].fp(), b.fp()), width)


def h_fneg(f, width):
    value = f.stack[-1]
    f.stack[-1] = JFloat(value.bits ^ (1 << (width - 1)), width)


def h_f2f(f, width):
    value = f.stack[-1]
    number = value.concrete()
    if number is not None and number == number:
        f.stack[-1] = JFloat.of(number, width)
    else:
        sort = z3.Float32() if width == 32 else z3.Float64()
        f.stack[-1] = JFloat.of_term(z3.fpToFP(z3.RNE(), value.fp(), sort), width)


def h_i2f(f, width):
    value = f.stack[-1]
    if type(value) is int:
        f.stack[-1] = JFloat.of(float(value), width)
        return
    sort = z3.Float32() if width == 32 else z3.Float64()
    f.stack[-1] = JFloat.of_term(z3.fpToFP(z3.RNE(), value.t, sort), width)


def h_f2i(f, bits):
    value = f.stack[-1]
    number = value.concrete()
    low, high = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    if number is not None:
        if number != number:
            f.stack[-1] = 0
        elif number >= high:
            f.stack[-1] = high
        elif number <= low:
            f.stack[-1] = low
        else:
            f.stack[-1] = int(number)
        return
    raise Unsupported("symbolic float to integer")


def h_unsupported(f, a):
    raise Unsupported(f"bytecode {a}")


# ------------------------------------------------------------------------------------------------------------ decoder
_IFS = ("eq", "ne", "lt", "ge", "gt", "le")
_NEWARRAY = {4: "Z", 5: "C", 6: "F", 7: "D", 8: "B", 9: "S", 10: "I", 11: "J"}


def decode(vm, method):
    """((handler, argument) list, exception table in instruction indices)."""
    code, cls = method.code, method.owner
    out, offsets, jumps = [], {}, []
    pos = 0
    size = len(code)
    u1 = lambda p: code[p]
    s1 = lambda p: struct.unpack_from(">b", code, p)[0]
    u2 = lambda p: struct.unpack_from(">H", code, p)[0]
    s2 = lambda p: struct.unpack_from(">h", code, p)[0]
    s4 = lambda p: struct.unpack_from(">i", code, p)[0]

    def emit(func, arg=None):
        out.append((func, arg))

    def emit_jump(func, make, target):
        jumps.append((len(out), make, target))
        out.append((func, None))

    kinds = category_types(method)

    while pos < size:
        start = pos
        offsets[start] = len(out)
        op = code[pos]
        pos += 1
        if op == 0:
            emit(h_nop)
        elif op == 1:
            emit(h_const, None)
        elif op <= 8:
            emit(h_const, op - 3)
        elif op <= 10:
            emit(h_const, op - 9)
        elif op <= 13:
            emit(h_const, JFloat.of(float(op - 11), 32))
        elif op <= 15:
            emit(h_const, JFloat.of(float(op - 14), 64))
        elif op == 16:
            emit(h_const, s1(pos))
            pos += 1
        elif op == 17:
            emit(h_const, s2(pos))
            pos += 2
        elif op == 18:
            emit(h_const, vm.constant(cls, u1(pos)))
            pos += 1
        elif op in (19, 20):
            emit(h_const, vm.constant(cls, u2(pos)))
            pos += 2
        elif op <= 25:
            emit(h_load, u1(pos))
            pos += 1
        elif op <= 45:
            emit(h_load, (op - 26) & 3)
        elif op <= 53:
            emit(h_aload)
        elif op <= 58:
            emit(h_store, u1(pos))
            pos += 1
        elif op <= 78:
            emit(h_store, (op - 59) & 3)
        elif op <= 86:
            emit(h_astore)
        elif op == 87:
            emit(h_pop)
        elif op == 88:
            emit(h_pop2, kinds(start, 0))
        elif op == 89:
            emit(h_dup)
        elif op == 90:
            emit(h_dup_x1)
        elif op == 91:
            emit(h_dup_x2, kinds(start, 1))
        elif op == 92:
            emit(h_dup2, kinds(start, 0))
        elif op == 93:
            emit(h_dup2_x1, kinds(start, 0))
        elif op == 94:
            top = kinds(start, 0)
            emit(h_dup2_x2, (top, kinds(start, 1 if top else 2)))
        elif op == 95:
            emit(h_swap)
        elif op in (96, 97):
            emit(h_add, 32 if op == 96 else 64)
        elif op in (98, 99, 102, 103, 106, 107, 110, 111):
            emit(h_farith, ({0: "add", 4: "sub", 8: "mul", 12: "div"}[(op - 98) & ~1], 64 if (op - 98) & 1 else 32))
        elif op in (100, 101):
            emit(h_sub, 32 if op == 100 else 64)
        elif op in (104, 105):
            emit(h_mul, 32 if op == 104 else 64)
        elif op in (108, 109):
            emit(h_div, 32 if op == 108 else 64)
        elif op in (112, 113):
            emit(h_rem, 32 if op == 112 else 64)
        elif op in (116, 117):
            emit(h_neg, 32 if op == 116 else 64)
        elif op in (118, 119):
            emit(h_fneg, 32 if op == 118 else 64)
        elif op in (120, 121):
            emit(h_shl, 32 if op == 120 else 64)
        elif op in (122, 123):
            emit(h_shr, 32 if op == 122 else 64)
        elif op in (124, 125):
            emit(h_ushr, 32 if op == 124 else 64)
        elif op in (126, 127):
            emit(h_and)
        elif op in (128, 129):
            emit(h_or)
        elif op in (130, 131):
            emit(h_xor)
        elif op == 132:
            emit(h_iinc, (u1(pos), s1(pos + 1)))
            pos += 2
        elif op == 133:
            emit(h_nop)
        elif op in (134, 135):
            emit(h_i2f, 32 if op == 134 else 64)
        elif op == 136:
            emit(h_narrow, 32)
        elif op in (137, 138):
            emit(h_i2f, 32 if op == 137 else 64)
        elif op in (139, 142):
            emit(h_f2i, 32)
        elif op in (140, 143):
            emit(h_f2i, 64)
        elif op == 141:
            emit(h_f2f, 64)
        elif op == 144:
            emit(h_f2f, 32)
        elif op == 145:
            emit(h_narrow, 8)
        elif op == 146:
            emit(h_i2c)
        elif op == 147:
            emit(h_narrow, 16)
        elif op == 148:
            emit(h_lcmp)
        elif op in (149, 151):
            emit(h_fcmp, -1)
        elif op in (150, 152):
            emit(h_fcmp, 1)
        elif op <= 158 and op >= 153:
            name = _IFS[op - 153]
            emit_jump(h_if, lambda t, n=name: (n, t), start + s2(pos))
            pos += 2
        elif op <= 164 and op >= 159:
            name = _IFS[op - 159]
            emit_jump(h_if_icmp, lambda t, n=name: (n, t), start + s2(pos))
            pos += 2
        elif op in (165, 166):
            name = _IFS[op - 165]
            emit_jump(h_if_acmp, lambda t, n=name: (n, t), start + s2(pos))
            pos += 2
        elif op == 167:
            emit_jump(h_goto, lambda t: t, start + s2(pos))
            pos += 2
        elif op in (170, 171):
            pos += (4 - pos % 4) % 4
            default = start + s4(pos)
            if op == 170:
                low, high = s4(pos + 4), s4(pos + 8)
                pos += 12
                table = {low + i: start + s4(pos + 4 * i) for i in range(high - low + 1)}
                pos += 4 * (high - low + 1)
            else:
                count = s4(pos + 4)
                pos += 8
                table = {s4(pos + 8 * i): start + s4(pos + 8 * i + 4) for i in range(count)}
                pos += 8 * count
            jumps.append((len(out), "switch", (table, default)))
            out.append((h_switch, None))
        elif op in (172, 173, 174, 175, 176):
            emit(h_return, method.ret)
        elif op == 177:
            emit(h_return, None)
        elif op in (178, 179):
            emit(h_getstatic if op == 178 else h_putstatic, cls.member(u2(pos))[:2])
            pos += 2
        elif op == 180:
            emit(h_getfield, cls.member(u2(pos))[1])
            pos += 2
        elif op == 181:
            emit(h_putfield, cls.member(u2(pos))[1:])
            pos += 2
        elif op in (182, 183, 184, 185):
            owner, name, desc = cls.member(u2(pos))
            params, ret = parse_descriptor(desc)
            emit({182: h_invokevirtual, 183: h_invokespecial, 184: h_invokestatic, 185: h_invokevirtual}[op],
                 (owner, name, desc, len(params), ret))
            pos += 4 if op == 185 else 2
        elif op == 186:
            emit(h_invokedynamic, _indy(cls, u2(pos)))
            pos += 4
        elif op == 187:
            emit(h_new, cls.class_name(u2(pos)))
            pos += 2
        elif op == 188:
            emit(h_newarray, _NEWARRAY[u1(pos)])
            pos += 1
        elif op == 189:
            name = cls.class_name(u2(pos))
            emit(h_newarray, name if name.startswith("[") else "L" + name + ";")
            pos += 2
        elif op == 190:
            emit(h_arraylength)
        elif op == 191:
            emit(h_athrow)
        elif op in (192, 193):
            emit(h_checkcast if op == 192 else h_instanceof, cls.class_name(u2(pos)))
            pos += 2
        elif op in (194, 195):
            emit(h_pop)
        elif op == 196:
            wide = code[pos]
            if wide == 132:
                emit(h_iinc, (u2(pos + 1), s2(pos + 3)))
                pos += 5
            else:
                emit(h_load if wide <= 25 else h_store, u2(pos + 1))
                pos += 3
        elif op == 197:
            emit(h_multi, (cls.class_name(u2(pos)), u1(pos + 2)))
            pos += 3
        elif op in (198, 199):
            emit_jump(h_ifnull, lambda t, w=(op == 198): (w, t), start + s2(pos))
            pos += 2
        elif op == 200:
            emit_jump(h_goto, lambda t: t, start + s4(pos))
            pos += 4
        else:
            emit(h_unsupported, op)
    for index, make, target in jumps:
        func = out[index][0]
        if make == "switch":
            table, default = target
            out[index] = (func, ({key: offsets[t] for key, t in table.items()}, offsets[default]))
        else:
            out[index] = (func, make(offsets[target]))
    offsets[size] = len(out)
    handlers = [(offsets[a], offsets[b], offsets[c], cls.class_name(k) if k else None) for a, b, c, k in method.handlers]
    return out, handlers


def _indy(cls, index):
    boot, nat = cls.pool[index][1]
    name, desc = cls.name_and_type(nat)
    ref, args = cls.bootstrap[boot]
    _kind, member = cls.pool[ref][1]
    _owner, boot_name, _d = cls.member(member)
    params, ret = parse_descriptor(desc)
    if boot_name == "makeConcatWithConstants":
        recipe = cls.utf8(cls.pool[args[0]][1])
        constants = []
        for arg in args[1:]:
            kind, value = cls.pool[arg]
            constants.append(cls.utf8(value) if kind == "string" else str(value))
        return "concat", (recipe, constants, params), len(params)
    if boot_name == "metafactory" or boot_name == "altMetafactory":
        sam = cls.utf8(cls.pool[args[0]][1])
        kind, target = cls.pool[args[1]][1]
        inst = cls.utf8(cls.pool[args[2]][1])
        return "lambda", (ret[1:-1], name, sam, kind, cls.member(target), inst), len(params)
    return "unsupported", (boot_name,), len(params)


def category_types(method):
    """Tells whether the n-th stack entry before an instruction is of 64 bits (only for methods using dup2 and alike)."""
    code = method.code
    cache = {}

    def lookup(start, depth):
        if not cache:
            from .stackmap import stack_kinds

            cache.update(stack_kinds(method))
        stack = cache.get(start)
        if stack is None:
            return False
        return stack[-1 - depth] in "JD"
    return lookup
