"""Symbolic interpreter of Java bytecode."""

import os
import struct
import zipfile

import z3

from ..core import Explorer, PathCut, Unsupported
from .classfile import ClassFile, parse_descriptor
from .values import *
from . import values

JMOD = "/usr/lib/jvm/java-17-openjdk-amd64/jmods/java.base.jmod"
MAX_ARRAY = 1 << 16


def _jmod():
    path = JMOD
    if not os.path.exists(path):
        import shutil

        home = os.path.dirname(os.path.dirname(os.path.realpath(shutil.which("javac"))))
        path = os.path.join(home, "jmods/java.base.jmod")
    return zipfile.ZipFile(path)


class Frame:
    __slots__ = ("stack", "locals", "method", "ret", "vm")

    def __init__(self, vm, method, args):
        self.vm, self.method, self.stack, self.ret = vm, method, [], None
        self.locals = args


class VM:
    """Classes, statics and execution."""

    def __init__(self, class_dirs):
        self.dirs = list(class_dirs)
        self.classes = {}
        self.statics = {}
        self.initialized = set()
        self.functions = set()
        self.natives = {}
        self.idents = 0
        self.jdk = None
        self.depth = 0
        self.strings = {}
        from . import natives

        natives.install(self)

    # ---------------------------------------------------------------------------------------------------- classes
    def load(self, name):
        cls = self.classes.get(name)
        if cls is not None:
            return cls
        data = None
        for folder in self.dirs:
            path = os.path.join(folder, name + ".class")
            if os.path.exists(path):
                with open(path, "rb") as file:
                    data, origin = file.read(), "app"
                break
        if data is None:
            if self.jdk is None:
                self.jdk = _jmod()
            try:
                data, origin = self.jdk.read("classes/" + name + ".class"), "jdk"
            except KeyError:
                raise Unsupported(f"no class {name}") from None
        cls = ClassFile(data, origin)
        self.classes[name] = cls
        return cls

    def supers(self, cls):
        """Names of a class, its super classes and all their interfaces."""
        if cls.supers is None:
            out = {cls.name}
            for name in ([cls.super_name] if cls.super_name else []) + cls.interfaces:
                out |= self.supers(self.load(name))
            cls.supers = out
        return cls.supers

    def init(self, cls):
        if cls.name in self.initialized:
            return
        self.initialized.add(cls.name)
        if cls.super_name:
            self.init(self.load(cls.super_name))
        for name, (flags, desc, constant) in cls.fields.items():
            if flags & 8:
                value = self.default(desc)
                if constant is not None:
                    value = self.constant(cls, constant)
                    if desc == "Z":
                        value = int(value)
                self.statics[cls.name, name] = value
        override = self.natives.get((cls.name, "<clinit>"))
        if override is not None:
            override(self, [])
            return
        method = cls.methods.get(("<clinit>", "()V"))
        if method is not None:
            self.run(method, [])

    @staticmethod
    def default(desc):
        if desc in "IJSBCZ":
            return 0
        if desc == "F":
            return JFloat(0, 32)
        if desc == "D":
            return JFloat(0, 64)
        return None

    def constant(self, cls, index):
        kind, value = cls.pool[index]
        if kind in ("int", "long"):
            return value
        if kind == "float":
            return JFloat(value, 32)
        if kind == "double":
            return JFloat(value, 64)
        if kind == "string":
            return cls.utf8(value)
        if kind == "class":
            return JClass(cls.class_name(index))
        raise Unsupported(f"constant {kind}")

    def find_method(self, cls, name, desc):
        """Implementation found from a class upwards."""
        key = ("m", name, desc)
        hit = cls.resolved.get(key)
        if hit is not None:
            return hit
        cur = cls
        found = None
        while cur is not None and found is None:
            found = cur.methods.get((name, desc))
            if found is None and (cur.name, name) in self.natives:
                found = (cur.name, name)
            cur = self.load(cur.super_name) if cur.super_name else None
        if found is None or (not isinstance(found, tuple) and found.flags & 0x400):
            abstract = found
            for iface in self.supers(cls):
                method = self.load(iface).methods.get((name, desc))
                if method is not None and not method.flags & 0x400:
                    abstract = method
                    break
                if method is not None and abstract is None:
                    abstract = method
            found = abstract
        if found is None:
            raise Unsupported(f"no method {cls.name}.{name}{desc}")
        cls.resolved[key] = found
        return found

    def new(self, name):
        obj = JObject(self.load(name))
        cur = obj.cls
        while cur is not None:
            for field, (flags, desc, _constant) in cur.fields.items():
                if not flags & 8:
                    obj.fields.setdefault(field, self.default(desc))
            cur = self.load(cur.super_name) if cur.super_name else None
        return obj

    def ident(self, obj):
        if not obj.ident:
            self.idents += 1
            obj.ident = self.idents
        return obj.ident

    def throw(self, name, message=""):
        obj = self.new(name)
        obj.fields["message"] = message
        raise JThrow(obj)

    def class_of(self, value):
        if isinstance(value, JObject):
            return value.cls.name
        if isinstance(value, (str, SymStr, Opaque)):
            return "java/lang/String"
        if isinstance(value, JBig):
            return "java/math/BigInteger"
        if isinstance(value, JBox):
            return BOXES[value.kind]
        if isinstance(value, JArray):
            return "[" + value.kind
        if isinstance(value, JLambda):
            return value.iface
        if isinstance(value, JClass):
            return "java/lang/Class"
        raise Unsupported(f"class of {type(value).__name__}")

    def is_instance(self, value, name):
        if value is None:
            return False
        if name == "java/lang/Object":
            return True
        if isinstance(value, JArray):
            if name in ("java/lang/Cloneable", "java/io/Serializable"):
                return True
            if not name.startswith("["):
                return False
            if name == "[" + value.kind:
                return True
            want = name[1:]
            if want[0] not in "L[" or value.kind[0] not in "L[":
                return False
            if want == "Ljava/lang/Object;":
                return True
            if want[0] == "L" and value.kind[0] == "L":
                return want[1:-1] in self.supers(self.load(value.kind[1:-1]))
            return False
        return name in self.supers(self.load(self.class_of(value)))

    # ---------------------------------------------------------------------------------------------------- calls
    def run(self, method, args):
        """Executes a method; args as JVM values without the second slots."""
        native = method.native
        if native is None:
            native = self.natives.get((method.owner.name, method.name, method.desc)) or \
                self.natives.get((method.owner.name, method.name))
            method.native = native or False
        if native:
            return native(self, args)
        if method.code is None:
            raise Unsupported(f"no code: {method!r}")
        if method.owner.origin == "app":
            self.functions.add(method)
        if method.decoded is None:
            from .decode import decode

            method.decoded = decode(self, method)
        local = [None] * method.max_locals
        index = 0
        if not method.static:
            local[0] = args[0]
            index = 1
            args = args[1:]
        for desc, value in zip(method.params, args):
            local[index] = value
            index += 2 if desc in "JD" else 1
        frame = Frame(self, method, local)
        self.depth += 1
        if self.depth > 400:
            self.depth = 0
            raise PathCut("call depth")
        try:
            return self._loop(frame, method.decoded)
        finally:
            self.depth -= 1

    def _loop(self, frame, program):
        code, handlers = program
        pc = 0
        steps = 0
        limit = 200000
        while True:
            try:
                while True:
                    func, arg = code[pc]
                    jump = func(frame, arg)
                    if jump is None:
                        pc += 1
                    elif jump >= 0:
                        if jump <= pc:
                            steps += 1
                            if steps > limit:
                                raise PathCut("loop limit")
                        pc = jump
                    else:
                        return frame.ret
            except JThrow as exc:
                for start, end, target, kind in handlers:
                    if start <= pc < end and (kind is None or self.is_instance(exc.obj, kind)):
                        frame.stack = [exc.obj]
                        pc = target
                        break
                else:
                    raise

    def invoke_virtual(self, owner, name, desc, args):
        """Dispatches on the class of the first argument."""
        receiver = args[0]
        if receiver is None:
            self.throw("java/lang/NullPointerException", name)
        if isinstance(receiver, JObject):
            method = self.find_method(receiver.cls, name, desc)
            if isinstance(method, tuple):
                return self.natives[method](self, args)
            return self.run(method, args)
        if isinstance(receiver, JLambda):
            if name == receiver.name:
                return self.call_lambda(receiver, args[1:], desc)
            method = self.find_method(self.load(receiver.iface), name, desc)
            if isinstance(method, tuple):
                return self.natives[method](self, args)
            return self.run(method, args)
        if isinstance(receiver, JArray):
            if name == "clone":
                return JArray(receiver.kind, list(receiver.items))
            native = self.natives.get(("java/lang/Object", name))
            return native(self, args)
        cls = self.class_of(receiver)
        native = self.natives.get((cls, name, desc)) or self.natives.get((cls, name))
        if native is None:
            raise Unsupported(f"{cls}.{name}{desc}")
        return native(self, args)

    def invoke_static(self, owner, name, desc, args):
        native = self.natives.get((owner, name, desc)) or self.natives.get((owner, name))
        if native is not None:
            return native(self, args)
        cls = self.load(owner)
        self.init(cls)
        method = self.find_method(cls, name, desc)
        return self.run(method, args)

    def invoke_special(self, owner, name, desc, args):
        native = self.natives.get((owner, name, desc)) or self.natives.get((owner, name))
        if native is not None:
            return native(self, args)
        method = self.find_method(self.load(owner), name, desc)
        if isinstance(method, tuple):
            return self.natives[method](self, args)
        return self.run(method, args)

    def construct(self, name, desc, args):
        """new name(args)"""
        native = self.natives.get((name, "<new>"))
        if native is not None:
            return native(self, desc, args)
        self.init(self.load(name))
        obj = self.new(name)
        self.invoke_special(name, "<init>", desc, [obj] + list(args))
        return obj

    def call_lambda(self, fun, args, desc):
        kind, (owner, name, target_desc) = fun.kind, fun.target
        params, _ret = parse_descriptor(target_desc)
        values_ = list(fun.captured) + list(args)
        expected = list(params)
        if kind in (5, 7, 9):
            expected = ["L" + owner + ";"] + expected
        values_ = [self.adapt(value, want) for value, want in zip(values_, expected)]
        if kind == 6:
            result = self.invoke_static(owner, name, target_desc, values_)
        elif kind == 8:
            result = self.construct(owner, target_desc, values_)
        elif kind == 7:
            result = self.invoke_special(owner, name, target_desc, values_)
        else:
            result = self.invoke_virtual(owner, name, target_desc, values_)
        want = parse_descriptor(desc)[1]
        if want == "V":
            return None
        got = "Lx;" if kind == 8 else _ret
        return self.adapt(result, want, got)

    @staticmethod
    def adapt(value, want, got=None):
        """Boxing conversions of lambdas."""
        if want in BOXES:
            return value.value if isinstance(value, JBox) else value
        if got is not None and got in BOXES:
            return JBox(got, value)
        if isinstance(value, (int, SymInt)) and not isinstance(value, bool):
            kind = UNBOX.get(want[1:-1], "I")
            return JBox(kind, value)
        if isinstance(value, JFloat):
            return JBox("F" if value.width == 32 else "D", value)
        return value

    # ---------------------------------------------------------------------------------------------------- fields
    def static_owner(self, owner, name):
        cls = self.load(owner)
        self.init(cls)
        if (owner, name) in self.statics:
            return owner, name
        for parent in self.supers(cls):
            self.init(self.load(parent))
            if (parent, name) in self.statics:
                return parent, name
        raise Unsupported(f"static {owner}.{name}")

    def array(self, kind, size):
        size = concrete(size, why="array size")
        if size < 0:
            self.throw("java/lang/NegativeArraySizeException")
        if size > MAX_ARRAY:
            raise PathCut("array larger than %d" % MAX_ARRAY)
        return JArray(kind, [self.default(kind)] * size)
