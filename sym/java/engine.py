"""Engine executing real Java bytecode symbolically; replays on the same classes in a JVM."""

import hashlib
import os
import subprocess

from .. import zcompiler
from ..core import Explorer
from ..ctx import AssumeFailed, ConcreteCtx, ReplayDone
from ..engine_py import PyEngine, canon
from ..pyproxy import SymBool, SymInt, coerce, mkint, land
from ..pystr import SymStr
from .interp import VM
from .values import BOXES, UNBOX, JArray, JBig, JBox, JClass, JFloat, JLambda, JObject, JThrow, LCmp, Opaque, unsigned

RUNTIME = os.path.join(zcompiler.REPO, "compiler/extensions/java/runtime/src")
HERE = os.path.dirname(os.path.abspath(__file__))


def javac(key, sources, classpath=()):
    """Directory of the classes compiled from sources."""
    digest = zcompiler._hash(sources) + "-" + hashlib.sha1(":".join(classpath).encode()).hexdigest()[:8]

    def build(tmp):
        listing = os.path.join(tmp, "files.txt")
        with open(listing, "w", encoding="utf-8") as file:
            file.write("\n".join(sources))
        zcompiler._run(["javac", "-nowarn", "-g", "-encoding", "utf8", "-proc:none", "-XDstringConcat=indyWithConstants",
                        "-d", os.path.join(tmp, "classes"), "-cp", ":".join(classpath) or ".", "@" + listing])
    return os.path.join(zcompiler.cached(f"{key}-{digest}", build), "classes")


def runtime_classes():
    """The Java runtime of /repo."""
    return javac("jrt", zcompiler._files(RUNTIME, ".java"))


def bridge_classes():
    return javac("jbridge", [os.path.join(HERE, "Bridge.java")])


def harness_classes():
    """Helper classes of the checks, compiled against the runtime."""
    folder = os.path.join(os.path.dirname(os.path.dirname(HERE)), "checks", "java")
    return javac("jharness", zcompiler._files(folder, ".java"), [runtime_classes()])


def generated_classes(schema, options=()):
    """Java code generated from a schema, compiled."""
    folder = zcompiler.generate(schema, "java", options)
    runtime = runtime_classes()
    try:
        return javac("jgen", zcompiler._files(folder, ".java"), [runtime])
    except zcompiler.BuildError as exc:
        raise zcompiler.SchemaRejected(["javac", schema], str(exc)) from exc


class HarnessError(BaseException):
    """A harness names no or no unique method."""


class JavaError(Exception):
    """A Java exception reached the harness."""

    def __init__(self, name, supers, message=""):
        super().__init__(name + (": " + message if message else ""))
        self.name, self.supers = name, supers

    def is_a(self, name):
        return name.replace(".", "/") in self.supers


class Float:
    """float / double by bits."""

    def __init__(self, bits, width):
        self.bits, self.width = bits, width


class BaseEnv:
    """Calls with Python values; descriptors are taken from the class files."""

    def __init__(self, dirs):
        self.vm = VM(dirs)

    def module(self, name):
        raise NotImplementedError

    def methods(self, cls, name, count):
        found, seen = [], set()
        for owner in [cls.name] + sorted(self.vm.supers(cls)):
            for (method, desc), item in self.vm.load(owner).methods.items():
                if method == name and len(item.params) == count and item.params not in [f.params for f in found]:
                    found.append(item)
        return found

    def select(self, class_name, name, args, sig):
        cls = self.vm.load(class_name.replace(".", "/"))
        found = self.methods(cls, name, len(args))
        if sig is not None:
            found = [item for item in found if item.desc.startswith(sig)]
        else:
            found = [item for item in found if all(self.fits(value, desc) for value, desc in zip(args, item.params))]
        if len(found) > 1:
            found = [item for item in found if item.ret != "Ljava/lang/Object;"] or found
            exact = [item for item in found if not item.flags & 0x1040]
            found = exact or found
        if len(found) != 1:
            raise HarnessError(f"{class_name}.{name}: {found}")
        return found[0]

    def fits(self, value, desc):
        if isinstance(value, (bool, SymBool)):
            return desc in ("Z", "Ljava/lang/Boolean;")
        if isinstance(value, (int, SymInt)):
            return desc in "IJSBC" or desc in ("Ljava/math/BigInteger;", "Ljava/lang/Object;") or \
                desc[1:-1] in UNBOX and UNBOX[desc[1:-1]] in "IJSBC"
        if isinstance(value, Float):
            return desc in ("FD" if value.width else "") or desc[1:-1] in ("java/lang/Float", "java/lang/Double")
        if isinstance(value, (str, SymStr)):
            return desc in ("Ljava/lang/String;", "Ljava/lang/Object;")
        if isinstance(value, (list, bytes, tuple)):
            return desc.startswith("[")
        if value is None:
            return desc[0] in "L["
        name = self.class_name(value)
        return desc[0] == "L" and desc[1:-1] in self.vm.supers(self.vm.load(name))

    # the API
    def new(self, name, *args, sig=None):
        method = self.select(name, "<init>", args, sig)
        return self._new(name.replace(".", "/"), method, args)

    def static(self, name, method, *args, sig=None):
        item = self.select(name, method, args, sig)
        return self._static(item, args)

    def call(self, obj, method, *args, sig=None):
        item = self.select(self.class_name(obj), method, args, sig)
        return self._call(obj, item, args)


class SymEnvJ(BaseEnv):
    """Symbolic execution."""

    def class_name(self, value):
        return self.vm.class_of(value)

    def to_java(self, value, desc):
        if desc == "Z":
            return self.number(value)
        if desc in "IJSBC":
            return value
        if desc in "FD":
            return JFloat(value.bits, 32 if desc == "F" else 64)
        if value is None:
            return None
        if desc == "Ljava/math/BigInteger;":
            return JBig(value)
        if desc[1:-1] in UNBOX and desc[0] == "L":
            kind = UNBOX[desc[1:-1]]
            return JBox(kind, self.to_java(value, kind))
        if desc[0] == "[":
            kind = desc[1:]
            if kind == "B":
                return JArray("B", [self.signed8(item) for item in value])
            return JArray(kind, [self.to_java(item, kind) for item in value])
        return value

    @staticmethod
    def number(value):
        if isinstance(value, SymBool):
            return mkint(coerce(value)[0], 0, 1)
        return int(value)

    @staticmethod
    def signed8(item):
        from .values import wrap

        return wrap(item, 8)

    def from_java(self, value, desc):
        if desc == "V":
            return None
        if isinstance(value, LCmp):
            value = value.number()
        if desc == "Z":
            return value != 0
        if isinstance(value, JFloat):
            return Float(value.bits, value.width)
        if isinstance(value, JBig):
            return value.v
        if isinstance(value, JBox):
            return self.from_java(value.value, value.kind)
        if isinstance(value, JArray):
            if value.kind == "B":
                return [unsigned(item, 8) for item in value.items]
            return [self.from_java(item, value.kind) for item in value.items]
        return value

    def _guard(self, func, *args):
        self.vm.depth = 0
        try:
            return func(*args)
        except JThrow as exc:
            cls = exc.obj.cls
            message = exc.obj.fields.get("message")
            raise JavaError(cls.name, self.vm.supers(cls), message if isinstance(message, str) else "") from None

    def _new(self, name, method, args):
        values = [self.to_java(value, desc) for value, desc in zip(args, method.params)]
        return self._guard(self.vm.construct, name, method.desc, values)

    def _static(self, method, args):
        values = [self.to_java(value, desc) for value, desc in zip(args, method.params)]
        return self.from_java(self._guard(self.vm.invoke_static, method.owner.name, method.name, method.desc, values),
                              method.ret)

    def _call(self, obj, method, args):
        values = [obj] + [self.to_java(value, desc) for value, desc in zip(args, method.params)]
        return self.from_java(self._guard(self.vm.invoke_virtual, method.owner.name, method.name, method.desc, values),
                              method.ret)

    def get_static(self, name, field):
        key = self.vm.static_owner(name.replace(".", "/"), field)
        desc = self.vm.load(key[0]).fields[field][1]
        return self.from_java(self.vm.statics[key], desc)


class RealRef:
    def __init__(self, ident, name):
        self.ident, self.name = ident, name


class RealEnvJ(BaseEnv):
    """Calls in a JVM."""

    def __init__(self, dirs):
        super().__init__(dirs)
        self.proc = subprocess.Popen(["java", "-XX:TieredStopAtLevel=1", "-XX:+UseSerialGC", "-cp",
                                      ":".join(list(dirs) + [bridge_classes()]), "Bridge"], stdin=subprocess.PIPE,
                                     stdout=subprocess.PIPE, text=True, encoding="ascii")

    def reset(self):
        self.request("reset")

    def close(self):
        self.proc.stdin.close()
        self.proc.wait()

    def class_name(self, value):
        return value.name

    def request(self, *words):
        self.proc.stdin.write(" ".join(words) + "\n")
        self.proc.stdin.flush()
        line = self.proc.stdout.readline().rstrip("\n")
        if line[:1] == "R":
            return self.parse(line[1:])
        if line[:1] == "X":
            name, _sep, text = line[1:].partition(" ")
            name = name.replace(".", "/")
            try:
                supers = self.vm.supers(self.vm.load(name))
            except BaseException:  # pylint: disable=broad-except
                supers = {name}
            raise JavaError(name, supers, self.unhex(text))
        raise RuntimeError("bridge: " + (self.unhex(line[1:]) if line[:1] == "E" else line) + " for " + " ".join(words))

    @staticmethod
    def unhex(text):
        return bytes.fromhex(text).decode("utf-16-be", "surrogatepass")

    def parse(self, token):
        kind, rest = token[0], token[1:]
        if kind == "N":
            return None
        if kind in "IJSBCG":
            return int(rest)
        if kind == "Z":
            return rest == "1"
        if kind in "FD":
            return Float(int(rest), 32 if kind == "F" else 64)
        if kind == "T":
            return self.unhex(rest)
        if kind == "O":
            ident, _sep, name = rest.partition(":")
            return RealRef(int(ident), name.replace(".", "/"))
        parts = rest.split("|")[1:]
        out = [self.parse(part.replace("!", "|")) for part in parts]
        if parts and parts[0][0] == "B":
            out = [item & 0xFF for item in out]
        return out

    def token(self, value, desc):
        if desc == "Z":
            return f"Z{int(value)}"
        if desc in "IJSBC":
            return f"{desc}{int(value)}"
        if desc in "FD":
            return f"{desc}{value.bits}"
        if value is None:
            return "N"
        if desc == "Ljava/math/BigInteger;":
            return f"G{int(value)}"
        if desc[0] == "L" and desc[1:-1] in UNBOX:
            return self.token(value, UNBOX[desc[1:-1]])
        if isinstance(value, str):
            return "T" + value.encode("utf-16-be", "surrogatepass").hex()
        if desc[0] == "[":
            kind = desc[1:]
            if kind == "B":
                value = [item - 256 if item > 127 else item for item in value]
            return "A" + kind + "".join("|" + self.token(item, kind).replace("|", "!") for item in value)
        return f"O{value.ident}"

    def _words(self, method, args):
        return [self.token(value, desc) for value, desc in zip(args, method.params)]

    def _new(self, name, method, args):
        return self.request("new", name.replace("/", "."), method.desc, *self._words(method, args))

    def _static(self, method, args):
        return self.request("static", method.owner.name.replace("/", "."), method.name, method.desc,
                            *self._words(method, args))

    def _call(self, obj, method, args):
        return self.request("call", f"O{obj.ident}", method.name, method.desc, *self._words(method, args))

    def get_static(self, name, field):
        return self.request("getstatic", name, field)


_ENVS = {}
_REAL = {}


class JavaEngine(PyEngine):
    name = "java"

    def __init__(self, dirs):
        self._dirs = dirs
        self.roots = None

    @property
    def dirs(self):
        return self._dirs() if callable(self._dirs) else self._dirs

    def make_env(self, job, explorer):
        key = tuple(self.dirs)
        if key not in _ENVS:
            _ENVS[key] = SymEnvJ(key)
        env = _ENVS[key]
        env.vm.functions = set()
        return env

    def make_tracer(self, job):
        return JavaTracer(self)

    def replay_in_process(self, job, inputs, known=None):
        key = tuple(self.dirs)
        if key not in _REAL:
            while len(_REAL) > 1:
                _REAL.pop(next(iter(_REAL))).close()
            _REAL[key] = RealEnvJ(key)
        env = _REAL[key]
        env.reset()
        return self.concrete_run(job, inputs, known, env)


class JavaTracer:
    """Functions executed by the interpreter."""

    def __init__(self, engine):
        self.engine = engine
        self.functions = set()

    def start(self):
        pass

    def stop(self):
        env = _ENVS.get(tuple(self.engine.dirs))
        if env is None:
            return
        for method in env.vm.functions:
            folder = os.path.dirname(method.owner.name)
            self.functions.add(f"{folder}/{method.owner.source}:{method.owner.name.rsplit('/', 1)[-1]}.{method.name}")
