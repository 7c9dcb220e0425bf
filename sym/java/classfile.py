"""Java class files."""

import struct


class Method:
    __slots__ = ("owner", "name", "desc", "flags", "code", "max_locals", "handlers", "params", "ret", "decoded", "lines",
                 "native")

    def __init__(self, owner, name, desc, flags):
        self.owner, self.name, self.desc, self.flags = owner, name, desc, flags
        self.code, self.max_locals, self.handlers, self.decoded, self.lines = None, 0, [], None, []
        self.params, self.ret = parse_descriptor(desc)
        self.native = None

    @property
    def static(self):
        return bool(self.flags & 0x8)

    def __repr__(self):
        return f"{self.owner.name}.{self.name}{self.desc}"


def parse_descriptor(desc):
    """Parameter and return type descriptors."""
    params, pos = [], 1
    while desc[pos] != ")":
        start = pos
        while desc[pos] == "[":
            pos += 1
        pos = desc.index(";", pos) + 1 if desc[pos] == "L" else pos + 1
        params.append(desc[start:pos])
    return params, desc[pos + 1:]


class ClassFile:
    """Parsed class file."""

    def __init__(self, data, origin=""):
        self.origin = origin
        self.data = data
        self.pos = 8
        self._pool()
        self.flags = self._u2()
        self.name = self.class_name(self._u2())
        index = self._u2()
        self.super_name = self.class_name(index) if index else None
        self.interfaces = [self.class_name(self._u2()) for _ in range(self._u2())]
        self.fields = {}
        for _ in range(self._u2()):
            flags, name, desc = self._u2(), self.utf8(self._u2()), self.utf8(self._u2())
            constant = None
            for attr, start, _size in self._attributes():
                if attr == "ConstantValue":
                    constant = struct.unpack_from(">H", data, start)[0]
            self.fields[name] = (flags, desc, constant)
        self.methods = {}
        for _ in range(self._u2()):
            flags, name, desc = self._u2(), self.utf8(self._u2()), self.utf8(self._u2())
            method = Method(self, name, desc, flags)
            for attr, start, _size in self._attributes():
                if attr == "Code":
                    self._code(method, start)
            self.methods[name, desc] = method
        self.bootstrap = []
        self.source = ""
        for attr, start, _size in self._attributes():
            if attr == "BootstrapMethods":
                pos = start + 2
                for _ in range(struct.unpack_from(">H", data, start)[0]):
                    ref, count = struct.unpack_from(">HH", data, pos)
                    self.bootstrap.append((ref, struct.unpack_from(f">{count}H", data, pos + 4)))
                    pos += 4 + 2 * count
            elif attr == "SourceFile":
                self.source = self.utf8(struct.unpack_from(">H", data, start)[0])
        self.resolved = {}
        self.supers = None

    # ---------------------------------------------------------------------------------------------------- parsing
    def _u2(self):
        value = struct.unpack_from(">H", self.data, self.pos)[0]
        self.pos += 2
        return value

    def _attributes(self):
        out = []
        for _ in range(self._u2()):
            name, size = struct.unpack_from(">HI", self.data, self.pos)
            out.append((self.utf8(name), self.pos + 6, size))
            self.pos += 6 + size
        return out

    def _code(self, method, start):
        _stack, method.max_locals, size = struct.unpack_from(">HHI", self.data, start)
        method.code = self.data[start + 8:start + 8 + size]
        pos = start + 8 + size
        count = struct.unpack_from(">H", self.data, pos)[0]
        pos += 2
        for _ in range(count):
            method.handlers.append(struct.unpack_from(">HHHH", self.data, pos))
            pos += 8

    def _pool(self):
        data, pos = self.data, 10
        count = struct.unpack_from(">H", data, 8)[0]
        pool = [None] * count
        index = 1
        while index < count:
            tag = data[pos]
            pos += 1
            if tag == 1:
                size = struct.unpack_from(">H", data, pos)[0]
                raw = data[pos + 2:pos + 2 + size]
                pool[index] = ("utf8", _modified_utf8(raw))
                pos += 2 + size
            elif tag == 3:
                pool[index] = ("int", struct.unpack_from(">i", data, pos)[0])
                pos += 4
            elif tag == 4:
                pool[index] = ("float", struct.unpack_from(">I", data, pos)[0])
                pos += 4
            elif tag == 5:
                pool[index] = ("long", struct.unpack_from(">q", data, pos)[0])
                pos += 8
                index += 1
            elif tag == 6:
                pool[index] = ("double", struct.unpack_from(">Q", data, pos)[0])
                pos += 8
                index += 1
            elif tag in (7, 8, 16, 19, 20):
                pool[index] = ({7: "class", 8: "string", 16: "mtype"}.get(tag, "module"),
                               struct.unpack_from(">H", data, pos)[0])
                pos += 2
            elif tag in (9, 10, 11, 12, 17, 18):
                pool[index] = ({9: "field", 10: "method", 11: "imethod", 12: "nat", 17: "dynamic", 18: "indy"}[tag],
                               struct.unpack_from(">HH", data, pos))
                pos += 4
            elif tag == 15:
                pool[index] = ("handle", struct.unpack_from(">BH", data, pos))
                pos += 3
            else:
                raise ValueError(f"constant pool tag {tag}")
            index += 1
        self.pool = pool
        self.pos = pos

    # ---------------------------------------------------------------------------------------------------- access
    def utf8(self, index):
        return self.pool[index][1]

    def class_name(self, index):
        return self.utf8(self.pool[index][1])

    def member(self, index):
        """(class, name, descriptor) of a field or method reference."""
        cls, nat = self.pool[index][1]
        name, desc = self.pool[nat][1]
        return self.class_name(cls), self.utf8(name), self.utf8(desc)

    def name_and_type(self, index):
        name, desc = self.pool[index][1]
        return self.utf8(name), self.utf8(desc)


def _modified_utf8(raw):
    try:
        return raw.decode("utf-8")
    except UnicodeDecodeError:
        return raw.replace(b"\xc0\x80", b"\0").decode("utf-8", "surrogatepass").encode("utf-16", "surrogatepass").decode(
            "utf-16", "replace")
