"""Shared by the checks of the Java runtime and of generated Java code."""

from sym.java.engine import Float, JavaEngine, JavaError, runtime_classes
from sym.job import Job as _Job

ENGINE = JavaEngine(lambda: [runtime_classes()])
IO = "zserio.runtime.io."
RT = "zserio.runtime."
ERRORS = ("java/io/IOException", "java/lang/IllegalArgumentException", "zserio/runtime/ZserioError")


def Job(name, func, params=None, **kwargs):
    kwargs.setdefault("engine", ENGINE)
    return _Job(name, func, params, **kwargs)


def bits_value(ctx, data, nbits):
    """The first nbits of the bytes as a number."""
    if not nbits:
        return 0
    count = (nbits + 7) // 8
    return ctx.bytes_value(data[:count]) >> (8 * count - nbits)


def padding_value(ctx, data, nbits):
    """Bits of the last byte behind nbits."""
    rest = -nbits % 8
    return data[nbits // 8] & ((1 << rest) - 1) if rest else 0


def unsigned(value, width):
    """Two's complement."""
    return value & ((1 << width) - 1)


def writer(ctx, capacity=None):
    name = IO + "ByteArrayBitStreamWriter"
    return ctx.env.new(name) if capacity is None else ctx.env.new(name, capacity)


def reader(ctx, data, nbits=None):
    name = IO + "ByteArrayBitStreamReader"
    return ctx.env.new(name, data) if nbits is None else ctx.env.new(name, data, nbits, sig="([BJ)")


def attempt(ctx, *args, **kwargs):
    """(value, None) or (None, exception) of a call."""
    try:
        return ctx.env.call(*args, **kwargs), None
    except JavaError as exc:
        return None, exc


def declared(exc):
    """Is the exception one of the declared kinds?"""
    return any(exc.is_a(name) for name in ERRORS)


def prefix(ctx, out, count):
    """Writes count arbitrary bits."""
    if not count:
        return 0
    value = ctx.int("prefix", 0, (1 << count) - 1)
    ctx.env.call(out, "writeBits", value, count)
    return value
