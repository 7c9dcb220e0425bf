"""P41: Java bit stream, variable length integers."""

from .common_java import *
from . import wire

PROPERTY = "P41"
BOUNDS = ("every value of each of the 9 variable length types, every bit offset 0..7; rejection over all values of the "
          "argument type (numbers in [-2^70, 2^70] for varuint); decoding of every byte sequence of every length "
          "0..max+1 at bit offsets 0..7")
ASSUMPTIONS = ["JDK library classes used by the runtime (BigInteger, arrays) behave as documented"]

NAMES = {"varint16": ("VarInt16", 16), "varint32": ("VarInt32", 32), "varint64": ("VarInt64", 64), "varint": ("VarInt", 64),
         "varuint16": ("VarUInt16", 16), "varuint32": ("VarUInt32", 32), "varuint64": ("VarUInt64", 64),
         "varuint": ("VarUInt", None), "varsize": ("VarSize", 32)}
SIZES = RT + "BitSizeOfCalculator"


def encode(ctx, name):
    """every value in range: minimal documented encoding, size prediction and read back."""
    env = ctx.env
    java = NAMES[name][0]
    low, high = wire.var_range(name)
    offset = ctx.pick("offset", range(0, 8))
    value = ctx.int("value", low, high)
    out = writer(ctx)
    before = prefix(ctx, out, offset)
    env.call(out, "write" + java, value)
    nbits = env.call(out, "getBitPosition") - offset
    ctx.check(nbits % 8 == 0 and nbits > 0, "whole bytes")
    count = nbits // 8
    ctx.check(ctx.eq(wire.var_size(ctx, name, value), count), "minimal number of bytes")
    data = env.call(out, "toByteArray")
    ctx.check(ctx.eq(bits_value(ctx, data, offset + nbits), (before << nbits) + wire.var_encode(ctx, name, value, count)),
              "documented encoding")
    ctx.check(ctx.eq(padding_value(ctx, data, offset + nbits), 0), "padding is zero")
    ctx.check(ctx.eq(env.static(SIZES, "getBitSizeOf" + java, value), nbits), "predicted size equals written bits")
    inp = reader(ctx, data, offset + nbits)
    if offset:
        env.call(inp, "readBits", offset)
    got = env.call(inp, "read" + java)
    ctx.check(ctx.eq(got, value), "read back")
    ctx.check(env.call(inp, "getBitPosition") == offset + nbits, "reader consumed exactly the written bits")
    ctx.observe("data", data)
    ctx.observe("value", got)
    ctx.reach(f"size{count}")


def reject(ctx, name):
    """out of range values raise in writer and size prediction; the stream stays untouched."""
    env = ctx.env
    java, width = NAMES[name]
    low, high = wire.var_range(name)
    if width is None:
        value = ctx.int("value", -(1 << 70), 1 << 70)
    else:
        value = ctx.int("value", -(1 << (width - 1)), (1 << (width - 1)) - 1)
    ctx.assume(ctx.lor(value < low, value > high))
    out = writer(ctx)
    env.call(out, "writeBits", 5, 3)
    _, exc = attempt(ctx, out, "write" + java, value)
    ctx.check(exc is not None, "writer rejects")
    ctx.check(exc is None or declared(exc), "declared exception", str(exc))
    ctx.check(env.call(out, "getBitPosition") == 3, "position unchanged")
    data = env.call(out, "toByteArray")
    ctx.check(len(data) == 1, "stream untouched")
    ctx.check(ctx.eq(bits_value(ctx, data, 8), 5 << 5), "content untouched")
    try:
        env.static(SIZES, "getBitSizeOf" + java, value)
        exc = None
    except JavaError as err:
        exc = err
    ctx.check(exc is not None and declared(exc), "size prediction rejects", str(exc))
    ctx.reach("end")


def decode(ctx, name, length, offsets):
    """any bytes: decoded value, consumed bits and end-of-stream behaviour follow the wire format."""
    env = ctx.env
    java = NAMES[name][0]
    data = list(ctx.bytes("data", length))
    offset = ctx.pick("offset", offsets)
    out = writer(ctx)
    prefix(ctx, out, offset)
    for byte in data:
        env.call(out, "writeBits", byte, 8)
    inp = reader(ctx, env.call(out, "toByteArray"), offset + 8 * length)
    if offset:
        env.call(inp, "readBits", offset)
    value, count, valid = wire.var_decode(ctx, name, data)
    got, exc = attempt(ctx, inp, "read" + java)
    if value is None:
        ctx.check(exc is not None and exc.is_a("java/io/IOException"), "truncated data raises IOException", str(exc))
        ctx.reach("truncated")
        return
    if not ctx.choose_path(valid):
        ctx.check(exc is not None and exc.is_a("java/io/IOException"), "out of range varsize raises", str(exc))
        ctx.reach("invalid")
        return
    ctx.check(exc is None, "valid data accepted", str(exc))
    ctx.check(ctx.eq(got, value), "decoded value")
    ctx.check(env.call(inp, "getBitPosition") == offset + 8 * count, "consumed bits")
    ctx.observe("value", got)
    ctx.reach("ok")


def jobs(tier):
    out = []
    for name, (max_bytes, signed) in wire.VARNUMS.items():
        out.append(Job(f"encode-{name}", encode, {"name": name},
                       must_reach=[f"size{i}" for i in range(1, max_bytes + 1)]))
        if name != "varint":
            out.append(Job(f"reject-{name}", reject, {"name": name}, must_reach=["end"]))
        for length in range(0, max_bytes + 2):
            must = ["ok"] if length else []
            if length < max_bytes:
                must.append("truncated")
            offsets = range(8) if tier != "quick" or max_bytes < 8 else (0, 3, 7)
            out.append(Job(f"decode-{name}-{length}", decode, {"name": name, "length": length, "offsets": offsets},
                           must_reach=must))
    return out
