"""P02: Python bit stream, variable length integers."""

from .common_py import *
from . import wire

PROPERTY = "P02"
BOUNDS = ("every value of each of the 9 variable length types, every bit offset 0..7; rejection over [-2^70, 2^70]; "
          "decoding of every byte sequence of every length 0..max+1 at every bit offset 0..7")
ASSUMPTIONS = ["pure Python implementation of the runtime"]


def encode(ctx, name):
    """every value in range: minimal documented encoding, size prediction and read back."""
    low, high = wire.var_range(name)
    offset = ctx.pick("offset", range(0, 8))
    value = ctx.int("value", low, high)
    out = writer(ctx)
    prefix = 0
    if offset:
        prefix = ctx.int("prefix", 0, (1 << offset) - 1)
        out.write_bits(prefix, offset)
    getattr(out, "write_" + name)(value)
    nbits = out.bitposition - offset
    ctx.check(nbits % 8 == 0 and nbits > 0, "whole bytes")
    count = nbits // 8
    ctx.check(ctx.eq(wire.var_size(ctx, name, value), count), "minimal number of bytes")
    stream = bits_value(ctx, out.byte_array, offset + nbits)
    ctx.check(ctx.eq(stream, (prefix << nbits) + wire.var_encode(ctx, name, value, count)), "documented encoding")
    size = getattr(ctx.module("zserio.bitsizeof"), "bitsizeof_" + name)(value)
    ctx.check(ctx.eq(size, nbits), "bitsizeof equals written bits")
    inp = reader(ctx, out.byte_array, out.bitposition)
    if offset:
        inp.read_bits(offset)
    got = getattr(inp, "read_" + name)()
    ctx.check(ctx.eq(got, value), "read back")
    ctx.check(inp.bitposition == offset + nbits, "reader consumed exactly the written bits")
    ctx.observe("data", out.byte_array)
    ctx.observe("value", got)
    ctx.reach(f"size{count}")


def reject(ctx, name):
    """out of range values raise in writer and bitsizeof; the stream stays untouched."""
    low, high = wire.var_range(name)
    value = ctx.int("value", -(1 << 70), 1 << 70)
    ctx.assume(ctx.lor(value < low, value > high))
    out = writer(ctx)
    out.write_bits(5, 3)
    _, exc = ctx.attempt(getattr(out, "write_" + name), value)
    ctx.check(exc is not None, "writer rejects")
    ctx.check(is_runtime_error(exc), "declared exception", repr(exc))
    ctx.check(out.bitposition == 3 and len(out.byte_array) == 1, "stream untouched")
    ctx.check(ctx.eq(bits_value(ctx, out.byte_array, 8), 5 << 5), "content untouched")
    _, exc = ctx.attempt(getattr(ctx.module("zserio.bitsizeof"), "bitsizeof_" + name), value)
    ctx.check(exc is not None and is_runtime_error(exc), "bitsizeof rejects", repr(exc))
    ctx.reach("end")


def decode(ctx, name, length):
    """any bytes: decoded value, consumed bits and end-of-stream behaviour follow the wire format."""
    data = ctx.bytes("data", length)
    offset = ctx.pick("offset", range(0, 8))
    if offset:
        prefix = ctx.int("prefix", 0, (1 << offset) - 1)
        out = writer(ctx)
        out.write_bits(prefix, offset)
        for byte in data:
            out.write_bits(byte, 8)
        buffer = out.byte_array
    else:
        buffer = data
    inp = reader(ctx, buffer, offset + 8 * length)
    if offset:
        inp.read_bits(offset)
    value, count, valid = wire.var_decode(ctx, name, list(data))
    got, exc = ctx.attempt(getattr(inp, "read_" + name))
    if value is None:
        ctx.check(exc is not None, "truncated data must raise")
        ctx.check(is_runtime_error(exc), "declared exception", repr(exc))
        ctx.reach("truncated")
        return
    if not ctx.choose_path(valid):
        ctx.check(exc is not None and is_runtime_error(exc), "out of range varsize raises", repr(exc))
        ctx.reach("invalid")
        return
    ctx.check(exc is None, "valid data accepted", repr(exc))
    ctx.check(ctx.eq(got, value), "decoded value")
    ctx.check(inp.bitposition == offset + 8 * count, "consumed bits")
    ctx.observe("value", got)
    ctx.reach("ok")


def jobs(tier):
    out = []
    for name, (max_bytes, _) in wire.VARNUMS.items():
        out.append(Job(f"encode-{name}", encode, {"name": name},
                       must_reach=[f"size{i}" for i in range(1, max_bytes + 1)]))
        out.append(Job(f"reject-{name}", reject, {"name": name}, must_reach=["end"]))
        for length in range(0, max_bytes + 2):
            must = ["ok"] if length else []
            if length < max_bytes:
                must.append("truncated")
            out.append(Job(f"decode-{name}-{length}", decode, {"name": name, "length": length}, must_reach=must))
    return out
