"""P04: Python bytes, string and bit buffer fields."""

from .common_py import *
from . import wire

PROPERTY = "P04"
BOUNDS = ("bytes of length 0..6 and 127..129, strings of 0..3 arbitrary Unicode code points and 126..129 ASCII "
          "characters, bit buffers of 0..34 and 120..136 bits with arbitrary unused bits and spare bytes; bit offsets "
          "0..7; reading of arbitrary streams of 0..4 bytes after a bit offset of 0..7")
ASSUMPTIONS = ["pure Python implementation of the runtime",
               "str.encode/bytes.decode('utf-8') modelled by the strict UTF-8 definition of RFC 3629 (as in CPython)"]


def start(ctx, offsets):
    offset = ctx.pick("offset", offsets)
    out = writer(ctx)
    prefix = 0
    if offset:
        prefix = ctx.int("prefix", 0, (1 << offset) - 1)
        out.write_bits(prefix, offset)
    return out, offset, prefix


def varsize(ctx, value):
    count = wire.var_size(ctx, "varsize", value)
    return wire.var_encode(ctx, "varsize", value, count), 8 * count


def check_stream(ctx, out, offset, prefix, length, payload, payload_bits):
    head, head_bits = varsize(ctx, length)
    total = offset + head_bits + payload_bits
    ctx.check(out.bitposition == total, "written bits")
    expect = (((prefix << head_bits) + head) << payload_bits) + payload
    ctx.check(ctx.eq(bits_value(ctx, out.byte_array, total), expect), "length prefix and payload")
    ctx.check(len(out.byte_array) == (total + 7) // 8, "byte length")
    out.write_bits(1, 1)
    ctx.check(ctx.eq(bits_value(ctx, out.byte_array, total + 1), (expect << 1) + 1), "following field")
    return head_bits + payload_bits


def bytes_field(ctx, length, offsets):
    out, offset, prefix = start(ctx, offsets)
    value = ctx.bytearray("value", length)
    out.write_bytes(value)
    payload = bits_value(ctx, value, 8 * length)
    size = check_stream(ctx, out, offset, prefix, length, payload, 8 * length)
    ctx.check(ctx.eq(ctx.module("zserio.bitsizeof").bitsizeof_bytes(value), size), "bitsizeof")
    inp = reader(ctx, out.byte_array, offset + size)
    if offset:
        inp.read_bits(offset)
    got = inp.read_bytes()
    ctx.check(len(got) == length, "length")
    ctx.check(ctx.seq_eq(got, value), "read back")
    ctx.check(inp.bitposition == offset + size, "reader position")
    ctx.observe("got", got)
    ctx.reach("end")


def string_field(ctx, length, high, offsets):
    out, offset, prefix = start(ctx, offsets)
    value = ctx.string("value", length, 0, high)
    encoded = value.encode("utf-8")
    out.write_string(value)
    payload = bits_value(ctx, encoded, 8 * len(encoded))
    size = check_stream(ctx, out, offset, prefix, len(encoded), payload, 8 * len(encoded))
    ctx.check(ctx.eq(ctx.module("zserio.bitsizeof").bitsizeof_string(value), size), "bitsizeof")
    ctx.check(ctx.eq(ctx.module("zserio.builtin").lengthof_string(value), len(encoded)), "lengthof in UTF-8 bytes")
    inp = reader(ctx, out.byte_array, offset + size)
    if offset:
        inp.read_bits(offset)
    got = inp.read_string()
    ctx.check(ctx.eq(got, value), "read back")
    ctx.check(inp.bitposition == offset + size, "reader position")
    ctx.observe("got", got)
    ctx.reach("end")


def bitbuffer_field(ctx, bitsize, offsets):
    spare = ctx.pick("spare", [0, 1])
    bytesize = (bitsize + 7) // 8
    out, offset, prefix = start(ctx, offsets)
    data = ctx.bytearray("data", bytesize + spare)
    cls = ctx.module("zserio.bitbuffer").BitBuffer
    value = cls(data, bitsize)
    out.write_bitbuffer(value)
    payload = bits_value(ctx, data, bitsize)
    size = check_stream(ctx, out, offset, prefix, bitsize, payload, bitsize)
    ctx.check(ctx.eq(ctx.module("zserio.bitsizeof").bitsizeof_bitbuffer(value), size), "bitsizeof")
    inp = reader(ctx, out.byte_array, offset + size)
    if offset:
        inp.read_bits(offset)
    got = inp.read_bitbuffer()
    ctx.check(got.bitsize == bitsize, "bit size")
    ctx.check(ctx.eq(bits_value(ctx, got.buffer, bitsize), payload), "bits read back")
    ctx.check(len(got.buffer) == bytesize, "buffer length")
    if bitsize % 8:
        ctx.check(ctx.eq(got.buffer[-1] & ((1 << (8 - bitsize % 8)) - 1), 0), "unused bits of the last byte are zero")
    ctx.check(got == value, "equal to the original")
    ctx.check(inp.bitposition == offset + size, "reader position")
    ctx.observe("got", bits_value(ctx, got.buffer, bitsize))
    ctx.reach("end")


def read_any(ctx, kind, length):
    """arbitrary stream: a value is returned iff the length prefix is complete and the payload fits."""
    data = ctx.bytes("data", length)
    offset = ctx.pick("offset", range(0, 8))
    cut = ctx.pick("cut", [0, 3])
    bitsize = offset + 8 * length - cut
    out = writer(ctx)
    if offset:
        out.write_bits(0, offset)
    for byte in data:
        out.write_bits(byte, 8)
    ctx.assume(bitsize >= offset)
    inp = reader(ctx, out.byte_array, bitsize)
    if offset:
        inp.read_bits(offset)
    usable = (bitsize - offset) // 8
    count, used, valid = wire.var_decode(ctx, "varsize", list(data)[:usable])
    got, exc = ctx.attempt(getattr(inp, "read_" + kind))
    if count is None or not ctx.choose_path(valid):
        ctx.check(exc is not None and is_runtime_error(exc), "bad length prefix raises", repr(exc))
        ctx.reach("bad")
        return
    unit = 1 if kind == "bitbuffer" else 8
    rest = bitsize - offset - 8 * used
    if not ctx.choose_path(count * unit <= rest):
        ctx.check(exc is not None and is_runtime_error(exc), "payload behind the end raises", repr(exc))
        ctx.reach("short")
        return
    payload = list(data)[used:]
    if kind == "string" and exc is not None:
        ctx.check(isinstance(exc, ValueError), "only an invalid UTF-8 payload raises", repr(exc))
        size = sum(1 for _ in range(length) if ctx.choose_path(count > _))
        _, err = ctx.attempt(lambda: ctx.make_bytes(payload[:size]).decode("utf-8"))
        ctx.check(err is not None, "payload is invalid UTF-8")
        ctx.reach("utf8")
        return
    ctx.check(exc is None, "complete field is read", repr(exc))
    if kind == "bitbuffer":
        size = got.bitsize
        ctx.check(ctx.eq(size, count), "bit size")
        size = ctx.pick("size", [size]) if isinstance(size, int) else None
        if size is None:
            size = len([_ for _ in range(8 * length) if ctx.choose_path(count > _)])
        ctx.check(ctx.eq(bits_value(ctx, got.buffer, size), bits_value(ctx, payload, size)), "bits")
    elif kind == "bytes":
        size = len(got)
        ctx.check(ctx.eq(count, size), "length")
        ctx.check(ctx.seq_eq(got, payload[:size]), "payload")
    else:
        encoded = got.encode("utf-8")
        size = len(encoded)
        ctx.check(ctx.eq(count, size), "length")
        ctx.check(ctx.seq_eq(encoded, payload[:size]), "payload")
    ctx.check(ctx.eq(inp.bitposition, offset + 8 * used + count * unit), "position behind the field")
    ctx.reach("ok")


def jobs(tier):
    out = []
    all8 = list(range(8))
    for length in range(0, 7):
        out.append(Job(f"bytes-{length}", bytes_field, {"length": length, "offsets": all8}, must_reach=["end"]))
    for length in (127, 128, 129):
        out.append(Job(f"bytes-{length}", bytes_field, {"length": length, "offsets": [0, 3]}, must_reach=["end"]))
    for length in range(0, 4 if tier == "quick" else 5):
        out.append(Job(f"string-{length}", string_field,
                       {"length": length, "high": 0x10FFFF, "offsets": all8 if length < 3 else [0, 5]},
                       must_reach=["end"]))
    for length in (126, 127, 128, 129):
        out.append(Job(f"string-ascii-{length}", string_field, {"length": length, "high": 0x7F, "offsets": [0, 3]},
                       must_reach=["end"]))
    for bitsize in list(range(0, 35)) + list(range(120, 137)):
        out.append(Job(f"bitbuffer-{bitsize}", bitbuffer_field,
                       {"bitsize": bitsize, "offsets": all8 if bitsize < 20 else [0, 1, 7]}, must_reach=["end"]))
    for kind in ("bytes", "string", "bitbuffer"):
        for length in range(0, 5 if kind != "bitbuffer" else 4):
            out.append(Job(f"read-any-{kind}-{length}", read_any, {"kind": kind, "length": length},
                           must_reach=["bad"] if length == 0 else ["short"]))
    return out
