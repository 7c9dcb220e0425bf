"""P43: Java bytes, string and bit buffer fields."""

from .common_java import *
from . import wire

PROPERTY = "P43"
BOUNDS = ("bytes of length 0..6 and 127..129, strings of 0..3 arbitrary Unicode code points and 126..129 ASCII "
          "characters, bit buffers of 0..34 and 120..136 bits with arbitrary unused bits and spare bytes; bit offsets "
          "0..7; initial capacities 0, 1, 3 and default; reading of arbitrary streams of 0..4 bytes after a bit offset of "
          "0..7; pairs of bit buffers of 0..18 bits for equality")
ASSUMPTIONS = ["String and its UTF-8 conversions modelled on code points (lone surrogates excluded)",
               "decoding of malformed UTF-8 left out"]
SIZES = RT + "BitSizeOfCalculator"


def start(ctx, offsets):
    offset = ctx.pick("offset", offsets)
    out = writer(ctx, ctx.pick("capacity", [None, 0, 1, 3]) if offset in (0, 3) else None)
    return out, offset, prefix(ctx, out, offset)


def varsize(ctx, value):
    count = wire.var_size(ctx, "varsize", value)
    return wire.var_encode(ctx, "varsize", value, count), 8 * count


def check_stream(ctx, out, offset, before, length, payload, payload_bits):
    env = ctx.env
    head, head_bits = varsize(ctx, length)
    total = offset + head_bits + payload_bits
    ctx.check(env.call(out, "getBitPosition") == total, "written bits")
    expect = (((before << head_bits) + head) << payload_bits) + payload
    data = env.call(out, "toByteArray")
    ctx.check(ctx.eq(bits_value(ctx, data, total), expect), "length prefix and payload")
    ctx.check(ctx.eq(padding_value(ctx, data, total), 0), "padding is zero")
    ctx.check(len(data) == (total + 7) // 8, "byte length")
    env.call(out, "writeBits", 1, 1)
    after = env.call(out, "toByteArray")
    ctx.check(ctx.eq(bits_value(ctx, after, total + 1), (expect << 1) + 1), "following field")
    return head_bits + payload_bits, data


def open_reader(ctx, data, offset, size):
    inp = reader(ctx, data, offset + size)
    if offset:
        ctx.env.call(inp, "readBits", offset)
    return inp


def bytes_field(ctx, length, offsets):
    env = ctx.env
    out, offset, before = start(ctx, offsets)
    value = list(ctx.bytearray("value", length))
    env.call(out, "writeBytes", value)
    payload = bits_value(ctx, value, 8 * length)
    size, data = check_stream(ctx, out, offset, before, length, payload, 8 * length)
    ctx.check(ctx.eq(env.static(SIZES, "getBitSizeOfBytes", value), size), "predicted size")
    inp = open_reader(ctx, data, offset, size)
    got = env.call(inp, "readBytes")
    ctx.check(len(got) == length, "length")
    ctx.check(ctx.seq_eq(got, value), "read back")
    ctx.check(env.call(inp, "getBitPosition") == offset + size, "reader position")
    ctx.observe("got", got)
    ctx.reach("end")


def string_field(ctx, length, high, offsets):
    env = ctx.env
    out, offset, before = start(ctx, offsets)
    value = ctx.string("value", length, 0, high)
    encoded = value.encode("utf-8")
    env.call(out, "writeString", value)
    payload = bits_value(ctx, encoded, 8 * len(encoded))
    size, data = check_stream(ctx, out, offset, before, len(encoded), payload, 8 * len(encoded))
    ctx.check(ctx.eq(env.static(SIZES, "getBitSizeOfString", value), size), "predicted size")
    ctx.check(ctx.eq(env.static(RT + "BuiltInOperators", "lengthOf", value), len(encoded)), "lengthof in UTF-8 bytes")
    inp = open_reader(ctx, data, offset, size)
    got = env.call(inp, "readString")
    ctx.check(ctx.eq(got, value), "read back")
    ctx.check(env.call(inp, "getBitPosition") == offset + size, "reader position")
    ctx.observe("got", got)
    ctx.reach("end")


def bitbuffer_field(ctx, bitsize, offsets):
    env = ctx.env
    spare = ctx.pick("spare", [0, 1])
    bytesize = (bitsize + 7) // 8
    out, offset, before = start(ctx, offsets)
    content = list(ctx.bytearray("data", bytesize + spare))
    value = env.new(IO + "BitBuffer", content, bitsize)
    env.call(out, "writeBitBuffer", value)
    payload = bits_value(ctx, content, bitsize)
    size, data = check_stream(ctx, out, offset, before, bitsize, payload, bitsize)
    ctx.check(ctx.eq(env.static(SIZES, "getBitSizeOfBitBuffer", value), size), "predicted size")
    inp = open_reader(ctx, data, offset, size)
    got = env.call(inp, "readBitBuffer")
    ctx.check(env.call(got, "getBitSize") == bitsize, "bit size")
    buffer = env.call(got, "getBuffer")
    ctx.check(ctx.eq(bits_value(ctx, buffer, bitsize), payload), "bits read back")
    ctx.check(len(buffer) == bytesize, "buffer length")
    if bitsize % 8:
        ctx.check(ctx.eq(buffer[-1] & ((1 << (8 - bitsize % 8)) - 1), 0), "unused bits of the last byte are zero")
    ctx.check(env.call(got, "equals", value), "equal to the original")
    ctx.check(ctx.eq(env.call(got, "hashCode"), env.call(value, "hashCode")), "same hash code")
    ctx.check(env.call(inp, "getBitPosition") == offset + size, "reader position")
    ctx.observe("got", bits_value(ctx, buffer, bitsize))
    ctx.reach("end")


def bitbuffer_equality(ctx, sizes):
    """equal exactly if the sizes and the bits are equal; equal buffers have the same hash code."""
    env = ctx.env
    first, second = sizes
    left = list(ctx.bytearray("left", (first + 7) // 8))
    right = list(ctx.bytearray("right", (second + 7) // 8))
    a = env.new(IO + "BitBuffer", left, first)
    b = env.new(IO + "BitBuffer", right, second)
    same = ctx.eq(bits_value(ctx, left, first), bits_value(ctx, right, second)) if first == second else False
    ctx.check(ctx.eq(env.call(a, "equals", b), same), "equality of size and bits")
    ctx.check(ctx.eq(env.call(b, "equals", a), same), "symmetric")
    ctx.check(env.call(a, "equals", a), "reflexive")
    if first == second:
        ctx.check(ctx.implies(same, ctx.eq(env.call(a, "hashCode"), env.call(b, "hashCode"))), "hash code")
    ctx.reach("end")


def bitbuffer_create(ctx, length):
    env = ctx.env
    data = list(ctx.bytes("data", length))
    bitsize = ctx.int("bitsize", 0, 8 * length + 9)
    try:
        buf = env.new(IO + "BitBuffer", data, bitsize)
        exc = None
    except JavaError as err:
        exc = err
    ctx.check(ctx.eq(exc is None, bitsize <= 8 * length), "bit size must fit into the buffer")
    if exc is not None:
        ctx.check(declared(exc), "declared exception", str(exc))
        ctx.reach("rejected")
        return
    ctx.check(ctx.eq(env.call(buf, "getBitSize"), bitsize), "bit size")
    ctx.check(ctx.eq(env.call(buf, "getByteSize"), (bitsize + 7) // 8), "byte size")
    ctx.reach("ok")


def read_any(ctx, kind, length, offsets):
    """arbitrary stream: a value is returned iff the length prefix is complete and the payload fits."""
    env = ctx.env
    data = list(ctx.bytes("data", length))
    offset = ctx.pick("offset", offsets)
    cut = ctx.pick("cut", [0, 3])
    bitsize = offset + 8 * length - cut
    ctx.assume(bitsize >= offset)
    out = writer(ctx)
    prefix(ctx, out, offset)
    for byte in data:
        env.call(out, "writeBits", byte, 8)
    whole = env.call(out, "toByteArray")
    inp = reader(ctx, whole[:(bitsize + 7) // 8], bitsize)
    if offset:
        env.call(inp, "readBits", offset)
    usable = (bitsize - offset) // 8
    count, used, valid = wire.var_decode(ctx, "varsize", data[:usable])
    if kind == "String" and count is not None:
        size = len([_ for _ in range(length) if ctx.choose_path(count > _)])
        _, malformed = ctx.attempt(lambda: ctx.make_bytes(data[used:used + size]).decode("utf-8"))
        ctx.assume(malformed is None)
    got, exc = attempt(ctx, inp, "read" + kind)
    if count is None or not ctx.choose_path(valid):
        ctx.check(exc is not None and exc.is_a("java/io/IOException"), "bad length prefix raises", str(exc))
        ctx.reach("bad")
        return
    unit = 1 if kind == "BitBuffer" else 8
    rest = bitsize - offset - 8 * used
    if not ctx.choose_path(count * unit <= rest):
        ctx.check(exc is not None and exc.is_a("java/io/IOException"), "payload behind the end raises", str(exc))
        ctx.reach("short")
        return
    payload = data[used:]
    ctx.check(exc is None, "complete field is read", str(exc))
    if kind == "BitBuffer":
        size = env.call(got, "getBitSize")
        ctx.check(ctx.eq(size, count), "bit size")
        if not isinstance(size, int):
            size = len([_ for _ in range(8 * length) if ctx.choose_path(count > _)])
        ctx.check(ctx.eq(bits_value(ctx, env.call(got, "getBuffer"), size), bits_value(ctx, payload, size)), "bits")
    elif kind == "Bytes":
        ctx.check(ctx.eq(count, len(got)), "length")
        ctx.check(ctx.seq_eq(got, payload[:len(got)]), "payload")
    else:
        encoded = list(got.encode("utf-8"))
        ctx.check(ctx.eq(count, len(encoded)), "length")
        ctx.check(ctx.seq_eq(encoded, payload[:len(encoded)]), "payload")
    ctx.check(ctx.eq(env.call(inp, "getBitPosition"), offset + 8 * used + count * unit), "position behind the field")
    ctx.reach("ok")


def jobs(tier):
    out = []
    all8 = list(range(8))
    for length in range(0, 7):
        out.append(Job(f"bytes-{length}", bytes_field, {"length": length, "offsets": all8}, must_reach=["end"]))
    for length in (127, 128, 129):
        out.append(Job(f"bytes-{length}", bytes_field, {"length": length, "offsets": [0, 3]}, must_reach=["end"]))
    for length in range(0, 4 if tier == "quick" else 5):
        out.append(Job(f"string-{length}", string_field,
                       {"length": length, "high": 0x10FFFF, "offsets": all8 if length < 3 else [1, 5]},
                       must_reach=["end"]))
    for length in (126, 127, 128, 129):
        out.append(Job(f"string-ascii-{length}", string_field, {"length": length, "high": 0x7F, "offsets": [0, 3]},
                       must_reach=["end"]))
    for bitsize in list(range(0, 35)) + list(range(120, 137)):
        out.append(Job(f"bitbuffer-{bitsize}", bitbuffer_field,
                       {"bitsize": bitsize, "offsets": all8 if bitsize < 20 else [0, 1, 7]}, must_reach=["end"]))
    for first in range(0, 19):
        for second in {first, first - 1, first + 1, first + 8} - {-1}:
            out.append(Job(f"bitbuffer-eq-{first}-{second}", bitbuffer_equality, {"sizes": (first, second)},
                           must_reach=["end"]))
    for length in range(0, 3):
        out.append(Job(f"bitbuffer-new-{length}", bitbuffer_create, {"length": length}, must_reach=["ok", "rejected"]))
    for kind in ("Bytes", "String", "BitBuffer"):
        for length in range(0, 5 if kind != "BitBuffer" else 4):
            out.append(Job(f"read-any-{kind}-{length}", read_any,
                           {"kind": kind, "length": length, "offsets": all8 if length < 3 else [0, 1, 7]},
                           must_reach=["bad"] if length == 0 else ["short"]))
    return out
