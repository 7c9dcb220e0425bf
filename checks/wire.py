"""
Reference model of the zserio wire format, written from doc/ZserioEncodingGuide.md, usable with concrete ints and with
symbolic integers (all data dependent choices go through ctx.ite / return conditions).
"""

# name: (max bytes, signed)
VARNUMS = {
    "varint16": (2, True), "varint32": (4, True), "varint64": (8, True), "varint": (9, True),
    "varuint16": (2, False), "varuint32": (4, False), "varuint64": (8, False), "varuint": (9, False),
    "varsize": (5, False),
}


def var_capacity(max_bytes, signed, count):
    """Number of magnitude bits held by an encoding of count bytes."""
    first = 6 if signed else 7
    if count < max_bytes:
        return first + 7 * (count - 1)
    return first + 7 * (count - 2) + 8


def var_range(name):
    """(low, high) of the type."""
    max_bytes, signed = VARNUMS[name]
    if name == "varsize":
        return 0, (1 << 31) - 1
    high = (1 << var_capacity(max_bytes, signed, max_bytes)) - 1
    if not signed:
        return 0, high
    return (-(1 << 63) if name == "varint" else -high), high


def var_size(ctx, name, value):
    """Minimal number of bytes of the encoding of an in-range value."""
    max_bytes, signed = VARNUMS[name]
    magnitude = abs(value)
    size = max_bytes
    for count in range(max_bytes - 1, 0, -1):
        size = ctx.ite(magnitude < (1 << var_capacity(max_bytes, signed, count)), count, size)
    if name == "varint":
        size = ctx.ite(ctx.eq(value, -(1 << 63)), 1, size)
    return size


def var_encode(ctx, name, value, count):
    """Integer formed by the count bytes which encode the value (count concrete)."""
    max_bytes, signed = VARNUMS[name]
    magnitude = abs(value)
    full = count == max_bytes
    capacity = var_capacity(max_bytes, signed, count)
    out = 0
    pos = capacity
    for index in range(count):
        last = index == count - 1
        data_bits = 8 - (1 if signed and index == 0 else 0) - (0 if last and full else 1)
        pos -= data_bits
        chunk = (magnitude >> pos) & ((1 << data_bits) - 1)
        byte = chunk
        if not (last and full):
            byte = byte + (0 if last else 1 << data_bits)
        if signed and index == 0:
            byte = byte + ctx.ite(value < 0, 0x80, 0)
        out = (out << 8) + byte
    assert pos == 0
    if name == "varint" and count == 1:
        out = ctx.ite(ctx.eq(value, -(1 << 63)), 0x80, out)
    return out


def var_decode(ctx, name, data):
    """
    Decodes bytes by the wire format. Forks on the continuation flags.

    Returns (value, count, valid); value is None when the data are too short.
    """
    max_bytes, signed = VARNUMS[name]
    magnitude = 0
    negative = False
    for index in range(max_bytes):
        if index >= len(data):
            return None, None, True
        byte = data[index]
        bits = 8
        if signed and index == 0:
            negative = byte >= 0x80
            bits = 7
        if index == max_bytes - 1:
            magnitude = (magnitude << bits) + (byte & ((1 << bits) - 1))
            more = False
        else:
            bits -= 1
            magnitude = (magnitude << bits) + (byte & ((1 << bits) - 1))
            more = ctx.choose_path((byte & (1 << bits)) != 0)
        if not more:
            value = ctx.ite(negative, -magnitude, magnitude)
            if name == "varint" and index == 0:
                value = ctx.ite(ctx.land(negative, magnitude == 0), -(1 << 63), value)
            valid = value <= (1 << 31) - 1 if name == "varsize" else True
            return value, index + 1, valid
    raise AssertionError("unreachable")
