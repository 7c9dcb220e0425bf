"""Helpers shared by harnesses over the Python runtime and generated Python code."""

import os
import sys

from sym.engine_py import PyEngine, PY_RUNTIME, REPO, VERIF  # noqa: F401
from sym.job import Job as _Job

ENGINE = PyEngine()


def Job(name, func, params=None, **kwargs):  # pylint: disable=invalid-name
    kwargs.setdefault("engine", ENGINE)
    return _Job(name, func, params, **kwargs)


def bits_value(ctx, data, nbits):
    """Integer formed by the first nbits of a byte sequence (MSB first)."""
    nbytes = (nbits + 7) // 8
    items = list(data)[:nbytes]
    assert len(items) == nbytes
    return ctx.bytes_value(items) >> (8 * nbytes - nbits)


def padding_value(ctx, data, nbits):
    """Value of the unused low bits of the last byte."""
    rest = -nbits % 8
    if rest == 0 or nbits == 0:
        return 0
    return list(data)[(nbits - 1) // 8] & ((1 << rest) - 1)


def unsigned(value, nbits):
    """Two's complement bit pattern of a value."""
    return value & ((1 << nbits) - 1)


def is_runtime_error(exc):
    return type(exc).__name__ == "PythonRuntimeException"


def writer(ctx):
    return ctx.module("zserio.bitwriter").BitStreamWriter()


def reader(ctx, data, bitsize=None):
    cls = ctx.module("zserio.bitreader").BitStreamReader
    return cls(data) if bitsize is None else cls(data, bitsize)
