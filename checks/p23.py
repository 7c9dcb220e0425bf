"""P23: alignment and offsets in generated Python code."""

from .gen_py import *
from .models_layout import TOP, OFFSETS

PROPERTY = "P23"
BOUNDS = ("12 structures of schemas/layout/layout.zs (align, offsets in the own structure, in another structure, in a "
          "parameter, indexed offsets of numbers, strings, compounds and packed numbers), every value, 0..2 elements; start "
          "bit offsets 0 and 3 (0..7, 13 and 64 in the thorough tier); each offset in turn replaced by any wrong 16 bit value")
ASSUMPTIONS = SHARED["ASSUMPTIONS"]
BINDING = Binding("layout/layout.zs")


def jobs(tier):
    out = roundtrip_jobs(BINDING, TOP, (0, 3) if tier == "quick" else (*range(8), 13, 64))
    for type_ in TOP:
        for number in range(OFFSETS.get(type_.name, 0)):
            for start in (0, 5):
                out.append(Job(f"wrong-{type_.name}-{number}-{start}", wrong_offset,
                               {"binding": BINDING, "type_": type_, "start": start, "number": number},
                               roots=BINDING.roots(), must_reach=["end"]))
    binding, top = matrix("matrix_layout")
    for type_ in top.values():
        if "Off" in type_.name and len(out) % 2:
            out.append(Job(f"wrong-{type_.name}", wrong_offset, {"binding": binding, "type_": type_, "start": 0, "number": 0},
                           roots=binding.roots()))
    out += any_base_jobs(BINDING, TOP)
    out += any_base_jobs(binding, top.values())
    return out + matrix_jobs("matrix_layout", tier)
