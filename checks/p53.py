"""P53: alignment and offsets in generated Java code."""

from .gen_java import *
from .models_layout import TOP, OFFSETS

PROPERTY = "P53"
BOUNDS = ("12 structures of schemas/layout/layout.zs and 49 kinds of fields aligned to 8..128 bits or announced by "
          "offsets of 12 to 64 bits (schemas/matrix_layout), every value (big integers which are no offset: two "
          "values), 0..2 elements; start bit offsets 0 and 3; base positions up to what the narrowest offset holds "
          "(below 2^31 bytes); each offset in turn replaced by any wrong 16 bit value")
BINDING = Binding("layout/layout.zs")


def jobs(tier):
    out = roundtrip_jobs(BINDING, TOP, (0, 3) if tier == "quick" else (*range(8), 13, 64))
    out += wrong_jobs(BINDING, TOP, OFFSETS, (5,) if tier == "quick" else (0, 5))
    binding, top = matrix("matrix_layout")
    for type_ in top.values():
        if "Off" in type_.name and len(out) % 2:
            out.append(make_job(binding, f"wrong-{type_.name}", wrong_offset, {"type_": type_, "start": 0, "number": 0}, ()))
    out += any_base_jobs(BINDING, TOP)
    out += any_base_jobs(binding, [type_ for type_ in top.values()
                                   if tier != "quick" or not type_.name.endswith(("Arr", "Pack", "Nest"))])
    return out + matrix_jobs("matrix_layout", tier, (0,))
