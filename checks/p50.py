"""P50: structures of generated Java code."""

from .gen_java import *
from .models_structs import TOP

PROPERTY = "P50"
BOUNDS = ("13 structure types of schemas/structs/structs.zs covering every built-in type and 49 kinds of fields in "
          "structures (schemas/matrix_structs), every value; dynamic bit fields of widths 1, 2, 7..9, 31..33, 63, "
          "64; strings of 0..2 code points up to U+07FF, bytes of 0..3, bit buffers of 0, 3, 8, 13 bits; start bit "
          "offsets 0 and 3, or 0 and 5 (all 8 in the thorough tier); truncation by one bit")
BINDING = Binding("structs/structs.zs")


def jobs(tier):
    out = roundtrip_jobs(BINDING, TOP, (0, 3) if tier == "quick" else range(8))
    return out + matrix_jobs("matrix_structs", tier, (0, 5))
