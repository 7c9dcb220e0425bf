"""P25: parameterized types in generated Python code."""

from .gen_py import *
from .models_params import TOP

PROPERTY = "P25"
BOUNDS = ("12 types of schemas/params/params.zs; "
          "every argument and field value; arrays of 0..3 elements; start bit offsets 0 and 3 (all 8 in the thorough tier)")
ASSUMPTIONS = SHARED["ASSUMPTIONS"]
BINDING = Binding("params/params.zs")


def jobs(tier):
    return roundtrip_jobs(BINDING, TOP, (0, 3) if tier == "quick" else range(8)) + matrix_jobs("matrix_params", tier, (0, 5))
