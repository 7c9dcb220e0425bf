"""P55: parameterized types in generated Java code."""

from .gen_java import *
from .models_params import TOP

PROPERTY = "P55"
BOUNDS = ("12 types of schemas/params/params.zs and 11 kinds of parameters in every context (schemas/matrix_params);"
          " every argument and field value; arrays of 0..3 elements; start bit offsets 0 and 3, or 0 and 5 (all 8 in"
          " the thorough tier)")
BINDING = Binding("params/params.zs")


def jobs(tier):
    return roundtrip_jobs(BINDING, TOP, (0, 3) if tier == "quick" else range(8)) + matrix_jobs("matrix_params", tier, (0, 5))
