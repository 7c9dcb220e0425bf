"""P52: optional, conditional and extended fields of generated Java code."""

from .gen_java import *
from .models_optionals import TOP

PROPERTY = "P52"
BOUNDS = ("9 types (10 in the thorough tier) of schemas/optionals/optionals.zs; 49 kinds of fields, each optional, conditional, aligned, "
          "extended, in packed arrays (schemas/matrix_optionals); every presence combination and field value; arrays"
          " and strings of 0..2 elements; start bit offsets 0 and 3 (all 8 in the thorough tier)")
BINDING = Binding("optionals/optionals.zs")


def jobs(tier):
    return roundtrip_jobs(BINDING, [type_ for type_ in TOP if tier != "quick" or type_.name != "OptionalArrays"], (0, 3) if tier == "quick" else range(8)) + matrix_jobs("matrix_optionals", tier, (0,))
