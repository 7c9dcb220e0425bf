"""P21: choices and unions of generated Python code."""

from .gen_py import *
from .models_choices import TOP

PROPERTY = "P21"
BOUNDS = ("14 choice, union and holder types of schemas/choices/choices.zs; "
          "every selector and field value; 0..2 array elements; strings of 0..2 ASCII characters; start bit offsets 0 and 3 (all 8 in the thorough tier)")
ASSUMPTIONS = SHARED["ASSUMPTIONS"]
BINDING = Binding("choices/choices.zs")


def jobs(tier):
    return roundtrip_jobs(BINDING, TOP, (0, 3) if tier == "quick" else range(8)) + matrix_jobs("matrix_choices", tier, (0, 5))
