"""P51: choices and unions of generated Java code."""

from .gen_java import *
from .models_choices import TOP

PROPERTY = "P51"
BOUNDS = ("14 choice, union and holder types of schemas/choices/choices.zs and 49 kinds of fields in choices, unions"
          " and their arrays (schemas/matrix_choices); every selector and field value; 0..2 array elements; start "
          "bit offsets 0 and 3, or 0 and 5 (all 8 in the thorough tier)")
BINDING = Binding("choices/choices.zs")


def jobs(tier):
    return roundtrip_jobs(BINDING, TOP, (0, 3) if tier == "quick" else range(8)) + matrix_jobs("matrix_choices", tier, (0, 5))
