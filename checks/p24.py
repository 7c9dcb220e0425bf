"""P24: arrays in generated Python code."""

from .gen_py import *
from .models_arrays import PLAIN, IMPLICIT, packed

PROPERTY = "P24"
BOUNDS = ("27 structures of schemas/arrays/arrays.zs; 0..3 elements; every value of the elements, except that the quick "
          "tier takes 2..4 values of some fields of packed compounds; start bit offsets 0 and 3, packed compounds 0")
ASSUMPTIONS = SHARED["ASSUMPTIONS"]
BINDING = Binding("arrays/arrays.zs", ("-allowImplicitArrays",))


def jobs(tier):
    return (roundtrip_jobs(BINDING, PLAIN, (0, 3) if tier == "quick" else range(8), IMPLICIT) +
            roundtrip_jobs(BINDING, packed(tier), (0,) if tier == "quick" else (0, 5)) +
            matrix_jobs("matrix_arrays", tier))
