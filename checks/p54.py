"""P54: arrays in generated Java code."""

from .gen_java import *
from .models_arrays import PLAIN, IMPLICIT, packed

PROPERTY = "P54"
BOUNDS = ("26 structures (27 in the thorough tier) of schemas/arrays/arrays.zs and 49 kinds of elements (schemas/matrix_arrays); 0..3 "
          "elements; every value of the elements, except that the quick tier takes 2..4 values of some fields of "
          "packed compounds; start bit offsets 0 and 3, packed compounds 0")
BINDING = Binding("arrays/arrays.zs", ("-allowImplicitArrays",))


def jobs(tier):
    return (roundtrip_jobs(BINDING, PLAIN, (0, 3) if tier == "quick" else range(8), IMPLICIT) +
            roundtrip_jobs(BINDING, [type_ for type_ in packed(tier) if tier != "quick" or type_.name != "PackedEnums"], (0,) if tier == "quick" else (0, 5)) +
            matrix_jobs("matrix_arrays", tier, (0,)))
