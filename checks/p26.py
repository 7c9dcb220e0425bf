"""P26: constraints in generated Python code."""

from .gen_py import *
from .models_constraints import TOP, CONSTRAINTS

PROPERTY = "P26"
BOUNDS = ("11 types of schemas/constraints/constraints.zs with 18 constraints (conditional, optional, in choices, unions, "
          "arrays, packed arrays, on parameters), every value satisfying all and every value violating one of them; arrays "
          "and strings of 0..3 elements; start bit offsets 0 and 3")
ASSUMPTIONS = SHARED["ASSUMPTIONS"]
BINDING = Binding("constraints/constraints.zs")


def jobs(tier):
    out = roundtrip_jobs(BINDING, TOP, (0, 3) if tier == "quick" else range(8))
    by_name = {type_.name: type_ for type_ in TOP}
    for type_name, constraint in CONSTRAINTS:
        out.append(Job(f"violated-{type_name}-{constraint}", violated,
                       {"binding": BINDING, "type_": by_name[type_name], "name": constraint}, roots=BINDING.roots(),
                       must_reach=["end"]))
    binding, top = matrix("matrix_constraints")
    return out + violated_jobs(binding, top) + matrix_jobs("matrix_constraints", tier)
