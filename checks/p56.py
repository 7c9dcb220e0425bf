"""P56: constraints in generated Java code."""

from .gen_java import *
from .models_constraints import TOP, CONSTRAINTS

PROPERTY = "P56"
BOUNDS = ("11 types of schemas/constraints/constraints.zs with 18 constraints and 49 kinds of constrained fields "
          "(schemas/matrix_constraints), every value satisfying all and every value violating one of them; arrays "
          "and strings of 0..3 elements; start bit offsets 0 and 3")
BINDING = Binding("constraints/constraints.zs")


def jobs(tier):
    out = roundtrip_jobs(BINDING, TOP, (0, 3) if tier == "quick" else range(8))
    by_name = {type_.name: type_ for type_ in TOP}
    for type_name, constraint in CONSTRAINTS:
        out.append(make_job(BINDING, f"violated-{type_name}-{constraint}", violated,
                            {"type_": by_name[type_name], "name": constraint}))
    binding, top = matrix("matrix_constraints")
    return out + violated_jobs(binding, top.values()) + matrix_jobs("matrix_constraints", tier, (0,))
