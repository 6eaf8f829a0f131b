"""What each check explores: model runs, calls derived from the model, seeded calls."""
PLANS = {}
ASSUME = [
    "TLC and the JSON/IO community modules evaluate the specification correctly",
    "the lattice embedding (affine maps to floats) and the projection back are as stated in harness/proj_py.py",
    "behaviour between and beyond the explored grids, sizes and forms follows the explored ones",
]


def plan(pid):
    def deco(f):
        PLANS[pid] = f
        return f
    return deco


import plans_spline  # noqa: E402,F401
import plans_misc  # noqa: E402,F401
import plans_session  # noqa: E402,F401
