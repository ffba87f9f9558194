from .. import build
from ..core import deviations

BOUNDS = {
    "quick": "all problems, meshes and options with at most 3 deviations from the default environment, 5 probe vectors each",
    "thorough": "all problems, meshes and options with at most 4 deviations from the default environment, 5 probe vectors each",
}
ORACLE = "reference transcription written in numpy, compared row by row (up to scaling and order) at the solver boundary"


def space(tier):
    d = build.dims("cls", "calls", "nph", "nx", "nu", "na", "orders", "scheme", "method", "tau", "widths", "scale", "cost", "mayer")
    return deviations(d, 3 if tier == "quick" else 4, build.sensible)


def check(c, run):
    build.compare_transcription(build.Spec(c), run, objective=True)
