import itertools

from .. import build
from ..core import deviations

BOUNDS = {
    "quick": "all problems, meshes and options with at most 3 deviations from the default environment, and every list of at most nph - 1 links among 2 and 3 phases, 5 probe vectors each",
    "thorough": "all problems, meshes and options with at most 4 deviations from the default environment, and every list of at most nph - 1 links among 2 to 4 phases, 5 probe vectors each",
}
ORACLE = "reference transcription written in numpy, compared row by row (up to scaling and order) at the solver boundary"


def space(tier):
    d = build.dims("cls", "nph", "nx", "nu", "na", "orders", "scheme", "tau", "scale", "links", "jump", nph=[3, 2, 1])
    yield from deviations(d, 3 if tier == "quick" else 4, build.sensible)
    # every list of at most as many links as there are jump limits
    for nph in (2, 3) if tier == "quick" else (2, 3, 4):
        pairs = list(itertools.permutations(range(nph), 2))
        for n in range(nph):
            for links in itertools.product(pairs, repeat=n):
                for cls in build.DIMS["cls"]:
                    for jump in ("fixed", "range"):
                        yield build.default(nph=nph, cls=cls, links=[list(v) for v in links], jump=jump, orders=[2])


def check(c, run):
    build.compare_transcription(build.Spec(c), run, groups=["link"])
