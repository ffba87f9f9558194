import numpy as np

from .. import coll, ref, seam

BOUNDS = {
    "quick": "all schemes (and an unknown name) x degrees 1..30 x four reference intervals",
    "thorough": "all schemes (and an unknown name) x degrees 1..60 x six reference intervals",
}
ORACLE = "roots of the defining Legendre/Chebyshev polynomials by companion matrix and Newton polishing"
INTERVALS = [(-1, 1), (0, 1), (-1, 2), (0.25, 0.75), (-3, -1), (2, 10)]


def space(tier):
    for deg in range(1, 31 if tier == "quick" else 61):
        for scheme in coll.SCHEMES:
            for iv in INTERVALS[: 4 if tier == "quick" else 6]:
                yield dict(scheme=scheme, deg=deg, interval=iv)


def check(c, run):
    mp = seam.mp
    a, b = c["interval"]
    mp.CollocationRoots._TAU_MIN, mp.CollocationRoots._TAU_MAX = a, b
    d, scheme = c["deg"], c["scheme"]
    exp = ref.nodes(scheme, d, a, b)
    mp.Collocation.D_MATRIX_METHOD = "numerical"
    col = mp.Collocation([d, 1, min(d + 1, 30)], scheme)
    lazy = mp.Collocation([], scheme)
    lazy.get_interpolation_matrix([a], d)
    got = {
        "node function": mp.CollocationRoots(scheme)._taus_fn(d),
        "own nodes of the mesh": col.roots[d],
        "nodes of a degree used later": lazy.roots[d],
    }
    run.states += 1
    for how, x in got.items():
        run.transitions += 1
        x = np.asarray(x, float)
        if not run.check(x.shape == (d + 1,), "%s: %d nodes for degree %d" % (how, x.size, d)):
            continue
        run.check((np.diff(x) > 0).all(), "%s: not increasing" % how, nodes=x)
        run.check(x[0] == a or abs(x[0] - a) < 1e-13, "%s: first node is not the start of the segment" % how, nodes=x)
        run.check(abs(x[-1] - b) < 1e-13, "%s: last node is not the end of the segment" % how, nodes=x)
        run.check(np.abs(x - exp).max() < 1e-10 * (b - a), "%s: differ from the definition of the scheme" % how, expected=exp, observed=x)
    run.check(col.tau0 == a and col.tau1 == b, "reference interval of the mesh")
    run.outcome = "%s" % np.round(np.asarray(got["node function"], float)[: d // 2 + 1].sum(), 9)
