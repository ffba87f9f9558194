import numpy as np

from .. import build, resid
from ..core import deviations

BOUNDS = {
    "quick": "all problems, meshes, scalings, grids and residual types with at most 3 deviations from the default environment",
    "thorough": "the same with at most 4 deviations",
}
ORACLE = "derivative of the reference interpolant minus the user's dynamics at independently computed points"


def space(tier):
    small = {} if tier == "thorough" else dict(orders=[[2, 3], [3], [1], [3, 1, 2]], nu=[2, 1, 0])
    d = build.dims("cls", "nph", "nx", "nu", "na", "orders", "scheme", "tau", "widths", "scale",
                   grid=["fixed", "mid-points", "spectral", "uneven", "gaps", "unsorted", "mixed", "default"], rtype=[None, "relative"],
                   scale=["all", "none", "x", "u", "a", "t", "lists", "tiny"], method=["numerical", "symbolic"], calls=["own", "shared", "vanish", "rest", "plain"], **small)
    return deviations(d, 3 if tier == "quick" else 4, lambda c: build.sensible(c) and not (c["grid"] == "gaps" and len(c["orders"]) == 1))


def check(c, run):
    s = build.Spec(c)
    opt, sol, z, w = build.solved(s, 0)
    mesh = s.mesh()
    opt._MAX_GRID_POINTS = 4
    names = [c["grid"]] * s.nph
    kw = {}
    if c["grid"] in ("uneven", "gaps", "unsorted"):
        kw["nodes"] = [build.tau_patterns(s, c["grid"], mesh, p) for p in range(s.nph)]
    elif c["grid"] == "mixed":  # a different grid in every phase, chosen on the optimizer
        menu = ["spectral", "fixed", "mid-points"]
        names = [menu[p % 3] for p in range(s.nph)]
        for p in range(s.nph):
            opt.grid_type[p] = names[p]
    elif c["grid"] == "default":
        names = [opt.grid_type[p] for p in range(s.nph)]
    else:
        kw["grid_type"] = c["grid"]
    if c["rtype"]:
        kw["residual_type"] = c["rtype"]
    ti, r = opt.get_dynamics_residuals(sol, **kw)
    run.transitions += 2
    tol = 1e-7
    tot = 0.0
    run.check(len(ti) == s.nph and len(r) == s.nph, "one entry per phase")
    for p in range(s.nph):
        taus = resid.points(s, mesh, w, p, names[p], 4)
        exp = resid.dynamics(s, z, w, p, taus)
        top = np.max([np.abs(F).max(axis=0) for _, _, F in exp if len(F)], axis=0)
        top[top == 0] = 1  # nothing to be relative to
        if not run.check(len(ti[p]) == mesh.nseg and len(r[p]) == mesh.nseg, "one entry per segment", phase=p):
            continue
        for i, (te, re, Fe) in enumerate(exp):
            run.states += len(te)
            if c["rtype"]:
                re = re / top
            run.check(resid.same(ti[p][i], te, 1e-9), "times of the residuals", phase=p, segment=i, expected=te, observed=ti[p][i])
            run.check(resid.same(r[p][i], re, tol), "dynamics residuals", phase=p, segment=i, expected=re, observed=r[p][i])
            tot += np.abs(re).sum()
    run.outcome = "%.6g" % tot
