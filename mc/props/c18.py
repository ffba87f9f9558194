import numpy as np

from .. import build, resid
from ..core import deviations

BOUNDS = {
    "quick": "all problems, low-degree meshes, scalings, grids and residual types with at most 2 deviations from the default environment; 3 among optimizer, phases, mesh, widths, scaling, grid and phase list",
    "thorough": "the same with at most 4 deviations and degrees up to 4",
}
ORACLE = "Gauss-Legendre integration of the user's dynamics along the reference interpolant from the segment start"
ASSUMPTIONS = ["the number of points per segment is large enough for the residual quadrature to be exact (> 2 x degree)"]


def space(tier):
    d = build.dims("cls", "nph", "nx", "nu", "na", "scheme", "tau", "widths", "scale",
                   calls=["own", "shared", "rest", "plain"], orders=[[2, 3], [2], [1, 2], [2, 1, 1]] + ([[3, 2], [1], [3, 3]] if tier == "thorough" else []),
                   grid=["uniform", "spectral", "fixed", "outer", "default", "mixed"], rtype=[None, "relative"], phases=["all", "last", "via results"],
                   scale=["all", "none", "x", "u", "a", "t", "lists"], nu=[2, 1], method=["numerical", "symbolic"])

    def keep(c):
        return build.sensible(c) and not (c["phases"] == "via results" and (c["rtype"] or c["grid"] not in ("spectral", "fixed", "default", "mixed")))

    if tier == "quick":
        few = {n: (v if n in ("orders", "widths", "grid", "phases", "nph", "scale", "cls") else v[:1]) for n, v in d.items()}
        yield from deviations(d, 2, keep)
        yield from deviations(few, 3, keep)
    else:
        yield from deviations(d, 4, keep)


def check(c, run):
    s = build.Spec(c)
    opt, sol, z, w = build.solved(s, 0)
    mesh = s.mesh()
    names = [c["grid"]] * s.nph
    kw = {}
    if c["grid"] == "default":
        names = [opt.grid_type[p] for p in range(s.nph)]
    elif c["grid"] == "mixed":  # a grid per phase
        names = [["spectral", "mid-points", "fixed"][p % 3] for p in range(s.nph)]
    npts = 10 * mesh.nseg if names[0] == "fixed" else 8
    opt._MAX_GRID_POINTS = npts
    r0 = mesh.tau1 - mesh.tau0
    if c["grid"] == "outer":  # points of the user's own, with both ends of the segment
        mine = [[mesh.tau0 + r0 * np.linspace(0, 1, 9)] * mesh.nseg] * s.nph
    elif c["grid"] == "uniform":
        mine = [build.tau_patterns(s, "uniform", mesh, p) for p in range(s.nph)]
    else:
        mine = None
        for p in range(s.nph):
            opt.grid_type[p] = names[p]
    if mine is not None:
        kw["nodes"] = mine
    if c["rtype"]:
        kw["residual_type"] = c["rtype"]
    which = list(range(s.nph))
    run.transitions += 2
    if c["phases"] == "via results":
        post = opt.process_results(sol, plot=False, residual_x=True, residual_dx=False)
        if not run.check(post.residuals is not None and "t_x" in post.residuals, "requested state residuals are in the results"):
            return
        ti, r = post.residuals["t_x"]
        xi = ui = None
    else:
        if c["phases"] == "last":
            which = [s.nph - 1]
            kw["phases"] = which
        xi, ui, ti, r = opt.get_states_residuals(sol, **kw)
    tot = 0.0
    for p in which:
        taus = mine[p] if mine is not None else resid.points(s, mesh, w, p, names[p], npts)
        if any(len(t) < max(3, 2 * d + 1) or len(t) > 14 for t, d in zip(taus, mesh.orders)):
            run.outcome = "values not compared: residual quadrature is not exact on this grid"
            lay = s.layout()
            t0, tf = lay.split(z, p)[2:4]
            te, k = mesh.times_at(t0 / s.scale_t, tf / s.scale_t, w[p], taus), 0
            for i, seg in enumerate(taus):
                run.check(resid.same(ti[p][i], te[k : k + len(seg)], 1e-9), "times of the residuals", phase=p, segment=i, expected=te[k : k + len(seg)], observed=ti[p][i])
                k += len(seg)
            continue
        exp = resid.states(s, z, w, p, taus)
        top = np.max([np.abs(e[2]).max(axis=0) for e in exp], axis=0)
        top[top == 0] = 1  # nothing to be relative to
        # points of the fixed grid lie unevenly in a segment: quadrature error grows
        tol = 1e-5 if c["method"] == "numerical" and names[p] != "fixed" else 2e-3
        for i, (te, re, xe, ue) in enumerate(exp):
            run.states += len(te)
            if c["rtype"]:
                re = re / top
            run.check(resid.same(ti[p][i], te, 1e-9), "times of the residuals", phase=p, segment=i, expected=te, observed=ti[p][i])
            run.check(resid.same(r[p][i], re, tol), "state residuals", phase=p, segment=i, expected=re, observed=r[p][i])
            if xi is not None:
                run.check(resid.same(xi[p][i], xe, tol), "integrated states", phase=p, segment=i, expected=xe, observed=xi[p][i])
                run.check(resid.same(ui[p][i], ue, 1e-6), "controls at the residual points", phase=p, segment=i, expected=ue, observed=ui[p][i])
            tot += np.abs(re).sum()
    run.outcome = run.outcome or "%.6g" % tot
