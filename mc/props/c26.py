import numpy as np

from .. import build, resid
from ..core import deviations

BOUNDS = {
    "quick": "all problems, meshes, scalings and grids with at most 3 deviations from the default environment",
    "thorough": "the same with at most 4 deviations",
}
ORACLE = "second derivative of the reference interpolant in the normalised coordinate at independently computed points"


def space(tier):
    d = build.dims("cls", "nph", "nx", "nu", "orders", "scheme", "method", "tau", "widths",
                   grid=["spectral", "fixed", "mid-points", "default", "uniform", "uneven", "gaps", "unsorted"], scale=["all", "none", "x", "u", "t"], nu=[2, 1])
    return deviations(d, 3 if tier == "quick" else 4, lambda c: build.sensible(c) and not (c["grid"] == "gaps" and len(c["orders"]) == 1))


def check(c, run):
    s = build.Spec(c)
    opt, sol, z, w = build.solved(s, 0)
    mesh, lay = s.mesh(), s.layout()
    opt._MAX_GRID_POINTS = 4
    name = "spectral" if c["grid"] == "default" else c["grid"]
    kw = {}
    if c["grid"] in ("uniform", "uneven", "gaps", "unsorted"):
        kw["nodes"] = [build.tau_patterns(s, c["grid"], mesh, p) for p in range(s.nph)]
    elif c["grid"] != "default":
        kw["grid_type"] = c["grid"]
    ti, dx, du = opt.get_state_second_derivative(sol, **kw)
    run.transitions += 2
    tot = 0.0
    for p in range(s.nph):
        taus = resid.points(s, mesh, w, p, name, 4)
        if "grid_type" in kw:  # the same phase on its own
            one = opt.get_state_second_derivative_single_phase(sol, p, grid_type=kw["grid_type"])
        elif "nodes" in kw:
            one = opt.get_state_second_derivative_single_phase(sol, p, nodes=kw["nodes"][p])
        else:
            one = opt.get_state_second_derivative_single_phase(sol, p, nodes=opt.get_residual_grid_taus(p, "spectral"))
        run.transitions += 1
        for what, all_, own in zip(("times", "second derivatives of the states", "second derivatives of the controls"), (ti, dx, du), one):
            run.check(len(own) == len(all_[p]) and all((x is None and y is None) or resid.same(x, y, 1e-9) for x, y in zip(own, all_[p])), "%s of a single phase" % what, phase=p)
        Xs, Us, t0, tf, a, _ = lay.split(z, p)
        ex, eu = mesh.deriv(Xs, taus, 2), mesh.deriv(Us, taus, 2)
        te = mesh.times_at(t0 / s.scale_t, tf / s.scale_t, w[p], taus)
        k = 0
        for i in range(mesh.nseg):
            n = len(taus[i])
            run.states += n
            for what, obs, e in (("times", ti, te), ("second derivatives of the states", dx, ex), ("second derivatives of the controls", du, eu)):
                run.check(resid.same(obs[p][i], e[k : k + n], 1e-7), what, phase=p, segment=i, expected=e[k : k + n], observed=obs[p][i])
            k += n
        tot += np.abs(ex).sum()
    run.outcome = "%.6g" % tot
