import numpy as np

from .. import build
from ..core import deviations

BOUNDS = {
    "quick": "all problems, meshes and options with at most 3 deviations from the default environment",
    "thorough": "all problems, meshes and options with at most 5 deviations from the default environment",
}
ORACLE = "bounds of every unknown computed from the problem data, compared at the solver boundary"


def space(tier):
    d = build.dims("cls", "nph", "nx", "nu", "na", "orders", "scheme", "tau", "scale", "bounds", "links", "guess", "widths")
    return deviations(d, 3 if tier == "quick" else 5, build.sensible)


def check(c, run):
    s = build.Spec(c)
    opt, log, sol = build.capture(s)
    run.transitions += 2
    cap, call = log[-1], log[-1].calls[0]
    lay = s.layout()
    if not run.check(cap.nx == lay.total, "decision vector has %d unknowns, expected %d" % (cap.nx, lay.total)):
        return
    lo, hi = s.scaled_bounds()
    for p in range(s.nph):
        for name, exp, obs in (("lower", lo, call["lbx"]), ("upper", hi, call["ubx"])):
            e = ref_split(s, exp, p)
            o = lay.split(np.broadcast_to(obs, lay.total), p)
            for what, a, b in zip(("state", "control", "start time", "final time", "parameter"), e, o):
                same = np.shape(a) == np.shape(b) and bool(np.all((np.asarray(a) == b) | (np.abs(np.asarray(a) - b) < 1e-12)))
                run.check(same, "%s bound of a %s" % (name, what), phase=p, expected=a, observed=b)
            run.states += lay.per
            if s.adaptive:
                h = o[5]
                ok = (h > 0).all() and (h <= 1.0 / lay.nseg).all() if name == "lower" else (h <= 1.0).all() and (h >= 1.0 / lay.nseg).all()
                run.check(ok, "%s bound of a segment width" % name, phase=p, observed=h)
    run.outcome = "%d unknowns, %d fixed, sum %.5g" % (
        cap.nx,
        int((call["lbx"] == call["ubx"]).sum()),
        np.abs(call["lbx"][np.isfinite(call["lbx"])]).sum(),
    )


def ref_split(s, z, p):
    from .. import ref

    lay = ref.Layout(s.nph, s.layout().N, s.nx, s.nu, s.na, 0)
    return lay.split(z, p)[:5]
