import numpy as np

from .. import build, hist
from ..core import deviations

BOUNDS = {
    "quick": "all problems, meshes and settings of the width optimizer with at most 2 deviations from the default environment (3 among phases, parameters, mesh, widths, scaling, bounds, interval and settings), 5 probe vectors each",
    "thorough": "the same with at most 4 deviations",
}
ORACLE = "reference rows for the width sum, mid-point bounds and mid-point residuals; data retrieved at the widths found by the solver"


def space(tier):
    d = build.dims("nph", "nx", "nu", "na", "orders", "scheme", "tau", "scale", "bounds", "widths", "method", "links", cls=["mpopt_adaptive"], sw=build.Spec.WIDTH_SETTINGS)
    if tier == "quick":
        few = {n: (v if n in ("orders", "widths", "nph", "scale", "bounds", "sw", "na", "tau") else v[:1]) for n, v in d.items()}
        yield from deviations(d, 2, build.sensible)
        yield from deviations(few, 3, build.sensible)
    else:
        yield from deviations(d, 4, build.sensible)


def check(c, run):
    s = build.Spec(c)
    cap = build.compare_transcription(s, run, groups=["adaptive"])
    if cap is None:
        return
    call, lay = cap.calls[0], s.layout()
    for p in range(s.nph):
        lo, hi, _ = s.width_settings(p)
        h0, h1, g = (lay.split(np.broadcast_to(call[b], lay.total), p)[5] for b in ("lbx", "ubx", "x0"))
        if c["sw"] in ("bounds", "all"):
            run.check(np.allclose(h0, lo) and np.allclose(h1, hi), "bounds of the segment widths", phase=p, expected=(lo, hi), observed=(h0, h1))
        else:
            run.check((h0 > 0).all() and (h0 < 1.0 / lay.nseg).all() and (h1 <= 1.0).all() and (h1 >= 1.0 / lay.nseg).all(), "bounds of the segment widths", phase=p, observed=(h0, h1))
        run.check(np.allclose(g, 1.0 / lay.nseg), "initial guess of the segment widths", phase=p, observed=g)
    opt, sol, z, w = build.solved(s, 1)
    post = opt.process_results(sol, plot=False, residual_dx=False)
    run.transitions += 2
    for p in range(s.nph):
        X, U, t, a, _, _ = build.phase_data(s, z, w, p)
        got = post.get_data([p])
        for what, e, o in zip(("states", "controls", "times", "parameters"), (X, U, t, a), got):
            run.check(np.allclose(hist.flat(o), np.asarray(e).ravel(), rtol=1e-9, atol=1e-9), "retrieved %s after the widths were optimized" % what, phase=p, expected=e, observed=o)
