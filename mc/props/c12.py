import numpy as np

from .. import build
from ..core import deviations

BOUNDS = {
    "quick": "all problems, meshes and options with at most 3 deviations from the default environment",
    "thorough": "all problems, meshes and options with at most 5 deviations from the default environment",
}
ORACLE = "straight lines between the user's start and end guesses, node by node, in solver units"


def space(tier):
    d = build.dims("cls", "nph", "nx", "nu", "na", "orders", "scheme", "tau", "scale", "guess", "bounds", "widths", "links",
                   guess=["generic", "ints", "partial", "default", "sametime", "backwards"])
    return deviations(d, 3 if tier == "quick" else 5, build.sensible)


def check(c, run):
    s = build.Spec(c)
    opt, log, sol = build.capture(s)
    run.transitions += 2
    cap, call = log[-1], log[-1].calls[0]
    lay = s.layout()
    f = np.linspace(0, 1, lay.N)[:, None]
    parts = []
    for p in range(s.nph):
        X = s.scale_x * (s.x00[p] + f * (s.xf0[p] - s.x00[p]))
        U = s.scale_u * (s.u00[p] + f * (s.uf0[p] - s.u00[p]))
        h = np.full(lay.nseg, 1.0 / max(lay.nseg, 1))
        parts.append((X, U, s.scale_t * s.t00[p, 0], s.scale_t * s.tf0[p, 0], s.scale_a * s.a0[p], h))
    run.states += lay.total
    if not run.check(call["x0"].size == lay.total, "initial guess has the size of the decision vector"):
        return
    run.check(np.isfinite(call["x0"]).all(), "initial guess is finite")
    for p in range(s.nph):
        for what, a, b in zip(("states", "controls", "start time", "final time", "parameters", "widths"), parts[p], lay.split(call["x0"], p)):
            run.check(np.allclose(np.asarray(a, float).reshape(np.shape(b)), b, rtol=1e-14, atol=1e-12), "initial guess of the %s" % what, phase=p, expected=a, observed=b)
    # cold starts never depend on what was solved before
    z = build.probes(s, 2)[1]
    for p in range(s.nph):
        if lay.nseg:
            z[(p + 1) * lay.per - lay.nseg : (p + 1) * lay.per] = s.widths("rev")[p]
    kw = {"max_iter": 1} if c["cls"] == "mpopt_h_adaptive" else {}
    with build.seam.solver_stub(lambda *a: {"x": z}, log):
        opt.solve(initial_solution={"x": z.copy()}, **({} if kw or s.adaptive else {"mpopt_options": {"nlp_sw_params": list(np.concatenate(s.widths("rev")))}}), **kw)
        for again in ("again", "with a new solver", "after a reset"):
            if again == "after a reset":
                opt.reset_mpopt()
            opt.solve(**({"reinitialize_nlp": True} if "new" in again else {}), **kw)
            run.transitions += 1
            x0 = log[-1].calls[-1]["x0"]
            run.check(x0.shape == call["x0"].shape and np.array_equal(x0, call["x0"]), "initial guess of a solve " + again, expected=call["x0"], observed=x0)
    run.outcome = "%d %.6g" % (lay.total, call["x0"].sum())
